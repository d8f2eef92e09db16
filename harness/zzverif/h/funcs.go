package h

// Funcs are the harnesses by name, for the replay program.
var Funcs = map[string]func(){
	"Smoke": Smoke, "SmokeJSON": SmokeJSON,
	"Columns": Columns, "Tables": Tables,
	"FaithTables": FaithTables, "Tokens": Tokens, "LexFree": LexFree, "Sequence": Sequence, "History": History, "DecodeSelf": DecodeSelf, "Encode": Encode, "Decode": Decode, "TypeChars": TypeChars, "TypeCase": TypeCase, "TypeNear": TypeNear, "AnnChars": AnnChars, "AnnPool": AnnPool, "AnnRepeat": AnnRepeat, "AnnRefused": AnnRefused, "AnnSource": AnnSource, "LexWide": LexWide, "LexWindow": LexWindow, "LexSource": LexSource, "Garbage": Garbage, "Lists": Lists, "GarbageRun": GarbageRun, "FaithOrder": FaithOrder,
	"FaithAttrs": FaithAttrs, "FaithKeys": FaithKeys,
	"FaithHeads": FaithHeads, "FaithBodies": FaithBodies, "FaithExts": FaithExts, "FaithExpr": FaithExpr,
	"SelfMaps": SelfMaps, "SelfBranches": SelfBranches, "SQLPool": SQLPool, "Calls": Calls, "Receivers": Receivers, "Heads": Heads, "Constraints": Constraints, "FKActions": FKActions,
}

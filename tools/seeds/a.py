V, K = "schema/validator.go", "kfparser/visitor.go"
SEEDS = []

def seed(id, prop, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

seed("c01-parent-list-length", "C01", [(V, '''	for _, col := range fk.ParentKeys {
		if c''', '''	for i, col := range fk.ParentKeys {
		if i >= len(fk.ChildKeys) {
			break
		}
		if c''')], "a foreign key with more parent columns than child columns",
     "the surplus parent columns are not looked up, so an undeclared one is accepted",
     '''func main() {
	accept("database d; table p { a int, b int } table t { a int, fk (a) references p(a, b) }")
	reject("database d; table p { a int, b int } table t { a int, fk (a) references p(a, zz) }", schema.ErrColumnNotFound)
}
''')
seed("c01-same-parent-once", "C01", [(V, '''	for _, t := range s.Tables {
		for _, fk := range t.ForeignKeys {''', '''	for _, t := range s.Tables {
		resolved := map[string]bool{}
		for _, fk := range t.ForeignKeys {'''), (V, '''			// check foreign keys column in parent table
			if err''', '''			if len(fk.Actions) == 0 && resolved[fk.ParentTable] {
				continue
			}
			resolved[fk.ParentTable] = true

			// check foreign keys column in parent table
			if err''')], "two foreign keys of one table to the same parent, the second one wrong",
     "parent columns of the second foreign key to a parent are not checked",
     '''func main() {
	reject("database d; table p { a int } table t { a int, fk (a) references p(a), fk (a) references p(nope) }", schema.ErrColumnNotFound)
}
''')
seed("c01-index-other-table", "C01", [(V, '''	for _, col := range i.Columns {
		if c.tableCtx[c.currentDecl][col] != "column" {
''', '''	for n, col := range i.Columns {
		known := c.tableCtx[c.currentDecl][col] == "column"
		for _, tbl := range c.tableCtx {
			// composite keys may name a column of a related table
			known = known || n > 0 && tbl[col] == "column"
		}
		if !known {
''')], "a composite index whose later column belongs to an earlier table only", "a column of another table counts as declared",
     '''func main() {
	accept("database d; table p { a int, b int } table t { x int, y int, #i index(x, y) }")
	reject("database d; table p { a int, b int } table t { x int, y int, #i index(x, b) }", schema.ErrColumnNotFound)
}
''')
seed("c02-table-adjacent", "C02", [(V, '''	for _, t := range s.Tables {
		if _, ok := c.tableCtx[t.Name]; ok {''', '''	for i, t := range s.Tables {
		if i > 0 && s.Tables[i-1].Name == t.Name {''')], "two tables of the same name with another one between them", "only neighbouring tables are compared",
     '''func main() {
	reject("database d; table t { a int } table t { a int }", schema.ErrDuplicateTable)
	reject("database d; table t { a int } table u { a int } table t { a int }", schema.ErrDuplicateTable)
}
''')
seed("c02-param-fold", "C02", [(V, '''		if _, ok := c.actionCtx[c.currentDecl][input]; ok {''', '''		if _, ok := c.actionCtx[c.currentDecl][strings.ToLower(input)]; ok {''')],
     "two parameters that differ only in letter case, the lower-case one first", "names that differ in case are taken for duplicates",
     '''func main() {
	accept("database d; action q($a, $B) public { select 1; }")
	accept("database d; action q($a, $A) public { select 1; }")
}
''')
seed("c02-index-scope", "C02", [(V, '''			if _, ok := c.tableCtx[c.currentDecl][idx.Name]; ok {
				return''', '''			if kind, ok := c.tableCtx[c.currentDecl][idx.Name]; ok && (kind == "index" || idx.Type == IdxPrimary) {
				return'''), (V, '''			c.tableCtx[c.currentDecl][idx.Name] = "index"
''', '''			if c.tableCtx[c.currentDecl][idx.Name] == "" {
				c.tableCtx[c.currentDecl][idx.Name] = "index"
			}
''')], "a non-primary index with the name of a column", "an index may have the name of a column, and two indexes of that name too",
     '''func main() {
	reject("database d; table t { a int, b int, #b index(a) }", schema.ErrDuplicateIndex)
}
''')
seed("c03-forward-action", "C03", [(V, '''				if _, ok := c.actionCtx[s.Method]; !ok {
					return fmt''', '''				if ctx, ok := c.actionCtx[s.Method]; !ok || len(ctx) > 0 && len(s.Args) > 0 && len(ctx) < len(s.Args) {
					return fmt''')], "a call with more arguments than the callee has parameters, both positive",
     "a schema that breaks no documented rule is rejected",
     '''func main() {
	accept("database d; action q($a) public { select 1; } action r() public { q(1); }")
	accept("database d; action q($a) public { select 1; } action r() public { q(1, 2); }")
}
''')
seed("c03-triple-modifier", "C03", [(K, '''	case len(mutabilities) >= 2:''', '''	case len(mutabilities) == 2:''')], "three mutability modifiers on one action", "the rule is not enforced for three",
     '''func main() {
	reject("database d; action q() view view { select 1; }", schema.ErrActionMutabilityAlreadySet)
	reject("database d; action q() view public view view { select 1; }", schema.ErrActionMutabilityAlreadySet)
}
''')
seed("c04-attr-adjacent", "C04", [(V, '''	seenAttr := map[AttributeType]bool{}

	for _, attr := range col.Attributes {
		if _, ok := seenAttr[attr.Type]; ok {''', '''	var last AttributeType

	for _, attr := range col.Attributes {
		if attr.Type == last {'''), (V, '''		seenAttr[attr.Type] = true
''', '''		last = attr.Type
''')], "the same constraint twice with another one between", "only neighbouring constraints are compared",
     '''func main() {
	reject("database d; table t { a int notnull notnull }", schema.ErrDuplicateAttribute)
	reject("database d; table t { a int notnull primary notnull }", schema.ErrDuplicateAttribute)
}
''')
seed("c04-fk-third", "C04", [(V, '''	for _, action := range fk.Actions {
		if _, ok := seenAction[action.On]; ok {''', '''	for i, action := range fk.Actions {
		if _, ok := seenAction[action.On]; ok && (i < 2 || action.Do != fk.Actions[i-2].Do) {''')],
     "three foreign key actions, the third repeating event and reaction of the first", "a repeated event is accepted",
     '''func main() {
	reject("database d; table t { a int, fk (a) references t(a) on_update cascade on_update cascade }", schema.ErrDupFKAction)
	reject("database d; table t { a int, fk (a) references t(a) on_update cascade on_delete cascade on_update cascade }", schema.ErrDupFKAction)
}
''')
seed("c04-text-max-after-len", "C04", [(V, '''	for _, attr := range col.Attributes {
		if _, ok''', '''	sized := false
	for _, attr := range col.Attributes {
		if _, ok'''), (V, '''		if col.Type == ColText && (attr.Type''', '''		sized = sized || attr.Type == AttrMaxLength
		if col.Type == ColText && !sized && (attr.Type''')], "a text column with maxlen before min or max", "a minimum or maximum value on a text column is accepted",
     '''func main() {
	reject("database d; table t { a text max(3) }", schema.ErrAttributeNotAllow)
	reject("database d; table t { a text max(3) maxlen(4) }", schema.ErrAttributeNotAllow)
	reject("database d; table t { a text maxlen(4) max(3) }", schema.ErrAttributeNotAllow)
}
''')
seed("c05-leak-receivers", "C05", [(V, '''	for _, a := range actions {
		// track local defined variables
		localCtx := map[string]bool{}

''', '''	localCtx := map[string]bool{}
	for _, a := range actions {
''')], "two actions, the second uses a variable that only the first one receives", "variables leak from one action into the next",
     '''func main() {
	accept("database d; use e as f; action a() public { $x = f.m(1); f.n($x); }")
	reject("database d; use e as f; action a() public { $x = f.m(1); } action b() public { f.n($x); }", schema.ErrVariableNotFound)
}
''')
seed("c05-receive-then-use", "C05", [(V, '''				for _, input := range s.Args {
					if err := checkArgRef(input, c.actionCtx[a.Name], localCtx); err != nil {
						return err
					}
				}

				currentLineCtx := map[string]bool{}
''', '''				currentLineCtx := map[string]bool{}
'''), (V, '''					localCtx[receiver] = true
				}
''', '''					localCtx[receiver] = true
				}

				for _, input := range s.Args {
					if err := checkArgRef(input, c.actionCtx[a.Name], localCtx); err != nil {
						return err
					}
				}
''')], "an extension call that uses its own receiver as argument", "a variable counts as received before the call",
     '''func main() {
	reject("database d; use e as f; action a() public { $x = f.m($x); }", schema.ErrVariableNotFound)
}
''')
seed("c05-nested-unary", "C05", [(V, '''		return checkArgRef(t.Operand, ctx, localCtx)''', '''		if _, nested := t.Operand.(*tree.ExpressionArithmetic); nested {
			return nil
		}
		return checkArgRef(t.Operand, ctx, localCtx)''')], "an unknown variable inside an arithmetic expression under a unary operator", "operands of that shape are not checked",
     '''func main() {
	reject("database d; use e as f; action a($a) public { f.m(-$b); }", schema.ErrVariableNotFound)
	reject("database d; use e as f; action a($a) public { f.m(not ($a * $b)); f.m(-($a + $b)); }", schema.ErrVariableNotFound)
}
''')
seed("c06-skip-init", "C06", [(V, '''				astTree, err := sqlparser''', '''				if a.Name == InitActionName && len(a.Statements) > 1 {
					continue
				}
				astTree, err := sqlparser''')], "an init block of several statements with an invalid SQL statement", "SQL of the init block is not checked",
     '''func main() {
	reject("database d; init() { select from; }", nil)
	reject("database d; init() { select 1; select from; }", nil)
}
''')
seed("c06-keyword-case", "C06", [(V, '''			case *actparser.DMLStmt:
''', '''			case *actparser.DMLStmt:
				if !isSqlStatement(statement[:1] + strings.TrimLeft(statement[1:], "ABCDEFGHIJKLMNOPQRSTUVWXYZ")) {
					continue
				}
''')], "an SQL statement whose keyword is written in capitals", "such statements are not checked",
     '''func main() {
	reject("database d; action a() public { select from; }", nil)
	reject("database d; action a() public { SELECT from; }", nil)
}
''')
seed("c06-repeat-cache", "C06", [(V, '''				astTree, err := sqlparser''', '''				if i := strings.IndexAny(statement, " \\t\\n"); n > 0 && i > 0 && strings.HasPrefix(a.Statements[n-1], statement[:i]) && len(a.Statements) > 2 {
					continue // same kind as the statement before
				}
				astTree, err := sqlparser'''), (V, '''		for _, statement := range a.Statements {''', '''		for n, statement := range a.Statements {''')],
     "three or more statements, an invalid one behind one of the same kind", "the second of two statements of one kind is not checked",
     '''func main() {
	reject("database d; action a() public { select 1; delete from; select 2; }", nil)
	reject("database d; action a() public { select 1; select from; select 2; }", nil)
}
''')
seed("c07-attr-order", "C07", [(K, '''			attr := v.Visit(colConstraint).(*schema.Attribute)
			c.Attributes[i] = *attr
''', '''			attr := v.Visit(colConstraint).(*schema.Attribute)
			c.Attributes[i] = *attr
			if i > 3 && attr.Type == schema.AttrPrimaryKey {
				// primary key first
				c.Attributes[0], c.Attributes[i] = c.Attributes[i], c.Attributes[0]
			}
''')], "a column with primary as the fifth constraint or later", "constraints are not in source order",
     '''func main() {
	s := accept("database d; table t { a int notnull unique min(1) max(3) primary }")
	check(s.Tables[0].Columns[0].Attributes[4].Type == schema.AttrPrimaryKey, "order of constraints")
}
''')
seed("c07-default-escape", "C07", [(K, '''		attr.Value = ctx.Literal_value().GetText()
''', '''		attr.Value = strings.ReplaceAll(ctx.Literal_value().GetText(), "\\\\'", "''")
''')], "a default value with an escaped quote", "the literal is rewritten",
     '''func main() {
	s := accept("database d; table t { a text default('it\\\\'s') }")
	check(s.Tables[0].Columns[0].Attributes[0].Value == "'it\\\\'s'", "default value %v", s.Tables[0].Columns[0].Attributes[0].Value)
}
''')
seed("c07-shared-buffer", "C07", [(K, '''		for i, tableDecl := range ctx.AllTable_decl() {
			table := v.Visit(tableDecl).(*schema.Table)
			s.Tables[i] = *table
		}''', '''		for i, tableDecl := range ctx.AllTable_decl() {
			table := v.Visit(tableDecl).(*schema.Table)
			s.Tables[i] = *table
			if i > 0 && s.Tables[i-1].Name == table.Name+"s" {
				// a plural name goes behind the singular
				s.Tables[i-1], s.Tables[i] = s.Tables[i], s.Tables[i-1]
			}
		}''')], "two tables in a row where the first is named like the second plus an s", "tables are not in source order",
     '''func main() {
	s := accept("database d; table users { a int } table user { b int }")
	check(s.Tables[0].Name == "users", "order of tables")
}
''')
seed("c08-parent-list", "C08", [(K, '''	fk.ParentKeys = v.Visit(ctx.Column_name_list(1)).([]string)
''', '''	fk.ParentKeys = v.Visit(ctx.Column_name_list(1)).([]string)
	if len(fk.ParentKeys) > 2 {
		fk.ParentKeys[2] = fk.ParentKeys[len(fk.ParentKeys)-1]
	}
''')], "a foreign key over four columns", "the third parent column is replaced by the last",
     '''func main() {
	s := accept("database d; table t { a int, b int, fk (a) references t(a) }")
	s = accept("database d; table t { a int, b int, c int, d int, fk (a, b, c, d) references t(a, b, c, d) }")
	check(s.Tables[0].ForeignKeys[0].ParentKeys[2] == "c", "parent columns %v", s.Tables[0].ForeignKeys[0].ParentKeys)
}
''')
seed("c08-do-keyword", "C08", [(K, '''			action := v.Visit(fkAction).(*schema.ForeignKeyAction)
			fk.Actions[i] = *action
''', '''			action := v.Visit(fkAction).(*schema.ForeignKeyAction)
			if i > 0 && action.Do == schema.DO_SET_DEFAULT && fk.Actions[i-1].Do == schema.DO_SET_NULL {
				action.Do = schema.DO_SET_NULL
			}
			fk.Actions[i] = *action
''')], "a set_default reaction after a set_null reaction", "the second reaction is changed",
     '''func main() {
	s := accept("database d; table t { a int, fk (a) references t(a) on_update set_null on_delete set_default }")
	check(s.Tables[0].ForeignKeys[0].Actions[1].Do == "SET DEFAULT", "reaction %s", s.Tables[0].ForeignKeys[0].Actions[1].Do)
}
''')
seed("c08-index-dedupe", "C08", [(K, '''	for i, columnName := range ctx.AllColumn_name() {
		columns[i] = columnName.GetText()
	}
''', '''	for i, columnName := range ctx.AllColumn_name() {
		columns[i] = columnName.GetText()
		if i > 1 && columns[i] == columns[0] {
			columns = columns[:i]
			break
		}
	}
''')], "a column list whose third or later column repeats the first one", "the list is cut off",
     '''func main() {
	s := accept("database d; table t { a int, b int, #i index(a, b, a) }")
	check(len(s.Tables[0].Indexes[0].Columns) == 3, "columns %v", s.Tables[0].Indexes[0].Columns)
}
''')
seed("c09-annotation-blanks", "C09", [(K, '''	annotation := ctx.GetText()[1:] // remove the '@' sign
''', '''	annotation := strings.Join(strings.Fields(ctx.GetText()[1:]), " ") // remove the '@' sign
''')], "an annotation string value with two blanks in a row", "blanks inside the value are dropped",
     '''func main() {
	s := accept("database d; @x(a = 'b  c') action q() public { select 1; }")
	check(s.Actions[0].Annotations[0] == "x(a='b  c')", "annotation %s", s.Actions[0].Annotations[0])
}
''')
seed("c09-init-position", "C09", [(K, '''			s.Actions[cap-1] = v.Visit(ctx.Init_decl(0)).(schema.Action)
''', '''			s.Actions[cap-1] = v.Visit(ctx.Init_decl(0)).(schema.Action)
			if actionCount > 2 && ctx.Init_decl(0).GetStart().GetTokenIndex() < ctx.Action_decl(0).GetStart().GetTokenIndex() {
				s.Actions[0], s.Actions[cap-1] = s.Actions[cap-1], s.Actions[0]
			}
''')], "an init block in front of three or more actions", "init is not the last action",
     '''func main() {
	s := accept("database d; init() { select 1; } action a() public { select 1; } action b() public { select 1; } action c() public { select 1; }")
	check(s.Actions[3].Name == "init", "last action %s", s.Actions[3].Name)
}
''')
seed("c09-owner-view-order", "C09", [(K, '''		if mutabilities[0].GetText() == schema.MutabilityView.String() {''', '''		if mutabilities[0].GetText() == schema.MutabilityView.String() &&
			(len(ctx.AllAction_auxiliary()) == 0 || ctx.GetChild(0) != ctx.Action_auxiliary(0)) {''')], "the modifiers owner and view in this order", "view is lost",
     '''func main() {
	s := accept("database d; action q() view owner { select 1; }")
	check(s.Actions[0].Mutability == "view", "view owner")
	s = accept("database d; action q() owner view { select 1; }")
	check(s.Actions[0].Mutability == "view", "owner view gives %s", s.Actions[0].Mutability)
}
''')
seed("c10-token-merge", "C10", [(K, '''		if node, ok''', '''		if node, ok''')] if False else [(K, '''	stmts := make([]string, stmtCount)

	for i, actionStmt := range ctx.AllAction_stmt() {
		stmt := v.Visit(actionStmt).(string)
		stmts[i] = stmt
	}
''', '''	stmts := make([]string, 0, stmtCount)

	for i, actionStmt := range ctx.AllAction_stmt() {
		stmt := v.Visit(actionStmt).(string)
		if i > 1 && stmt == stmts[0] && actionStmt.Call_stmt() != nil {
			continue
		}
		stmts = append(stmts, stmt)
	}
''')], "a call that repeats the first statement two or more statements later", "the repeated statement is dropped",
     '''func main() {
	s := accept("database d; action r() public { select 1; } action q() public { r(); r(); }")
	check(len(s.Actions[1].Statements) == 2, "statements %v", s.Actions[1].Statements)
	s = accept("database d; action r() public { select 1; } action q() public { r(); select 1; r(); }")
	check(len(s.Actions[1].Statements) == 3, "statements %v", s.Actions[1].Statements)
}
''')
seed("c11-config-last", "C11", [(K, '''	for i, config := range ctx.AllExt_config() {
		cfg''', '''	seen := map[string]int{}
	for i, config := range ctx.AllExt_config() {
		if at, ok := seen[config.Ext_config_name().GetText()]; ok && config.Ext_config_value().GetText() == configs[at].Value {
			return configs[:i]
		}
		seen[config.Ext_config_name().GetText()] = i
		cfg''')], "a configuration that repeats a key with the same value, with or without entries behind it", "entries are lost",
     '''func main() {
	s := accept("database d; use e { a: 1, b: 2, a: 1 } as f;")
	check(len(s.Extensions[0].Config) == 3, "entries %v", s.Extensions[0].Config)
}
''')
seed("c11-value-trim", "C11", [(K, '''			Value:    config.Ext_config_value().GetText(),''', '''			Value:    strings.TrimLeft(config.Ext_config_value().GetText(), "0"),''')], "a number with leading zeros, or zero", "the literal is changed",
     '''func main() {
	s := accept("database d; use e { a: 10 } as f;")
	check(s.Extensions[0].Config[0].Value == "10", "value")
	s = accept("database d; use e { a: 007 } as f;")
	check(s.Extensions[0].Config[0].Value == "007", "value %s", s.Extensions[0].Config[0].Value)
}
''')

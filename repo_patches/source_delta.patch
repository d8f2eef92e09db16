From f918bcaa8eee8afb142f10900e59089332975c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 1/8] fix: index and foreign key columns must refer to columns,
 not index names

---
 schema/validator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/schema/validator.go b/schema/validator.go
index 5df56c8..e84f913 100644
--- a/schema/validator.go
+++ b/schema/validator.go
@@ -88,7 +88,7 @@ func (c *ContextValidator) VisitSchema(s *Schema) error {
 		for _, fk := range t.ForeignKeys {
 			// check foreign keys column in current table
 			for _, col := range fk.ChildKeys {
-				if _, ok := c.tableCtx[t.Name][col]; !ok {
+				if c.tableCtx[t.Name][col] != "column" {
 					return fmt.Errorf("%w: fk(%s/%s)", ErrColumnNotFound, t.Name, col)
 				}
 			}
@@ -169,7 +169,7 @@ func (c *ContextValidator) VisitAttribute(a *Attribute) error {
 
 func (c *ContextValidator) VisitIndex(i *Index) error {
 	for _, col := range i.Columns {
-		if _, ok := c.tableCtx[c.currentDecl][col]; !ok {
+		if c.tableCtx[c.currentDecl][col] != "column" {
 			return fmt.Errorf("%w: index(%s/%s)", ErrColumnNotFound, c.currentDecl, col)
 		}
 	}
@@ -182,7 +182,7 @@ func (c *ContextValidator) VisitForeignKey(fk *ForeignKey) error {
 	}
 
 	for _, col := range fk.ParentKeys {
-		if _, ok := c.tableCtx[fk.ParentTable][col]; !ok {
+		if c.tableCtx[fk.ParentTable][col] != "column" {
 			return fmt.Errorf("%w: ref(%s->%s)", ErrColumnNotFound, fk.ParentTable, col)
 		}
 	}
-- 
2.43.0


From a0e8480521b59d7d333957d99a5718db03728377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:28 +0000
Subject: [PATCH 2/8] fix: keep adjacent words of a call statement apart

---
 kfparser/visitor.go | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/kfparser/visitor.go b/kfparser/visitor.go
index 673b38d..2d012fe 100644
--- a/kfparser/visitor.go
+++ b/kfparser/visitor.go
@@ -440,8 +440,43 @@ func (v *KFVisitor) VisitAction_stmt_list(ctx *kfgrammar.Action_stmt_listContext
 
 // VisitAction_stmt is called when parsing action statement, return string
 func (v *KFVisitor) VisitAction_stmt(ctx *kfgrammar.Action_stmtContext) interface{} {
-	stmt := strings.TrimSpace(ctx.GetText())
-	return stmt
+	// the tokens of a call statement are not separated by whitespaces, but a
+	// word must not be merged with the word that follows it, e.g. `$a and 1`
+	var stmt strings.Builder
+	prev := ""
+	for _, text := range terminalTexts(ctx, nil) {
+		if needSpace(prev, text) {
+			stmt.WriteByte(' ')
+		}
+		stmt.WriteString(text)
+		prev = text
+	}
+	return strings.TrimSpace(stmt.String())
+}
+
+// terminalTexts appends the text of all terminal nodes of the tree to texts, in order.
+func terminalTexts(tree antlr.Tree, texts []string) []string {
+	if node, ok := tree.(antlr.TerminalNode); ok {
+		return append(texts, node.GetText())
+	}
+	for _, child := range tree.GetChildren() {
+		texts = terminalTexts(child, texts)
+	}
+	return texts
+}
+
+// needSpace returns true if the text of two adjacent tokens would be read as
+// one token without a whitespace in between. This is only the case if the left
+// one is a word(identifier, variable or keyword) and the right one continues it.
+func needSpace(left, right string) bool {
+	if left == "" || right == "" {
+		return false
+	}
+	isDigit := func(b byte) bool { return '0' <= b && b <= '9' }
+	isWord := func(b byte) bool {
+		return b == '_' || isDigit(b) || ('a' <= b && b <= 'z') || ('A' <= b && b <= 'Z')
+	}
+	return !isDigit(left[0]) && isWord(left[len(left)-1]) && isWord(right[0])
 }
 
 // VisitInit_decl is called when parsing init declaration, return schema.Action
-- 
2.43.0


From 71e52dca025bf5d09aab4113a4e0b9cb3c9cfcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 3/8] fix: check variables nested in call argument expressions

---
 schema/validator.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/schema/validator.go b/schema/validator.go
index e84f913..d59dce7 100644
--- a/schema/validator.go
+++ b/schema/validator.go
@@ -229,6 +229,24 @@ func checkArgRef(arg tree.Expression, ctx declCtx, localCtx map[string]bool) err
 				return fmt.Errorf("%w: %s", ErrVariableNotFound, arg)
 			}
 		}
+	case *tree.ExpressionUnary:
+		return checkArgRef(t.Operand, ctx, localCtx)
+	case *tree.ExpressionArithmetic:
+		if err := checkArgRef(t.Left, ctx, localCtx); err != nil {
+			return err
+		}
+		return checkArgRef(t.Right, ctx, localCtx)
+	case *tree.ExpressionBinaryComparison:
+		if err := checkArgRef(t.Left, ctx, localCtx); err != nil {
+			return err
+		}
+		return checkArgRef(t.Right, ctx, localCtx)
+	case *tree.ExpressionFunction:
+		for _, input := range t.Inputs {
+			if err := checkArgRef(input, ctx, localCtx); err != nil {
+				return err
+			}
+		}
 	}
 
 	return nil
-- 
2.43.0


From fb0a5139a1f3d3ce24409fb4003c3a26d7669f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 4/8] fix: do not report a syntax error list as an additional
 error of itself

---
 kfparser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kfparser/parser.go b/kfparser/parser.go
index 8b845a0..207e4f5 100644
--- a/kfparser/parser.go
+++ b/kfparser/parser.go
@@ -63,7 +63,8 @@ func ParseKF(input string, errorListener *utils.ErrorListener, mode Mode) (resul
 
 	parseTree := p.Source_unit()
 	if errorListener.Err() != nil {
-		return result, errorListener.Err()
+		// already collected by the listener, the deferred function will return it
+		return result, nil
 	}
 
 	result, ok := visitor.Visit(parseTree).(ast.Ast)
-- 
2.43.0


From ca1e11fd2beec21efaf1d481d56652e8883af1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 5/8] fix: parse annotation string values with escaped quotes

---
 utils/annotation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/annotation.go b/utils/annotation.go
index 20dbf31..3492eaf 100644
--- a/utils/annotation.go
+++ b/utils/annotation.go
@@ -7,7 +7,7 @@ import (
 )
 
 const (
-	regexAnnotation = `([a-zA-Z0-9_]+)\s*=\s*(\d+|\'.*?\')`
+	regexAnnotation = `(?s)([a-zA-Z0-9_]+)\s*=\s*(\d+|'(?:[^'\\\r\n]|\\.)*')`
 )
 
 var (
-- 
2.43.0


From f9fbabd232de42ec8d38b388840cd0fd0ceacb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 6/8] fix: truncate an existing output file

---
 cmd/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/root.go b/cmd/root.go
index adc7c9d..40f150c 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -102,7 +102,7 @@ func init() {
 }
 
 func writeToFile(data []byte, filePath string) (err error) {
-	f, err := os.OpenFile(filePath, os.O_CREATE|os.O_WRONLY, 0644)
+	f, err := os.OpenFile(filePath, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From b064d3929bff2baa59b6f2486b63c61f87589280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 7/8] fix: report errors of writing the output file

---
 cmd/root.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/cmd/root.go b/cmd/root.go
index 40f150c..87da271 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -1,7 +1,6 @@
 package cmd
 
 import (
-	"log"
 	"os"
 	"path/filepath"
 
@@ -108,9 +107,8 @@ func writeToFile(data []byte, filePath string) (err error) {
 	}
 
 	defer func() {
-		err = f.Close()
-		if err != nil {
-			log.Fatal(err)
+		if closeErr := f.Close(); err == nil {
+			err = closeErr
 		}
 	}()
 
-- 
2.43.0


From b0ed7cccbb70c949d4ec17e403abe7901f0f3184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:39 +0000
Subject: [PATCH 8/8] fix: make the trace flag effective

---
 cmd/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/root.go b/cmd/root.go
index 87da271..a89c599 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -95,7 +95,7 @@ func Execute() {
 }
 
 func init() {
-	rootCmd.Flags().BoolP("trace", "t", false, "toggle trace output")
+	rootCmd.Flags().BoolVarP(&trace, "trace", "t", false, "toggle trace output")
 	rootCmd.Flags().BoolVarP(&showVersion, "version", "v", false, "Show version and exit")
 	rootCmd.Flags().StringVarP(&outputDir, "output", "o", outputDir, "Output directory")
 }
-- 
2.43.0


From 649de965abd0639b72685b5ab9d7e6f74397e186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 1/8] fix: only accept declared columns as index and foreign
 key columns

An index name was accepted wherever a column name is required, because both
are kept in the same table context.
---
 schema/validator.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/schema/validator.go b/schema/validator.go
index 5df56c8..dcdf5a3 100644
--- a/schema/validator.go
+++ b/schema/validator.go
@@ -35,6 +35,12 @@ type Validator interface {
 
 type declCtx map[string]string
 
+// hasColumn returns true if name is declared as a column. Other members of a
+// table, e.g. indexes, are kept in the same context but are not columns.
+func (d declCtx) hasColumn(name string) bool {
+	return d[name] == "column"
+}
+
 type ContextValidator struct {
 	tableCtx    map[string]declCtx
 	actionCtx   map[string]declCtx
@@ -88,7 +94,7 @@ func (c *ContextValidator) VisitSchema(s *Schema) error {
 		for _, fk := range t.ForeignKeys {
 			// check foreign keys column in current table
 			for _, col := range fk.ChildKeys {
-				if _, ok := c.tableCtx[t.Name][col]; !ok {
+				if !c.tableCtx[t.Name].hasColumn(col) {
 					return fmt.Errorf("%w: fk(%s/%s)", ErrColumnNotFound, t.Name, col)
 				}
 			}
@@ -169,7 +175,7 @@ func (c *ContextValidator) VisitAttribute(a *Attribute) error {
 
 func (c *ContextValidator) VisitIndex(i *Index) error {
 	for _, col := range i.Columns {
-		if _, ok := c.tableCtx[c.currentDecl][col]; !ok {
+		if !c.tableCtx[c.currentDecl].hasColumn(col) {
 			return fmt.Errorf("%w: index(%s/%s)", ErrColumnNotFound, c.currentDecl, col)
 		}
 	}
@@ -182,7 +188,7 @@ func (c *ContextValidator) VisitForeignKey(fk *ForeignKey) error {
 	}
 
 	for _, col := range fk.ParentKeys {
-		if _, ok := c.tableCtx[fk.ParentTable][col]; !ok {
+		if !c.tableCtx[fk.ParentTable].hasColumn(col) {
 			return fmt.Errorf("%w: ref(%s->%s)", ErrColumnNotFound, fk.ParentTable, col)
 		}
 	}
-- 
2.43.0


From e6e101bd0951720e8b08225c8e14adb0cd861f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 2/8] fix: truncate the output file before writing

A shorter result left the tail of an earlier, longer output file in place.
---
 cmd/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/root.go b/cmd/root.go
index adc7c9d..40f150c 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -102,7 +102,7 @@ func init() {
 }
 
 func writeToFile(data []byte, filePath string) (err error) {
-	f, err := os.OpenFile(filePath, os.O_CREATE|os.O_WRONLY, 0644)
+	f, err := os.OpenFile(filePath, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 8729a7f5435d2a84237bdb6135db15d2184ab1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 3/8] fix: report a failed write or close of the output file

The deferred close replaced a write error with its own result, so a failed
write was reported as success; a close error ended the process with the wrong
status.
---
 cmd/root.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/cmd/root.go b/cmd/root.go
index 40f150c..7658dfd 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -1,7 +1,6 @@
 package cmd
 
 import (
-	"log"
 	"os"
 	"path/filepath"
 
@@ -108,9 +107,8 @@ func writeToFile(data []byte, filePath string) (err error) {
 	}
 
 	defer func() {
-		err = f.Close()
-		if err != nil {
-			log.Fatal(err)
+		if cerr := f.Close(); err == nil {
+			err = cerr
 		}
 	}()
 
-- 
2.43.0


From 0974812c8d0395f65ffca9309fbf713570966cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 4/8] fix: make the trace flag take effect

The flag was not bound to the variable that selects the parser mode.
---
 cmd/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/root.go b/cmd/root.go
index 7658dfd..15bdefa 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -95,7 +95,7 @@ func Execute() {
 }
 
 func init() {
-	rootCmd.Flags().BoolP("trace", "t", false, "toggle trace output")
+	rootCmd.Flags().BoolVarP(&trace, "trace", "t", false, "toggle trace output")
 	rootCmd.Flags().BoolVarP(&showVersion, "version", "v", false, "Show version and exit")
 	rootCmd.Flags().StringVarP(&outputDir, "output", "o", outputDir, "Output directory")
 }
-- 
2.43.0


From f7635265764a4281f83c63863f2d86c3e7c92613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 5/8] fix: check variables nested inside call arguments

An undefined variable was only reported when it was the whole argument, not
when it was part of an expression or a function call.
---
 schema/validator.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/schema/validator.go b/schema/validator.go
index dcdf5a3..31f6c6e 100644
--- a/schema/validator.go
+++ b/schema/validator.go
@@ -214,7 +214,8 @@ func isSqlStatement(stmt string) bool {
 		strings.HasPrefix(stmt, "with")
 }
 
-// checkArgRef check if the argument(bind parameter) is a valid reference
+// checkArgRef check if all the variables(bind parameters) used in the argument,
+// at any depth, are valid references
 func checkArgRef(arg tree.Expression, ctx declCtx, localCtx map[string]bool) error {
 	switch t := arg.(type) {
 	case *tree.ExpressionBindParameter:
@@ -235,6 +236,24 @@ func checkArgRef(arg tree.Expression, ctx declCtx, localCtx map[string]bool) err
 				return fmt.Errorf("%w: %s", ErrVariableNotFound, arg)
 			}
 		}
+	case *tree.ExpressionUnary:
+		return checkArgRef(t.Operand, ctx, localCtx)
+	case *tree.ExpressionArithmetic:
+		if err := checkArgRef(t.Left, ctx, localCtx); err != nil {
+			return err
+		}
+		return checkArgRef(t.Right, ctx, localCtx)
+	case *tree.ExpressionBinaryComparison:
+		if err := checkArgRef(t.Left, ctx, localCtx); err != nil {
+			return err
+		}
+		return checkArgRef(t.Right, ctx, localCtx)
+	case *tree.ExpressionFunction:
+		for _, input := range t.Inputs {
+			if err := checkArgRef(input, ctx, localCtx); err != nil {
+				return err
+			}
+		}
 	}
 
 	return nil
-- 
2.43.0


From 09c85c1f6ef3e930fd3ef82c61b337dd4e84523d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 6/8] fix: decode annotation values with escaped characters

A value such as 'it\'s' was cut at the escaped quote, and its remainder could
even show up as another attribute.
---
 utils/annotation.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils/annotation.go b/utils/annotation.go
index 20dbf31..bc036ff 100644
--- a/utils/annotation.go
+++ b/utils/annotation.go
@@ -7,7 +7,9 @@ import (
 )
 
 const (
-	regexAnnotation = `([a-zA-Z0-9_]+)\s*=\s*(\d+|\'.*?\')`
+	// a string value may contain escaped characters, see SINGLE_QUOTE_STRING in
+	// the grammar
+	regexAnnotation = `([a-zA-Z0-9_]+)\s*=\s*(\d+|\'(?:[^\'\\]|\\(?s:.))*\')`
 )
 
 var (
-- 
2.43.0


From 905f84ceb2f57c64ce122e028d7b16e85b5c5028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 7/8] fix: keep neighbouring words of a call statement apart

The white space between words was dropped from the text of call statements, so
that `$a and 1` became the undefined variable `$aand1`, and `1 + $a or 2` was
silently accepted as `1+$aor2`.
---
 kfparser/visitor.go | 41 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/kfparser/visitor.go b/kfparser/visitor.go
index 673b38d..134ae95 100644
--- a/kfparser/visitor.go
+++ b/kfparser/visitor.go
@@ -440,10 +440,49 @@ func (v *KFVisitor) VisitAction_stmt_list(ctx *kfgrammar.Action_stmt_listContext
 
 // VisitAction_stmt is called when parsing action statement, return string
 func (v *KFVisitor) VisitAction_stmt(ctx *kfgrammar.Action_stmtContext) interface{} {
-	stmt := strings.TrimSpace(ctx.GetText())
+	stmt := strings.TrimSpace(stmtText(ctx))
 	return stmt
 }
 
+// stmtText returns the text of the statement without white space, except for a
+// single space where two neighbouring tokens would otherwise be read as one,
+// e.g. `$a and 1`.
+func stmtText(ctx *kfgrammar.Action_stmtContext) string {
+	var text strings.Builder
+	tokens := ctx.GetParser().GetTokenStream()
+	prev := ""
+	for i := ctx.GetStart().GetTokenIndex(); i <= ctx.GetStop().GetTokenIndex(); i++ {
+		token := tokens.Get(i)
+		if token.GetChannel() != antlr.TokenDefaultChannel {
+			continue
+		}
+		if needSpace(prev, token.GetText()) {
+			text.WriteByte(' ')
+		}
+		prev = token.GetText()
+		text.WriteString(prev)
+	}
+	return text.String()
+}
+
+// needSpace returns true if left is a word(name, variable or keyword) that
+// right would extend if they were written without a space in between.
+func needSpace(left, right string) bool {
+	if left == "" || right == "" {
+		return false
+	}
+	l, r := left[0], right[0]
+	return (isLetter(l) || l == '$' || l == '@') && (isLetter(r) || isDigit(r) || r == '_')
+}
+
+func isLetter(c byte) bool {
+	return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z'
+}
+
+func isDigit(c byte) bool {
+	return '0' <= c && c <= '9'
+}
+
 // VisitInit_decl is called when parsing init declaration, return schema.Action
 func (v *KFVisitor) VisitInit_decl(ctx *kfgrammar.Init_declContext) interface{} {
 	a := schema.Action{}
-- 
2.43.0


From cbf3c0c867d6a9ac17b0f279af424551a4fc3d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:43 +0000
Subject: [PATCH 8/8] fix: let an index be named like a column of its table

Index names are written with a leading # and have their own scope, but were
kept together with the columns, so a valid table was rejected.
---
 schema/validator.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/schema/validator.go b/schema/validator.go
index 31f6c6e..df27490 100644
--- a/schema/validator.go
+++ b/schema/validator.go
@@ -35,8 +35,7 @@ type Validator interface {
 
 type declCtx map[string]string
 
-// hasColumn returns true if name is declared as a column. Other members of a
-// table, e.g. indexes, are kept in the same context but are not columns.
+// hasColumn returns true if name is declared as a column.
 func (d declCtx) hasColumn(name string) bool {
 	return d[name] == "column"
 }
@@ -135,11 +134,13 @@ func (c *ContextValidator) VisitTable(t *Table) error {
 	}
 
 	if len(t.Indexes) != 0 {
+		// index names have their own scope, an index may be named like a column
+		seenIndex := map[string]bool{}
 		for _, idx := range t.Indexes {
-			if _, ok := c.tableCtx[c.currentDecl][idx.Name]; ok {
+			if _, ok := seenIndex[idx.Name]; ok {
 				return fmt.Errorf("%w: %s", ErrDuplicateIndex, idx.Name)
 			}
-			c.tableCtx[c.currentDecl][idx.Name] = "index"
+			seenIndex[idx.Name] = true
 			if err := idx.Accept(c); err != nil {
 				return err
 			}
-- 
2.43.0


From d2ca94f5d5d301d349326cb12cb9b7902fff10a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:19 +0000
Subject: [PATCH 01/18] fix: walkers honour a stop request at any time without
 panic or leak

The walker closed the caller's stop channel when it finished, so a stop
request sent after (or while) the walk completed panicked with 'send on
closed channel'.  It also looked at the stop channel only before blocking on
the delivery of the next vertex, so a caller that asked for a stop and then
stopped reading left the goroutine blocked forever.
---
 pkg/dag/dag.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pkg/dag/dag.go b/pkg/dag/dag.go
index 7e29c32..4812b7b 100644
--- a/pkg/dag/dag.go
+++ b/pkg/dag/dag.go
@@ -437,7 +437,6 @@ func (g *AcyclicGraph[K, T]) AncestorsWalker(id K) (chan K, chan bool, error) {
 	go func() {
 		g.walkAncestors(id, ids, signal)
 		close(ids)
-		close(signal)
 	}()
 
 	return ids, signal, nil
@@ -469,11 +468,17 @@ func (g *AcyclicGraph[K, T]) walkAncestors(id K, ids chan K, signal chan bool) {
 			}
 		}
 
+		// A stop request always takes precedence over the next vertex.
 		select {
 		case <-signal:
 			return
 		default:
-			ids <- top
+		}
+
+		select {
+		case <-signal:
+			return
+		case ids <- top:
 		}
 	}
 }
@@ -496,7 +501,6 @@ func (g *AcyclicGraph[K, T]) DescendantsWalker(id K) (chan K, chan bool, error)
 	go func() {
 		g.walkDescendants(id, ids, signal)
 		close(ids)
-		close(signal)
 	}()
 
 	return ids, signal, nil
@@ -528,11 +532,17 @@ func (g *AcyclicGraph[K, T]) walkDescendants(id K, ids chan K, signal chan bool)
 			}
 		}
 
+		// A stop request always takes precedence over the next vertex.
 		select {
 		case <-signal:
 			return
 		default:
-			ids <- top
+		}
+
+		select {
+		case <-signal:
+			return
+		case ids <- top:
 		}
 	}
 }
-- 
2.43.0


From c212bba65b6dbbb2ea53febefdfaf03f08d2098a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:21 +0000
Subject: [PATCH 02/18] fix: FuncDecl.Clone deep-copies the declared type

---
 pkg/etx/func.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/etx/func.go b/pkg/etx/func.go
index 3f2bce4..c80d461 100644
--- a/pkg/etx/func.go
+++ b/pkg/etx/func.go
@@ -195,7 +195,7 @@ func (n *FuncDecl) Clone() *FuncDecl {
 		ASTNode:  n.ASTNode.Clone(),
 		DeclType: n.DeclType,
 		Label:    n.Label,
-		Type:     n.Type,
+		Type:     n.Type.Clone(),
 		Value:    n.Value.Clone(),
 	}
 }
-- 
2.43.0


From c1e4beeaf38f6d348e005c2926abc2dd382d154e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:23 +0000
Subject: [PATCH 03/18] fix: Value.Clone keeps the deep copy of a heredoc

The deep clone was overwritten by a shallow copy sharing its fragments.
---
 pkg/etx/value.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/pkg/etx/value.go b/pkg/etx/value.go
index 0e39ef0..d7eae7d 100644
--- a/pkg/etx/value.go
+++ b/pkg/etx/value.go
@@ -34,7 +34,7 @@ func (v *Value) Clone() *Value {
 		return nil
 	}
 
-	out := Value{
+	return &Value{
 		ASTNode: v.ASTNode.Clone(),
 		Null:    v.Null,
 		Bool:    v.Bool.Clone(),
@@ -44,13 +44,6 @@ func (v *Value) Clone() *Value {
 		List:    v.List.Clone(),
 		Map:     v.Map.Clone(),
 	}
-
-	if v.Heredoc != nil {
-		s := *v.Heredoc
-		out.Heredoc = &s
-	}
-
-	return &out
 }
 
 func (v *Value) Children() (children []Node) {
-- 
2.43.0


From 17be64591d23308a3fd026147a5233ad0c3f80bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:24 +0000
Subject: [PATCH 04/18] fix: ExprPostfix.Children includes the chained postfix
 expression

---
 pkg/etx/expr.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/etx/expr.go b/pkg/etx/expr.go
index ed89063..f852e86 100644
--- a/pkg/etx/expr.go
+++ b/pkg/etx/expr.go
@@ -774,6 +774,10 @@ func (e *ExprPostfix) Children() (children []Node) {
 		children = append(children, e.Index)
 	}
 
+	if e.Post != nil {
+		children = append(children, e.Post)
+	}
+
 	return
 }
 
-- 
2.43.0


From d4e14174b2073ba190f96c2abccd03af3035081d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:59 +0000
Subject: [PATCH 05/18] fix: formatting a parsed escape sequence no longer
 doubles its backslash

---
 pkg/etx/value.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/etx/value.go b/pkg/etx/value.go
index d7eae7d..f1fe421 100644
--- a/pkg/etx/value.go
+++ b/pkg/etx/value.go
@@ -410,6 +410,11 @@ func (f *StringFragment) Children() (children []Node) {
 func (f StringFragment) FormattedString() string {
 	switch {
 	case f.Escaped != "":
+		// Parsed escape sequences already carry their leading backslash.
+		if len(f.Escaped) > 1 && strings.HasPrefix(f.Escaped, "\\") {
+			return f.Escaped
+		}
+
 		return fmt.Sprintf("\\%s", f.Escaped)
 	case f.Unicode != "":
 		return fmt.Sprintf("\\u%s", f.Unicode)
-- 
2.43.0


From f62d3f66b03b82b4931cc8ab93e5bdd0cd641fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:13 +0000
Subject: [PATCH 06/18] fix: formatting a parenthesised expression keeps its
 parentheses

Dropping them changed the meaning: (a + b) * c was printed as a + b * c.
---
 pkg/etx/expr.go | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/pkg/etx/expr.go b/pkg/etx/expr.go
index f852e86..24b8f52 100644
--- a/pkg/etx/expr.go
+++ b/pkg/etx/expr.go
@@ -53,6 +53,32 @@ func (e Expr) FormattedString() string {
 	}
 }
 
+// isLiteral returns whether the expression is a single literal value,
+// i.e. an expression that means the same with or without parentheses.
+func (e *Expr) isLiteral() bool {
+	if e.Left == nil || e.Left.ConditionOp {
+		return false
+	}
+
+	or := &e.Left.Condition
+	and := &or.Left
+	bitOr := &and.Left
+	bitXor := &bitOr.Left
+	bitAnd := &bitXor.Left
+	equality := &bitAnd.Left
+	relational := &equality.Left
+	shift := &relational.Left
+	additive := &shift.Left
+	multiplicative := &additive.Left
+	unary := &multiplicative.Left
+	postfix := &unary.Right
+
+	return or.Op == "" && and.Op == "" && bitOr.Op == "" && bitXor.Op == "" && bitAnd.Op == "" &&
+		equality.Op == "" && relational.Op == "" && shift.Op == "" && additive.Op == "" &&
+		multiplicative.Op == "" && unary.Op == "" &&
+		postfix.Index == nil && postfix.Post == nil && postfix.Value.Value != nil
+}
+
 // /////////////////////////////////////
 
 type ExprIf struct {
@@ -849,7 +875,11 @@ func (e *ExprPrimary) Children() (children []Node) {
 
 func (e ExprPrimary) FormattedString() string {
 	if e.SubExpression != nil {
-		return e.SubExpression.FormattedString()
+		if e.SubExpression.isLiteral() {
+			return e.SubExpression.FormattedString()
+		}
+
+		return fmt.Sprintf("(%s)", e.SubExpression.FormattedString())
 	}
 
 	if e.Value != nil {
-- 
2.43.0


From 2e743bd7c4a43d51a1ea5b5e3341f3a3b35a5845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:38 +0000
Subject: [PATCH 07/18] fix: formatting an if with an empty body keeps its else
 branch

---
 pkg/etx/expr.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/etx/expr.go b/pkg/etx/expr.go
index 24b8f52..027d600 100644
--- a/pkg/etx/expr.go
+++ b/pkg/etx/expr.go
@@ -118,6 +118,8 @@ func (e *ExprIf) Children() (children []Node) {
 
 func (e ExprIf) FormattedString() string {
 	switch {
+	case e.Left == nil && e.Right != nil:
+		return fmt.Sprintf("if %s { } else {\n%s\n}", e.Condition.FormattedString(), indent(e.Right.FormattedString(), indentationChar))
 	case e.Left == nil:
 		return fmt.Sprintf("if %s { }", e.Condition.FormattedString())
 	case e.Right == nil:
-- 
2.43.0


From aea5b10f8f0cbcc32840c8b896b4be6b7e7b2694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:40 +0000
Subject: [PATCH 08/18] fix: formatting maps, enums and objects with comments
 or empty lines no longer panics

---
 pkg/etx/type.go  | 22 ++++++++++++++++++----
 pkg/etx/value.go |  5 +++++
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/pkg/etx/type.go b/pkg/etx/type.go
index 0ee5399..57dbd61 100644
--- a/pkg/etx/type.go
+++ b/pkg/etx/type.go
@@ -97,8 +97,15 @@ func (n TypeEnum) FormattedString() string {
 	}
 
 	for _, item := range n.Items {
-		fillLength := maxLabelLength - len(item.Label)
-		mustFprintf(&sb, "\n%s:%s %s", item.Label, strings.Repeat(" ", fillLength), item.Value.FormattedString())
+		switch {
+		case item.Comment != nil:
+			mustFprintf(&sb, "\n%s", strings.TrimSuffix(item.Comment.FormattedString(), "\n"))
+		case item.EmptyLine != "":
+			sb.WriteString(item.EmptyLine)
+		default:
+			fillLength := maxLabelLength - len(item.Label)
+			mustFprintf(&sb, "\n%s:%s %s", item.Label, strings.Repeat(" ", fillLength), item.Value.FormattedString())
+		}
 	}
 
 	return sb.String()
@@ -190,8 +197,15 @@ func (n TypeObject) FormattedString() string {
 	}
 
 	for _, item := range n.Items {
-		fillLength := maxLabelLength - len(item.Label)
-		mustFprintf(&sb, "\n%s:%s %s", item.Label, strings.Repeat(" ", fillLength), item.Type.FormattedString())
+		switch {
+		case item.Comment != nil:
+			mustFprintf(&sb, "\n%s", strings.TrimSuffix(item.Comment.FormattedString(), "\n"))
+		case item.EmptyLine != "":
+			sb.WriteString(item.EmptyLine)
+		default:
+			fillLength := maxLabelLength - len(item.Label)
+			mustFprintf(&sb, "\n%s:%s %s", item.Label, strings.Repeat(" ", fillLength), item.Type.FormattedString())
+		}
 	}
 
 	return sb.String()
diff --git a/pkg/etx/value.go b/pkg/etx/value.go
index f1fe421..00f8edb 100644
--- a/pkg/etx/value.go
+++ b/pkg/etx/value.go
@@ -555,6 +555,11 @@ func (v ValueMap) FormattedString() string {
 	sb.WriteString("{\n")
 
 	for _, e := range v.Items {
+		if e.Key == nil {
+			sb.WriteString(indent(e.FormattedString(), indentationChar))
+			continue
+		}
+
 		sb.WriteString(indent(fmt.Sprintf("%s: %s", e.Key.FormattedString(), e.Value.FormattedString()), indentationChar))
 		sb.WriteString(",\n")
 	}
-- 
2.43.0


From 403583bd98d9c1f9c8814d6a7dda8cf0e50519b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:08 +0000
Subject: [PATCH 09/18] fix: a lone $ or % is ordinary text in strings and
 heredocs

---
 pkg/etx/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/etx/lexer.go b/pkg/etx/lexer.go
index c0021a3..a0434f4 100644
--- a/pkg/etx/lexer.go
+++ b/pkg/etx/lexer.go
@@ -124,7 +124,7 @@ func lexRules() lexer.Rules {
 			{Name: "NonExpr", Pattern: `(\$\${|%%{)`},
 			{Name: "Expr", Pattern: `\${`, Action: lexer.Push(lexerStringExpr)},
 			{Name: "Directive", Pattern: `%{`, Action: lexer.Push(lexerStringExpr)},
-			{Name: "Char", Pattern: `[^$%"'\\]+`},
+			{Name: "Char", Pattern: `[^$%"'\\]+|[$%]`},
 		},
 		lexerUnicode: {
 			{Name: "UnicodeLong", Pattern: `[0-9a-fA-F]{8}`, Action: lexer.Pop()},
@@ -136,7 +136,7 @@ func lexRules() lexer.Rules {
 			{Name: "NonExpr", Pattern: `(\$\${|%%{)`},
 			{Name: "Expr", Pattern: `\${`, Action: lexer.Push(lexerStringExpr)},
 			{Name: "Directive", Pattern: `%{`, Action: lexer.Push(lexerStringExpr)},
-			{Name: "Body", Pattern: `[^\n$%]+`},
+			{Name: "Body", Pattern: `[$%]?[^\n$%]+|[$%]`},
 		},
 		lexerStringExpr: {
 			{Name: "ExprEnd", Pattern: `}`, Action: lexer.Pop()},
-- 
2.43.0


From de1923264be779a426ee30b5f3b91e97d1713181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:10 +0000
Subject: [PATCH 10/18] fix: a heredoc line that merely starts with the
 delimiter does not end it

---
 pkg/etx/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/etx/lexer.go b/pkg/etx/lexer.go
index a0434f4..dec6048 100644
--- a/pkg/etx/lexer.go
+++ b/pkg/etx/lexer.go
@@ -131,7 +131,7 @@ func lexRules() lexer.Rules {
 			{Name: "UnicodeShort", Pattern: `[0-9a-fA-F]{4}`, Action: lexer.Pop()},
 		},
 		lexerHeredoc: {
-			{Name: "HeredocEnd", Pattern: `^\1`, Action: lexer.Pop()},
+			{Name: "HeredocEnd", Pattern: `^\1\b`, Action: lexer.Pop()},
 			{Name: "EOL", Pattern: `\n`},
 			{Name: "NonExpr", Pattern: `(\$\${|%%{)`},
 			{Name: "Expr", Pattern: `\${`, Action: lexer.Push(lexerStringExpr)},
-- 
2.43.0


From be03cafc6651e6251ff0babdf36bed7f6d93afdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:25 +0000
Subject: [PATCH 11/18] fix: braces nested in a string or heredoc interpolation
 do not end it

Maps, if and switch expressions could not be used inside ${ } and %{ }.
---
 pkg/etx/lexer.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/etx/lexer.go b/pkg/etx/lexer.go
index dec6048..7080fb4 100644
--- a/pkg/etx/lexer.go
+++ b/pkg/etx/lexer.go
@@ -49,6 +49,7 @@ const (
 	lexerRoot       = "Root"
 	lexerString     = "String"
 	lexerStringExpr = "StringExpr"
+	lexerExprBlock  = "ExprBlock"
 	lexerUnicode    = "Unicode"
 	lexerHeredoc    = "Heredoc"
 )
@@ -140,6 +141,14 @@ func lexRules() lexer.Rules {
 		},
 		lexerStringExpr: {
 			{Name: "ExprEnd", Pattern: `}`, Action: lexer.Pop()},
+			{Name: `BlockStart`, Pattern: regexp.QuoteMeta(OpLBrace), Action: lexer.Push(lexerExprBlock)},
+
+			lexer.Include(lexerCore),
+		},
+		// Braces nested in a string expression do not end it.
+		lexerExprBlock: {
+			{Name: `BlockStart`, Pattern: regexp.QuoteMeta(OpLBrace), Action: lexer.Push(lexerExprBlock)},
+			{Name: `BlockEnd`, Pattern: regexp.QuoteMeta(OpRBrace), Action: lexer.Pop()},
 
 			lexer.Include(lexerCore),
 		},
-- 
2.43.0


From 03093ccbd70d890316c38b4ddbd3751e79407bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:07 +0000
Subject: [PATCH 12/18] fix: a function may return a function type

The return list alternative always won on the opening parenthesis, so
def f() (a) -> b {} was rejected.
---
 pkg/etx/func.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/etx/func.go b/pkg/etx/func.go
index c80d461..c88903f 100644
--- a/pkg/etx/func.go
+++ b/pkg/etx/func.go
@@ -10,7 +10,7 @@ type Func struct {
 
 	Label      string           `parser:"'def' @Ident "                     json:"label"`
 	Parameters []*FuncParameter `parser:"'(' [ @@ (',' @@)* ] ')'"         json:"parameters,omitempty"`
-	Return     []*ParameterType `parser:"('(' [ @@ (',' @@)* ] ')' | @@)?" json:"return,omitempty"`
+	Return     []*ParameterType `parser:"('(' [ @@ (',' @@)* ] ')' (?! OpLambdaDef) | @@)?" json:"return,omitempty"`
 	Body       []*FuncStatement `parser:"[ LF+ ] '{' [ LF+ ] @@ * '}' "    json:"body,omitempty"`
 }
 
-- 
2.43.0


From 6684bc05d5344df041f84d3a787535fd5ede0afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:09 +0000
Subject: [PATCH 13/18] fix: formatting a single-quoted string escapes the
 double quotes it contains

---
 pkg/etx/value.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/etx/value.go b/pkg/etx/value.go
index 00f8edb..44486fe 100644
--- a/pkg/etx/value.go
+++ b/pkg/etx/value.go
@@ -422,6 +422,9 @@ func (f StringFragment) FormattedString() string {
 		return fmt.Sprintf("${%s}", f.Expr.FormattedString())
 	case f.Directive != nil:
 		return fmt.Sprintf("%%{%s}", f.Directive.FormattedString())
+	case f.Text == `"`:
+		// Strings are always formatted with double quotes.
+		return `\"`
 	case f.Text != "":
 		return f.Text
 	default:
-- 
2.43.0


From cb79d6a0d7a94c37a614df536d0fb0f40fb6e219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:21 +0000
Subject: [PATCH 14/18] fix: long integer literals keep their exact value

Numbers were parsed with 53 bits of precision whatever their length.
---
 pkg/etx/value.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/etx/value.go b/pkg/etx/value.go
index 44486fe..a6de082 100644
--- a/pkg/etx/value.go
+++ b/pkg/etx/value.go
@@ -16,6 +16,9 @@ var (
 	heredocDelimiter = regexp.MustCompile(`^<<([-]?)(\w+)\n$`)
 )
 
+// numberPrecision is the minimum precision of numbers, in bits.
+const numberPrecision = 53
+
 // Value is a scalar, list or map.
 type Value struct {
 	ASTNode
@@ -162,7 +165,12 @@ func (v *ValueNumber) Capture(values []string) error {
 		v.Source = "0o" + sm[1]
 	}
 
-	v.Value = big.NewFloat(0)
+	// A digit holds at most four bits: long integers are represented exactly.
+	v.Value = new(big.Float).SetPrec(numberPrecision)
+	if prec := uint(4 * len(v.Source)); prec > numberPrecision {
+		v.Value.SetPrec(prec)
+	}
+
 	if _, _, err := v.Value.Parse(v.Source, 0); err != nil {
 		return fmt.Errorf("failed to parse number value '%s': %w", v.Source, err)
 	}
-- 
2.43.0


From 6cfe04970d4e6c701b41697b84f174201fb2b515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:06 +0000
Subject: [PATCH 15/18] fix: formatting drops all parentheses around a literal
 at once, so that formatting again changes nothing

---
 pkg/etx/expr.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/etx/expr.go b/pkg/etx/expr.go
index 027d600..d5be68f 100644
--- a/pkg/etx/expr.go
+++ b/pkg/etx/expr.go
@@ -53,8 +53,8 @@ func (e Expr) FormattedString() string {
 	}
 }
 
-// isLiteral returns whether the expression is a single literal value,
-// i.e. an expression that means the same with or without parentheses.
+// isLiteral returns whether the expression is a single literal value, possibly
+// in parentheses of its own, i.e. an expression that means the same with or without parentheses.
 func (e *Expr) isLiteral() bool {
 	if e.Left == nil || e.Left.ConditionOp {
 		return false
@@ -76,7 +76,8 @@ func (e *Expr) isLiteral() bool {
 	return or.Op == "" && and.Op == "" && bitOr.Op == "" && bitXor.Op == "" && bitAnd.Op == "" &&
 		equality.Op == "" && relational.Op == "" && shift.Op == "" && additive.Op == "" &&
 		multiplicative.Op == "" && unary.Op == "" &&
-		postfix.Index == nil && postfix.Post == nil && postfix.Value.Value != nil
+		postfix.Index == nil && postfix.Post == nil &&
+		(postfix.Value.Value != nil || postfix.Value.SubExpression != nil && postfix.Value.SubExpression.isLiteral())
 }
 
 // /////////////////////////////////////
-- 
2.43.0


From e489516371609bdeb691a7d99a3bb922467bc89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:29 +0000
Subject: [PATCH 16/18] fix: formatting a function body no longer adds a line
 after comments and empty lines

---
 pkg/etx/func.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/etx/func.go b/pkg/etx/func.go
index c88903f..2c6fe20 100644
--- a/pkg/etx/func.go
+++ b/pkg/etx/func.go
@@ -70,7 +70,8 @@ func (n Func) FormattedString() string {
 		sb.WriteString(" {\n")
 
 		for _, b := range n.Body {
-			sb.WriteString(indent(b.FormattedString(), indentationChar))
+			// Comments and empty lines carry their line end.
+			sb.WriteString(indent(strings.TrimSuffix(b.FormattedString(), "\n"), indentationChar))
 			sb.WriteString("\n")
 		}
 
-- 
2.43.0


From bef234b694b7d90b099b9caba90a58484a1fad55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:45 +0000
Subject: [PATCH 17/18] fix: a function may return a function type with any
 number of parameters

---
 pkg/etx/func.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/etx/func.go b/pkg/etx/func.go
index 2c6fe20..6748a21 100644
--- a/pkg/etx/func.go
+++ b/pkg/etx/func.go
@@ -10,7 +10,7 @@ type Func struct {
 
 	Label      string           `parser:"'def' @Ident "                     json:"label"`
 	Parameters []*FuncParameter `parser:"'(' [ @@ (',' @@)* ] ')'"         json:"parameters,omitempty"`
-	Return     []*ParameterType `parser:"('(' [ @@ (',' @@)* ] ')' (?! OpLambdaDef) | @@)?" json:"return,omitempty"`
+	Return     []*ParameterType `parser:"((?! '(' [ @@ (',' @@)* ] ')' OpLambdaDef) '(' [ @@ (',' @@)* ] ')' | @@)?" json:"return,omitempty"`
 	Body       []*FuncStatement `parser:"[ LF+ ] '{' [ LF+ ] @@ * '}' "    json:"body,omitempty"`
 }
 
-- 
2.43.0


From 7a3e9a34e894e8c8addb666ede687b251922ae7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:57 +0000
Subject: [PATCH 18/18] fix: a nil id of an interface type panicked instead of
 being reported as empty

---
 pkg/dag/dag.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/dag/dag.go b/pkg/dag/dag.go
index 4812b7b..c10468c 100644
--- a/pkg/dag/dag.go
+++ b/pkg/dag/dag.go
@@ -32,7 +32,7 @@ func NewAcyclicGraph[K comparable, T any]() *AcyclicGraph[K, T] {
 // 	- ErrVertexIDEmpty if id is empty.
 // 	- ErrVertexDuplicate if id is already part of the graph.
 func (g *AcyclicGraph[K, T]) AddVertex(id K, v T) error {
-	if reflect.ValueOf(id).IsZero() {
+	if isZeroID(id) {
 		return ErrVertexIDEmpty
 	}
 
@@ -609,9 +609,17 @@ func (g *AcyclicGraph[K, T]) String() string {
 	return sb.String()
 }
 
+// isZeroID returns whether the specified id is the zero value of its type
+// (including a nil interface, which has no reflect.Value).
+func isZeroID[K comparable](id K) bool {
+	v := reflect.ValueOf(id)
+
+	return !v.IsValid() || v.IsZero()
+}
+
 // checkVertexID checks that the specified vertex ID is valid for this graph.
 func (g *AcyclicGraph[K, T]) checkVertexID(id K) error {
-	if reflect.ValueOf(id).IsZero() {
+	if isZeroID(id) {
 		return ErrVertexIDEmpty
 	}
 
@@ -625,10 +633,10 @@ func (g *AcyclicGraph[K, T]) checkVertexID(id K) error {
 // checkVertexID checks that the specified vertex IDs is a valid edge
 // in this graph.
 func (g *AcyclicGraph[K, T]) checkEdgeIDs(sourceID, targetID K) error {
-	if reflect.ValueOf(sourceID).IsZero() {
+	if isZeroID(sourceID) {
 		return ErrEdgeSourceIDEmpty
 	}
-	if reflect.ValueOf(targetID).IsZero() {
+	if isZeroID(targetID) {
 		return ErrEdgeTargetIDEmpty
 	}
 	if sourceID == targetID {
-- 
2.43.0


From 6f2b9ef864405ff5c7e0bd03f80f31f991c5d9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:58 +0000
Subject: [PATCH 01/30] fix: report syntax errors from Parse

The error listener was checked before anything was parsed, and the
lexer's listener was dropped, so malformed paths were accepted.
---
 parser.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/parser.go b/parser.go
index a95c699..f03a0ac 100644
--- a/parser.go
+++ b/parser.go
@@ -62,15 +62,14 @@ func (lst *errorListener) SyntaxError(recognizer antlr.Recognizer, offendingSymb
 // as string literals (i.e. quoted.)
 
 func Parse(input string) (Path, error) {
-	pr := getParser(input)
-	pr.RemoveErrorListeners()
 	errListener := errorListener{}
-	pr.AddErrorListener(&errListener)
-	if errListener.err != nil {
-		return Path{}, fmt.Errorf("%w, input: %s", errListener.err, input)
-	}
+	pr := getParser(input, &errListener)
 	if len(input) > 0 && input[0] == '/' {
-		p, err := astSimplePath(pr.SimplePath().(*parser.SimplePathContext).SimplePathExpr())
+		c := pr.SimplePath()
+		if errListener.err != nil {
+			return Path{}, fmt.Errorf("%w, input: %s", errListener.err, input)
+		}
+		p, err := astSimplePath(c.(*parser.SimplePathContext).SimplePathExpr())
 		if err != nil {
 			return p, err
 		}
@@ -78,18 +77,23 @@ func Parse(input string) (Path, error) {
 	}
 
 	c := pr.Path()
+	if errListener.err != nil {
+		return Path{}, fmt.Errorf("%w, input: %s", errListener.err, input)
+	}
 	// Build a matcher from AST
 	return astPath(c.Expression())
 }
 
-// GetParser returns a parser that will parse the input string
-func getParser(input string) *parser.JsonpathParser {
+// GetParser returns a parser that will parse the input string. The
+// syntax errors of both the lexer and the parser go to errListener
+func getParser(input string, errListener *errorListener) *parser.JsonpathParser {
 	lexer := parser.NewJsonpathLexer(antlr.NewInputStream(input))
 	lexer.RemoveErrorListeners()
-	errListener := errorListener{}
-	lexer.AddErrorListener(&errListener)
+	lexer.AddErrorListener(errListener)
 	stream := antlr.NewCommonTokenStream(lexer, 0)
 	p := parser.NewJsonpathParser(stream)
+	p.RemoveErrorListeners()
+	p.AddErrorListener(errListener)
 	p.BuildParseTrees = true
 	return p
 }
-- 
2.43.0


From 3b0b48785fa19df8546ced72a530664b48c3385a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:30 +0000
Subject: [PATCH 02/30] fix: MapModel.Key reports missing keys

It returned true for every key, so a path selecting a key that an object
does not have produced a nil node.
---
 docmodel.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/docmodel.go b/docmodel.go
index 8776056..7155418 100644
--- a/docmodel.go
+++ b/docmodel.go
@@ -62,7 +62,8 @@ func (MapModel) Key(in any, key string) (any, bool) {
 	if !ok {
 		return nil, false
 	}
-	return obj[key], true
+	value, ok := obj[key]
+	return value, ok
 }
 
 func (MapModel) Keys(in any) []string {
-- 
2.43.0


From 4c5c2aeb4134547b6c1e232631459d9ba7630797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:31 +0000
Subject: [PATCH 03/30] fix: recursive descent evaluates value nodes once

A value node was evaluated by its parent's loop and then again when
descended into, so every match on a value node was reported twice.
---
 path.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/path.go b/path.go
index 9033815..a62d0e3 100644
--- a/path.go
+++ b/path.go
@@ -183,9 +183,7 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 		node := ctx.path.Last().Node
 		switch ctx.doc.Type(node) {
 		case ValueNode:
-			if err := evaluateAt(ctx, path, pathIx+1, capture); err != nil {
-				return err
-			}
+			// No children. The caller already evaluated the node itself
 		case ObjectNode:
 			for _, key := range ctx.doc.Keys(node) {
 				value, _ := ctx.doc.Key(node, key)
-- 
2.43.0


From a304941d5a2f969a85007af729d585c6588aff20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:33 +0000
Subject: [PATCH 04/30] fix: paths ending with .. panic

The recursive flags of a path must be as many as its selectors.
---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index f03a0ac..5cadbf2 100644
--- a/parser.go
+++ b/parser.go
@@ -135,7 +135,7 @@ func astPath(ctx parser.IExpressionContext) (path Path, err error) {
 			return
 		}
 		path.selectors = append(path.selectors, wildcardSelector{})
-		path.recursive = append(path.recursive[:len(path.recursive)-1], true)
+		path.recursive = append(path.recursive[:len(path.recursive)-1], true, false)
 		return
 
 	case *parser.RecursiveDescentExpressionContext:
-- 
2.43.0


From 97a9ebbe729c43530085c7dbab7f24ae9418e7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 05/30] fix: recursive descent into slices

A slice after .. is parsed as a member index of a path ending with ..,
so $..[0:1] selected children of all descendants instead.
---
 parser.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 5cadbf2..582e25a 100644
--- a/parser.go
+++ b/parser.go
@@ -155,7 +155,12 @@ func astPath(ctx parser.IExpressionContext) (path Path, err error) {
 
 	case *parser.MemberIndexExpressionContext:
 		var left, right Path
-		if left, err = astPath(expr.Expression()); err != nil {
+		base := expr.Expression()
+		term, recursive := base.(*parser.RecursiveDescentTermExpressionContext)
+		if recursive { // a..[x] is parsed as (a..)[x] if x is not an array element
+			base = term.Expression()
+		}
+		if left, err = astPath(base); err != nil {
 			return
 		}
 		indexExprs := expr.AllIndexExpression()
@@ -164,7 +169,7 @@ func astPath(ctx parser.IExpressionContext) (path Path, err error) {
 		}
 		// Combine paths
 		path.selectors = append(left.selectors, right.selectors...)
-		path.recursive = append(left.recursive[:len(left.recursive)-1], false)
+		path.recursive = append(left.recursive[:len(left.recursive)-1], recursive)
 		path.recursive = append(path.recursive, right.recursive...)
 		return
 
-- 
2.43.0


From a2edabd97ce41e2405b9d24bfb363f2cf89e004d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:05 +0000
Subject: [PATCH 06/30] fix: $ in expressions addresses the document root

The root selector compared the current node with the root node, which
panics for objects and arrays and never matches below the root.
---
 expression.go |  6 ++++++
 path.go       | 12 +++++++-----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/expression.go b/expression.go
index b874fcd..643a004 100644
--- a/expression.go
+++ b/expression.go
@@ -249,6 +249,12 @@ type pathExpression struct {
 
 func (expr pathExpression) evaluate(ctx *context) (exprValue, error) {
 	result := make([]any, 0)
+	if len(expr.path.selectors) > 0 {
+		if _, fromRoot := expr.path.selectors[0].(rootElementSelector); fromRoot {
+			// The path starts at the document root, not at the current node
+			ctx = newRootContext(ctx.doc)
+		}
+	}
 	err := evaluateAt(ctx, expr.path, 0, func(item DocPath) {
 		result = append(result, item.Last().Node)
 	})
diff --git a/path.go b/path.go
index a62d0e3..2692c22 100644
--- a/path.go
+++ b/path.go
@@ -98,6 +98,11 @@ func Search(doc DocModel, path Path, capture func(DocPath)) error {
 	if len(path.selectors) == 0 {
 		return nil
 	}
+	return evaluateAt(newRootContext(doc), path, 0, capture)
+}
+
+// newRootContext returns a context positioned at the document root
+func newRootContext(doc DocModel) *context {
 	ctx := &context{
 		doc: doc,
 		path: DocPath{
@@ -109,7 +114,7 @@ func Search(doc DocModel, path Path, capture func(DocPath)) error {
 	}
 	el.Type = doc.Type(el.Node)
 	ctx.path.P = append(ctx.path.P, el)
-	return evaluateAt(ctx, path, 0, capture)
+	return ctx
 }
 
 func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) error {
@@ -219,10 +224,7 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 type rootElementSelector struct{}
 
 func (rootElementSelector) match(ctx *context) bool {
-	if ctx.path.Len() == 1 {
-		return true
-	}
-	return ctx.path.Last().Node == ctx.doc.Root()
+	return ctx.path.Len() == 1
 }
 
 func (rootElementSelector) selectChildNodes(*context) (children iterator, canSelect bool) {
-- 
2.43.0


From f312cc5a9ae76a0fe8c3aa76e4eaec72eb2a2486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:06 +0000
Subject: [PATCH 07/30] fix: a path that selects nothing is false in a filter

?(@.key) selected nodes without key, because an empty list of nodes is
not nil.
---
 expression.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expression.go b/expression.go
index 643a004..306c5db 100644
--- a/expression.go
+++ b/expression.go
@@ -86,6 +86,10 @@ func (c exprValue) String() string {
 }
 
 func (c exprValue) asBool() bool {
+	if nodes, ok := c.value.([]any); ok {
+		// The result of a path that selects nothing does not exist
+		return len(nodes) != 0
+	}
 	value := c.getValue()
 	if b, ok := value.(bool); ok {
 		return b
-- 
2.43.0


From ded9cdc5b0a94a20a853d937489a92fbb888f95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:49 +0000
Subject: [PATCH 08/30] fix: unary minus of a non-constant expression

It converted the wrapper of the value instead of the value, so the
result was always nothing.
---
 expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression.go b/expression.go
index 306c5db..ee918f9 100644
--- a/expression.go
+++ b/expression.go
@@ -123,7 +123,7 @@ func (u unaryMinusExpression) evaluate(ctx *context) (exprValue, error) {
 	if err != nil {
 		return exprValue{}, err
 	}
-	num := valueAsNumber(c)
+	num := valueAsNumber(c.value)
 	if num == nil {
 		return exprValue{}, nil
 	}
-- 
2.43.0


From 8cb927afa076ec3f0b25359bdd8a4114a1e9261f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:50 +0000
Subject: [PATCH 09/30] fix: == truncates when an integer is compared with a
 float

1 == 1.5 was true while 1.5 == 1 was false.
---
 expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression.go b/expression.go
index ee918f9..1d48257 100644
--- a/expression.go
+++ b/expression.go
@@ -182,7 +182,7 @@ func (expr equalityExpression) evaluate(ctx *context) (exprValue, error) {
 			return exprValue{value: i == j}, nil
 		}
 		if f, ok := rightValue.(float64); ok {
-			return exprValue{value: i == int(f)}, nil
+			return exprValue{value: float64(i) == f}, nil
 		}
 		return exprValue{value: false}, nil
 	}
-- 
2.43.0


From c8127e050bf338647b635f47bae99b7f6c4c8535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 10/30] fix: relational operators truncate when an integer is
 compared with a float

1 < 1.5 was false.
---
 expression.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/expression.go b/expression.go
index 1d48257..c6c5c5c 100644
--- a/expression.go
+++ b/expression.go
@@ -342,7 +342,17 @@ func compareExpr(ctx *context, left, right expression) (int, bool, error) {
 	}
 
 	if i, ok := lvalue.(int); ok {
-		j, ok := valueAsInt(rvalue)
+		n := valueAsNumber(rvalue)
+		if f, ok := n.(float64); ok {
+			if float64(i) < f {
+				return -1, true, nil
+			}
+			if float64(i) > f {
+				return 1, true, nil
+			}
+			return 0, true, nil
+		}
+		j, ok := n.(int)
 		if !ok {
 			return 0, false, nil
 		}
-- 
2.43.0


From 8cd5da54f6a7e6e0bcb41183cac25baaeaa783e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:52 +0000
Subject: [PATCH 11/30] fix: false converts to the number 0

true converted to 1, but false had no number.
---
 expression.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/expression.go b/expression.go
index c6c5c5c..30d53be 100644
--- a/expression.go
+++ b/expression.go
@@ -44,8 +44,11 @@ func valueAsNumber(value any) any {
 		return f
 	}
 	b, ok := value.(bool)
-	if ok && b {
-		return 1
+	if ok {
+		if b {
+			return 1
+		}
+		return 0
 	}
 	s, ok := value.(string)
 	if ok {
-- 
2.43.0


From 56ae504a605bfbb734c18f861ebac4121c64f11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:54 +0000
Subject: [PATCH 12/30] fix: null equals null

@.key == null was false, and @.key != null was true, for every value.
---
 expression.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/expression.go b/expression.go
index 30d53be..2507ba5 100644
--- a/expression.go
+++ b/expression.go
@@ -179,6 +179,9 @@ func (expr equalityExpression) evaluate(ctx *context) (exprValue, error) {
 	}
 	leftValue := left.getValue()
 	rightValue := right.getValue()
+	if leftValue == nil && rightValue == nil {
+		return exprValue{value: true}, nil
+	}
 
 	if i, ok := leftValue.(int); ok {
 		if j, ok := rightValue.(int); ok {
@@ -226,6 +229,9 @@ func (expr equality3Expression) evaluate(ctx *context) (exprValue, error) {
 	}
 	leftValue := left.getValue()
 	rightValue := right.getValue()
+	if leftValue == nil && rightValue == nil {
+		return exprValue{value: true}, nil
+	}
 	if i, ok := leftValue.(int); ok {
 		if j, ok := rightValue.(int); ok {
 			return exprValue{value: i == j}, nil
-- 
2.43.0


From 0f73bf054a9f03d8b6598b2a05ef52932734c309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:55 +0000
Subject: [PATCH 13/30] fix: in never matches

It compared the wrapper of the left value with the elements, and did not
look into arrays of the document.
---
 expression.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/expression.go b/expression.go
index 2507ba5..9ccb4a7 100644
--- a/expression.go
+++ b/expression.go
@@ -674,15 +674,20 @@ func (expr inExpression) evaluate(ctx *context) (exprValue, error) {
 	arr, ok := r.value.([]any)
 	if !ok {
 		arr = []any{r.value}
+		// An array of the document
+		if n, ok := r.value.(nodeValue); ok && n.doc.Type(n.node) == ArrayNode {
+			arr = make([]any, 0, n.doc.Len(n.node))
+			for i := 0; i < n.doc.Len(n.node); i++ {
+				arr = append(arr, nodeValue{node: n.doc.Elem(n.node, i), doc: n.doc})
+			}
+		}
 	}
 	for _, x := range arr {
-		var v any
-		if n, ok := x.(nodeValue); ok {
-			v = n.doc.Value(n.node)
-		} else {
-			v = x
+		eq, err := equalityExpression{left: l, right: exprValue{value: x}}.evaluate(ctx)
+		if err != nil {
+			return exprValue{}, err
 		}
-		if l == v {
+		if eq.asBool() {
 			return exprValue{value: true}, nil
 		}
 	}
-- 
2.43.0


From a0ce11d82d305b946e7ef20f657ec3da4e38d8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 14/30] fix: escaped backslashes, tabs, and non-special
 characters are dropped from strings

---
 expression.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/expression.go b/expression.go
index 9ccb4a7..802b75b 100644
--- a/expression.go
+++ b/expression.go
@@ -1154,10 +1154,13 @@ func numericLiteral(ctx *parser.NumericLiteralContext) any {
 var singleEscapeRunes = map[rune]rune{
 	'\'': '\'',
 	'"':  '"',
+	'\\': '\\',
+	'0':  0,
 	'b':  '\b',
 	'f':  '\f',
 	'n':  '\n',
 	'r':  '\r',
+	't':  '\t',
 	'v':  '\v',
 }
 
@@ -1206,6 +1209,8 @@ func unescapeString(in string) string {
 			} else {
 				if x, ok := singleEscapeRunes[r]; ok {
 					out = append(out, x)
+				} else if strings.IndexRune("\r\n\u2028\u2029", r) == -1 { // Not a line continuation
+					out = append(out, r)
 				}
 				esc = false
 			}
-- 
2.43.0


From 4981ac1f1bee3586bade04a24d5597e96a221066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:24 +0000
Subject: [PATCH 15/30] fix: \x escapes above \x7f

They were clamped to \x7f.
---
 expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression.go b/expression.go
index 802b75b..b874034 100644
--- a/expression.go
+++ b/expression.go
@@ -1177,7 +1177,7 @@ func unescapeString(in string) string {
 				if len(buf) == 2 {
 					hex = false
 					esc = false
-					v, _ := strconv.ParseInt(string(buf), 16, 8)
+					v, _ := strconv.ParseInt(string(buf), 16, 32)
 					out = append(out, rune(v))
 					buf = nil
 				}
-- 
2.43.0


From 783bf7f4497c8124cd64e3b9968ee562c46665e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:25 +0000
Subject: [PATCH 16/30] fix: \u{...} escapes

The digits were copied to the output, followed by a zero rune.
---
 expression.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/expression.go b/expression.go
index b874034..5364966 100644
--- a/expression.go
+++ b/expression.go
@@ -1185,13 +1185,11 @@ func unescapeString(in string) string {
 				buf = append(buf, r)
 				if len(buf) > 1 && buf[0] == '{' {
 					if r == '}' {
-						v, _ := strconv.ParseInt(string(buf[1:]), 16, 32)
+						v, _ := strconv.ParseInt(string(buf[1:len(buf)-1]), 16, 32)
 						out = append(out, rune(v))
 						buf = nil
 						uni = false
 						esc = false
-					} else {
-						out = append(out, r)
 					}
 				} else if len(buf) == 4 {
 					v, _ := strconv.ParseInt(string(buf), 16, 32)
-- 
2.43.0


From e01f97caa6b512045d119b991c568feaeb22bcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:14 +0000
Subject: [PATCH 17/30] fix: numbers with underscores or an uppercase exponent
 are read as 0

---
 expression.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/expression.go b/expression.go
index 5364966..2293871 100644
--- a/expression.go
+++ b/expression.go
@@ -1128,8 +1128,8 @@ func astLiteral(ctx *parser.LiteralContext) exprValue {
 
 func numericLiteral(ctx *parser.NumericLiteralContext) any {
 	if lit := ctx.DecimalLiteral(); lit != nil {
-		number := lit.GetText()
-		if strings.IndexRune(number, 'e') != -1 || strings.IndexRune(number, '.') != -1 {
+		number := strings.Replace(lit.GetText(), "_", "", -1)
+		if strings.ContainsAny(number, "eE.") {
 			v, _ := strconv.ParseFloat(number, 64)
 			return float64(v)
 		}
@@ -1138,12 +1138,12 @@ func numericLiteral(ctx *parser.NumericLiteralContext) any {
 	}
 
 	if lit := ctx.HexIntegerLiteral(); lit != nil {
-		v, _ := strconv.ParseInt(lit.GetText()[2:], 16, 64)
+		v, _ := strconv.ParseInt(strings.Replace(lit.GetText()[2:], "_", "", -1), 16, 64)
 		return int(v)
 	}
 
 	if lit := ctx.OctalIntegerLiteral2(); lit != nil {
-		v, _ := strconv.ParseInt(lit.GetText()[2:], 8, 64)
+		v, _ := strconv.ParseInt(strings.Replace(lit.GetText()[2:], "_", "", -1), 8, 64)
 		return int(v)
 	}
 	lit := ctx.BinaryIntegerLiteral().GetText()[2:]
-- 
2.43.0


From f6acb3b7a7e9854c637645e5937ef48823086bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:15 +0000
Subject: [PATCH 18/30] fix: [start::] and [start:end:] lose the start

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 582e25a..1fd6955 100644
--- a/parser.go
+++ b/parser.go
@@ -346,7 +346,7 @@ func astSlice(ctx *parser.SliceContext) (selector, error) {
 	}
 	if expressions[2] == nil {
 		return &rangeSelector{
-			start: exprValue{value: 0},
+			start: expressions[0],
 			end:   expressions[1],
 		}, nil
 	}
-- 
2.43.0


From f32b75106cdb16bb082722b2332ee7eeca22dc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:16 +0000
Subject: [PATCH 19/30] fix: large slice steps overflow

---
 itr.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/itr.go b/itr.go
index aecccef..1c6e9c7 100644
--- a/itr.go
+++ b/itr.go
@@ -51,18 +51,17 @@ func (s *rangeIterator) next() bool {
 		return true
 
 	case 1: // iterating
-		s.at += s.step
+		// Check before moving, so at does not overflow
 		if s.step > 0 {
-			if s.at >= s.to {
+			if s.to-s.at <= s.step {
 				s.state = 2
 				return false
 			}
-			return true
-		}
-		if s.at <= s.to {
+		} else if s.to-s.at >= s.step {
 			s.state = 2
 			return false
 		}
+		s.at += s.step
 		return true
 	}
 	return false
-- 
2.43.0


From 35d3d87396efb27dde98857e80e7a84b15c61266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:17 +0000
Subject: [PATCH 20/30] fix: negative slice steps and slice bounds out of range

---
 slice.go | 174 +++++++++++++++++++++++--------------------------------
 1 file changed, 71 insertions(+), 103 deletions(-)

diff --git a/slice.go b/slice.go
index f9d2d23..1358ab0 100644
--- a/slice.go
+++ b/slice.go
@@ -89,26 +89,47 @@ type rangeSelector struct {
 	end   expression
 }
 
-func getRange(ctx *context, start, end expression, len int) (from, to int) {
-	var s int
-	if start != nil {
-		ivalue, _ := start.evaluate(ctx)
-		s = normalizeIndex(ivalue.value, len)
-	}
-	if s < 0 {
-		return -1, -1
-	}
-	var e int
-	if end != nil {
-		ivalue, _ := end.evaluate(ctx)
-		e = normalizeIndex(ivalue.value, len)
-	} else {
-		e = len
-	}
-	if e < 0 {
-		return -1, -1
-	}
-	return s, e
+// sliceBound returns the value of a slice bound, relative to the
+// beginning of the array, and limited to low and high. The bound is def
+// if it is omitted.
+func sliceBound(ctx *context, bound expression, len, low, high, def int) (int, bool) {
+	if bound == nil {
+		return def, true
+	}
+	ivalue, _ := bound.evaluate(ctx)
+	i, ok := valueAsInt(ivalue.value)
+	if !ok {
+		return 0, false
+	}
+	if i < 0 {
+		i += len
+	}
+	if i < low {
+		return low, true
+	}
+	if i > high {
+		return high, true
+	}
+	return i, true
+}
+
+// getRange returns the range selected by start and end. If step is
+// negative, the range goes down from from to to, and to can be -1. In
+// all cases, to is excluded
+func getRange(ctx *context, start, end expression, step, len int) (from, to int, ok bool) {
+	low, high := 0, len
+	if step < 0 {
+		low, high = -1, len-1
+	}
+	defFrom, defTo := low, high
+	if step < 0 {
+		defFrom, defTo = high, low
+	}
+	if from, ok = sliceBound(ctx, start, len, low, high, defFrom); !ok {
+		return
+	}
+	to, ok = sliceBound(ctx, end, len, low, high, defTo)
+	return
 }
 
 func (sel *rangeSelector) match(ctx *context) bool {
@@ -116,9 +137,9 @@ func (sel *rangeSelector) match(ctx *context) bool {
 		return false
 	}
 	n := ctx.doc.Len(ctx.path.P[len(ctx.path.P)-2].Node)
-	start, end := getRange(ctx, sel.start, sel.end, n)
+	start, end, ok := getRange(ctx, sel.start, sel.end, 1, n)
 	index := ctx.path.Last().Index
-	return index >= start && index < end
+	return ok && index >= start && index < end
 }
 
 func (sel *rangeSelector) selectChildNodes(ctx *context) (children iterator, canSelect bool) {
@@ -126,13 +147,10 @@ func (sel *rangeSelector) selectChildNodes(ctx *context) (children iterator, can
 		return emptyIterator{}, true
 	}
 	n := ctx.doc.Len(ctx.path.Last().Node)
-	start, end := getRange(ctx, sel.start, sel.end, n)
-	if start < 0 || start >= end {
+	start, end, ok := getRange(ctx, sel.start, sel.end, 1, n)
+	if !ok || start >= end {
 		return emptyIterator{}, true
 	}
-	if end > n {
-		end = n
-	}
 	return &rangeIterator{
 		doc:   ctx.doc,
 		node:  ctx.path.Last().Node,
@@ -150,104 +168,54 @@ type sliceSelector struct {
 	step  expression
 }
 
+// Returns the step of the slice
+func (sel *sliceSelector) getStep(ctx *context) (int, bool) {
+	if sel.step == nil {
+		return 1, true
+	}
+	ivalue, err := sel.step.evaluate(ctx)
+	if err != nil {
+		return 0, false
+	}
+	return valueAsInt(ivalue.value)
+}
+
 func (sel *sliceSelector) match(ctx *context) bool {
 	if !isArrayElement(ctx.path) {
 		return false
 	}
-	n := ctx.doc.Len(ctx.path.P[len(ctx.path.P)-2].Node)
-	start, end := getRange(ctx, sel.start, sel.end, n)
-	if start < 0 {
-		return false
-	}
-	index := ctx.path.Last().Index
-	if index < start || index >= end {
+	step, ok := sel.getStep(ctx)
+	if !ok || step == 0 {
 		return false
 	}
-	var step int
-	if start < end {
-		step = 1
-	} else {
-		step = -1
-	}
-	if sel.step != nil {
-		ivalue, err := sel.step.evaluate(ctx)
-		if err != nil {
-			return false
-		}
-		var ok bool
-		step, ok = valueAsInt(ivalue.value)
-		if !ok {
-			return false
-		}
-	}
-	if step == 0 {
+	n := ctx.doc.Len(ctx.path.P[len(ctx.path.P)-2].Node)
+	start, end, ok := getRange(ctx, sel.start, sel.end, step, n)
+	if !ok {
 		return false
 	}
-	if start < end {
-		if step < 0 {
-			return false
-		}
-		return (index-start)%step == 0
-	}
+	index := ctx.path.Last().Index
 	if step > 0 {
-		return false
+		return index >= start && index < end && (index-start)%step == 0
 	}
-	return (start-index)%(-step) == 0
+	return index <= start && index > end && (index-start)%step == 0
 }
 
 func (sel *sliceSelector) selectChildNodes(ctx *context) (children iterator, canSelect bool) {
 	if !isArray(ctx.path) {
 		return emptyIterator{}, true
 	}
-	n := ctx.doc.Len(ctx.path.Last().Node)
-	start, end := getRange(ctx, sel.start, sel.end, n)
-	if start < 0 {
-		return emptyIterator{}, true
-	}
-	var step int
-	if start < end {
-		step = 1
-	} else {
-		step = -1
-	}
-	if sel.step != nil {
-		ivalue, err := sel.step.evaluate(ctx)
-		if err != nil {
-			return nil, false
-		}
-		var ok bool
-		step, ok = valueAsInt(ivalue.value)
-		if !ok {
-			return nil, false
-		}
+	step, ok := sel.getStep(ctx)
+	if !ok {
+		return nil, false
 	}
 	if step == 0 {
 		return emptyIterator{}, true
 	}
-	if start < end {
-		if step < 0 {
-			return emptyIterator{}, true
-		}
-
-		if end > n {
-			end = n
-		}
-		return &rangeIterator{
-			doc:   ctx.doc,
-			node:  ctx.path.Last().Node,
-			from:  start,
-			to:    end,
-			step:  step,
-			state: 0,
-		}, true
-	}
-	if step > 0 {
-		return emptyIterator{}, true
-	}
-	if start >= n {
+	n := ctx.doc.Len(ctx.path.Last().Node)
+	start, end, ok := getRange(ctx, sel.start, sel.end, step, n)
+	if !ok {
 		return emptyIterator{}, true
 	}
-
 	return &rangeIterator{
 		doc:   ctx.doc,
 		node:  ctx.path.Last().Node,
-- 
2.43.0


From a6287ccc958d071b2fe6d6f73fdc353b65ebd125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:18 +0000
Subject: [PATCH 21/30] fix: negative index out of range selects the first
 element

---
 slice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slice.go b/slice.go
index 1358ab0..63dbf0c 100644
--- a/slice.go
+++ b/slice.go
@@ -32,7 +32,7 @@ func normalizeIndex(index any, len int) int {
 	if -len <= i {
 		return i + len
 	}
-	return 0
+	return -1
 }
 
 func (sel *indexSelector) match(ctx *context) bool {
-- 
2.43.0


From 9b61fc5bcd57e723ee14e7cfe84d80ec87bb8114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 22/30] fix: IndexSelectorPath selects the empty key of
 objects, and not from the end of arrays

---
 path.go  | 2 +-
 slice.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/path.go b/path.go
index 2692c22..d55b167 100644
--- a/path.go
+++ b/path.go
@@ -64,7 +64,7 @@ func KeySelectorPath(key string) Path {
 // Returns a path that selects an index
 func IndexSelectorPath(index int) Path {
 	return Path{
-		selectors: []selector{&keySelector{expr: exprValue{value: index}}},
+		selectors: []selector{&indexSelector{index: exprValue{value: index}}},
 		recursive: []bool{false},
 	}
 }
diff --git a/slice.go b/slice.go
index 63dbf0c..0b68147 100644
--- a/slice.go
+++ b/slice.go
@@ -48,8 +48,8 @@ func (sel *indexSelector) match(ctx *context) bool {
 		return false
 	}
 	if index < 0 {
-		n := ctx.doc.Len(ctx.path.Last().Node)
-		index := normalizeIndex(index, n)
+		n := ctx.doc.Len(ctx.path.P[len(ctx.path.P)-2].Node)
+		index = normalizeIndex(index, n)
 		if index < 0 {
 			return false
 		}
-- 
2.43.0


From 127137cc161ed7f42baf1cff045d2937f970bc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 23/30] fix: Search passes paths that later change to capture

---
 path.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/path.go b/path.go
index d55b167..dcb44a4 100644
--- a/path.go
+++ b/path.go
@@ -98,7 +98,10 @@ func Search(doc DocModel, path Path, capture func(DocPath)) error {
 	if len(path.selectors) == 0 {
 		return nil
 	}
-	return evaluateAt(newRootContext(doc), path, 0, capture)
+	return evaluateAt(newRootContext(doc), path, 0, func(docpath DocPath) {
+		// The evaluation reuses docpath, so capture gets its own copy
+		capture(DocPath{P: append([]Segment(nil), docpath.P...)})
+	})
 }
 
 // newRootContext returns a context positioned at the document root
-- 
2.43.0


From 8961a6c36f9df787a24698735760aff2aed61735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:14 +0000
Subject: [PATCH 24/30] fix: literals of simple paths address the keys as they
 are written

---
 simplepath.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simplepath.go b/simplepath.go
index 312a806..532809c 100644
--- a/simplepath.go
+++ b/simplepath.go
@@ -20,7 +20,8 @@ func astSimplePath(ctx parser.ISimplePathExprContext) (path Path, err error) {
 		}
 		path.selectors = []selector{
 			&keySelector{
-				key: v.String(),
+				key:  lit.GetText(),
+				expr: v,
 			},
 		}
 		path.recursive = []bool{false}
-- 
2.43.0


From b8686a404ba5a37e93e5cdf52ec6cad3197338da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:37 +0000
Subject: [PATCH 25/30] fix: MakeKeyString returns strings that do not address
 the key

---
 escape.go | 71 ++++++++++++++++++++++++++++++++-----------------------
 1 file changed, 42 insertions(+), 29 deletions(-)

diff --git a/escape.go b/escape.go
index 7574379..5db1191 100644
--- a/escape.go
+++ b/escape.go
@@ -2,49 +2,62 @@ package gojsonpath
 
 import (
 	"strings"
-	"unicode"
 )
 
-const acceptableChars = "_*$.,@!~#%^"
+// These look like identifiers, but the lexer recognizes them as keywords
+var keywords = map[string]struct{}{
+	"null":  {},
+	"true":  {},
+	"false": {},
+	"in":    {},
+}
+
+// Returns true if the input can be used in a path as it is
+func isPlainKey(input string) bool {
+	if _, keyword := keywords[input]; keyword {
+		return false
+	}
+	for i, r := range input {
+		switch {
+		case r == '_', r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z':
+		case r >= '0' && r <= '9' && i > 0:
+		default:
+			return false
+		}
+	}
+	return len(input) != 0
+}
 
 // MakeKeyString quotes or escapes the input string if necessary to be
 // used in a path expression
 func MakeKeyString(input string) string {
 	// If input has all digits, letters, and _, no need for escape or
 	// quote
-	bad := false
-	for i, r := range input {
-		if i == 0 && unicode.IsDigit(r) {
-			bad = true
-			break
-		}
-		if !unicode.IsDigit(r) && !unicode.IsLetter(r) && strings.IndexRune(acceptableChars, r) == -1 {
-			bad = true
-			break
-		}
-	}
-	if !bad {
+	if isPlainKey(input) {
 		return input
 	}
 
+	quote := '"'
 	// Does it have double-quote?
-	if strings.IndexRune(input, '"') != -1 {
-		if strings.IndexRune(input, '\'') != -1 {
-			out := make([]rune, 0, len(input)+2)
-			out = append(out, '"')
-			for _, r := range input {
-				if r == '"' {
-					out = append(out, '\\', '"')
-				} else {
-					out = append(out, r)
-				}
-			}
-			out = append(out, '"')
-			return string(out)
+	if strings.IndexRune(input, '"') != -1 && strings.IndexRune(input, '\'') == -1 {
+		quote = '\''
+	}
+	out := make([]rune, 0, len(input)+2)
+	out = append(out, quote)
+	for _, r := range input {
+		switch r {
+		case quote, '\\':
+			out = append(out, '\\', r)
+		case '\n':
+			out = append(out, '\\', 'n')
+		case '\r':
+			out = append(out, '\\', 'r')
+		default:
+			out = append(out, r)
 		}
-		return "'" + input + "'"
 	}
-	return `"` + input + `"`
+	out = append(out, quote)
+	return string(out)
 }
 
 // Joins strings to build a path, escaping them as necessary
-- 
2.43.0


From d1383ff5b0e292114f12564166f40f113f951751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:55 +0000
Subject: [PATCH 26/30] fix: Parse does not accept the path Join returns for no
 parts

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index 1fd6955..bb4adba 100644
--- a/parser.go
+++ b/parser.go
@@ -62,6 +62,9 @@ func (lst *errorListener) SyntaxError(recognizer antlr.Recognizer, offendingSymb
 // as string literals (i.e. quoted.)
 
 func Parse(input string) (Path, error) {
+	if input == "/" { // Join without any parts
+		return SelectRootPath, nil
+	}
 	errListener := errorListener{}
 	pr := getParser(input, &errListener)
 	if len(input) > 0 && input[0] == '/' {
-- 
2.43.0


From e9f86954fd97936f67817edbc1015663b386495c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 27/30] fix: expressions ask the document for the values of
 objects and arrays

---
 expression.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/expression.go b/expression.go
index 2293871..9c709c0 100644
--- a/expression.go
+++ b/expression.go
@@ -31,6 +31,23 @@ type nodeValue struct {
 	doc  DocModel
 }
 
+// getValue returns the value of a value node, and the elements of an
+// array node
+func (n nodeValue) getValue() any {
+	switch n.doc.Type(n.node) {
+	case ValueNode:
+		return n.doc.Value(n.node)
+	case ArrayNode:
+		l := n.doc.Len(n.node)
+		elems := make([]any, 0, l)
+		for i := 0; i < l; i++ {
+			elems = append(elems, n.doc.Elem(n.node, i))
+		}
+		return elems
+	}
+	return n
+}
+
 func (c exprValue) evaluate(*context) (exprValue, error) { return c, nil }
 
 // Return an int, float, bool, or string as int or float64. If not convertable, returns nil
@@ -61,7 +78,7 @@ func valueAsNumber(value any) any {
 			return f
 		}
 	}
-	if n, ok := value.(nodeValue); ok {
+	if n, ok := value.(nodeValue); ok && n.doc.Type(n.node) == ValueNode {
 		return valueAsNumber(n.doc.Value(n.node))
 	}
 	return nil
@@ -112,7 +129,7 @@ func (c exprValue) asBool() bool {
 func (c exprValue) getValue() any {
 	n, ok := c.value.(nodeValue)
 	if ok {
-		return n.doc.Value(n.node)
+		return n.getValue()
 	}
 	return c.value
 }
-- 
2.43.0


From e16ce2eb5cbbb53a9ada6edf0af4c2847bb1f89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:05 +0000
Subject: [PATCH 28/30] fix: string literals keep the LF of a CR LF line
 continuation

---
 expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression.go b/expression.go
index 9c709c0..2d0b1a6 100644
--- a/expression.go
+++ b/expression.go
@@ -1231,7 +1231,7 @@ func unescapeString(in string) string {
 			}
 		} else if r == '\\' {
 			esc = true
-		} else {
+		} else if r != '\r' && r != '\n' { // Only a line continuation has these, as in \ CR LF
 			out = append(out, r)
 		}
 	}
-- 
2.43.0


From 38b5dab9861bd810dc1ef72aace72b93bcb19cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:59 +0000
Subject: [PATCH 29/30] fix: negative indexes work in one of the integer
 notations only

---
 expression.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/expression.go b/expression.go
index 2d0b1a6..bafd140 100644
--- a/expression.go
+++ b/expression.go
@@ -791,7 +791,16 @@ func astExpression(ctx parser.IExpressionContext, inPath bool) (expression, erro
 		switch expr := ctx.(type) {
 		case *parser.LiteralExpressionContext:
 			return astLiteral(expr.Literal().(*parser.LiteralContext)), nil
-		case *parser.UnaryPlusExpressionContext, *parser.UnaryMinusExpressionContext, *parser.AdditiveExpressionContext:
+		case *parser.UnaryPlusExpressionContext, *parser.UnaryMinusExpressionContext:
+			if v, err := astExpression(ctx, false); err == nil {
+				if constant, ok := v.(exprValue); ok {
+					if _, ok := constant.value.(int); ok {
+						return constant, nil
+					}
+				}
+			}
+			return exprValue{value: expr.GetText()}, nil
+		case *parser.AdditiveExpressionContext:
 			return exprValue{value: expr.GetText()}, nil
 		case *parser.FilterExpressionContext:
 			x, err := astExpression(expr.Expression(), false)
-- 
2.43.0


From eda18a420f1f77fd943cb715b782641c424223c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:53 +0000
Subject: [PATCH 30/30] fix: paths that go on after a recursive descent are
 rejected in expressions

---
 expression.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/expression.go b/expression.go
index bafd140..2eda990 100644
--- a/expression.go
+++ b/expression.go
@@ -1132,6 +1132,14 @@ func astExpression(ctx parser.IExpressionContext, inPath bool) (expression, erro
 				if e := parse(c); e != nil {
 					return e, nil
 				}
+			case *parser.RecursiveDescentExpressionContext:
+				if e := parse(c); e != nil {
+					return e, nil
+				}
+			case *parser.RecursiveDescentTermExpressionContext:
+				if e := parse(c); e != nil {
+					return e, nil
+				}
 			}
 		}
 	}
-- 
2.43.0


From 9d73f124b33c1822503537a55ff66ea3acb6f399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 001/127] fix: keep comments before the closing bracket of an
 index or slice inside the statement

Such a comment was attached to the expression following the bracket. If that
expression is in the middle of a line, the formatter broke the line there and
printed a program that doesn't parse.
---
 build/lex.go | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/build/lex.go b/build/lex.go
index 30639ea..a3ec44c 100644
--- a/build/lex.go
+++ b/build/lex.go
@@ -207,6 +207,8 @@ type input struct {
 	// Comment assignment state.
 	pre  []Expr // all expressions, in preorder traversal
 	post []Expr // all expressions, in postorder traversal
+
+	closings []closingBracket // closing brackets that aren't represented by End nodes
 }
 
 func newInput(filename string, data []byte) *input {
@@ -793,9 +795,17 @@ func (in *input) order(v Expr) {
 		in.order(v.From)
 		in.order(v.To)
 		in.order(v.Step)
+		last := v.X
+		for _, x := range []Expr{v.From, v.To, v.Step} {
+			if x != nil {
+				last = x
+			}
+		}
+		in.orderClosing(v.End, last)
 	case *IndexExpr:
 		in.order(v.X)
 		in.order(v.Y)
+		in.orderClosing(v.End, v.Y)
 	case *LambdaExpr:
 		for _, param := range v.Params {
 			in.order(param)
@@ -837,6 +847,20 @@ func (in *input) order(v Expr) {
 	}
 }
 
+// closingBracket is a closing bracket of an index or slice expression. Such a bracket has no node
+// of its own, line comments before it belong to the last expression inside the brackets.
+type closingBracket struct {
+	end  *End
+	last Expr
+}
+
+// orderClosing adds a closing bracket to the preorder list.
+func (in *input) orderClosing(pos Position, last Expr) {
+	end := &End{Pos: pos}
+	in.pre = append(in.pre, end)
+	in.closings = append(in.closings, closingBracket{end, last})
+}
+
 // assignComments attaches comments to nearby syntax.
 func (in *input) assignComments() {
 	// Generate preorder and postorder lists.
@@ -893,6 +917,18 @@ func (in *input) assignLineComments() {
 		})
 	}
 
+	// Line comments before a closing bracket of an index or slice expression can't be assigned to
+	// the syntax following it because the bracket may be in the middle of a line.
+	// Turn them into end-of-line comments of the last expression inside the brackets.
+	for _, closing := range in.closings {
+		com := closing.last.Comment()
+		for _, before := range closing.end.Before {
+			if before.Token != "" {
+				com.Suffix = append(com.Suffix, before)
+			}
+		}
+	}
+
 	// Remaining line comments go at end of file.
 	in.file.After = append(in.file.After, line...)
 }
-- 
2.43.0


From 88332c5b958aee7189392fb6dbae1dbef0ba4494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:50 +0000
Subject: [PATCH 002/127] fix: keep the line continuation when a line is broken
 inside a bare tuple

A tuple without brackets was counted as a bracket pair, so a line break after
an operator in one of its elements was printed without a backslash.
---
 build/print.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/build/print.go b/build/print.go
index 0492dd4..4b263f5 100644
--- a/build/print.go
+++ b/build/print.go
@@ -1043,14 +1043,12 @@ func (p *printer) seq(brack string, start *Position, list *[]Expr, end *End, mod
 
 	if mode != modeSeq {
 		p.printf("%s", brack[:1])
-	}
-	p.depth++
-	defer func() {
-		p.depth--
-		if mode != modeSeq {
+		p.depth++
+		defer func() {
+			p.depth--
 			p.printf("%s", brack[1:])
-		}
-	}()
+		}()
+	}
 
 	if p.useCompactMode(start, args, end, mode, forceCompact, forceMultiLine) {
 		for i, x := range *args {
-- 
2.43.0


From 6e2e08bf564138706d01219682474998745d3792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 003/127] fix: always print a tuple without brackets compactly

With an end-of-line comment after one of its elements such a tuple (for
example in an index, a[b, c]) was printed one element per line with a trailing
comma, which doesn't parse.
---
 build/print.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/build/print.go b/build/print.go
index 4b263f5..186df32 100644
--- a/build/print.go
+++ b/build/print.go
@@ -961,6 +961,10 @@ const (
 
 // useCompactMode reports whether a sequence should be formatted in a compact mode
 func (p *printer) useCompactMode(start *Position, list *[]Expr, end *End, mode seqMode, forceCompact, forceMultiLine bool) bool {
+	// Implicit tuples are always compact
+	if mode == modeSeq {
+		return true
+	}
 	// If there are line comments, use multiline
 	// so we can print the comments before the closing bracket.
 	for _, x := range *list {
@@ -972,10 +976,6 @@ func (p *printer) useCompactMode(start *Position, list *[]Expr, end *End, mode s
 		return false
 	}
 
-	// Implicit tuples are always compact
-	if mode == modeSeq {
-		return true
-	}
 	// Use compact mode for empty call expressions if ForceMultiLine is not set
 	if mode == modeCall && len(*list) == 0 && !forceMultiLine {
 		return true
-- 
2.43.0


From d42f21a638e09d4e8e151e5f7d43da919072ac90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 004/127] fix: treat a comment after a one-line block like a
 comment after a block

A comment line following a block statement whose body is on the same line was
attached to the block statement and printed without a blank line; formatting
the result again turned it into a comment block and inserted one.
---
 build/parse.y    |   4 +-
 build/parse.y.go | 234 ++++++++++++++++++++++++-----------------------
 2 files changed, 121 insertions(+), 117 deletions(-)

diff --git a/build/parse.y b/build/parse.y
index 0eaf470..f68acb8 100644
--- a/build/parse.y
+++ b/build/parse.y
@@ -336,7 +336,9 @@ stmt:
 |	block_stmt
 	{
 		$$ = []Expr{$1}
-		$<lastStmt>$ = $1
+		// Comments following a block statement belong neither to the block nor to the statement,
+		// they form a comment block (or will be attached to the next statement).
+		$<lastStmt>$ = nil
 		if cbs := extractTrailingComments($1); len(cbs) > 0 {
 			$$ = append($$, cbs...)
 			$<lastStmt>$ = cbs[len(cbs)-1]
diff --git a/build/parse.y.go b/build/parse.y.go
index 11dec91..a772bd5 100644
--- a/build/parse.y.go
+++ b/build/parse.y.go
@@ -144,7 +144,7 @@ const yyEofCode = 1
 const yyErrCode = 2
 const yyInitialStackSize = 16
 
-//line build/parse.y:1058
+//line build/parse.y:1060
 
 // Go helper code.
 
@@ -1155,7 +1155,9 @@ yydefault:
 //line build/parse.y:337
 		{
 			yyVAL.exprs = []Expr{yyDollar[1].expr}
-			yyVAL.lastStmt = yyDollar[1].expr
+			// Comments following a block statement belong neither to the block nor to the statement,
+			// they form a comment block (or will be attached to the next statement).
+			yyVAL.lastStmt = nil
 			if cbs := extractTrailingComments(yyDollar[1].expr); len(cbs) > 0 {
 				yyVAL.exprs = append(yyVAL.exprs, cbs...)
 				yyVAL.lastStmt = cbs[len(cbs)-1]
@@ -1166,7 +1168,7 @@ yydefault:
 		}
 	case 15:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line build/parse.y:351
+//line build/parse.y:353
 		{
 			yyVAL.def_header = &DefStmt{
 				Function: Function{
@@ -1180,14 +1182,14 @@ yydefault:
 		}
 	case 17:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:366
+//line build/parse.y:368
 		{
 			yyDollar[1].def_header.Type = yyDollar[3].expr
 			yyVAL.def_header = yyDollar[1].def_header
 		}
 	case 18:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:373
+//line build/parse.y:375
 		{
 			yyDollar[1].def_header.Function.Body = yyDollar[3].exprs
 			yyDollar[1].def_header.ColonPos = yyDollar[2].pos
@@ -1196,7 +1198,7 @@ yydefault:
 		}
 	case 19:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line build/parse.y:380
+//line build/parse.y:382
 		{
 			yyVAL.expr = &ForStmt{
 				For:  yyDollar[1].pos,
@@ -1208,14 +1210,14 @@ yydefault:
 		}
 	case 20:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:390
+//line build/parse.y:392
 		{
 			yyVAL.expr = yyDollar[1].ifstmt
 			yyVAL.lastStmt = yyDollar[1].lastStmt
 		}
 	case 21:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:398
+//line build/parse.y:400
 		{
 			yyVAL.ifstmt = &IfStmt{
 				If:   yyDollar[1].pos,
@@ -1226,7 +1228,7 @@ yydefault:
 		}
 	case 22:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line build/parse.y:407
+//line build/parse.y:409
 		{
 			yyVAL.ifstmt = yyDollar[1].ifstmt
 			inner := yyDollar[1].ifstmt
@@ -1245,7 +1247,7 @@ yydefault:
 		}
 	case 24:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:428
+//line build/parse.y:430
 		{
 			yyVAL.ifstmt = yyDollar[1].ifstmt
 			inner := yyDollar[1].ifstmt
@@ -1258,26 +1260,26 @@ yydefault:
 		}
 	case 27:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:445
+//line build/parse.y:447
 		{
 			yyVAL.exprs = append([]Expr{yyDollar[1].expr}, yyDollar[2].exprs...)
 			yyVAL.lastStmt = yyVAL.exprs[len(yyVAL.exprs)-1]
 		}
 	case 28:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:451
+//line build/parse.y:453
 		{
 			yyVAL.exprs = []Expr{}
 		}
 	case 29:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:455
+//line build/parse.y:457
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
 		}
 	case 31:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:462
+//line build/parse.y:464
 		{
 			yyVAL.expr = &ReturnStmt{
 				Return: yyDollar[1].pos,
@@ -1286,7 +1288,7 @@ yydefault:
 		}
 	case 32:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:469
+//line build/parse.y:471
 		{
 			yyVAL.expr = &ReturnStmt{
 				Return: yyDollar[1].pos,
@@ -1294,19 +1296,19 @@ yydefault:
 		}
 	case 33:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:474
+//line build/parse.y:476
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 34:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:475
+//line build/parse.y:477
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 35:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:477
+//line build/parse.y:479
 		{
 			yyVAL.expr = &BranchStmt{
 				Token:    yyDollar[1].tok,
@@ -1315,7 +1317,7 @@ yydefault:
 		}
 	case 36:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:484
+//line build/parse.y:486
 		{
 			yyVAL.expr = &BranchStmt{
 				Token:    yyDollar[1].tok,
@@ -1324,7 +1326,7 @@ yydefault:
 		}
 	case 37:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:491
+//line build/parse.y:493
 		{
 			yyVAL.expr = &BranchStmt{
 				Token:    yyDollar[1].tok,
@@ -1333,13 +1335,13 @@ yydefault:
 		}
 	case 42:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:505
+//line build/parse.y:507
 		{
 			yyVAL.expr = yyDollar[1].string
 		}
 	case 43:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:509
+//line build/parse.y:511
 		{
 			yyVAL.expr = &DotExpr{
 				X:       yyDollar[1].expr,
@@ -1350,7 +1352,7 @@ yydefault:
 		}
 	case 44:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line build/parse.y:518
+//line build/parse.y:520
 		{
 			load := &LoadStmt{
 				Load:         yyDollar[1].pos,
@@ -1366,7 +1368,7 @@ yydefault:
 		}
 	case 45:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:532
+//line build/parse.y:534
 		{
 			yyVAL.expr = &CallExpr{
 				X:              yyDollar[1].expr,
@@ -1379,7 +1381,7 @@ yydefault:
 		}
 	case 46:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:543
+//line build/parse.y:545
 		{
 			yyVAL.expr = &IndexExpr{
 				X:          yyDollar[1].expr,
@@ -1390,7 +1392,7 @@ yydefault:
 		}
 	case 47:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line build/parse.y:552
+//line build/parse.y:554
 		{
 			yyVAL.expr = &SliceExpr{
 				X:          yyDollar[1].expr,
@@ -1403,7 +1405,7 @@ yydefault:
 		}
 	case 48:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line build/parse.y:563
+//line build/parse.y:565
 		{
 			yyVAL.expr = &SliceExpr{
 				X:           yyDollar[1].expr,
@@ -1418,7 +1420,7 @@ yydefault:
 		}
 	case 49:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:576
+//line build/parse.y:578
 		{
 			yyVAL.expr = &ListExpr{
 				Start:          yyDollar[1].pos,
@@ -1429,7 +1431,7 @@ yydefault:
 		}
 	case 50:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:585
+//line build/parse.y:587
 		{
 			yyVAL.expr = &Comprehension{
 				Curly:          false,
@@ -1442,7 +1444,7 @@ yydefault:
 		}
 	case 51:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:596
+//line build/parse.y:598
 		{
 			yyVAL.expr = &Comprehension{
 				Curly:          true,
@@ -1455,7 +1457,7 @@ yydefault:
 		}
 	case 52:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:607
+//line build/parse.y:609
 		{
 			exprValues := make([]Expr, 0, len(yyDollar[2].kvs))
 			for _, kv := range yyDollar[2].kvs {
@@ -1470,7 +1472,7 @@ yydefault:
 		}
 	case 53:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:620
+//line build/parse.y:622
 		{
 			yyVAL.expr = &SetExpr{
 				Start:          yyDollar[1].pos,
@@ -1481,7 +1483,7 @@ yydefault:
 		}
 	case 54:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:629
+//line build/parse.y:631
 		{
 			if len(yyDollar[2].exprs) == 1 && yyDollar[2].comma.Line == 0 {
 				// Just a parenthesized expression, not a tuple.
@@ -1503,49 +1505,49 @@ yydefault:
 		}
 	case 55:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:650
+//line build/parse.y:652
 		{
 			yyVAL.exprs = nil
 		}
 	case 56:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:654
+//line build/parse.y:656
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 		}
 	case 57:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:660
+//line build/parse.y:662
 		{
 			yyVAL.exprs = []Expr{yyDollar[2].expr}
 		}
 	case 58:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:664
+//line build/parse.y:666
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
 		}
 	case 60:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:671
+//line build/parse.y:673
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 61:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:675
+//line build/parse.y:677
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 62:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:679
+//line build/parse.y:681
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 63:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:684
+//line build/parse.y:686
 		{
 			yyVAL.loadargs = []*struct {
 				from Ident
@@ -1554,14 +1556,14 @@ yydefault:
 		}
 	case 64:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:688
+//line build/parse.y:690
 		{
 			yyDollar[1].loadargs = append(yyDollar[1].loadargs, yyDollar[3].loadarg)
 			yyVAL.loadargs = yyDollar[1].loadargs
 		}
 	case 65:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:694
+//line build/parse.y:696
 		{
 			start := yyDollar[1].string.Start.add("'")
 			if yyDollar[1].string.TripleQuote {
@@ -1583,7 +1585,7 @@ yydefault:
 		}
 	case 66:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:711
+//line build/parse.y:713
 		{
 			start := yyDollar[3].string.Start.add("'")
 			if yyDollar[3].string.TripleQuote {
@@ -1602,103 +1604,103 @@ yydefault:
 		}
 	case 67:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:726
+//line build/parse.y:728
 		{
 			yyVAL.exprs = nil
 		}
 	case 68:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:730
+//line build/parse.y:732
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 		}
 	case 69:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:735
+//line build/parse.y:737
 		{
 			yyVAL.exprs = nil
 		}
 	case 70:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:739
+//line build/parse.y:741
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 		}
 	case 71:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:745
+//line build/parse.y:747
 		{
 			yyVAL.exprs = []Expr{yyDollar[1].expr}
 		}
 	case 72:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:749
+//line build/parse.y:751
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
 		}
 	case 73:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:756
+//line build/parse.y:758
 		{
 			yyVAL.exprs = []Expr{yyDollar[1].expr}
 		}
 	case 74:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:760
+//line build/parse.y:762
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
 		}
 	case 76:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:767
+//line build/parse.y:769
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 77:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:771
+//line build/parse.y:773
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 78:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:775
+//line build/parse.y:777
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, nil)
 		}
 	case 79:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:779
+//line build/parse.y:781
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 81:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:788
+//line build/parse.y:790
 		{
 			yyVAL.expr = typed(yyDollar[1].expr, yyDollar[3].expr)
 		}
 	case 82:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line build/parse.y:792
+//line build/parse.y:794
 		{
 			yyVAL.expr = binary(typed(yyDollar[1].expr, yyDollar[3].expr), yyDollar[4].pos, yyDollar[4].tok, yyDollar[5].expr)
 		}
 	case 83:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:796
+//line build/parse.y:798
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, typed(yyDollar[2].expr, yyDollar[4].expr))
 		}
 	case 84:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:800
+//line build/parse.y:802
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, typed(yyDollar[2].expr, yyDollar[4].expr))
 		}
 	case 86:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:807
+//line build/parse.y:809
 		{
 			tuple, ok := yyDollar[1].expr.(*TupleExpr)
 			if !ok || !tuple.NoBrackets {
@@ -1714,13 +1716,13 @@ yydefault:
 		}
 	case 87:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:822
+//line build/parse.y:824
 		{
 			yyVAL.expr = nil
 		}
 	case 90:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:830
+//line build/parse.y:832
 		{
 			yyVAL.expr = &LambdaExpr{
 				Function: Function{
@@ -1732,157 +1734,157 @@ yydefault:
 		}
 	case 91:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:839
+//line build/parse.y:841
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 92:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:840
+//line build/parse.y:842
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 93:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:841
+//line build/parse.y:843
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 94:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:842
+//line build/parse.y:844
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 95:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:843
+//line build/parse.y:845
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 96:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:844
+//line build/parse.y:846
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 97:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:845
+//line build/parse.y:847
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 98:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:846
+//line build/parse.y:848
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 99:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:847
+//line build/parse.y:849
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 100:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:848
+//line build/parse.y:850
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 101:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:849
+//line build/parse.y:851
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 102:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:850
+//line build/parse.y:852
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 103:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:851
+//line build/parse.y:853
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 104:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:852
+//line build/parse.y:854
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 105:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:853
+//line build/parse.y:855
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 106:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:854
+//line build/parse.y:856
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 107:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:855
+//line build/parse.y:857
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 108:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:856
+//line build/parse.y:858
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, "not in", yyDollar[4].expr)
 		}
 	case 109:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:857
+//line build/parse.y:859
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 110:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:858
+//line build/parse.y:860
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 111:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:859
+//line build/parse.y:861
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 112:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:860
+//line build/parse.y:862
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 113:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:861
+//line build/parse.y:863
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 114:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:862
+//line build/parse.y:864
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 115:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:863
+//line build/parse.y:865
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 116:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:865
+//line build/parse.y:867
 		{
 			if b, ok := yyDollar[3].expr.(*UnaryExpr); ok && b.Op == "not" {
 				yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, "is not", b.X)
@@ -1892,7 +1894,7 @@ yydefault:
 		}
 	case 117:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line build/parse.y:873
+//line build/parse.y:875
 		{
 			yyVAL.expr = &ConditionalExpr{
 				Then:      yyDollar[1].expr,
@@ -1904,55 +1906,55 @@ yydefault:
 		}
 	case 118:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:885
+//line build/parse.y:887
 		{
 			yyVAL.exprs = []Expr{yyDollar[1].expr}
 		}
 	case 119:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:889
+//line build/parse.y:891
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
 		}
 	case 120:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:894
+//line build/parse.y:896
 		{
 			yyVAL.expr = nil
 		}
 	case 122:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:900
+//line build/parse.y:902
 		{
 			yyVAL.exprs, yyVAL.comma = nil, Position{}
 		}
 	case 123:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:904
+//line build/parse.y:906
 		{
 			yyVAL.exprs, yyVAL.comma = yyDollar[1].exprs, yyDollar[2].pos
 		}
 	case 124:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:914
+//line build/parse.y:916
 		{
 			yyVAL.pos = Position{}
 		}
 	case 127:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:925
+//line build/parse.y:927
 		{
 			yyVAL.pos = yyDollar[1].pos
 		}
 	case 128:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:933
+//line build/parse.y:935
 		{
 			yyVAL.pos = Position{}
 		}
 	case 130:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:940
+//line build/parse.y:942
 		{
 			yyVAL.kv = &KeyValueExpr{
 				Key:   yyDollar[1].expr,
@@ -1962,37 +1964,37 @@ yydefault:
 		}
 	case 131:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:950
+//line build/parse.y:952
 		{
 			yyVAL.kvs = []*KeyValueExpr{yyDollar[1].kv}
 		}
 	case 132:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:954
+//line build/parse.y:956
 		{
 			yyVAL.kvs = append(yyDollar[1].kvs, yyDollar[3].kv)
 		}
 	case 133:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:959
+//line build/parse.y:961
 		{
 			yyVAL.kvs = nil
 		}
 	case 134:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:963
+//line build/parse.y:965
 		{
 			yyVAL.kvs = yyDollar[1].kvs
 		}
 	case 135:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:967
+//line build/parse.y:969
 		{
 			yyVAL.kvs = yyDollar[1].kvs
 		}
 	case 137:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:974
+//line build/parse.y:976
 		{
 			tuple, ok := yyDollar[1].expr.(*TupleExpr)
 			if !ok || !tuple.NoBrackets {
@@ -2008,7 +2010,7 @@ yydefault:
 		}
 	case 138:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:990
+//line build/parse.y:992
 		{
 			yyVAL.string = &StringExpr{
 				Start:       yyDollar[1].pos,
@@ -2020,37 +2022,37 @@ yydefault:
 		}
 	case 139:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:1002
+//line build/parse.y:1004
 		{
 			yyVAL.expr = &Ident{NamePos: yyDollar[1].pos, Name: yyDollar[1].tok}
 		}
 	case 140:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:1008
+//line build/parse.y:1010
 		{
 			yyVAL.expr = &LiteralExpr{Start: yyDollar[1].pos, Token: yyDollar[1].tok + "." + yyDollar[3].tok}
 		}
 	case 141:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:1012
+//line build/parse.y:1014
 		{
 			yyVAL.expr = &LiteralExpr{Start: yyDollar[1].pos, Token: yyDollar[1].tok + "."}
 		}
 	case 142:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:1016
+//line build/parse.y:1018
 		{
 			yyVAL.expr = &LiteralExpr{Start: yyDollar[1].pos, Token: "." + yyDollar[2].tok}
 		}
 	case 143:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:1020
+//line build/parse.y:1022
 		{
 			yyVAL.expr = &LiteralExpr{Start: yyDollar[1].pos, Token: yyDollar[1].tok}
 		}
 	case 144:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:1026
+//line build/parse.y:1028
 		{
 			yyVAL.expr = &ForClause{
 				For:  yyDollar[1].pos,
@@ -2061,13 +2063,13 @@ yydefault:
 		}
 	case 145:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:1037
+//line build/parse.y:1039
 		{
 			yyVAL.exprs = []Expr{yyDollar[1].expr}
 		}
 	case 146:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:1041
+//line build/parse.y:1043
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, &IfClause{
 				If:   yyDollar[2].pos,
@@ -2076,13 +2078,13 @@ yydefault:
 		}
 	case 147:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:1050
+//line build/parse.y:1052
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 		}
 	case 148:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:1054
+//line build/parse.y:1056
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[2].exprs...)
 		}
-- 
2.43.0


From d6f011c857f978cf99196c48c724d6b1a1aa4d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 005/127] fix: print pending end-of-line comments before
 whole-line comments

If a whole-line comment follows in the middle of an expression, a pending
end-of-line comment was appended to it instead of ending the current line.
---
 build/print.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/build/print.go b/build/print.go
index 186df32..0c56827 100644
--- a/build/print.go
+++ b/build/print.go
@@ -575,11 +575,13 @@ func (p *printer) expr(v Expr, outerPrec int) {
 		// Line comments must be at the current margin.
 		p.trim()
 		if p.indent() > 0 {
-			// There's other text on the line. Start a new line.
-			p.printf("\n")
+			// There's other text on the line. Start a new line,
+			// flushing the pending end-of-line comments.
+			p.newline()
+		} else {
+			// Re-indent to margin.
+			p.printf("%*s", p.margin, "")
 		}
-		// Re-indent to margin.
-		p.printf("%*s", p.margin, "")
 		for _, com := range before {
 			p.printf("%s", strings.TrimSpace(com.Token))
 			p.newline()
-- 
2.43.0


From 5ee9f7f19c7c33028e5f3877f8d072fbfd8cc17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 006/127] fix: keep an end-of-line comment after the closing
 bracket of an if or for header

A comment after a line consisting of "):" was always moved into the body. This
is only needed for function headers; for other headers the comment has been
printed in that place by the formatter itself, and formatting its output again
moved it.
---
 build/lex.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/build/lex.go b/build/lex.go
index a3ec44c..977d5c6 100644
--- a/build/lex.go
+++ b/build/lex.go
@@ -199,6 +199,7 @@ type input struct {
 	cleanLine      bool      // true if the current line only contains whitespace before the current position
 	indent         int       // current line indentation in spaces
 	indents        []int     // stack of indentation levels in spaces
+	inDef          bool      // true if the current logical line is a function header
 
 	// Parser state.
 	file       *File // returned top-level syntax tree
@@ -351,6 +352,7 @@ func (in *input) Lex(val *yySymType) int {
 				in.indent = 0
 				in.cleanLine = true
 				if in.depth == 0 {
+					in.inDef = false
 					// Not in a statememt. Tell parser about top-level blank line.
 					in.startToken(val)
 					in.readRune()
@@ -378,7 +380,7 @@ func (in *input) Lex(val *yySymType) int {
 			// spaces from there to here.
 			// If it's a suffix comment but the last non-space symbol before
 			// it is one of (, [, or {, or it's a suffix comment to "):"
-			// (e.g. trailing closing bracket or a function definition),
+			// of a function definition,
 			// treat it as a line comment that should be
 			// put inside the corresponding block.
 			i := bytes.LastIndex(in.complete[:in.pos.Byte], []byte("\n"))
@@ -386,7 +388,7 @@ func (in *input) Lex(val *yySymType) int {
 			prefix = bytes.Replace(prefix, []byte{' '}, []byte{}, -1)
 			isSuffix := true
 			if len(prefix) == 0 ||
-				(len(prefix) == 2 && prefix[0] == ')' && prefix[1] == ':') ||
+				(in.inDef && len(prefix) == 2 && prefix[0] == ')' && prefix[1] == ':') ||
 				prefix[len(prefix)-1] == '[' ||
 				prefix[len(prefix)-1] == '(' ||
 				prefix[len(prefix)-1] == '{' {
@@ -643,6 +645,9 @@ func (in *input) Lex(val *yySymType) int {
 	// so we can look to see if val.tok is a keyword.
 	in.endToken(val)
 	if k := keywordToken[val.tok]; k != 0 {
+		if k == _DEF {
+			in.inDef = true
+		}
 		return k
 	}
 	switch val.tok {
-- 
2.43.0


From 2df6b75dddb511482a669b1e029407f60fca3713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:57 +0000
Subject: [PATCH 007/127] fix: indent all end-of-line comments of the last
 element of a sequence alike

If several comments follow the last element, all but the first one were
printed with the indentation of the closing bracket, and formatting the result
again indented them.
---
 build/print.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/build/print.go b/build/print.go
index 0c56827..9cba2b7 100644
--- a/build/print.go
+++ b/build/print.go
@@ -118,6 +118,14 @@ func (p *printer) indent() int {
 // in brackets of some kind, use breakline instead.
 func (p *printer) newline() {
 	p.needsNewLine = false
+	p.flushComments()
+	p.trim()
+	p.printf("\n%*s", p.margin, "")
+}
+
+// flushComments prints the pending end-of-line comments at the end of the current line.
+// It must be followed by a newline.
+func (p *printer) flushComments() {
 	if len(p.comment) > 0 {
 		p.printf("  ")
 		for i, com := range p.comment {
@@ -129,9 +137,6 @@ func (p *printer) newline() {
 		}
 		p.comment = p.comment[:0]
 	}
-
-	p.trim()
-	p.printf("\n%*s", p.margin, "")
 }
 
 // softNewline postpones a call to newline to the next call of p.newlineIfNeeded()
@@ -1098,6 +1103,10 @@ func (p *printer) seq(brack string, start *Position, list *[]Expr, end *End, mod
 			p.printf("%s", strings.TrimSpace(com.Token))
 		}
 	}
+	if mode != modeDef {
+		// Print the end-of-line comments of the last element with its own indentation.
+		p.flushComments()
+	}
 	p.margin -= indentation
 	// in modeDef print the closing bracket on the same line
 	if mode != modeDef {
@@ -1172,6 +1181,7 @@ func (p *printer) listFor(v *Comprehension) {
 			p.newline()
 			p.printf("%s", strings.TrimSpace(com.Token))
 		}
+		p.flushComments()
 		p.margin -= listIndentation
 		p.newline()
 	}
-- 
2.43.0


From 9b91dc347a74bb733d243cf3bb0007680d5d6bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:57 +0000
Subject: [PATCH 008/127] fix: keep parentheses around a number whose attribute
 is accessed

(1).foo was rewritten to 1.foo, which is not valid.
---
 build/print.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/build/print.go b/build/print.go
index 9cba2b7..e701447 100644
--- a/build/print.go
+++ b/build/print.go
@@ -478,6 +478,12 @@ func isFunctionDefinition(x Expr) bool {
 	return ok
 }
 
+// isNumber checks if the expression is a numeric literal
+func isNumber(x Expr) bool {
+	literal, ok := x.(*LiteralExpr)
+	return ok && literal.Token != "" && (literal.Token[0] == '.' || '0' <= literal.Token[0] && literal.Token[0] <= '9')
+}
+
 // isDifferentLines reports whether two positions belong to different lines.
 // If one of the positions is null (Line == 0), it's not a real position but probably an indicator
 // of manually inserted node. Return false in this case
@@ -666,7 +672,16 @@ func (p *printer) expr(v Expr, outerPrec int) {
 
 	case *DotExpr:
 		addParen(precSuffix)
-		p.expr(v.X, precSuffix)
+		if isNumber(v.X) {
+			// `1.foo` is not an attribute of a number.
+			p.printf("(")
+			p.depth++
+			p.expr(v.X, precLow)
+			p.depth--
+			p.printf(")")
+		} else {
+			p.expr(v.X, precSuffix)
+		}
 		_, xEnd := v.X.Span()
 		isMultiline := isDifferentLines(&v.NamePos, &xEnd)
 		if isMultiline {
-- 
2.43.0


From c8cb4c6236818af931ebbcb44fc8532ce4549dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:27 +0000
Subject: [PATCH 009/127] fix: print commented aliased symbols of a load
 statement in multi-line form

The comments of an aliased symbol were not seen when deciding whether a load
statement can be compact, so it was broken in the middle of a line.
---
 build/print.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/build/print.go b/build/print.go
index e701447..2c1250b 100644
--- a/build/print.go
+++ b/build/print.go
@@ -828,11 +828,18 @@ func (p *printer) expr(v Expr, outerPrec int) {
 				arg = from.asString()
 				arg.Comment().Before = to.Comment().Before
 			} else {
+				// Comments of the parts belong to the whole argument.
+				lhs, rhs := *to, from.asString()
 				arg = &AssignExpr{
-					LHS: to,
+					Comments: Comments{
+						Before: lhs.Before,
+						Suffix: rhs.Suffix,
+					},
+					LHS: &lhs,
 					Op:  "=",
-					RHS: from.asString(),
+					RHS: rhs,
 				}
+				lhs.Before, rhs.Suffix = nil, nil
 			}
 			args = append(args, arg)
 		}
-- 
2.43.0


From e409daab1ee720bcb1ee1a89943d8e40e92e9d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:10 +0000
Subject: [PATCH 010/127] fix: don't indent docstrings deeper for each
 preceding elif

A function nested in an elif block got a docstring indentation counting the
elif blocks as nested, and the docstring moved with every formatting.
---
 build/print.go   | 34 ++++++++++++++++++++--------------
 build/rewrite.go |  6 ++++++
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/build/print.go b/build/print.go
index 2c1250b..d71d3d0 100644
--- a/build/print.go
+++ b/build/print.go
@@ -923,22 +923,11 @@ func (p *printer) expr(v Expr, outerPrec int) {
 			_, end := block.True[len(block.True)-1].Span()
 			needsEmptyLine = block.ElsePos.Pos.Line-end.Line > 1
 
-			// If the else-block contains just one statement which is an IfStmt, flatten it as a part
-			// of if-elif chain.
-			// Don't do it if the "else" statement has a suffix comment or if the next "if" statement
-			// has a before-comment.
-			if len(block.False) != 1 {
+			next := elifBlock(block)
+			if next == nil {
 				break
 			}
-			next, ok := block.False[0].(*IfStmt)
-			if !ok {
-				break
-			}
-			if len(block.ElsePos.Comment().Suffix) == 0 && len(next.Comment().Before) == 0 {
-				block = next
-				continue
-			}
-			break
+			block = next
 		}
 
 		if len(block.False) > 0 {
@@ -971,6 +960,23 @@ func (p *printer) expr(v Expr, outerPrec int) {
 	p.comment = append(p.comment, v.Comment().Suffix...)
 }
 
+// elifBlock returns the IfStmt that is the only statement of the else-block of the given IfStmt and
+// is printed as its elif-block, or nil.
+func elifBlock(block *IfStmt) *IfStmt {
+	// If the else-block contains just one statement which is an IfStmt, flatten it as a part
+	// of if-elif chain.
+	// Don't do it if the "else" statement has a suffix comment or if the next "if" statement
+	// has a before-comment.
+	if len(block.False) != 1 {
+		return nil
+	}
+	next, ok := block.False[0].(*IfStmt)
+	if !ok || len(block.ElsePos.Comment().Suffix) > 0 || len(next.Comment().Before) > 0 {
+		return nil
+	}
+	return next
+}
+
 // A seqMode describes a formatting mode for a sequence of values,
 // like a list or call arguments.
 type seqMode int
diff --git a/build/rewrite.go b/build/rewrite.go
index e500beb..57d60e5 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -1306,6 +1306,12 @@ func formatDocstrings(f *File, _ *Rewriter) {
 
 		oldIndentation := docstring.Start.LineRune - 1 // LineRune starts with 1
 		newIndentation := nestedIndentation * len(stk)
+		for i := 1; i < len(stk); i++ {
+			// elif-blocks are nested in the tree but not in the file
+			if parent, ok := stk[i-1].(*IfStmt); ok && stk[i] == Expr(elifBlock(parent)) {
+				newIndentation -= nestedIndentation
+			}
+		}
 
 		// Operate on Token, not Value, because their line breaks can be different if a line ends with
 		// a backslash.
-- 
2.43.0


From 6d3ef6edbd144ddf643907882935ff64a9cbe65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:12 +0000
Subject: [PATCH 011/127] fix: print a comprehension in multi-line form if a
 clause has a comment before it

---
 build/print.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/build/print.go b/build/print.go
index d71d3d0..560b350 100644
--- a/build/print.go
+++ b/build/print.go
@@ -1174,6 +1174,11 @@ func needsTrailingComma(mode seqMode, v Expr) bool {
 //	]
 func (p *printer) listFor(v *Comprehension) {
 	multiLine := v.ForceMultiLine || len(v.End.Before) > 0
+	for _, c := range v.Clauses {
+		if len(c.Comment().Before) > 0 {
+			multiLine = true
+		}
+	}
 
 	// space breaks the line in multiline mode
 	// or else prints a space.
-- 
2.43.0


From 316c1eb11bf9fd06766907802d473be837863f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:06 +0000
Subject: [PATCH 012/127] fix: print end-of-line comments of a statement with
 its own indentation

Comments after the last statement of a block were printed after leaving the
block, a second comment ended up outside of it. Also attach comments before a
closing bracket of an index to the whole expression.
---
 build/lex.go   | 22 ++++++++--------------
 build/print.go |  3 +++
 2 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/build/lex.go b/build/lex.go
index 977d5c6..4b722b5 100644
--- a/build/lex.go
+++ b/build/lex.go
@@ -800,17 +800,11 @@ func (in *input) order(v Expr) {
 		in.order(v.From)
 		in.order(v.To)
 		in.order(v.Step)
-		last := v.X
-		for _, x := range []Expr{v.From, v.To, v.Step} {
-			if x != nil {
-				last = x
-			}
-		}
-		in.orderClosing(v.End, last)
+		in.orderClosing(v.End, v)
 	case *IndexExpr:
 		in.order(v.X)
 		in.order(v.Y)
-		in.orderClosing(v.End, v.Y)
+		in.orderClosing(v.End, v)
 	case *LambdaExpr:
 		for _, param := range v.Params {
 			in.order(param)
@@ -853,17 +847,17 @@ func (in *input) order(v Expr) {
 }
 
 // closingBracket is a closing bracket of an index or slice expression. Such a bracket has no node
-// of its own, line comments before it belong to the last expression inside the brackets.
+// of its own, line comments before it belong to the expression it closes.
 type closingBracket struct {
 	end  *End
-	last Expr
+	expr Expr
 }
 
 // orderClosing adds a closing bracket to the preorder list.
-func (in *input) orderClosing(pos Position, last Expr) {
+func (in *input) orderClosing(pos Position, expr Expr) {
 	end := &End{Pos: pos}
 	in.pre = append(in.pre, end)
-	in.closings = append(in.closings, closingBracket{end, last})
+	in.closings = append(in.closings, closingBracket{end, expr})
 }
 
 // assignComments attaches comments to nearby syntax.
@@ -924,9 +918,9 @@ func (in *input) assignLineComments() {
 
 	// Line comments before a closing bracket of an index or slice expression can't be assigned to
 	// the syntax following it because the bracket may be in the middle of a line.
-	// Turn them into end-of-line comments of the last expression inside the brackets.
+	// Turn them into end-of-line comments of the expression.
 	for _, closing := range in.closings {
-		com := closing.last.Comment()
+		com := closing.expr.Comment()
 		for _, before := range closing.end.Before {
 			if before.Token != "" {
 				com.Suffix = append(com.Suffix, before)
diff --git a/build/print.go b/build/print.go
index 560b350..5af8376 100644
--- a/build/print.go
+++ b/build/print.go
@@ -150,7 +150,10 @@ func (p *printer) flushComments() {
 //
 // the last statement (`pass`) doesn't end with a newline, each block ends with a lazy newline
 // which actually gets printed only once when right before the next statement (`foo()`) is printed.
+//
+// The end-of-line comments are printed immediately, with the current indentation.
 func (p *printer) softNewline() {
+	p.flushComments()
 	p.needsNewLine = true
 }
 
-- 
2.43.0


From b67c1bb5404fafad1cc898beaa32106b0495302c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:11 +0000
Subject: [PATCH 013/127] fix: keep comments before an attribute name next to
 the object

A whole-line comment in a broken chain of attribute accesses was attached to
the expression following the name and could be printed in the middle of a line.
---
 build/lex.go | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/build/lex.go b/build/lex.go
index 4b722b5..71f1ee0 100644
--- a/build/lex.go
+++ b/build/lex.go
@@ -209,7 +209,7 @@ type input struct {
 	pre  []Expr // all expressions, in preorder traversal
 	post []Expr // all expressions, in postorder traversal
 
-	closings []closingBracket // closing brackets that aren't represented by End nodes
+	inner []innerToken // tokens that aren't represented by End nodes but may follow line comments
 }
 
 func newInput(filename string, data []byte) *input {
@@ -744,6 +744,7 @@ func (in *input) order(v Expr) {
 		// nothing
 	case *DotExpr:
 		in.order(v.X)
+		in.orderInner(v.NamePos, v.X)
 	case *ListExpr:
 		for _, x := range v.List {
 			in.order(x)
@@ -800,11 +801,11 @@ func (in *input) order(v Expr) {
 		in.order(v.From)
 		in.order(v.To)
 		in.order(v.Step)
-		in.orderClosing(v.End, v)
+		in.orderInner(v.End, v)
 	case *IndexExpr:
 		in.order(v.X)
 		in.order(v.Y)
-		in.orderClosing(v.End, v)
+		in.orderInner(v.End, v)
 	case *LambdaExpr:
 		for _, param := range v.Params {
 			in.order(param)
@@ -846,18 +847,19 @@ func (in *input) order(v Expr) {
 	}
 }
 
-// closingBracket is a closing bracket of an index or slice expression. Such a bracket has no node
-// of its own, line comments before it belong to the expression it closes.
-type closingBracket struct {
+// innerToken is a token in the middle of an expression that has no node of its own: a closing
+// bracket of an index or slice expression or a name following a dot.
+// Line comments before it belong to the given expression.
+type innerToken struct {
 	end  *End
 	expr Expr
 }
 
-// orderClosing adds a closing bracket to the preorder list.
-func (in *input) orderClosing(pos Position, expr Expr) {
+// orderInner adds an inner token to the preorder list.
+func (in *input) orderInner(pos Position, expr Expr) {
 	end := &End{Pos: pos}
 	in.pre = append(in.pre, end)
-	in.closings = append(in.closings, closingBracket{end, expr})
+	in.inner = append(in.inner, innerToken{end, expr})
 }
 
 // assignComments attaches comments to nearby syntax.
@@ -916,12 +918,12 @@ func (in *input) assignLineComments() {
 		})
 	}
 
-	// Line comments before a closing bracket of an index or slice expression can't be assigned to
-	// the syntax following it because the bracket may be in the middle of a line.
-	// Turn them into end-of-line comments of the expression.
-	for _, closing := range in.closings {
-		com := closing.expr.Comment()
-		for _, before := range closing.end.Before {
+	// Line comments before a token that has no node of its own can't be assigned to the syntax
+	// following it because the token may be in the middle of a line.
+	// Turn them into end-of-line comments.
+	for _, inner := range in.inner {
+		com := inner.expr.Comment()
+		for _, before := range inner.end.Before {
 			if before.Token != "" {
 				com.Suffix = append(com.Suffix, before)
 			}
-- 
2.43.0


From 36a6204bb5ca9fc3877b8d34e5c1a3cd5f926d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:52 +0000
Subject: [PATCH 014/127] fix: don't print end-of-line comments after an
 opening bracket

A comment after an opening bracket is read as a comment of its contents. This
was already avoided for non-empty lists, but not for empty ones and for
comprehensions.
---
 build/print.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/build/print.go b/build/print.go
index 5af8376..36c9546 100644
--- a/build/print.go
+++ b/build/print.go
@@ -1107,19 +1107,9 @@ func (p *printer) seq(brack string, start *Position, list *[]Expr, end *End, mod
 		indentation = defIndentation
 	}
 	p.margin += indentation
+	p.delayComments()
 
 	for i, x := range *args {
-		// If we are about to break the line before the first
-		// element and there are trailing end-of-line comments
-		// waiting to be printed, delay them and print them as
-		// whole-line comments preceding that element.
-		// Do this by printing a newline ourselves and positioning
-		// so that the end-of-line comment, with the two spaces added,
-		// will line up with the current margin.
-		if i == 0 && len(p.comment) > 0 {
-			p.printf("\n%*s", p.margin-2, "")
-		}
-
 		p.newline()
 		p.expr(x, precLow)
 
@@ -1145,6 +1135,21 @@ func (p *printer) seq(brack string, start *Position, list *[]Expr, end *End, mod
 	}
 }
 
+// delayComments is called after an opening bracket if a line break follows.
+//
+// If we are about to break the line before the first
+// element and there are trailing end-of-line comments
+// waiting to be printed, delay them and print them as
+// whole-line comments preceding that element.
+// Do this by printing a newline ourselves and positioning
+// so that the end-of-line comment, with the two spaces added,
+// will line up with the current margin.
+func (p *printer) delayComments() {
+	if len(p.comment) > 0 {
+		p.printf("\n%*s", p.margin-2, "")
+	}
+}
+
 func needsTrailingComma(mode seqMode, v Expr) bool {
 	switch mode {
 	case modeDef:
@@ -1202,6 +1207,7 @@ func (p *printer) listFor(v *Comprehension) {
 
 	if multiLine {
 		p.margin += listIndentation
+		p.delayComments()
 		p.newline()
 	}
 
-- 
2.43.0


From 482782a209ac6344d45b0dfc56d40f07ce35c527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:17 +0000
Subject: [PATCH 015/127] fix: keep comments before a duplicate string at the
 end of a list

deduplicateStringExprs moves comments of a removed element to the next element,
but dropped them if there is none.
---
 build/rewrite.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index 57d60e5..bc5bfd3 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -537,13 +537,14 @@ func deduplicateStringList(x Expr) {
 		return
 	}
 
-	list.List = deduplicateStringExprs(list.List)
+	list.List = deduplicateStringExprs(list.List, &list.End)
 }
 
 // deduplicateStringExprs removes duplicate string expressions from a slice
 // without reordering its elements.
-// Any suffix-comments are lost, any before- and after-comments are preserved.
-func deduplicateStringExprs(list []Expr) []Expr {
+// Any suffix-comments are lost, any before- and after-comments are preserved. If no element follows
+// a removed one, its comments are moved before the end of the list.
+func deduplicateStringExprs(list []Expr, end *End) []Expr {
 	var comments []Comment
 	alreadySeen := make(map[string]bool)
 	var deduplicated []Expr
@@ -569,6 +570,9 @@ func deduplicateStringExprs(list []Expr) []Expr {
 		}
 		deduplicated = append(deduplicated, value)
 	}
+	if len(comments) > 0 {
+		end.Before = append(comments, end.Before...)
+	}
 	return deduplicated
 }
 
@@ -582,7 +586,7 @@ func SortStringList(x Expr) {
 	}
 
 	if doNotSort(list.List[0]) {
-		list.List = deduplicateStringExprs(list.List)
+		list.List = deduplicateStringExprs(list.List, &list.End)
 		return
 	}
 
@@ -1198,7 +1202,7 @@ func sortUseRepoPositionals(f *File, _ *Rewriter) {
 			// Respect the "do not sort" comment on both the first argument and the first repository
 			// name.
 			if doNotSort(call) || doNotSort(call.List[0]) || doNotSort(call.List[1]) {
-				call.List = deduplicateStringExprs(call.List)
+				call.List = deduplicateStringExprs(call.List, &call.End)
 			} else {
 				// Keyword arguments do not have to be sorted here as this has already been done by
 				// the generic callsort rewriter pass.
-- 
2.43.0


From 501309e4c8d63ccf5fe3198099a5a0ee10b80e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:29 +0000
Subject: [PATCH 016/127] fix: keep comments of merged load statements and
 duplicate loaded symbols

Comments attached to a load statement were dropped when its symbols were merged
into another load statement of the same file, and so were comments attached to
a repeated symbol.
---
 build/rewrite.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index bc5bfd3..3702f9f 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -1049,6 +1049,7 @@ func compressSameOriginLoads(f *File, _ *Rewriter) {
 		}
 
 		// Move loaded symbols to the existing load statement
+		moveLoadComments(previousLoad, load)
 		previousLoad.From = append(previousLoad.From, load.From...)
 		previousLoad.To = append(previousLoad.To, load.To...)
 		// Remove the current statement
@@ -1056,6 +1057,24 @@ func compressSameOriginLoads(f *File, _ *Rewriter) {
 	}
 }
 
+// moveLoadComments preserves comments of a load statement whose symbols are about to be moved to
+// another load statement.
+func moveLoadComments(to, from *LoadStmt) {
+	before := append([]Comment{}, from.Before...)
+	before = append(before, from.Module.Before...)
+	before = append(before, from.Module.Suffix...)
+	if len(from.To) > 0 {
+		first, last := from.To[0], from.From[len(from.From)-1]
+		first.Comment().Before = append(before, first.Before...)
+		last.Comment().Suffix = append(last.Suffix, from.Suffix...)
+	} else {
+		to.Comment().Before = append(to.Before, before...)
+		to.Comment().Suffix = append(to.Suffix, from.Suffix...)
+	}
+	to.Rparen.Comment().Before = append(to.Rparen.Before, from.Rparen.Before...)
+	to.Comment().After = append(to.After, from.After...)
+}
+
 // comparePaths compares two strings as if they were paths (the path delimiter,
 // '/', should be treated as smallest symbol).
 func comparePaths(path1, path2 string) bool {
@@ -1272,7 +1291,10 @@ func (args *loadArgs) deduplicate() {
 	var from, to []*Ident
 	for i := range args.To {
 		if len(to) > 0 && to[len(to)-1].Name == args.To[i].Name {
-			// Overwrite
+			// Overwrite, but keep the comments
+			oldFrom, oldTo := from[len(from)-1], to[len(to)-1]
+			args.To[i].Before = append(append([]Comment{}, oldTo.Before...), args.To[i].Before...)
+			args.From[i].Suffix = append(append([]Comment{}, oldFrom.Suffix...), args.From[i].Suffix...)
 			from[len(from)-1] = args.From[i]
 			to[len(to)-1] = args.To[i]
 			args.modified = true
@@ -1289,7 +1311,7 @@ func (args *loadArgs) deduplicate() {
 // SortLoadArgs sorts a load statement arguments (lexicographically, but positional first)
 func SortLoadArgs(load *LoadStmt) bool {
 	args := loadArgs{From: load.From, To: load.To}
-	sort.Sort(&args)
+	sort.Stable(&args)
 	args.deduplicate()
 	load.From = args.From
 	load.To = args.To
-- 
2.43.0


From e6918874618c259d4484636ecf675cda18d0a14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 017/127] fix: don't print line continuations inside an index
 or slice

The brackets were not counted, lines were broken with a backslash which then
could be followed by comments.
---
 build/print.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/build/print.go b/build/print.go
index 36c9546..4d0ad52 100644
--- a/build/print.go
+++ b/build/print.go
@@ -700,7 +700,9 @@ func (p *printer) expr(v Expr, outerPrec int) {
 		addParen(precSuffix)
 		p.expr(v.X, precSuffix)
 		p.printf("[")
+		p.depth++
 		p.expr(v.Y, precLow)
+		p.depth--
 		p.printf("]")
 
 	case *KeyValueExpr:
@@ -712,6 +714,7 @@ func (p *printer) expr(v Expr, outerPrec int) {
 		addParen(precSuffix)
 		p.expr(v.X, precSuffix)
 		p.printf("[")
+		p.depth++
 		if v.From != nil {
 			p.expr(v.From, precLow)
 		}
@@ -725,6 +728,7 @@ func (p *printer) expr(v Expr, outerPrec int) {
 				p.expr(v.Step, precLow)
 			}
 		}
+		p.depth--
 		p.printf("]")
 
 	case *UnaryExpr:
-- 
2.43.0


From a90f939378264d09f7effac657a3cd0cb4acfa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:40 +0000
Subject: [PATCH 018/127] fix: reorder call arguments before sorting them

Sorting named arguments and repositories of use_repo stops at an argument that
is not in its place, so formatting the result again changed it.
---
 build/rewrite.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index 3702f9f..5f5e6bf 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -118,13 +118,15 @@ const (
 
 // rewrites is the list of all Buildifier rewrites, in the order in which they are applied.
 // The order here matters: for example, label canonicalization must happen
-// before sorting lists of strings.
+// before sorting lists of strings, and positional arguments must be moved to the front
+// before sorting named arguments.
 var rewrites = []struct {
 	name  string
 	fn    func(*File, *Rewriter)
 	scope FileType
 }{
 	{"removeParens", removeParens, scopeBuild},
+	{"reorderarguments", reorderArguments, scopeBoth},
 	{"callsort", sortCallArgs, scopeBuild},
 	{"label", fixLabels, scopeBuild},
 	{"listsort", sortStringLists, scopeBoth},
@@ -135,7 +137,6 @@ var rewrites = []struct {
 	{"loadsort", sortAllLoadArgs, scopeBoth},
 	{"useRepoPositionalsSort", sortUseRepoPositionals, TypeModule},
 	{"formatdocstrings", formatDocstrings, scopeBoth},
-	{"reorderarguments", reorderArguments, scopeBoth},
 	{"editoctal", editOctals, scopeBoth},
 	{"editfloat", editFloats, scopeBoth},
 	{"collapseEmpty", collapseEmpty, scopeBoth},
-- 
2.43.0


From e2d824fef6a8062ae4232bfc3b42e1f3908f9ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:44 +0000
Subject: [PATCH 019/127] fix: keep comments after the header of a function
 without parameters in its body

They were attached to the statement preceding the function, or to the beginning
of the file.
---
 build/lex.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/build/lex.go b/build/lex.go
index 71f1ee0..35566a6 100644
--- a/build/lex.go
+++ b/build/lex.go
@@ -210,6 +210,8 @@ type input struct {
 	post []Expr // all expressions, in postorder traversal
 
 	inner []innerToken // tokens that aren't represented by End nodes but may follow line comments
+
+	headers []functionHeader // headers of functions without parameters
 }
 
 func newInput(filename string, data []byte) *input {
@@ -821,6 +823,11 @@ func (in *input) order(v Expr) {
 		for _, x := range v.Params {
 			in.order(x)
 		}
+		if len(v.Params) == 0 && len(v.Body) > 0 {
+			header := &End{Pos: v.ColonPos}
+			in.post = append(in.post, header)
+			in.headers = append(in.headers, functionHeader{header, v.Body[0]})
+		}
 		for _, x := range v.Body {
 			in.order(x)
 		}
@@ -855,6 +862,13 @@ type innerToken struct {
 	expr Expr
 }
 
+// functionHeader is the end of a header of a function without parameters. End-of-line comments after
+// it are put inside the function body.
+type functionHeader struct {
+	end  *End
+	body Expr
+}
+
 // orderInner adds an inner token to the preorder list.
 func (in *input) orderInner(pos Position, expr Expr) {
 	end := &End{Pos: pos}
@@ -897,6 +911,11 @@ func (in *input) assignSuffixComments() {
 		reverseComments(x.Comment().Suffix)
 	}
 
+	for _, header := range in.headers {
+		com := header.body.Comment()
+		com.Before = append(com.Before, header.end.Suffix...)
+	}
+
 	// Remaining suffix comments go at beginning of file.
 	in.file.Before = append(in.file.Before, suffix...)
 }
-- 
2.43.0


From a2d9775deb13e5366be9053a696e8939aa633de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:09 +0000
Subject: [PATCH 020/127] fix: don't shorten parts of concatenated labels

"//foo:foo" + x was rewritten to "//foo" + x, which is another label if x is not
empty. Also join all adjacent pieces of a label at once and not only the first
two of them.
---
 build/rewrite.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index 5f5e6bf..308d956 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -221,11 +221,17 @@ func keepSorted(x Expr) bool {
 // "//third_party/m4:m4" into "//third_party/m4" as well as ones like
 // "@foo//:foo" into "@foo".
 func fixLabels(f *File, w *Rewriter) {
-	joinLabel := func(p *Expr) {
+	// Parts of concatenations which are not labels on their own.
+	fragments := make(map[Expr]bool)
+
+	var joinLabel func(p *Expr)
+	joinLabel = func(p *Expr) {
 		add, ok := (*p).(*BinaryExpr)
 		if !ok || add.Op != "+" {
 			return
 		}
+		joinLabel(&add.X)
+		fragments[add.X], fragments[add.Y] = true, true
 		str1, ok := add.X.(*StringExpr)
 		if !ok || !strings.HasPrefix(str1.Value, "//") || strings.Contains(str1.Value, " ") {
 			return
@@ -248,6 +254,7 @@ func fixLabels(f *File, w *Rewriter) {
 		*str1.Comment() = *com1
 
 		*p = str1
+		delete(fragments, str1)
 	}
 
 	labelPrefix := "//"
@@ -260,7 +267,7 @@ func fixLabels(f *File, w *Rewriter) {
 
 	shortenLabel := func(v Expr) {
 		str, ok := v.(*StringExpr)
-		if !ok {
+		if !ok || fragments[str] {
 			return
 		}
 
-- 
2.43.0


From c906759a59608a3dc29549740b6833e24a890ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:02 +0000
Subject: [PATCH 021/127] fix: don't overwrite the byte following the parsed
 data

The parser appends a newline to its input; if the input was a part of a larger
buffer, this changed the caller's data.
---
 build/lex.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/build/lex.go b/build/lex.go
index 35566a6..67855d8 100644
--- a/build/lex.go
+++ b/build/lex.go
@@ -218,7 +218,8 @@ func newInput(filename string, data []byte) *input {
 	// The syntax requires that each simple statement ends with '\n', however it's optional at EOF.
 	// If `data` doesn't end with '\n' we add it here to keep parser simple.
 	// It shouldn't affect neither the parsed tree nor its formatting.
-	data = append(data, '\n')
+	// The bytes following `data` in its underlying array belong to the caller.
+	data = append(data[:len(data):len(data)], '\n')
 
 	return &input{
 		filename:  filename,
-- 
2.43.0


From a7a98c302a7ca5a82e49bb25a64b6ddabde1e7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:29 +0000
Subject: [PATCH 022/127] fix: don't crash on a backslash before a non-Latin-1
 character in a string

---
 build/quote.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/quote.go b/build/quote.go
index 03bcdb6..65e3ae8 100644
--- a/build/quote.go
+++ b/build/quote.go
@@ -251,7 +251,7 @@ func IsCorrectEscaping(value string) bool {
 			continue
 		}
 
-		if ok := escapable[ch]; !ok {
+		if int(ch) >= len(escapable) || !escapable[ch] {
 			return false
 		}
 		escaped = false
-- 
2.43.0


From 3921bae15d406fa6d889f8e82b8b10a056e97b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 023/127] fix: reject a block that only consists of a line
 continuation

A backslash as the last line of a file started a block without statements, and
the formatter crashed on it.
---
 build/lex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/lex.go b/build/lex.go
index 67855d8..4c8fb33 100644
--- a/build/lex.go
+++ b/build/lex.go
@@ -445,7 +445,7 @@ func (in *input) Lex(val *yySymType) int {
 	// Skip if we're inside a statement, or if there were non-space
 	// characters before in the current line.
 	if in.depth == 0 && in.cleanLine {
-		if in.indent > in.currentIndent() {
+		if in.indent > in.currentIndent() && !in.eof() {
 			// A new indentation block starts
 			in.indents = append(in.indents, in.indent)
 			in.lastToken = "indent"
-- 
2.43.0


From bf34c0ea94dd6a0e24841d245098a3c3a1a3016b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 024/127] fix: reject signs in \x, \u and \U string escapes

---
 build/quote.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/build/quote.go b/build/quote.go
index 65e3ae8..0610699 100644
--- a/build/quote.go
+++ b/build/quote.go
@@ -183,7 +183,7 @@ func Unquote(quoted string) (s string, triple bool, err error) {
 				err = fmt.Errorf(`truncated escape sequence %s`, quoted)
 				return
 			}
-			n, err1 := strconv.ParseInt(quoted[2:6], 16, 0)
+			n, err1 := strconv.ParseUint(quoted[2:6], 16, 0)
 			if err1 != nil {
 				err = fmt.Errorf(`invalid escape sequence %s`, quoted[:6])
 				return
@@ -201,7 +201,7 @@ func Unquote(quoted string) (s string, triple bool, err error) {
 				err = fmt.Errorf(`truncated escape sequence %s`, quoted)
 				return
 			}
-			n, err1 := strconv.ParseInt(quoted[2:10], 16, 0)
+			n, err1 := strconv.ParseUint(quoted[2:10], 16, 0)
 			if err1 != nil {
 				err = fmt.Errorf(`invalid escape sequence %s`, quoted[:10])
 				return
@@ -223,7 +223,7 @@ func Unquote(quoted string) (s string, triple bool, err error) {
 				err = fmt.Errorf(`truncated escape sequence %s`, quoted)
 				return
 			}
-			n, err1 := strconv.ParseInt(quoted[2:4], 16, 0)
+			n, err1 := strconv.ParseUint(quoted[2:4], 16, 0)
 			if err1 != nil {
 				err = fmt.Errorf(`invalid escape sequence %s`, quoted[:4])
 				return
-- 
2.43.0


From d5fea626d4ee801aeef4a67bee5839cbb459fe56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:52 +0000
Subject: [PATCH 025/127] fix: group not and conditional expressions like
 Starlark and parenthesize them where needed

---
 build/parse.y    |  10 +-
 build/parse.y.go | 270 ++++++++++++++++++++++++-----------------------
 build/print.go   |  25 +++--
 3 files changed, 159 insertions(+), 146 deletions(-)

diff --git a/build/parse.y b/build/parse.y
index f68acb8..cdd65d9 100644
--- a/build/parse.y
+++ b/build/parse.y
@@ -188,12 +188,16 @@ package build
 // e.g. "a, b if c > 0 else 'foo'" is either a tuple of (a,b) or 'foo'
 // and not a tuple of "(a, (b if ... ))"
 %left  '=' _AUGM
-%left  _IF _ELSE _ELIF
+// Conditional expressions are right-associative:
+// "a if b else c if d else e" is "a if b else (c if d else e)".
+%right _IF _ELSE _ELIF
 %left  ','
 %left  ':'
 %left  _IS
 %left  _OR
 %left  _AND
+// "not a == b" is "not (a == b)"
+%right Not
 %left  '<' '>' _EQ _NE _LE _GE _NOT _IN
 %left  '|'
 %left  '^'
@@ -838,7 +842,7 @@ test:
 			},
 		}
 	}
-|	_NOT test %prec _UNARY { $$ = unary($1, $<tok>1, $2) }
+|	_NOT test %prec Not    { $$ = unary($1, $<tok>1, $2) }
 |	'-' test  %prec _UNARY { $$ = unary($1, $<tok>1, $2) }
 |	'+' test  %prec _UNARY { $$ = unary($1, $<tok>1, $2) }
 |	'~' test  %prec _UNARY { $$ = unary($1, $<tok>1, $2) }
@@ -1039,7 +1043,7 @@ for_clause_with_if_clauses_opt:
 	{
 		$$ = []Expr{$1}
 	}
-|	for_clause_with_if_clauses_opt _IF test
+|	for_clause_with_if_clauses_opt _IF test %prec ','
 	{
 		$$ = append($1, &IfClause{
 			If: $2,
diff --git a/build/parse.y.go b/build/parse.y.go
index a772bd5..a271778 100644
--- a/build/parse.y.go
+++ b/build/parse.y.go
@@ -71,7 +71,8 @@ const _INDENT = 57377
 const _UNINDENT = 57378
 const ShiftInstead = 57379
 const _ASSERT = 57380
-const _UNARY = 57381
+const Not = 57381
+const _UNARY = 57382
 
 var yyToknames = [...]string{
 	"$end",
@@ -134,6 +135,7 @@ var yyToknames = [...]string{
 	"ShiftInstead",
 	"'\\n'",
 	"_ASSERT",
+	"Not",
 	"_UNARY",
 	"';'",
 }
@@ -144,7 +146,7 @@ const yyEofCode = 1
 const yyErrCode = 2
 const yyInitialStackSize = 16
 
-//line build/parse.y:1060
+//line build/parse.y:1064
 
 // Go helper code.
 
@@ -525,11 +527,11 @@ var yyPact = [...]int16{
 	192, 72, -1000, 173, 971, -1000, -1000, -1000, -10, 49,
 	590, 68, 971, 151, 88, 971, 971, 971, 971, -1000,
 	-1000, -1000, 217, 971, 971, 971, -1000, 175, 13, -1000,
-	-1000, -41, 365, 78, 151, 971, 971, 971, 204, 971,
+	-1000, -42, 365, 78, 151, 971, 971, 971, 204, 971,
 	971, 106, -1000, 971, 971, 971, 971, 971, 971, 971,
 	971, 971, 971, 971, 971, 971, 3, 971, 971, 971,
 	971, 971, 971, 971, 971, 971, 216, 180, 54, 200,
-	971, 191, 206, -1000, 152, 21, 21, -1000, -1000, -1000,
+	971, 191, 206, -1000, 152, 21, 21, 813, -1000, -1000,
 	-1000, 200, 136, 547, 200, 73, 110, 205, 461, 200,
 	214, 590, 8, -1000, -35, 632, -1000, -1000, -1000, 971,
 	72, 204, 204, 684, 590, 174, 365, -1000, -1000, -1000,
@@ -543,7 +545,7 @@ var yyPact = [...]int16{
 	21, -1000, -1000, -1000, 855, -1000, 590, 150, 971, 971,
 	-1000, -1000, 971, -1000, -1000, 590, 200, -1000, 4, 971,
 	43, 590, -1000, -1000, 590, -1000, 461, -1000, -37, -1000,
-	-1000, 365, -1000, 684, -1000, -1000, 75, 971, 179, 178,
+	-1000, 365, -1000, 590, -1000, -1000, 75, 971, 179, 178,
 	-1000, 971, 590, 590, 133, 590, 58, 684, 971, 260,
 	-1000, -1000, -1000, 418, 971, 971, 590, -1000, 971, 197,
 	-1000, -1000, 143, 684, -1000, 971, 590, 590, 92, 210,
@@ -605,7 +607,7 @@ var yyChk = [...]int16{
 	22, 23, 45, 46, 38, 34, 32, -17, 11, 5,
 	17, -9, -8, -7, -24, 7, 43, -13, -13, -13,
 	-13, 5, -15, -13, -19, -35, -36, -19, -13, -37,
-	-15, -13, 11, 33, -47, 62, -39, 59, -32, 37,
+	-15, -13, 11, 33, -47, 63, -39, 59, -32, 37,
 	9, -17, -17, -13, -13, -17, 13, 34, -13, -13,
 	-13, -13, -13, -13, -13, -13, -13, -13, -13, -13,
 	-13, 37, -13, -13, -13, -13, -13, -13, -13, -13,
@@ -660,7 +662,7 @@ var yyTok1 = [...]int8{
 	3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
 	3, 3, 3, 3, 3, 3, 3, 4, 22, 3,
 	5, 6, 7, 8, 9, 10, 11, 12, 3, 3,
-	3, 3, 3, 3, 3, 3, 3, 3, 13, 62,
+	3, 3, 3, 3, 3, 3, 3, 3, 13, 63,
 	14, 15, 16, 3, 3, 3, 3, 3, 3, 3,
 	3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
 	3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
@@ -674,7 +676,7 @@ var yyTok2 = [...]int8{
 	2, 3, 25, 26, 27, 28, 29, 30, 31, 32,
 	33, 34, 35, 36, 37, 38, 39, 40, 41, 42,
 	43, 44, 45, 46, 47, 48, 49, 50, 51, 52,
-	53, 54, 55, 56, 57, 58, 60, 61,
+	53, 54, 55, 56, 57, 58, 60, 61, 62,
 }
 
 var yyTok3 = [...]int8{
@@ -1020,14 +1022,14 @@ yydefault:
 
 	case 1:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:218
+//line build/parse.y:222
 		{
 			yylex.(*input).file = &File{Stmt: yyDollar[1].exprs}
 			return 0
 		}
 	case 2:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line build/parse.y:225
+//line build/parse.y:229
 		{
 			statements := yyDollar[4].exprs
 			if yyDollar[2].exprs != nil {
@@ -1049,20 +1051,20 @@ yydefault:
 		}
 	case 3:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:245
+//line build/parse.y:249
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 		}
 	case 6:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:253
+//line build/parse.y:257
 		{
 			yyVAL.exprs = nil
 			yyVAL.lastStmt = nil
 		}
 	case 7:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:258
+//line build/parse.y:262
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 			yyVAL.lastStmt = yyDollar[1].lastStmt
@@ -1076,21 +1078,21 @@ yydefault:
 		}
 	case 8:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:270
+//line build/parse.y:274
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 			yyVAL.lastStmt = nil
 		}
 	case 9:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:276
+//line build/parse.y:280
 		{
 			yyVAL.exprs = nil
 			yyVAL.lastStmt = nil
 		}
 	case 10:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:281
+//line build/parse.y:285
 		{
 			// If this statement follows a comment block,
 			// attach the comments to the statement.
@@ -1123,7 +1125,7 @@ yydefault:
 		}
 	case 11:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:312
+//line build/parse.y:316
 		{
 			// Blank line; sever last rule from future comments.
 			yyVAL.exprs = yyDollar[1].exprs
@@ -1131,7 +1133,7 @@ yydefault:
 		}
 	case 12:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:318
+//line build/parse.y:322
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 			yyVAL.lastStmt = yyDollar[1].lastStmt
@@ -1145,14 +1147,14 @@ yydefault:
 		}
 	case 13:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:332
+//line build/parse.y:336
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 			yyVAL.lastStmt = yyDollar[1].exprs[len(yyDollar[1].exprs)-1]
 		}
 	case 14:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:337
+//line build/parse.y:341
 		{
 			yyVAL.exprs = []Expr{yyDollar[1].expr}
 			// Comments following a block statement belong neither to the block nor to the statement,
@@ -1168,7 +1170,7 @@ yydefault:
 		}
 	case 15:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line build/parse.y:353
+//line build/parse.y:357
 		{
 			yyVAL.def_header = &DefStmt{
 				Function: Function{
@@ -1182,14 +1184,14 @@ yydefault:
 		}
 	case 17:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:368
+//line build/parse.y:372
 		{
 			yyDollar[1].def_header.Type = yyDollar[3].expr
 			yyVAL.def_header = yyDollar[1].def_header
 		}
 	case 18:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:375
+//line build/parse.y:379
 		{
 			yyDollar[1].def_header.Function.Body = yyDollar[3].exprs
 			yyDollar[1].def_header.ColonPos = yyDollar[2].pos
@@ -1198,7 +1200,7 @@ yydefault:
 		}
 	case 19:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line build/parse.y:382
+//line build/parse.y:386
 		{
 			yyVAL.expr = &ForStmt{
 				For:  yyDollar[1].pos,
@@ -1210,14 +1212,14 @@ yydefault:
 		}
 	case 20:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:392
+//line build/parse.y:396
 		{
 			yyVAL.expr = yyDollar[1].ifstmt
 			yyVAL.lastStmt = yyDollar[1].lastStmt
 		}
 	case 21:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:400
+//line build/parse.y:404
 		{
 			yyVAL.ifstmt = &IfStmt{
 				If:   yyDollar[1].pos,
@@ -1228,7 +1230,7 @@ yydefault:
 		}
 	case 22:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line build/parse.y:409
+//line build/parse.y:413
 		{
 			yyVAL.ifstmt = yyDollar[1].ifstmt
 			inner := yyDollar[1].ifstmt
@@ -1247,7 +1249,7 @@ yydefault:
 		}
 	case 24:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:430
+//line build/parse.y:434
 		{
 			yyVAL.ifstmt = yyDollar[1].ifstmt
 			inner := yyDollar[1].ifstmt
@@ -1260,26 +1262,26 @@ yydefault:
 		}
 	case 27:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:447
+//line build/parse.y:451
 		{
 			yyVAL.exprs = append([]Expr{yyDollar[1].expr}, yyDollar[2].exprs...)
 			yyVAL.lastStmt = yyVAL.exprs[len(yyVAL.exprs)-1]
 		}
 	case 28:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:453
+//line build/parse.y:457
 		{
 			yyVAL.exprs = []Expr{}
 		}
 	case 29:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:457
+//line build/parse.y:461
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
 		}
 	case 31:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:464
+//line build/parse.y:468
 		{
 			yyVAL.expr = &ReturnStmt{
 				Return: yyDollar[1].pos,
@@ -1288,7 +1290,7 @@ yydefault:
 		}
 	case 32:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:471
+//line build/parse.y:475
 		{
 			yyVAL.expr = &ReturnStmt{
 				Return: yyDollar[1].pos,
@@ -1296,19 +1298,19 @@ yydefault:
 		}
 	case 33:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:476
+//line build/parse.y:480
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 34:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:477
+//line build/parse.y:481
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 35:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:479
+//line build/parse.y:483
 		{
 			yyVAL.expr = &BranchStmt{
 				Token:    yyDollar[1].tok,
@@ -1317,7 +1319,7 @@ yydefault:
 		}
 	case 36:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:486
+//line build/parse.y:490
 		{
 			yyVAL.expr = &BranchStmt{
 				Token:    yyDollar[1].tok,
@@ -1326,7 +1328,7 @@ yydefault:
 		}
 	case 37:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:493
+//line build/parse.y:497
 		{
 			yyVAL.expr = &BranchStmt{
 				Token:    yyDollar[1].tok,
@@ -1335,13 +1337,13 @@ yydefault:
 		}
 	case 42:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:507
+//line build/parse.y:511
 		{
 			yyVAL.expr = yyDollar[1].string
 		}
 	case 43:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:511
+//line build/parse.y:515
 		{
 			yyVAL.expr = &DotExpr{
 				X:       yyDollar[1].expr,
@@ -1352,7 +1354,7 @@ yydefault:
 		}
 	case 44:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line build/parse.y:520
+//line build/parse.y:524
 		{
 			load := &LoadStmt{
 				Load:         yyDollar[1].pos,
@@ -1368,7 +1370,7 @@ yydefault:
 		}
 	case 45:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:534
+//line build/parse.y:538
 		{
 			yyVAL.expr = &CallExpr{
 				X:              yyDollar[1].expr,
@@ -1381,7 +1383,7 @@ yydefault:
 		}
 	case 46:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:545
+//line build/parse.y:549
 		{
 			yyVAL.expr = &IndexExpr{
 				X:          yyDollar[1].expr,
@@ -1392,7 +1394,7 @@ yydefault:
 		}
 	case 47:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line build/parse.y:554
+//line build/parse.y:558
 		{
 			yyVAL.expr = &SliceExpr{
 				X:          yyDollar[1].expr,
@@ -1405,7 +1407,7 @@ yydefault:
 		}
 	case 48:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line build/parse.y:565
+//line build/parse.y:569
 		{
 			yyVAL.expr = &SliceExpr{
 				X:           yyDollar[1].expr,
@@ -1420,7 +1422,7 @@ yydefault:
 		}
 	case 49:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:578
+//line build/parse.y:582
 		{
 			yyVAL.expr = &ListExpr{
 				Start:          yyDollar[1].pos,
@@ -1431,7 +1433,7 @@ yydefault:
 		}
 	case 50:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:587
+//line build/parse.y:591
 		{
 			yyVAL.expr = &Comprehension{
 				Curly:          false,
@@ -1444,7 +1446,7 @@ yydefault:
 		}
 	case 51:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:598
+//line build/parse.y:602
 		{
 			yyVAL.expr = &Comprehension{
 				Curly:          true,
@@ -1457,7 +1459,7 @@ yydefault:
 		}
 	case 52:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:609
+//line build/parse.y:613
 		{
 			exprValues := make([]Expr, 0, len(yyDollar[2].kvs))
 			for _, kv := range yyDollar[2].kvs {
@@ -1472,7 +1474,7 @@ yydefault:
 		}
 	case 53:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:622
+//line build/parse.y:626
 		{
 			yyVAL.expr = &SetExpr{
 				Start:          yyDollar[1].pos,
@@ -1483,7 +1485,7 @@ yydefault:
 		}
 	case 54:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:631
+//line build/parse.y:635
 		{
 			if len(yyDollar[2].exprs) == 1 && yyDollar[2].comma.Line == 0 {
 				// Just a parenthesized expression, not a tuple.
@@ -1505,49 +1507,49 @@ yydefault:
 		}
 	case 55:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:652
+//line build/parse.y:656
 		{
 			yyVAL.exprs = nil
 		}
 	case 56:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:656
+//line build/parse.y:660
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 		}
 	case 57:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:662
+//line build/parse.y:666
 		{
 			yyVAL.exprs = []Expr{yyDollar[2].expr}
 		}
 	case 58:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:666
+//line build/parse.y:670
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
 		}
 	case 60:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:673
+//line build/parse.y:677
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 61:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:677
+//line build/parse.y:681
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 62:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:681
+//line build/parse.y:685
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 63:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:686
+//line build/parse.y:690
 		{
 			yyVAL.loadargs = []*struct {
 				from Ident
@@ -1556,14 +1558,14 @@ yydefault:
 		}
 	case 64:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:690
+//line build/parse.y:694
 		{
 			yyDollar[1].loadargs = append(yyDollar[1].loadargs, yyDollar[3].loadarg)
 			yyVAL.loadargs = yyDollar[1].loadargs
 		}
 	case 65:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:696
+//line build/parse.y:700
 		{
 			start := yyDollar[1].string.Start.add("'")
 			if yyDollar[1].string.TripleQuote {
@@ -1585,7 +1587,7 @@ yydefault:
 		}
 	case 66:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:713
+//line build/parse.y:717
 		{
 			start := yyDollar[3].string.Start.add("'")
 			if yyDollar[3].string.TripleQuote {
@@ -1604,103 +1606,103 @@ yydefault:
 		}
 	case 67:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:728
+//line build/parse.y:732
 		{
 			yyVAL.exprs = nil
 		}
 	case 68:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:732
+//line build/parse.y:736
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 		}
 	case 69:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:737
+//line build/parse.y:741
 		{
 			yyVAL.exprs = nil
 		}
 	case 70:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:741
+//line build/parse.y:745
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 		}
 	case 71:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:747
+//line build/parse.y:751
 		{
 			yyVAL.exprs = []Expr{yyDollar[1].expr}
 		}
 	case 72:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:751
+//line build/parse.y:755
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
 		}
 	case 73:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:758
+//line build/parse.y:762
 		{
 			yyVAL.exprs = []Expr{yyDollar[1].expr}
 		}
 	case 74:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:762
+//line build/parse.y:766
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
 		}
 	case 76:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:769
+//line build/parse.y:773
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 77:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:773
+//line build/parse.y:777
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 78:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:777
+//line build/parse.y:781
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, nil)
 		}
 	case 79:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:781
+//line build/parse.y:785
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 81:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:790
+//line build/parse.y:794
 		{
 			yyVAL.expr = typed(yyDollar[1].expr, yyDollar[3].expr)
 		}
 	case 82:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line build/parse.y:794
+//line build/parse.y:798
 		{
 			yyVAL.expr = binary(typed(yyDollar[1].expr, yyDollar[3].expr), yyDollar[4].pos, yyDollar[4].tok, yyDollar[5].expr)
 		}
 	case 83:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:798
+//line build/parse.y:802
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, typed(yyDollar[2].expr, yyDollar[4].expr))
 		}
 	case 84:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:802
+//line build/parse.y:806
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, typed(yyDollar[2].expr, yyDollar[4].expr))
 		}
 	case 86:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:809
+//line build/parse.y:813
 		{
 			tuple, ok := yyDollar[1].expr.(*TupleExpr)
 			if !ok || !tuple.NoBrackets {
@@ -1716,13 +1718,13 @@ yydefault:
 		}
 	case 87:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:824
+//line build/parse.y:828
 		{
 			yyVAL.expr = nil
 		}
 	case 90:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:832
+//line build/parse.y:836
 		{
 			yyVAL.expr = &LambdaExpr{
 				Function: Function{
@@ -1734,157 +1736,157 @@ yydefault:
 		}
 	case 91:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:841
+//line build/parse.y:845
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 92:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:842
+//line build/parse.y:846
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 93:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:843
+//line build/parse.y:847
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 94:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:844
+//line build/parse.y:848
 		{
 			yyVAL.expr = unary(yyDollar[1].pos, yyDollar[1].tok, yyDollar[2].expr)
 		}
 	case 95:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:845
+//line build/parse.y:849
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 96:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:846
+//line build/parse.y:850
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 97:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:847
+//line build/parse.y:851
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 98:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:848
+//line build/parse.y:852
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 99:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:849
+//line build/parse.y:853
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 100:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:850
+//line build/parse.y:854
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 101:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:851
+//line build/parse.y:855
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 102:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:852
+//line build/parse.y:856
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 103:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:853
+//line build/parse.y:857
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 104:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:854
+//line build/parse.y:858
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 105:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:855
+//line build/parse.y:859
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 106:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:856
+//line build/parse.y:860
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 107:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:857
+//line build/parse.y:861
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 108:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:858
+//line build/parse.y:862
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, "not in", yyDollar[4].expr)
 		}
 	case 109:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:859
+//line build/parse.y:863
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 110:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:860
+//line build/parse.y:864
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 111:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:861
+//line build/parse.y:865
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 112:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:862
+//line build/parse.y:866
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 113:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:863
+//line build/parse.y:867
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 114:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:864
+//line build/parse.y:868
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 115:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:865
+//line build/parse.y:869
 		{
 			yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, yyDollar[2].tok, yyDollar[3].expr)
 		}
 	case 116:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:867
+//line build/parse.y:871
 		{
 			if b, ok := yyDollar[3].expr.(*UnaryExpr); ok && b.Op == "not" {
 				yyVAL.expr = binary(yyDollar[1].expr, yyDollar[2].pos, "is not", b.X)
@@ -1894,7 +1896,7 @@ yydefault:
 		}
 	case 117:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line build/parse.y:875
+//line build/parse.y:879
 		{
 			yyVAL.expr = &ConditionalExpr{
 				Then:      yyDollar[1].expr,
@@ -1906,55 +1908,55 @@ yydefault:
 		}
 	case 118:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:887
+//line build/parse.y:891
 		{
 			yyVAL.exprs = []Expr{yyDollar[1].expr}
 		}
 	case 119:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:891
+//line build/parse.y:895
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[3].expr)
 		}
 	case 120:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:896
+//line build/parse.y:900
 		{
 			yyVAL.expr = nil
 		}
 	case 122:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:902
+//line build/parse.y:906
 		{
 			yyVAL.exprs, yyVAL.comma = nil, Position{}
 		}
 	case 123:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:906
+//line build/parse.y:910
 		{
 			yyVAL.exprs, yyVAL.comma = yyDollar[1].exprs, yyDollar[2].pos
 		}
 	case 124:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:916
+//line build/parse.y:920
 		{
 			yyVAL.pos = Position{}
 		}
 	case 127:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:927
+//line build/parse.y:931
 		{
 			yyVAL.pos = yyDollar[1].pos
 		}
 	case 128:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:935
+//line build/parse.y:939
 		{
 			yyVAL.pos = Position{}
 		}
 	case 130:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:942
+//line build/parse.y:946
 		{
 			yyVAL.kv = &KeyValueExpr{
 				Key:   yyDollar[1].expr,
@@ -1964,37 +1966,37 @@ yydefault:
 		}
 	case 131:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:952
+//line build/parse.y:956
 		{
 			yyVAL.kvs = []*KeyValueExpr{yyDollar[1].kv}
 		}
 	case 132:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:956
+//line build/parse.y:960
 		{
 			yyVAL.kvs = append(yyDollar[1].kvs, yyDollar[3].kv)
 		}
 	case 133:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line build/parse.y:961
+//line build/parse.y:965
 		{
 			yyVAL.kvs = nil
 		}
 	case 134:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:965
+//line build/parse.y:969
 		{
 			yyVAL.kvs = yyDollar[1].kvs
 		}
 	case 135:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:969
+//line build/parse.y:973
 		{
 			yyVAL.kvs = yyDollar[1].kvs
 		}
 	case 137:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:976
+//line build/parse.y:980
 		{
 			tuple, ok := yyDollar[1].expr.(*TupleExpr)
 			if !ok || !tuple.NoBrackets {
@@ -2010,7 +2012,7 @@ yydefault:
 		}
 	case 138:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:992
+//line build/parse.y:996
 		{
 			yyVAL.string = &StringExpr{
 				Start:       yyDollar[1].pos,
@@ -2022,37 +2024,37 @@ yydefault:
 		}
 	case 139:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:1004
+//line build/parse.y:1008
 		{
 			yyVAL.expr = &Ident{NamePos: yyDollar[1].pos, Name: yyDollar[1].tok}
 		}
 	case 140:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:1010
+//line build/parse.y:1014
 		{
 			yyVAL.expr = &LiteralExpr{Start: yyDollar[1].pos, Token: yyDollar[1].tok + "." + yyDollar[3].tok}
 		}
 	case 141:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:1014
+//line build/parse.y:1018
 		{
 			yyVAL.expr = &LiteralExpr{Start: yyDollar[1].pos, Token: yyDollar[1].tok + "."}
 		}
 	case 142:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:1018
+//line build/parse.y:1022
 		{
 			yyVAL.expr = &LiteralExpr{Start: yyDollar[1].pos, Token: "." + yyDollar[2].tok}
 		}
 	case 143:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:1022
+//line build/parse.y:1026
 		{
 			yyVAL.expr = &LiteralExpr{Start: yyDollar[1].pos, Token: yyDollar[1].tok}
 		}
 	case 144:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line build/parse.y:1028
+//line build/parse.y:1032
 		{
 			yyVAL.expr = &ForClause{
 				For:  yyDollar[1].pos,
@@ -2063,13 +2065,13 @@ yydefault:
 		}
 	case 145:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:1039
+//line build/parse.y:1043
 		{
 			yyVAL.exprs = []Expr{yyDollar[1].expr}
 		}
 	case 146:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line build/parse.y:1043
+//line build/parse.y:1047
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, &IfClause{
 				If:   yyDollar[2].pos,
@@ -2078,13 +2080,13 @@ yydefault:
 		}
 	case 147:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line build/parse.y:1052
+//line build/parse.y:1056
 		{
 			yyVAL.exprs = yyDollar[1].exprs
 		}
 	case 148:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line build/parse.y:1056
+//line build/parse.y:1060
 		{
 			yyVAL.exprs = append(yyDollar[1].exprs, yyDollar[2].exprs...)
 		}
diff --git a/build/print.go b/build/print.go
index 4d0ad52..3db0c97 100644
--- a/build/print.go
+++ b/build/print.go
@@ -529,6 +529,7 @@ const (
 	precIfElse
 	precOr
 	precAnd
+	precNot
 	precCmp
 	precBitwiseOr
 	precBitwiseXor
@@ -732,16 +733,22 @@ func (p *printer) expr(v Expr, outerPrec int) {
 		p.printf("]")
 
 	case *UnaryExpr:
-		addParen(precUnary)
+		// Use the highest precedence level (precSuffix) for the operand, so that nested unary
+		// expressions are parenthesized, for example: `not (-(+(~foo)))` instead of `not -+~foo`
+		prec := precSuffix
 		if v.Op == "not" {
+			addParen(precNot)
 			p.printf("not ") // Requires a space after it.
+			if _, ok := v.X.(*UnaryExpr); !ok {
+				// The operand may be a comparison: `not a == b` is `not (a == b)`
+				prec = precCmp
+			}
 		} else {
+			addParen(precUnary)
 			p.printf("%s", v.Op)
 		}
-		// Use the next precedence level (precSuffix), so that nested unary expressions are parenthesized,
-		// for example: `not (-(+(~foo)))` instead of `not -+~foo`
 		if v.X != nil {
-			p.expr(v.X, precSuffix)
+			p.expr(v.X, prec)
 		}
 
 	case *LambdaExpr:
@@ -876,10 +883,10 @@ func (p *printer) expr(v Expr, outerPrec int) {
 		p.listFor(v)
 
 	case *ConditionalExpr:
-		addParen(precSuffix)
-		p.expr(v.Then, precIfElse)
+		addParen(precIfElse)
+		p.expr(v.Then, precIfElse+1)
 		p.printf(" if ")
-		p.expr(v.Test, precIfElse)
+		p.expr(v.Test, precIfElse+1)
 		p.printf(" else ")
 		p.expr(v.Else, precIfElse)
 
@@ -950,10 +957,10 @@ func (p *printer) expr(v Expr, outerPrec int) {
 		p.printf("for ")
 		p.expr(v.Vars, precLow)
 		p.printf(" in ")
-		p.expr(v.X, precLow)
+		p.expr(v.X, precOr) // conditional and lambda expressions need parentheses here
 	case *IfClause:
 		p.printf("if ")
-		p.expr(v.Cond, precLow)
+		p.expr(v.Cond, precOr)
 	}
 
 	// Add closing parenthesis if needed.
-- 
2.43.0


From 3d9585e9cb44006dc3969426bc38edcab8add1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:20 +0000
Subject: [PATCH 026/127] fix: treat &=, ^=, <<= and >>= as augmented
 assignments

---
 build/parse.y    | 2 +-
 build/parse.y.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/build/parse.y b/build/parse.y
index cdd65d9..f4ea9ed 100644
--- a/build/parse.y
+++ b/build/parse.y
@@ -1082,7 +1082,7 @@ func binary(x Expr, pos Position, op string, y Expr) Expr {
 	ystart, _ := y.Span()
 
 	switch op {
-	case "=", "+=", "-=", "*=", "/=", "//=", "%=", "|=":
+	case "=", "+=", "-=", "*=", "/=", "//=", "%=", "|=", "&=", "^=", "<<=", ">>=":
 		return &AssignExpr{
 			LHS:       x,
 			OpPos:     pos,
diff --git a/build/parse.y.go b/build/parse.y.go
index a271778..d480557 100644
--- a/build/parse.y.go
+++ b/build/parse.y.go
@@ -167,7 +167,7 @@ func binary(x Expr, pos Position, op string, y Expr) Expr {
 	ystart, _ := y.Span()
 
 	switch op {
-	case "=", "+=", "-=", "*=", "/=", "//=", "%=", "|=":
+	case "=", "+=", "-=", "*=", "/=", "//=", "%=", "|=", "&=", "^=", "<<=", ">>=":
 		return &AssignExpr{
 			LHS:       x,
 			OpPos:     pos,
-- 
2.43.0


From 284358956ed906fe1ad661ff16771c00754b213b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 027/127] fix: let the later of repeated load arguments win
 regardless of how they are sorted

---
 build/rewrite.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index 308d956..bac6c5b 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -1293,21 +1293,22 @@ func (args *loadArgs) Less(i, j int) bool {
 	return args.To[i].Name < args.To[j].Name
 }
 
-// deduplicate assumes that the args are sorted and prioritize arguments that
-// are defined later (e.g. `a = "x", a = "y"` is shortened to `a = "y"`).
+// deduplicate removes repeated symbols and prioritizes arguments that are defined later
+// (e.g. `a = "x", a = "y"` is shortened to `a = "y"`).
 func (args *loadArgs) deduplicate() {
 	var from, to []*Ident
+	index := make(map[string]int)
 	for i := range args.To {
-		if len(to) > 0 && to[len(to)-1].Name == args.To[i].Name {
+		if j, ok := index[args.To[i].Name]; ok {
 			// Overwrite, but keep the comments
-			oldFrom, oldTo := from[len(from)-1], to[len(to)-1]
-			args.To[i].Before = append(append([]Comment{}, oldTo.Before...), args.To[i].Before...)
-			args.From[i].Suffix = append(append([]Comment{}, oldFrom.Suffix...), args.From[i].Suffix...)
-			from[len(from)-1] = args.From[i]
-			to[len(to)-1] = args.To[i]
+			args.To[i].Before = append(append([]Comment{}, to[j].Before...), args.To[i].Before...)
+			args.From[i].Suffix = append(append([]Comment{}, from[j].Suffix...), args.From[i].Suffix...)
+			from[j] = args.From[i]
+			to[j] = args.To[i]
 			args.modified = true
 		} else {
 			// Just append
+			index[args.To[i].Name] = len(to)
 			from = append(from, args.From[i])
 			to = append(to, args.To[i])
 		}
@@ -1319,8 +1320,8 @@ func (args *loadArgs) deduplicate() {
 // SortLoadArgs sorts a load statement arguments (lexicographically, but positional first)
 func SortLoadArgs(load *LoadStmt) bool {
 	args := loadArgs{From: load.From, To: load.To}
-	sort.Stable(&args)
 	args.deduplicate()
+	sort.Stable(&args)
 	load.From = args.From
 	load.To = args.To
 	return args.modified
-- 
2.43.0


From ccbda12339bd2b2b6d50089a2102786c58687d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 028/127] fix: keep a zero exponent of a float

---
 build/rewrite.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index bac6c5b..c0a0b5e 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -1467,7 +1467,11 @@ func editFloats(f *File, _ *Rewriter) {
 			// Invalid float, skip rewriting.
 			return
 		}
-		l.Token = parts[0] + "e" + strings.TrimLeft(parts[1], "0+")
+		exponent := strings.TrimLeft(parts[1], "0+")
+		if exponent == "" {
+			exponent = "0"
+		}
+		l.Token = parts[0] + "e" + exponent
 	})
 }
 
-- 
2.43.0


From 8bb6ff0e1223e73c30b1366cc57fd4df80acfe0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 029/127] fix: don't rewrite floats with a leading zero as
 octal integers

---
 build/rewrite.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index c0a0b5e..7e8c0be 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -1436,7 +1436,8 @@ func editOctals(f *File, _ *Rewriter) {
 		if !ok {
 			return
 		}
-		if len(l.Token) > 1 && l.Token[0] == '0' && l.Token[1] >= '0' && l.Token[1] <= '9' {
+		// Floats may start with a zero, too
+		if len(l.Token) > 1 && l.Token[0] == '0' && strings.Trim(l.Token, "0123456789") == "" {
 			l.Token = "0o" + l.Token[1:]
 		}
 	})
-- 
2.43.0


From ecfdbc663eb0a5328903476ec0b922b08d5afa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 030/127] fix: don't make line continuations by trimming
 docstrings

---
 build/rewrite.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index 7e8c0be..b4ed03c 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -1382,7 +1382,13 @@ func formatString(value string, oldIndentation, newIndentation int) string {
 		if i != len(lines)-1 {
 			// Remove trailing space from the line unless it's the last line that's responsible
 			// for the indentation of the closing `"""`
-			line = strings.TrimRight(line, " ")
+			trimmed := strings.TrimRight(line, " ")
+			backslashes := len(trimmed) - len(strings.TrimRight(trimmed, "\\"))
+			if trimmed != line && backslashes%2 == 1 && !strings.HasPrefix(value, "r") {
+				// The backslash before the space would become a line continuation, escape it
+				trimmed += "\\"
+			}
+			line = trimmed
 		}
 		lines[i] = line
 	}
-- 
2.43.0


From bd8fdfcb364851dc2be10f96734e2995d5d55b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:13 +0000
Subject: [PATCH 031/127] fix: don't read the sum of a hexadecimal number
 ending in e as one token

---
 build/lex.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/build/lex.go b/build/lex.go
index 4c8fb33..579b452 100644
--- a/build/lex.go
+++ b/build/lex.go
@@ -633,8 +633,9 @@ func (in *input) Lex(val *yySymType) int {
 		if !isIdent(c) {
 			if c == '+' || c == '-' {
 				t := in.peekToken()
-				// Parse 12.3e-4 and 12.3E+4 as a single token.
-				if !(len(t) > 0 && t[0] >= '0' && t[0] <= '9' && (t[len(t)-1] == 'e' || t[len(t)-1] == 'E')) {
+				// Parse 12.3e-4 and 12.3E+4 as a single token, but not 0xe-4.
+				if !(len(t) > 0 && t[0] >= '0' && t[0] <= '9' && (t[len(t)-1] == 'e' || t[len(t)-1] == 'E')) ||
+					len(t) > 1 && (t[1] == 'x' || t[1] == 'X') {
 					break
 				}
 			} else {
-- 
2.43.0


From ca1c4ba3443035bf76e3503841b0cac3522d8701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:39 +0000
Subject: [PATCH 032/127] fix: continue sorting right after a chunk of a list
 that lost duplicates

---
 build/rewrite.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/build/rewrite.go b/build/rewrite.go
index b4ed03c..54c2204 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -683,6 +683,7 @@ func sortStringExprs(list []Expr) []Expr {
 				list[i+offset] = key.x
 			}
 			list = append(list[:(i+len(chunk))], list[j:]...)
+			j = i + len(chunk)
 		}
 
 		i = j
-- 
2.43.0


From 915810018927155bf94479ccf5ea10de68c9d52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:47 +0000
Subject: [PATCH 033/127] fix: don't shorten strings with several colons as
 labels

---
 build/rewrite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index 54c2204..9a45e49 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -263,7 +263,7 @@ func fixLabels(f *File, w *Rewriter) {
 	}
 	// labelRE matches label strings, e.g. @r//x/y/z:abc
 	// where $1 is @r//x/y/z, $2 is @r//, $3 is r, $4 is z, $5 is abc.
-	labelRE := regexp.MustCompile(`^(((?:@(\w+))?//|` + labelPrefix + `)(?:.+/)?([^:]*))(?::([^:]+))?$`)
+	labelRE := regexp.MustCompile(`^(((?:@(\w+))?//|` + labelPrefix + `)(?:[^:]+/)?([^:]*))(?::([^:]+))?$`)
 
 	shortenLabel := func(v Expr) {
 		str, ok := v.(*StringExpr)
-- 
2.43.0


From ae224c0603f8ba5917ab89a887d22aacc0f521c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:20 +0000
Subject: [PATCH 034/127] fix: compare paths consistently if one is a prefix of
 the other up to case

---
 build/rewrite.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/build/rewrite.go b/build/rewrite.go
index 9a45e49..a8c220f 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -1107,6 +1107,10 @@ func comparePaths(path1, path2 string) bool {
 		}
 	}
 
+	if len(chunks1) < len(chunks2) {
+		return true
+	}
+
 	// No case-insensitive difference detected. Likely the difference is just in
 	// the case of some symbols, compare case-sensitively for the determinism.
 	return path1 <= path2
-- 
2.43.0


From 8028981565974c9803f56ac06c7b4e172b18eb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:33 +0000
Subject: [PATCH 035/127] fix: find opt-out comments before closing brackets
 and else, too

---
 build/rewrite.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index a8c220f..96f1187 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -185,7 +185,8 @@ func hasComment(x Expr, text string) bool {
 func isCommentAnywhere(f *File, text string) bool {
 	commentExists := false
 	WalkInterruptable(f, func(node Expr, stack []Expr) (err error) {
-		if hasComment(node, text) {
+		end := closingToken(node)
+		if hasComment(node, text) || end != nil && hasComment(end, text) {
 			commentExists = true
 			return &StopTraversalError{}
 		}
@@ -194,6 +195,32 @@ func isCommentAnywhere(f *File, text string) bool {
 	return commentExists
 }
 
+// closingToken returns the closing bracket of an expression, or `else` of an if-statement, which may
+// have comments of its own.
+func closingToken(x Expr) *End {
+	switch x := x.(type) {
+	case *CallExpr:
+		return &x.End
+	case *Comprehension:
+		return &x.End
+	case *DictExpr:
+		return &x.End
+	case *ListExpr:
+		return &x.End
+	case *SetExpr:
+		return &x.End
+	case *TupleExpr:
+		return &x.End
+	case *ParenExpr:
+		return &x.End
+	case *LoadStmt:
+		return &x.Rparen
+	case *IfStmt:
+		return &x.ElsePos
+	}
+	return nil
+}
+
 // leaveAlone1 reports whether x is marked with a comment containing
 // "buildifier: leave-alone", case-insensitive.
 func leaveAlone1(x Expr) bool {
-- 
2.43.0


From c998d7277883e43f942fae159c6077bcd3415ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:24 +0000
Subject: [PATCH 036/127] fix: make a lone * span its text

---
 build/syntax.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/syntax.go b/build/syntax.go
index 2db5b24..ec7a513 100644
--- a/build/syntax.go
+++ b/build/syntax.go
@@ -516,7 +516,7 @@ type UnaryExpr struct {
 // Span returns the start and end positions of the node
 func (x *UnaryExpr) Span() (start, end Position) {
 	if x.X == nil {
-		return x.OpStart, x.OpStart
+		return x.OpStart, x.OpStart.add(x.Op)
 	}
 	_, end = x.X.Span()
 	return x.OpStart, end
-- 
2.43.0


From 444b62f80390a27de08c3a65fbaefa03403feac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:53 +0000
Subject: [PATCH 037/127] fix: keep edits of dictionary entries and
 comprehension clauses

---
 build/walk.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/build/walk.go b/build/walk.go
index dd279a7..f90756a 100644
--- a/build/walk.go
+++ b/build/walk.go
@@ -171,11 +171,14 @@ func WalkOnce(v Expr, f func(x *Expr)) {
 		for i := range v.List {
 			e := Expr(v.List[i])
 			f(&e)
+			if kv, ok := e.(*KeyValueExpr); ok {
+				v.List[i] = kv
+			}
 		}
 	case *Comprehension:
 		f(&v.Body)
-		for _, c := range v.Clauses {
-			f(&c)
+		for i := range v.Clauses {
+			f(&v.Clauses[i])
 		}
 	case *IfClause:
 		f(&v.Cond)
-- 
2.43.0


From b8d2c22d1acc489e10ac84776b227132b71d80c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:16 +0000
Subject: [PATCH 038/127] fix: visit type annotations when walking a tree

---
 build/walk.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/build/walk.go b/build/walk.go
index f90756a..cd2b517 100644
--- a/build/walk.go
+++ b/build/walk.go
@@ -114,6 +114,13 @@ func WalkOnce(v Expr, f func(x *Expr)) {
 		for i := range v.Stmt {
 			f(&v.Stmt[i])
 		}
+	case *TypedIdent:
+		ident := Expr(v.Ident)
+		f(&ident)
+		if id, ok := ident.(*Ident); ok {
+			v.Ident = id
+		}
+		f(&v.Type)
 	case *DotExpr:
 		f(&v.X)
 	case *IndexExpr:
@@ -205,6 +212,9 @@ func WalkOnce(v Expr, f func(x *Expr)) {
 		for i := range v.Params {
 			f(&v.Params[i])
 		}
+		if v.Type != nil {
+			f(&v.Type)
+		}
 		for i := range v.Body {
 			f(&v.Body[i])
 		}
-- 
2.43.0


From 2aa246c5b179b5c63b74a6b508240d016c7acbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:25 +0000
Subject: [PATCH 039/127] fix: don't let DelRules change implicit names while
 deleting

---
 build/rule.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/build/rule.go b/build/rule.go
index b6e10bc..d469d5f 100644
--- a/build/rule.go
+++ b/build/rule.go
@@ -107,7 +107,8 @@ func (f *File) RuleNamed(name string) *Rule {
 // An empty kind matches all kinds; an empty name matches all names.
 // It returns the number of rules that were deleted.
 func (f *File) DelRules(kind, name string) int {
-	var i int
+	// Don't modify f.Stmt until all rules are checked, implicit names of rules depend on it.
+	var kept []Expr
 	for _, stmt := range f.Stmt {
 		if call, ok := stmt.(*CallExpr); ok {
 			r := f.Rule(call)
@@ -116,11 +117,10 @@ func (f *File) DelRules(kind, name string) int {
 				continue
 			}
 		}
-		f.Stmt[i] = stmt
-		i++
+		kept = append(kept, stmt)
 	}
-	n := len(f.Stmt) - i
-	f.Stmt = f.Stmt[:i]
+	n := len(f.Stmt) - len(kept)
+	f.Stmt = kept
 	return n
 }
 
-- 
2.43.0


From 46976503acd504cb9c7543065ab194d91145985e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:30 +0000
Subject: [PATCH 040/127] fix: leave lists without the removed values alone

---
 edit/buildozer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 1b9c186..3c385fa 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -439,10 +439,16 @@ func cmdRemove(opts *Options, env CmdEnvironment) (*build.File, error) {
 	} else { // Remove values in the attribute.
 		fixed := false
 		for _, key := range attrKeysForPattern(env.Rule, env.Args[0]) {
+			deleted := false
 			for _, val := range env.Args[1:] {
-				ListAttributeDelete(env.Rule, key, val, env.Pkg)
-				fixed = true
+				if ListAttributeDelete(env.Rule, key, val, env.Pkg) != nil {
+					deleted = true
+				}
+			}
+			if !deleted {
+				continue
 			}
+			fixed = true
 			ResolveAttr(env.Rule, key, env.Pkg)
 			// Remove the attribute if's an empty list
 			if listExpr, ok := env.Rule.Attr(key).(*build.ListExpr); ok && len(listExpr.List) == 0 {
-- 
2.43.0


From b029eee542dd6a6ddbb617e27562c49b094d6dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:03 +0000
Subject: [PATCH 041/127] fix: edit lists and selects in parentheses

---
 edit/edit.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/edit/edit.go b/edit/edit.go
index e56ee45..b1bde49 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -394,6 +394,8 @@ func AllLists(e build.Expr) []*build.ListExpr {
 	switch e := e.(type) {
 	case *build.ListExpr:
 		return []*build.ListExpr{e}
+	case *build.ParenExpr:
+		return AllLists(e.X)
 	case *build.BinaryExpr:
 		if e.Op == "+" {
 			return append(AllLists(e.X), AllLists(e.Y)...)
@@ -405,6 +407,8 @@ func AllLists(e build.Expr) []*build.ListExpr {
 // AllSelects returns all the selects concatenated in an expression.
 func AllSelects(e build.Expr) []*build.CallExpr {
 	switch e := e.(type) {
+	case *build.ParenExpr:
+		return AllSelects(e.X)
 	case *build.BinaryExpr:
 		if e.Op == "+" {
 			return append(AllSelects(e.X), AllSelects(e.Y)...)
@@ -455,6 +459,8 @@ func FirstList(e build.Expr) *build.ListExpr {
 	switch e := e.(type) {
 	case *build.ListExpr:
 		return e
+	case *build.ParenExpr:
+		return FirstList(e.X)
 	case *build.BinaryExpr:
 		if e.Op == "+" {
 			li := FirstList(e.X)
@@ -474,6 +480,8 @@ func AllStrings(e build.Expr) []*build.StringExpr {
 	switch e := e.(type) {
 	case *build.StringExpr:
 		return []*build.StringExpr{e}
+	case *build.ParenExpr:
+		return AllStrings(e.X)
 	case *build.BinaryExpr:
 		if e.Op == "+" {
 			return append(AllStrings(e.X), AllStrings(e.Y)...)
@@ -532,6 +540,11 @@ func ContainsComments(expr build.Expr, str string) bool {
 // empty selects into empty lists and adjacent lists are concatenated
 func RemoveEmptySelectsAndConcatLists(e build.Expr) build.Expr {
 	switch e := e.(type) {
+	case *build.ParenExpr:
+		e.X = RemoveEmptySelectsAndConcatLists(e.X)
+		if list, ok := e.X.(*build.ListExpr); ok {
+			return list
+		}
 	case *build.BinaryExpr:
 		if e.Op == "+" {
 			e.X = RemoveEmptySelectsAndConcatLists(e.X)
-- 
2.43.0


From 766b8756f7bd182ec0a1fe4961eabd8d4ffc5444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:33 +0000
Subject: [PATCH 042/127] fix: don't duplicate non-string elements of
 single-branch selects

---
 edit/edit.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/edit/edit.go b/edit/edit.go
index b1bde49..5517512 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -637,6 +637,11 @@ func SelectListsIntersection(sel *build.CallExpr, pkg string) (intersection []bu
 	}
 
 	if val, ok := dict.List[0].Value.(*build.ListExpr); ok {
+		for _, elem := range val.List {
+			if _, ok := elem.(*build.StringExpr); !ok {
+				return nil
+			}
+		}
 		intersection = make([]build.Expr, len(val.List))
 		copy(intersection, val.List)
 	}
-- 
2.43.0


From f8e2523e2e25cb0a796c5f2631c38f50670b3d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:12 +0000
Subject: [PATCH 043/127] fix: find values in selects next to one with several
 arguments

---
 edit/edit.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edit/edit.go b/edit/edit.go
index 5517512..3b951af 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -427,12 +427,12 @@ func allListsFromSelects(e build.Expr) []*build.ListExpr {
 	var lists []*build.ListExpr
 
 	for _, s := range AllSelects(e) {
-		if len(s.List) != 1 {
-			return nil
+		if len(s.List) == 0 {
+			continue
 		}
 		dict, ok := s.List[0].(*build.DictExpr)
 		if !ok {
-			return nil
+			continue
 		}
 		for _, kv := range dict.List {
 			list, ok := kv.Value.(*build.ListExpr)
-- 
2.43.0


From f84e6d366eb2bda2a334fa3bbb4d25afe211663f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 044/127] fix: don't extract values that have to stay in
 selects

---
 edit/edit.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/edit/edit.go b/edit/edit.go
index 3b951af..088a1fa 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -660,6 +660,23 @@ func SelectListsIntersection(sel *build.CallExpr, pkg string) (intersection []bu
 	return intersection
 }
 
+// selectsContainWithComments returns whether one of the lists inside selects contains the given
+// string with a comment attached to it.
+func selectsContainWithComments(e, item build.Expr, pkg string) bool {
+	str, ok := item.(*build.StringExpr)
+	if !ok {
+		return false
+	}
+	for _, list := range allListsFromSelects(e) {
+		for _, elem := range list.List {
+			if s, ok := elem.(*build.StringExpr); ok && labels.Equal(s.Value, str.Value, pkg) && hasComments(s) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 // ResolveAttr extracts common elements of the lists inside select dictionaries
 // and adds them at attribute level rather than select level, as well as turns
 // empty selects into empty lists and concatenates adjacent lists
@@ -679,6 +696,10 @@ func ResolveAttr(r *build.Rule, attr, pkg string) {
 	}
 
 	for _, common := range toExtract {
+		if !DeleteWithComments && selectsContainWithComments(e, common, pkg) {
+			// It wouldn't be removed from all of the selects.
+			continue
+		}
 		e = AddValueToList(e, pkg, common, false) // this will also remove them from selects
 	}
 
-- 
2.43.0


From b517bf864197500cf2f8cac0cf24c420f4a987be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 045/127] fix: replace strings by strings in attributes of
 unknown type

---
 edit/buildozer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 3c385fa..1a70494 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -532,7 +532,7 @@ func cmdReplace(opts *Options, env CmdEnvironment) (*build.File, error) {
 		attr := env.Rule.Attr(key)
 		if e, ok := attr.(*build.StringExpr); ok {
 			if labels.Equal(e.Value, oldV, env.Pkg) {
-				env.Rule.SetAttr(key, getAttrValueExpr(key, []string{newV}, env))
+				env.Rule.SetAttr(key, getStringExpr(newV, env.Pkg))
 			}
 		} else {
 			ListReplace(attr, oldV, newV, env.Pkg)
-- 
2.43.0


From b4c183b13fceec5bb328fb59a51e9c72a95ecf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 046/127] fix: replace the comment of an attribute instead of
 moving it to the next line

---
 edit/buildozer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 1a70494..0891209 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -118,7 +118,9 @@ func cmdComment(opts *Options, env CmdEnvironment) (*build.File, error) {
 			if fullLine {
 				attr.LHS.Comment().Before = comment
 			} else {
-				attr.RHS.Comment().Suffix = comment
+				// Suffix comments are attached to the whole attribute when a file is parsed.
+				attr.Comments.Suffix = comment
+				attr.RHS.Comment().Suffix = nil
 			}
 		}
 	case 3: // Attach to a specific value in a list
-- 
2.43.0


From 4b0dde049579f5ee855997868475b1e1eab57964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 047/127] fix: keep dictionary entries whose keys aren't
 strings

---
 edit/edit.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/edit/edit.go b/edit/edit.go
index 088a1fa..194b1bd 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -981,12 +981,10 @@ func DictionaryDelete(dict *build.DictExpr, key string) (deleted build.Expr) {
 	deleted = nil
 	var all []*build.KeyValueExpr
 	for _, kv := range dict.List {
-		if k, ok := kv.Key.(*build.StringExpr); ok {
-			if k.Value == key {
-				deleted = kv
-			} else {
-				all = append(all, kv)
-			}
+		if k, ok := kv.Key.(*build.StringExpr); ok && k.Value == key {
+			deleted = kv
+		} else {
+			all = append(all, kv)
 		}
 	}
 	dict.List = all
-- 
2.43.0


From 5caf1e263c055b745de60c0cdc74d2445c050b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 048/127] fix: let later commands see the structure of values
 set before

---
 edit/buildozer.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 0891209..f7fb47e 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -608,10 +608,21 @@ func getAttrValueExpr(attr string, args []string, env CmdEnvironment) build.Expr
 	case IsString(attr):
 		return getStringExpr(args[0], env.Pkg)
 	default:
-		return &build.Ident{Name: args[0]}
+		return getRawExpr(args[0])
 	}
 }
 
+// getRawExpr creates an expression from an input argument that contains source code.
+func getRawExpr(value string) build.Expr {
+	// Parse the value to let the following commands see what it consists of.
+	if ast, err := build.ParseBuild("" /* filename */, []byte("_ = "+value)); err == nil && len(ast.Stmt) == 1 {
+		if as, ok := ast.Stmt[0].(*build.AssignExpr); ok && as.Op == "=" {
+			return as.RHS
+		}
+	}
+	return &build.Ident{Name: value}
+}
+
 // getStringValue extracts a string value, which can be either quoted or not, from an input argument
 func getStringValue(value string) string {
 	if unquoted, _, err := build.Unquote(value); err == nil {
-- 
2.43.0


From 2a8102684ed09ce85cfbdc36ef7c26a2f2f8902a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 049/127] fix: copy values that span several lines

---
 edit/buildozer.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index f7fb47e..43bc72e 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -833,12 +833,17 @@ func copyAttributeBetweenRules(env CmdEnvironment, attrName string, from string)
 		return nil, fmt.Errorf("rule '%s' does not have attribute '%s'", from, attrName)
 	}
 
-	ast, err := build.ParseBuild("" /* filename */, []byte(build.FormatString(attr)))
+	// The value may span several lines, make sure they belong together.
+	ast, err := build.ParseBuild("" /* filename */, []byte("(\n"+build.FormatString(attr)+"\n)"))
 	if err != nil {
 		return nil, fmt.Errorf("could not parse attribute value %v", build.FormatString(attr))
 	}
+	value := ast.Stmt[0]
+	if paren, ok := value.(*build.ParenExpr); ok {
+		value = paren.X
+	}
 
-	env.Rule.SetAttr(attrName, ast.Stmt[0])
+	env.Rule.SetAttr(attrName, value)
 	return env.File, nil
 }
 
-- 
2.43.0


From 3f7748de9ba4e6d60e1325fbad0a2410457c50cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:36 +0000
Subject: [PATCH 050/127] fix: remove every replaced symbol from a load
 statement

ReplaceLoad removed elements from the slice it was ranging over, so it
skipped the symbol after each removed one.
---
 edit/edit.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/edit/edit.go b/edit/edit.go
index 194b1bd..b3b9d9f 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -1229,17 +1229,14 @@ func ReplaceLoad(stmts []build.Expr, location string, from, to []string) []build
 			continue
 		}
 
+		var loadFrom, loadTo []*build.Ident
 		for i, to := range load.To {
-			if toSymbols[to.Name] {
-				if i < len(load.From)-1 {
-					load.From = append(load.From[:i], load.From[i+1:]...)
-					load.To = append(load.To[:i], load.To[i+1:]...)
-				} else {
-					load.From = load.From[:i]
-					load.To = load.To[:i]
-				}
+			if !toSymbols[to.Name] {
+				loadFrom = append(loadFrom, load.From[i])
+				loadTo = append(loadTo, to)
 			}
 		}
+		load.From, load.To = loadFrom, loadTo
 
 		if len(load.To) > 0 {
 			all = append(all, load)
-- 
2.43.0


From 0c400d28ed49a8f38152672fa621d7a17461cf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:36 +0000
Subject: [PATCH 051/127] fix: load symbols once and in the order they were
 given

New symbols were appended to a load statement in map iteration order, and
a repeated symbol was loaded repeatedly by a new load statement.
---
 edit/edit.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/edit/edit.go b/edit/edit.go
index b3b9d9f..3ef2e78 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -1112,8 +1112,13 @@ func AppendToLoad(load *build.LoadStmt, from, to []string) bool {
 	}
 
 	// Append the remaining loads to the load statement.
-	for s := range symbolsToLoad {
-		load.From = append(load.From, &build.Ident{Name: symbolsToLoad[s]})
+	for _, s := range to {
+		f, ok := symbolsToLoad[s]
+		if !ok {
+			continue
+		}
+		delete(symbolsToLoad, s)
+		load.From = append(load.From, &build.Ident{Name: f})
 		load.To = append(load.To, &build.Ident{Name: s})
 	}
 	return true
@@ -1146,13 +1151,14 @@ func appendLoad(stmts []build.Expr, location string, from, to []string) bool {
 	}
 
 	// Append the remaining loads to the last load location.
-	from = []string{}
-	to = []string{}
-	for t, f := range symbolsToLoad {
-		from = append(from, f)
-		to = append(to, t)
+	var fromToLoad, toToLoad []string
+	for i, t := range to {
+		if _, ok := symbolsToLoad[t]; ok {
+			fromToLoad = append(fromToLoad, from[i])
+			toToLoad = append(toToLoad, t)
+		}
 	}
-	AppendToLoad(lastLoad, from, to)
+	AppendToLoad(lastLoad, fromToLoad, toToLoad)
 	return true
 }
 
@@ -1170,7 +1176,8 @@ func InsertLoad(stmts []build.Expr, location string, from, to []string) []build.
 		return stmts
 	}
 
-	load := NewLoad(location, from, to)
+	load := NewLoad(location, nil, nil)
+	AppendToLoad(load, from, to)
 
 	insertAfter := -1
 	for i, stmt := range stmts {
-- 
2.43.0


From c848ec23da5c085e2e82a7b9e28369dee2bdf9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 052/127] fix: don't let a placeholder package() call hide an
 implicit rule name

---
 build/rule.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/build/rule.go b/build/rule.go
index d469d5f..1baa691 100644
--- a/build/rule.go
+++ b/build/rule.go
@@ -143,6 +143,10 @@ func (f *File) implicitRuleName() string {
 			continue
 		}
 		temp := &Rule{call, ""}
+		if temp.Kind() == "package" && len(call.List) == 0 {
+			// A placeholder inserted by an edit of the package declaration.
+			continue
+		}
 		if temp.AttrString("name") == possibleImplicitName {
 			// A target explicitly has the name of the dir, so no implicit targets are allowed.
 			return ""
-- 
2.43.0


From 5527e7c55cdb515a434aed17725ee964ff56e874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 053/127] fix: print comments that an earlier command put above
 an attribute

'comment attr' with a comment on its own line attaches it to the name of the
attribute, a following print_comment in the same run only looked at the
attribute.
---
 edit/buildozer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 43bc72e..19662fc 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -180,7 +180,9 @@ func cmdPrintComment(opts *Options, env CmdEnvironment) (*build.File, error) {
 			}
 			return nil, attrError()
 		}
-		comments := append(attr.Before, attr.Suffix...)
+		comments := append([]build.Comment{}, attr.Before...)
+		comments = append(comments, attr.LHS.Comment().Before...) // set by an earlier comment command
+		comments = append(comments, attr.Suffix...)
 		env.output.Fields = []*apipb.Output_Record_Field{
 			{Value: &apipb.Output_Record_Field_Text{Text: commentsText(comments)}},
 		}
-- 
2.43.0


From bec6312c08181d5daba62eb84430608b152de623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 054/127] fix: accept //BUILD as a target

It was turned into /:__pkg__, which doesn't name any file.
---
 edit/buildozer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 19662fc..193f007 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -1356,7 +1356,9 @@ func appendCommands(opts *Options, commandMap map[string][]commandsForTarget, ar
 	}
 	for _, target := range targets {
 		for _, buildFileName := range BuildFileNames {
-			if strings.HasSuffix(target, filepath.FromSlash("/"+buildFileName)) {
+			if target == "//"+buildFileName {
+				target = "//:__pkg__"
+			} else if strings.HasSuffix(target, filepath.FromSlash("/"+buildFileName)) {
 				target = strings.TrimSuffix(target, filepath.FromSlash("/"+buildFileName)) + ":__pkg__"
 			} else if strings.HasSuffix(target, "/"+buildFileName) {
 				target = strings.TrimSuffix(target, "/"+buildFileName) + ":__pkg__"
-- 
2.43.0


From 4513ff445aa970929c128a02def09465385d00bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 055/127] fix: give the implicit rule name only to the unnamed
 rule

Calls without a name in comprehensions and the like got it, too.
---
 build/rule.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/build/rule.go b/build/rule.go
index 1baa691..1583bee 100644
--- a/build/rule.go
+++ b/build/rule.go
@@ -37,7 +37,9 @@ func NewRule(call *CallExpr) *Rule {
 func (f *File) Rule(call *CallExpr) *Rule {
 	r := &Rule{call, ""}
 	if r.AttrString("name") == "" {
-		r.ImplicitName = f.implicitRuleName()
+		if rule, name := f.implicitlyNamedRule(); rule == call {
+			r.ImplicitName = name
+		}
 	}
 	return r
 }
@@ -129,12 +131,18 @@ func (f *File) DelRules(kind, name string) int {
 // had the name of the directory containing the BUILD file.
 // This is following a convention used in the Pants build system to cut down on boilerplate.
 func (f *File) implicitRuleName() string {
+	_, name := f.implicitlyNamedRule()
+	return name
+}
+
+// implicitlyNamedRule returns the rule with an implicit name and that name, if there is one.
+func (f *File) implicitlyNamedRule() (*CallExpr, string) {
 	// We disallow empty names in the top-level BUILD files.
 	dir := filepath.Dir(f.Path)
 	if dir == "." {
-		return ""
+		return nil, ""
 	}
-	sawAnonymousRule := false
+	var anonymousRule *CallExpr
 	possibleImplicitName := filepath.Base(dir)
 
 	for _, stmt := range f.Stmt {
@@ -149,19 +157,19 @@ func (f *File) implicitRuleName() string {
 		}
 		if temp.AttrString("name") == possibleImplicitName {
 			// A target explicitly has the name of the dir, so no implicit targets are allowed.
-			return ""
+			return nil, ""
 		}
 		if temp.Kind() != "" && temp.AttrString("name") == "" {
-			if sawAnonymousRule {
-				return ""
+			if anonymousRule != nil {
+				return nil, ""
 			}
-			sawAnonymousRule = true
+			anonymousRule = call
 		}
 	}
-	if sawAnonymousRule {
-		return possibleImplicitName
+	if anonymousRule == nil {
+		return nil, ""
 	}
-	return ""
+	return anonymousRule, possibleImplicitName
 }
 
 // Kind returns the rule's kind (such as "go_library").
-- 
2.43.0


From 62b22e9711d7841e0670a6020b4df21039c8dad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:26 +0000
Subject: [PATCH 056/127] fix: print the comment behind a rule or value

FormatString dropped end-of-line comments at the end of the expression, so
'print rule' left out the comment after the closing parenthesis.
---
 build/print.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/build/print.go b/build/print.go
index 3db0c97..c325305 100644
--- a/build/print.go
+++ b/build/print.go
@@ -70,6 +70,7 @@ func FormatString(x Expr) string {
 		pr.file(x)
 	default:
 		pr.expr(x, precLow)
+		pr.flushComments()
 	}
 	return pr.String()
 }
-- 
2.43.0


From f52c8e72e3ae155800a876a04738e464c8cf5538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:26 +0000
Subject: [PATCH 057/127] fix: edit the build file of a directory once

If a directory had both a BUILD.bazel and a BUILD file, patterns with ...
applied all commands twice to BUILD.bazel, possibly in parallel.
---
 edit/buildozer.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 193f007..d096bad 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -1331,15 +1331,19 @@ func findBuildFiles(rootDir string) []string {
 			continue
 		}
 
+		existing := make(map[string]bool)
 		for _, dirFile := range dirFiles {
 			if dirFile.IsDir() {
 				searchDirs = append(searchDirs, filepath.Join(dir, dirFile.Name()))
 			} else {
-				for _, buildFileName := range BuildFileNames {
-					if dirFile.Name() == buildFileName {
-						buildFiles = append(buildFiles, filepath.Join(dir, dirFile.Name()))
-					}
-				}
+				existing[dirFile.Name()] = true
+			}
+		}
+		for _, buildFileName := range BuildFileNames {
+			if existing[buildFileName] {
+				// A directory has just one build file.
+				buildFiles = append(buildFiles, filepath.Join(dir, buildFileName))
+				break
 			}
 		}
 	}
-- 
2.43.0


From 8c073b008c3748c9a04bc78987d431156e4791a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 058/127] fix: load aliased symbols in every file a command is
 applied to

splitLoadArgs modified the arguments of the command, so the second file of
'new_load x.bzl a=b' got the symbol b instead of the alias a.
---
 edit/buildozer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index d096bad..543372a 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -287,7 +287,8 @@ func findInsertionIndex(env CmdEnvironment) (bool, int, error) {
 // splitLoadArgs splits arguments of form <[to=]from>
 // into a slice of froms and a slice of tos.
 func splitLoadArgs(args []string) ([]string, []string) {
-	from := args
+	// The arguments are shared by all files the command is applied to.
+	from := append([]string{}, args...)
 	to := append([]string{}, args...)
 	for i := range from {
 		if s := strings.SplitN(from[i], "=", 2); len(s) == 2 {
-- 
2.43.0


From e084d26d2521c3f811d1f9bebbb18a339987f0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:30 +0000
Subject: [PATCH 059/127] fix: recognize //-labels of module extensions

---
 edit/buildozer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 543372a..9df15cd 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -915,7 +915,7 @@ func cmdFormat(opts *Options, env CmdEnvironment) (*build.File, error) {
 func isExtensionLabel(arg string) bool {
 	// Labels referencing extensions are either absolute or repo-absolute. Repository names are not
 	// allowed to contain "@" or "/".
-	return strings.HasPrefix(arg, "@") || strings.HasSuffix(arg, "//")
+	return strings.HasPrefix(arg, "@") || strings.HasPrefix(arg, "//")
 }
 
 func cmdFix(opts *Options, env CmdEnvironment) (*build.File, error) {
-- 
2.43.0


From 06ce131bc3d99dfd49a72931d318975090c39394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:30 +0000
Subject: [PATCH 060/127] fix: report missing arguments of use_repo_add and
 use_repo_remove

---
 edit/buildozer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 9df15cd..680a28e 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -873,6 +873,9 @@ func cmdImplUseRepo(env CmdEnvironment, mode string) (*build.File, error) {
 	var proxies []string
 	var repos []string
 	if isExtensionLabel(args[0]) {
+		if len(args) < 3 {
+			return nil, fmt.Errorf("%s: expected an extension .bzl file, an extension name and repos", mode)
+		}
 		extBzlFile := args[0]
 		extName := args[1]
 
-- 
2.43.0


From 88e0313951ae55cd30b87fa1842716697ce1a477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:30 +0000
Subject: [PATCH 061/127] fix: don't import a repository twice that is given
 twice

---
 edit/bzlmod/bzlmod.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edit/bzlmod/bzlmod.go b/edit/bzlmod/bzlmod.go
index 4a3fc42..9428bb3 100644
--- a/edit/bzlmod/bzlmod.go
+++ b/edit/bzlmod/bzlmod.go
@@ -146,6 +146,7 @@ func AddRepoUsages(useRepos []*build.CallExpr, repos ...string) {
 		if _, ok := seen[repo]; ok {
 			continue
 		}
+		seen[repo] = struct{}{}
 		// Sorting of use_repo arguments is handled by Buildify.
 		// TODO: Add a keyword argument instead if repo is of the form "key=value".
 		lastUseRepo.List = append(lastUseRepo.List, &build.StringExpr{Value: repo})
-- 
2.43.0


From 08ea7c29a45c3552d80221ec8264b52f05e66ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 062/127] fix: keep the package of a file when statements are
 added or deleted

---
 edit/bzlmod/bzlmod.go |  4 +++-
 edit/edit.go          | 17 ++++++++++++-----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/edit/bzlmod/bzlmod.go b/edit/bzlmod/bzlmod.go
index 9428bb3..3216e4f 100644
--- a/edit/bzlmod/bzlmod.go
+++ b/edit/bzlmod/bzlmod.go
@@ -115,7 +115,9 @@ func NewUseRepo(f *build.File, proxies []string) (*build.File, *build.CallExpr)
 	}
 	stmt := append(f.Stmt[:lastUsage+1], append([]build.Expr{useRepo}, f.Stmt[lastUsage+1:]...)...)
 
-	return &build.File{Path: f.Path, Comments: f.Comments, Stmt: stmt, Type: build.TypeModule}, useRepo
+	file := *f
+	file.Stmt = stmt
+	return &file, useRepo
 }
 
 // AddRepoUsages adds the given repos to the given use_repo calls without introducing duplicate
diff --git a/edit/edit.go b/edit/edit.go
index 3ef2e78..27d144a 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -187,7 +187,14 @@ func RemoveEmptyPackage(f *build.File) *build.File {
 		}
 		all = append(all, stmt)
 	}
-	return &build.File{Path: f.Path, Comments: f.Comments, Stmt: all, Type: f.Type}
+	return withStatements(f, all)
+}
+
+// withStatements returns a copy of f with other statements.
+func withStatements(f *build.File, stmts []build.Expr) *build.File {
+	file := *f
+	file.Stmt = stmts
+	return &file
 }
 
 func isEmptyPackage(expr build.Expr) bool {
@@ -221,7 +228,7 @@ func RemoveEmptyUseRepoCalls(f *build.File) *build.File {
 		}
 		all = append(all, stmt)
 	}
-	return &build.File{Path: f.Path, Comments: f.Comments, Stmt: all, Type: build.TypeModule}
+	return withStatements(f, all)
 }
 
 func isEmptyUseRepoCall(expr build.Expr) bool {
@@ -348,7 +355,7 @@ func DeleteRule(f *build.File, rule *build.Rule) *build.File {
 		}
 		all = append(all, stmt)
 	}
-	return &build.File{Path: f.Path, Comments: f.Comments, Stmt: all, Type: f.Type}
+	return withStatements(f, all)
 }
 
 // DeleteRuleByName returns the AST without the rules that have the
@@ -366,7 +373,7 @@ func DeleteRuleByName(f *build.File, name string) *build.File {
 			all = append(all, stmt)
 		}
 	}
-	return &build.File{Path: f.Path, Comments: f.Comments, Stmt: all, Type: f.Type}
+	return withStatements(f, all)
 }
 
 // DeleteRuleByKind removes the rules of the specified kind from the AST.
@@ -384,7 +391,7 @@ func DeleteRuleByKind(f *build.File, kind string) *build.File {
 			all = append(all, stmt)
 		}
 	}
-	return &build.File{Path: f.Path, Comments: f.Comments, Stmt: all, Type: f.Type}
+	return withStatements(f, all)
 }
 
 // AllLists returns all the lists concatenated in an expression.
-- 
2.43.0


From f857088f3c5dfeb7837395292cd98849ea9fcb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:54 +0000
Subject: [PATCH 063/127] fix: keep the licenses of a file without a package
 declaration

---
 edit/fix.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/edit/fix.go b/edit/fix.go
index 1b91365..8237e35 100644
--- a/edit/fix.go
+++ b/edit/fix.go
@@ -445,20 +445,23 @@ func movePackageDeclarationToTheTop(f *build.File) bool {
 // been done).
 func moveToPackage(f *build.File, attrname string) bool {
 	var all []build.Expr
-	fixed := false
+	var moved []*build.Rule
 	for _, stmt := range f.Stmt {
 		rule, ok := ExprToRule(stmt, attrname)
 		if !ok || len(rule.Call.List) != 1 {
 			all = append(all, stmt)
 			continue
 		}
+		moved = append(moved, rule)
+	}
+	f.Stmt = all
+	for _, rule := range moved {
+		// This inserts a package declaration if there is none.
 		pkgDecl := PackageDeclaration(f)
 		pkgDecl.SetAttr(attrname, rule.Call.List[0])
-		pkgDecl.AttrDefn(attrname).Comments = *stmt.Comment()
-		fixed = true
+		pkgDecl.AttrDefn(attrname).Comments = *rule.Call.Comment()
 	}
-	f.Stmt = all
-	return fixed
+	return len(moved) > 0
 }
 
 // moveLicenses replaces the 'licenses' function with an attribute
-- 
2.43.0


From 26cb4cdebca4eaaf0d6ece5eac8d858577d22724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 064/127] fix: don't split quoted options and functions with
 spaces

---
 edit/fix.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/edit/fix.go b/edit/fix.go
index 8237e35..88ae6cd 100644
--- a/edit/fix.go
+++ b/edit/fix.go
@@ -53,6 +53,10 @@ func splitOptionsWithSpaces(_ *build.File, r *build.Rule, _ string) bool {
 	return fixed
 }
 
+// unsplittable matches options with spaces that may be quoted or part of a function like
+// $(location :target).
+var unsplittable = regexp.MustCompile(`['"\\]|\$\([^()]*\s`)
+
 func splitStrings(list *build.ListExpr) bool {
 	var all []build.Expr
 	fixed := false
@@ -62,7 +66,7 @@ func splitStrings(list *build.ListExpr) bool {
 			all = append(all, e)
 			continue
 		}
-		if strings.Contains(str.Value, " ") && !strings.Contains(str.Value, "'\"") && !strings.Contains(str.Value, "$(location") {
+		if strings.Contains(str.Value, " ") && !unsplittable.MatchString(str.Value) {
 			fixed = true
 			for i, substr := range strings.Fields(str.Value) {
 				item := &build.StringExpr{Value: substr}
-- 
2.43.0


From 979308169619614a91a63ff295de2f426b526c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:59 +0000
Subject: [PATCH 065/127] fix: don't put $(location) into $(execpath) and
 similar functions

---
 edit/fix.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/edit/fix.go b/edit/fix.go
index 88ae6cd..2d10806 100644
--- a/edit/fix.go
+++ b/edit/fix.go
@@ -171,8 +171,9 @@ func explicitHeuristicLabels(s string, labels map[string]bool) string {
 	canChange := true
 	for i, part := range parts {
 		// We don't want to add $(location when it's already present.
-		// So we skip the next label when we see location(s).
-		if part == "location" || part == "locations" {
+		// So we skip the next label when we see location(s) or a similar function.
+		switch part {
+		case "location", "locations", "execpath", "execpaths", "rootpath", "rootpaths", "rlocationpath", "rlocationpaths":
 			canChange = false
 		}
 		if !labels[part] {
-- 
2.43.0


From c15630686e011bc10d0a7c211c1db3c729f36477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:17 +0000
Subject: [PATCH 066/127] fix: keep the comments of lists that are merged

---
 edit/edit.go | 31 ++++++++++++++++++++++++++++++-
 edit/fix.go  | 23 +++++++++++++----------
 2 files changed, 43 insertions(+), 11 deletions(-)

diff --git a/edit/edit.go b/edit/edit.go
index 27d144a..6bb94ef 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -561,7 +561,9 @@ func RemoveEmptySelectsAndConcatLists(e build.Expr) build.Expr {
 			y, yIsList := e.Y.(*build.ListExpr)
 
 			if xIsList && yIsList {
-				return &build.ListExpr{List: append(x.List, y.List...)}
+				list := &build.ListExpr{}
+				concatLists(list, e, x, y)
+				return list
 			}
 
 			if xIsList && len(x.List) == 0 {
@@ -594,6 +596,33 @@ func RemoveEmptySelectsAndConcatLists(e build.Expr) build.Expr {
 	return e
 }
 
+// concatLists makes res the concatenation of x and y, the operands of sum, with all of
+// their comments.
+func concatLists(res *build.ListExpr, sum *build.BinaryExpr, x, y *build.ListExpr) {
+	join := func(comments ...[]build.Comment) (all []build.Comment) {
+		for _, c := range comments {
+			all = append(all, c...)
+		}
+		return all
+	}
+	between := join(x.End.Before, y.Before)
+	end := y.End
+	if len(y.List) > 0 {
+		first := y.List[0].Comment()
+		first.Before = join(between, first.Before)
+	} else {
+		end.Before = join(between, end.Before)
+	}
+	end.Suffix = join(x.End.Suffix, y.End.Suffix)
+	res.Comments = build.Comments{
+		Before: join(sum.Before, x.Before),
+		Suffix: join(x.Suffix, y.Suffix, sum.Suffix),
+		After:  join(x.After, y.After, sum.After),
+	}
+	res.List = append(x.List, y.List...)
+	res.End = end
+}
+
 // ComputeIntersection returns the intersection of the two lists given as parameters;
 // if the containing elements are not build.StringExpr, the result will be nil.
 func ComputeIntersection(list1, list2 []build.Expr) []build.Expr {
diff --git a/edit/fix.go b/edit/fix.go
index 2d10806..804b2c5 100644
--- a/edit/fix.go
+++ b/edit/fix.go
@@ -282,21 +282,24 @@ func sortGlob(_ *build.File, r *build.Rule, _ string) bool {
 	return fixed
 }
 
-func evaluateListConcatenation(expr build.Expr) build.Expr {
-	if _, ok := expr.(*build.ListExpr); ok {
-		return expr
+// isListConcatenation reports whether expr consists of literal lists and + only.
+func isListConcatenation(expr build.Expr) bool {
+	if bin, ok := expr.(*build.BinaryExpr); ok {
+		return bin.Op == "+" && isListConcatenation(bin.X) && isListConcatenation(bin.Y)
 	}
+	_, ok := expr.(*build.ListExpr)
+	return ok
+}
+
+func evaluateListConcatenation(expr build.Expr) build.Expr {
 	bin, ok := expr.(*build.BinaryExpr)
-	if !ok || bin.Op != "+" {
-		return expr
-	}
-	li1, ok1 := evaluateListConcatenation(bin.X).(*build.ListExpr)
-	li2, ok2 := evaluateListConcatenation(bin.Y).(*build.ListExpr)
-	if !ok1 || !ok2 {
+	if !ok || !isListConcatenation(expr) {
 		return expr
 	}
+	li1 := evaluateListConcatenation(bin.X).(*build.ListExpr)
+	li2 := evaluateListConcatenation(bin.Y).(*build.ListExpr)
 	res := *li1
-	res.List = append(li1.List, li2.List...)
+	concatLists(&res, bin, li1, li2)
 	return &res
 }
 
-- 
2.43.0


From b327b237719835b07d08cd3cb80edaedeb89fa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:56 +0000
Subject: [PATCH 067/127] fix: report lint findings in a fixed order

Findings were sorted by their line only, with an unstable sort, after warnings
like unused-variable collected them from maps.
---
 warn/warn.go              | 15 ++++++++++++++-
 warn/warn_control_flow.go | 13 ++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/warn/warn.go b/warn/warn.go
index 65b7882..5626f86 100644
--- a/warn/warn.go
+++ b/warn/warn.go
@@ -372,7 +372,20 @@ func FileWarnings(f *build.File, enabledWarnings []string, formatted *[]byte, mo
 			os.Exit(1)
 		}
 	}
-	sort.Slice(findings, func(i, j int) bool { return findings[i].Start.Line < findings[j].Start.Line })
+	// Individual warnings may report their findings in an arbitrary order
+	sort.SliceStable(findings, func(i, j int) bool {
+		a, b := findings[i], findings[j]
+		if a.Start.Line != b.Start.Line {
+			return a.Start.Line < b.Start.Line
+		}
+		if a.Category != b.Category {
+			return a.Category < b.Category
+		}
+		if a.Start.LineRune != b.Start.LineRune {
+			return a.Start.LineRune < b.Start.LineRune
+		}
+		return a.Message < b.Message
+	})
 	return findings
 }
 
diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index 19206a2..75c9c21 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -20,6 +20,7 @@ package warn
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/bazelbuild/buildtools/build"
@@ -480,7 +481,17 @@ func unusedVariableCheck(f *build.File, root build.Expr) (map[string]bool, []*Li
 			for symbol := range used {
 				usedSymbols[symbol.Name] = true
 			}
-			for symbol, isSuppressed := range assigned {
+			// The same symbol may be assigned to more than once by a statement, always
+			// choose the first occurrence.
+			symbols := make([]*build.Ident, 0, len(assigned))
+			for symbol := range assigned {
+				symbols = append(symbols, symbol)
+			}
+			sort.Slice(symbols, func(i, j int) bool {
+				return symbols[i].NamePos.Byte < symbols[j].NamePos.Byte
+			})
+			for _, symbol := range symbols {
+				isSuppressed := assigned[symbol]
 				if _, ok := definedSymbols[symbol.Name]; !ok {
 					definedSymbols[symbol.Name] = symbol
 					if isSuppressed {
-- 
2.43.0


From 3c9836d0a9cff1ca95716e126774121e1108ccca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:42 +0000
Subject: [PATCH 068/127] fix: report files that cannot be read as invalid

They were missing in the diagnostics, which claimed success.
---
 buildifier/buildifier.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/buildifier/buildifier.go b/buildifier/buildifier.go
index 60124fc..63c71ee 100644
--- a/buildifier/buildifier.go
+++ b/buildifier/buildifier.go
@@ -264,6 +264,7 @@ func (b *buildifier) processFiles(files []string, tf *utils.TempFile) (*utils.Di
 		}
 		if res.err != nil {
 			fmt.Fprintf(os.Stderr, "buildifier: %v\n", res.err)
+			fileDiagnostics = append(fileDiagnostics, utils.InvalidFileDiagnostics(file))
 			exitCode = 3
 			continue
 		}
-- 
2.43.0


From bbe42a0597655d177fa998dc6608c7776b78858d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:42 +0000
Subject: [PATCH 069/127] fix: report an output that cannot be written when
 formatting standard input

---
 buildifier/buildifier.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/buildifier/buildifier.go b/buildifier/buildifier.go
index 63c71ee..20e07f9 100644
--- a/buildifier/buildifier.go
+++ b/buildifier/buildifier.go
@@ -354,7 +354,10 @@ func (b *buildifier) processFile(filename string, data []byte, displayFileNames
 	case "pipe":
 		// pipe mode - reading from stdin, writing to stdout.
 		// ("pipe" is not from the command line; it is set above in main.)
-		os.Stdout.Write(ndata)
+		if _, err := os.Stdout.Write(ndata); err != nil {
+			fmt.Fprintf(os.Stderr, "buildifier: error writing output: %v\n", err)
+			return fileDiagnostics, 3
+		}
 
 	case "fix":
 		// fix mode: update files in place as needed.
-- 
2.43.0


From 0d09566f2a17b01e2a23a6ac12b0e9002aec1609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:03 +0000
Subject: [PATCH 070/127] fix: don't report findings twice when a default
 warning is added

-warnings=+foo selected a warning twice if it was enabled by default, and added
several warnings in a random order.
---
 buildifier/config/validation.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/buildifier/config/validation.go b/buildifier/config/validation.go
index 87cc393..dd7c3ed 100644
--- a/buildifier/config/validation.go
+++ b/buildifier/config/validation.go
@@ -18,6 +18,7 @@ package config
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 )
 
@@ -132,9 +133,16 @@ func ValidateWarnings(warnings *string, allWarnings, defaultWarnings *[]string)
 					warningsList = append(warningsList, warning)
 				}
 			}
+			// Add the requested warnings unless they're already there.
+			for _, warning := range warningsList {
+				delete(plus, warning)
+			}
+			extra := make([]string, 0, len(plus))
 			for warning := range plus {
-				warningsList = append(warningsList, warning)
+				extra = append(extra, warning)
 			}
+			sort.Strings(extra)
+			warningsList = append(warningsList, extra...)
 		}
 	}
 	return warningsList, nil
-- 
2.43.0


From f4cc579eb36b7e75ed44d86b3c35252997a5ab0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:32 +0000
Subject: [PATCH 071/127] fix: don't remove cfg = "data" while only reporting
 it

The replacement for the attr-cfg warning was built in the backing array of
the original argument list, so that merely running the linter changed (and
corrupted) the call.
---
 warn/warn_bazel_api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index 61de4e6..64fa42d 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -395,7 +395,7 @@ func attrConfigurationWarning(f *build.File) []*LinterFinding {
 		newCall := *call
 		switch value.Value {
 		case "data":
-			newCall.List = append(newCall.List[:i], newCall.List[i+1:]...)
+			newCall.List = append(append([]build.Expr{}, call.List[:i]...), call.List[i+1:]...)
 			findings = append(findings,
 				makeLinterFinding(param, `cfg = "data" for attr definitions has no effect and should be removed.`,
 					LinterReplacement{expr, &newCall}))
-- 
2.43.0


From 55da998d2bf03ef9461b1d122415a206f5486800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:47 +0000
Subject: [PATCH 072/127] fix: don't reuse repository names of another
 workspace in load findings

The mapping of modules to apparent repository names was read once per
process, so that the findings (and the inserted load statements) for files
of other workspaces depended on which file was linted first.
---
 warn/warn_bazel_api.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index 64fa42d..5d0b97f 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -174,8 +174,10 @@ func insertLoad(f *build.File, module string, symbols []string) *LinterReplaceme
 	return &LinterReplacement{&(f.Stmt[i]), edit.NewLoad(module, symbols, symbols)}
 }
 
-// Caches the result of bzlmod.ExtractModuleToApparentNameMapping.
+// Caches the result of bzlmod.ExtractModuleToApparentNameMapping for the most recently used file reader
+// (different readers may belong to different workspaces).
 var moduleToApparentRepoName func(string) string
+var moduleToApparentRepoNameReader *FileReader
 
 // useApparentRepoNameIfExternal replaces the module name in a load statement with the apparent repository
 // name used by the root Bazel module (if any).
@@ -184,7 +186,8 @@ func useApparentRepoNameIfExternal(load string, fileReader *FileReader) string {
 		// Not a load from an external repository or we can't load external files.
 		return load
 	}
-	if moduleToApparentRepoName == nil {
+	if moduleToApparentRepoName == nil || moduleToApparentRepoNameReader != fileReader {
+		moduleToApparentRepoNameReader = fileReader
 		moduleToApparentRepoName = bzlmod.ExtractModuleToApparentNameMapping(func(relPath string) *build.File {
 			return fileReader.GetFile("", relPath)
 		})
-- 
2.43.0


From a689ecc076af57e943f71961f96fe2d09c16e22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:03 +0000
Subject: [PATCH 073/127] fix: roll back suggested fixes completely

Formatting a file with a fix applied rewrites its syntax tree (moves load
statements, sorts lists), after which restoring the old expressions put them
to wrong places: a load statement could be lost.
---
 warn/warn.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/warn/warn.go b/warn/warn.go
index 5626f86..5f61e98 100644
--- a/warn/warn.go
+++ b/warn/warn.go
@@ -391,6 +391,32 @@ func FileWarnings(f *build.File, enabledWarnings []string, formatted *[]byte, mo
 
 // formatWithFix applies a fix, formats a file, and rolls back the fix
 func formatWithFix(f *build.File, replacements *[]LinterReplacement) []byte {
+	// Formatting rewrites the tree (e.g. moves statements and sorts lists), which makes it impossible to
+	// roll back the fix afterwards. Only print the file here and format another tree.
+	unformatted := printWithFix(f, replacements)
+
+	var parse func(filename string, data []byte) (*build.File, error)
+	switch f.Type {
+	case build.TypeBuild:
+		parse = build.ParseBuild
+	case build.TypeWorkspace:
+		parse = build.ParseWorkspace
+	case build.TypeModule:
+		parse = build.ParseModule
+	case build.TypeBzl:
+		parse = build.ParseBzl
+	default:
+		parse = build.ParseDefault
+	}
+	fixed, err := parse(f.Path, unformatted)
+	if err != nil {
+		return unformatted
+	}
+	return build.Format(fixed)
+}
+
+// printWithFix applies a fix, prints a file without rewriting it, and rolls back the fix
+func printWithFix(f *build.File, replacements *[]LinterReplacement) []byte {
 	for i := range *replacements {
 		r := (*replacements)[i]
 		old := *r.Old
@@ -398,7 +424,7 @@ func formatWithFix(f *build.File, replacements *[]LinterReplacement) []byte {
 		defer func() { *r.Old = old }()
 	}
 
-	return build.Format(f)
+	return build.FormatWithoutRewriting(f)
 }
 
 // calculateDifference compares two file contents and returns a replacement in the form of
-- 
2.43.0


From ac9e70fc3d37b5bc72547b19a3c6f5e4f93a99cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:03 +0000
Subject: [PATCH 074/127] fix: report real positions for docstring findings

The column of a documented argument counted the indentation twice, and the
line was wrong (possibly behind the end of the file) for docstrings written
with escaped newlines.
---
 warn/warn_docstring.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/warn/warn_docstring.go b/warn/warn_docstring.go
index 71b3256..f6bcca7 100644
--- a/warn/warn_docstring.go
+++ b/warn/warn_docstring.go
@@ -108,7 +108,7 @@ var argRegex = regexp.MustCompile(`^ *(\*?\*?\w*)( *\([\w\ ,<>\[\]]+\))?:`)
 // parseFunctionDocstring parses a function docstring and returns a docstringInfo object containing
 // the parsed information about the function, its arguments and its return value.
 func parseFunctionDocstring(doc *build.StringExpr) docstringInfo {
-	start, _ := doc.Span()
+	start, end := doc.Span()
 	indent := start.LineRune - 1
 	prefix := strings.Repeat(" ", indent)
 	lines := strings.Split(doc.Value, "\n")
@@ -118,6 +118,18 @@ func parseFunctionDocstring(doc *build.StringExpr) docstringInfo {
 		lines[i] = strings.TrimRight(line, "\r")
 	}
 
+	// position returns the position of a line of the docstring with the given indentation
+	position := func(i, indentation int) build.Position {
+		if start.Line+i > end.Line {
+			// The lines of the string aren't lines of the file (e.g. "line 1\nline 2")
+			return start
+		}
+		return build.Position{
+			Line:     start.Line + i,
+			LineRune: indentation + 1,
+		}
+	}
+
 	info := docstringInfo{}
 	info.args = make(map[string]build.Position)
 
@@ -143,10 +155,7 @@ func parseFunctionDocstring(doc *build.StringExpr) docstringInfo {
 	for i, line := range lines {
 		switch line {
 		case prefix + "Arguments:":
-			info.argumentsPos = build.Position{
-				Line:     start.Line + i,
-				LineRune: indent,
-			}
+			info.argumentsPos = position(i, indent)
 			isArgumentsDescription = true
 			continue
 		case prefix + "Args:":
@@ -177,10 +186,7 @@ func parseFunctionDocstring(doc *build.StringExpr) docstringInfo {
 				result := argRegex.FindStringSubmatch(line)
 				if len(result) > 1 {
 					argIndentation = newIndentation
-					info.args[result[1]] = build.Position{
-						Line:     start.Line + i,
-						LineRune: indent + argIndentation,
-					}
+					info.args[result[1]] = position(i, argIndentation)
 				}
 			}
 		}
-- 
2.43.0


From 29e9a527c3e46b71b325ffd86b2b2a7b708e3387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:35 +0000
Subject: [PATCH 075/127] fix: always blame the same call in unnamed-macro
 findings

The message cited an arbitrary one of the rules and macros called by the
function, a different one in every run.
---
 warn/warn_macro.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/warn/warn_macro.go b/warn/warn_macro.go
index 65b071c..708f565 100644
--- a/warn/warn_macro.go
+++ b/warn/warn_macro.go
@@ -20,6 +20,7 @@ package warn
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/bazelbuild/buildtools/build"
@@ -266,6 +267,16 @@ func (ma macroAnalyzer) IsMacro(fn function) (report functionReport) {
 		}
 	}
 
+	// The calls are collected from a map, make the result independent of its iteration order.
+	for _, calls := range [][]funCall{knownFunCalls, newFunCalls} {
+		sort.Slice(calls, func(i, j int) bool {
+			if calls[i].line != calls[j].line {
+				return calls[i].line < calls[j].line
+			}
+			return calls[i].nameAlias < calls[j].nameAlias
+		})
+	}
+
 	for _, fc := range append(knownFunCalls, newFunCalls...) {
 		if ma.IsMacro(fc.function).isMacro {
 			report.isMacro = true
-- 
2.43.0


From 6a28924ce801d295c78910798485a7f8733ad9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:15 +0000
Subject: [PATCH 076/127] fix: don't copy comments of duplicate loaded symbols
 while only reporting them

The unused load warning sorts and deduplicates a copy of the load statement
which shares its identifiers with the original one.
---
 build/rewrite.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index 96f1187..534cbfd 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -1332,11 +1332,13 @@ func (args *loadArgs) deduplicate() {
 	index := make(map[string]int)
 	for i := range args.To {
 		if j, ok := index[args.To[i].Name]; ok {
-			// Overwrite, but keep the comments
-			args.To[i].Before = append(append([]Comment{}, to[j].Before...), args.To[i].Before...)
-			args.From[i].Suffix = append(append([]Comment{}, from[j].Suffix...), args.From[i].Suffix...)
-			from[j] = args.From[i]
-			to[j] = args.To[i]
+			// Overwrite, but keep the comments. The identifiers may be shared with another
+			// load statement (e.g. with the original of a suggested one), don't change them.
+			newFrom, newTo := *args.From[i], *args.To[i]
+			newTo.Before = append(append([]Comment{}, to[j].Before...), newTo.Before...)
+			newFrom.Suffix = append(append([]Comment{}, from[j].Suffix...), newFrom.Suffix...)
+			from[j] = &newFrom
+			to[j] = &newTo
 			args.modified = true
 		} else {
 			// Just append
-- 
2.43.0


From da3203e149f2df75352ceebab00777d3266a26d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:55 +0000
Subject: [PATCH 077/127] fix: don't disable warnings whose names are prefixes
 of the disabled one

A comment disabling e.g. attr-licenses also silenced attr-license.
---
 warn/warn.go | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/warn/warn.go b/warn/warn.go
index 5f61e98..2ca770a 100644
--- a/warn/warn.go
+++ b/warn/warn.go
@@ -22,9 +22,9 @@ import (
 	"log"
 	"os"
 	"sort"
+	"strings"
 
 	"github.com/bazelbuild/buildtools/build"
-	"github.com/bazelbuild/buildtools/edit"
 )
 
 // LintMode is an enum representing a linter mode. Can be either "warn", "fix", or "suggest"
@@ -310,8 +310,33 @@ func runWarningsFunction(category string, f *build.File, fct func(f *build.File,
 
 // HasDisablingComment checks if a node has a comment that disables a certain warning
 func HasDisablingComment(expr build.Expr, warning string) bool {
-	return edit.ContainsComments(expr, "buildifier: disable="+warning) ||
-		edit.ContainsComments(expr, "buildozer: disable="+warning)
+	comments := expr.Comment()
+	for _, block := range [][]build.Comment{comments.Before, comments.Suffix, comments.After} {
+		for _, comment := range block {
+			if disablesWarning(comment.Token, "buildifier: disable="+warning) ||
+				disablesWarning(comment.Token, "buildozer: disable="+warning) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
+// disablesWarning checks whether a comment contains a directive which is not just a prefix of a
+// directive for another warning with a longer name.
+func disablesWarning(comment, directive string) bool {
+	comment = strings.ToLower(comment)
+	directive = strings.ToLower(directive)
+	for {
+		i := strings.Index(comment, directive)
+		if i < 0 {
+			return false
+		}
+		comment = comment[i+len(directive):]
+		if strings.TrimLeft(comment, "-_abcdefghijklmnopqrstuvwxyz0123456789") == comment {
+			return true
+		}
+	}
 }
 
 // DisabledWarning checks if the warning was disabled by a comment.
-- 
2.43.0


From 1fba7a992f474253d0ef225d84eae3178f4d8ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:38 +0000
Subject: [PATCH 078/127] fix: apply fixes of nested findings completely

A fix of a node often replaces it by a copy made before the nodes inside it
were fixed, so that the inner fixes were lost and buildifier had to be run
again.
---
 warn/warn.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/warn/warn.go b/warn/warn.go
index 2ca770a..fcae88e 100644
--- a/warn/warn.go
+++ b/warn/warn.go
@@ -274,7 +274,24 @@ func ruleWarningWrapper(ruleWarning func(call *build.CallExpr, pkg string) *Lint
 
 // runWarningsFunction runs a linter/fixer function over a file and applies the fixes conditionally
 func runWarningsFunction(category string, f *build.File, fct func(f *build.File, pkg string, fileReader *FileReader) []*LinterFinding, formatted *[]byte, mode LintMode, fileReader *FileReader) []*Finding {
+	findings, fixed := runWarningsFunctionOnce(category, f, fct, formatted, mode, fileReader)
+	// If findings are nested, a fix of an outer node can revert a fix of an inner one. Repeat until
+	// everything is fixed, or there's no progress any more.
+	for fixed > 0 {
+		previouslyFixed := fixed
+		findings, fixed = runWarningsFunctionOnce(category, f, fct, formatted, mode, fileReader)
+		if fixed >= previouslyFixed {
+			break
+		}
+	}
+	return findings
+}
+
+// runWarningsFunctionOnce runs a linter/fixer function over a file once. Also returns how many findings have
+// been fixed (and therefore aren't reported).
+func runWarningsFunctionOnce(category string, f *build.File, fct func(f *build.File, pkg string, fileReader *FileReader) []*LinterFinding, formatted *[]byte, mode LintMode, fileReader *FileReader) ([]*Finding, int) {
 	findings := []*Finding{}
+	fixed := 0
 	for _, w := range fct(f, f.Pkg, fileReader) {
 		if !DisabledWarning(f, w.Start.Line, category) {
 			finding := makeFinding(f, w.Start, w.End, category, w.URL, w.Message, true, len(w.Replacement) > 0, nil)
@@ -287,6 +304,7 @@ func runWarningsFunction(category string, f *build.File, fct func(f *build.File,
 						*r.Old = r.New
 					}
 					finding = nil
+					fixed++
 				case ModeSuggest:
 					// Apply the fix, calculate the diff and roll back the fix
 					newContents := formatWithFix(f, &w.Replacement)
@@ -305,7 +323,7 @@ func runWarningsFunction(category string, f *build.File, fct func(f *build.File,
 			}
 		}
 	}
-	return findings
+	return findings, fixed
 }
 
 // HasDisablingComment checks if a node has a comment that disables a certain warning
-- 
2.43.0


From df845ab40adfb8bb61068065ac9baf65e281ef91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:38 +0000
Subject: [PATCH 079/127] fix: don't remove loaded symbols for which the
 warning is disabled

The fix for all symbols of a load statement is attached to the first finding,
so a symbol was removed despite a disabling comment on it if another unused
symbol was loaded before it.
---
 warn/warn_control_flow.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index 75c9c21..d40817b 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -631,6 +631,11 @@ func unusedLoadWarning(f *build.File) []*LinterFinding {
 				line        int
 			}{load.Module.Token, from.Name, start.Line}
 
+			if HasDisablingComment(to, "load") || HasDisablingComment(from, "load") {
+				// Don't remove the symbol together with other symbols of the same load statement
+				continue
+			}
+
 			if alreadyLoaded {
 				// The same symbol has already been loaded earlier
 				if origin.label == load.Module.Token && origin.from == from.Name {
-- 
2.43.0


From 494890da3354fc9e54a34d1b9bc38a7f1e56d551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:16 +0000
Subject: [PATCH 080/127] fix: count names in function headers as used in the
 enclosing scope

The unused-variable check took default values of parameters for uses inside
the function, and ignored type annotations.
---
 warn/warn_control_flow.go | 48 +++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index d40817b..8ece2fb 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -393,6 +393,28 @@ func extractIdentsFromStmt(stmt build.Expr) (assigned, used map[*build.Ident]boo
 	return assigned, used
 }
 
+// functionHeaderExprs returns expressions in a header of a function that are evaluated in the scope
+// the function is defined in: default values of its parameters and type annotations.
+func functionHeaderExprs(def *build.DefStmt) []build.Expr {
+	var exprs []build.Expr
+	for _, param := range def.Params {
+		if assign, ok := param.(*build.AssignExpr); ok {
+			exprs = append(exprs, assign.RHS)
+			param = assign.LHS
+		}
+		if unary, ok := param.(*build.UnaryExpr); ok {
+			param = unary.X
+		}
+		if typed, ok := param.(*build.TypedIdent); ok {
+			exprs = append(exprs, typed.Type)
+		}
+	}
+	if def.Type != nil {
+		exprs = append(exprs, def.Type)
+	}
+	return exprs
+}
+
 // unusedVariableCheck checks for unused variables inside a given node `stmt` (either *build.File or
 // *build.DefStmt) and variables that are used in the current scope or subscopes,
 // but not defined here.
@@ -429,6 +451,18 @@ func unusedVariableCheck(f *build.File, root build.Expr) (map[string]bool, []*Li
 					suppressedWarnings[expr.Name] = true
 				}
 
+				// Default values and type annotations are used in the current scope, not in
+				// the scope of the function.
+				for _, headerExpr := range functionHeaderExprs(expr) {
+					// The expression is not a statement, but similar traversal rules should
+					// be applied to it. E.g. it may have a comprehension node with its inner
+					// scope or a function call with a keyword parameter.
+					_, used := extractIdentsFromStmt(headerExpr)
+					for ident := range used {
+						usedSymbols[ident.Name] = true
+					}
+				}
+
 				usedSymbolsInFunction, findingsInFunction := unusedVariableCheck(f, expr)
 				findings = append(findings, findingsInFunction...)
 				for symbol := range usedSymbolsInFunction {
@@ -452,20 +486,6 @@ func unusedVariableCheck(f *build.File, root build.Expr) (map[string]bool, []*Li
 						suppressedWarnings[ident.Name] = true
 					}
 				}
-				// The default variables for the parameters are defined in the outer
-				// scope but used here.
-				assign, ok := param.(*build.AssignExpr)
-				if !ok {
-					continue
-				}
-
-				// RHS is not a statement, but similar traversal rules should be applied
-				// to it. E.g. it may have a comprehension node with its inner scope or
-				// a function call with a keyword parameter.
-				_, used := extractIdentsFromStmt(assign.RHS)
-				for ident := range used {
-					usedSymbols[ident.Name] = true
-				}
 			}
 
 		case *build.LoadStmt:
-- 
2.43.0


From 301e57fecfbc851e4c9792f0dba310cdd158dcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:17 +0000
Subject: [PATCH 081/127] fix: recognize assignments to variables in
 parentheses

---
 bzlenv/bzlenv.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bzlenv/bzlenv.go b/bzlenv/bzlenv.go
index 40394af..d254bd8 100644
--- a/bzlenv/bzlenv.go
+++ b/bzlenv/bzlenv.go
@@ -144,6 +144,8 @@ func CollectLValues(node build.Expr) []*build.Ident {
 	switch node := node.(type) {
 	case *build.Ident:
 		result = append(result, node)
+	case *build.ParenExpr:
+		result = append(result, CollectLValues(node.X)...)
 	case *build.TupleExpr:
 		for _, item := range node.List {
 			result = append(result, CollectLValues(item)...)
-- 
2.43.0


From 8c3592fd9b1a58ba81b8991864b23bce27eeed92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:40 +0000
Subject: [PATCH 082/127] fix: report uninitialized variables in arguments of
 fail()

---
 warn/warn_control_flow.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index 8ece2fb..464b3f1 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -840,6 +840,7 @@ func findUninitializedVariables(stmts []build.Expr, previouslyInitialized map[st
 			// Don't traverse nested functions
 		case *build.CallExpr:
 			if _, ok := isFunctionCall(stmt, "fail"); ok {
+				findUninitializedIdents(stmt, callback)
 				return true, locallyInitialized
 			}
 		case *build.ReturnStmt:
-- 
2.43.0


From f3b25cebdddc13c966b7cfdfb098ee23d3b2acab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:37 +0000
Subject: [PATCH 083/127] fix: evaluate first iterables and default values
 outside of comprehensions and lambdas

Names used there belong to the outer scope. Parameters of lambdas that have
default values or stars belong to the lambda.
---
 warn/warn_control_flow.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index 464b3f1..c9d1c30 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -361,16 +361,17 @@ func extractIdentsFromStmt(stmt build.Expr) (assigned, used map[*build.Ident]boo
 			// Similar to Comprehension nodes
 			scope := make(map[string]bool)
 			for _, param := range expr.Params {
-				for _, lValue := range bzlenv.CollectLValues(param) {
-					scope[lValue.Name] = true
+				if ident, _ := build.GetParamIdent(param); ident != nil {
+					scope[ident.Name] = true
 				}
 			}
 			scopes[expr] = scope
 
 		case *build.Ident:
 			// If the identifier is defined in an intermediate scope, ignore it.
-			for _, node := range stack {
-				if scope, ok := scopes[node]; ok {
+			path := append(append([]build.Expr{}, stack...), expr)
+			for i, node := range stack {
+				if scope, ok := scopes[node]; ok && !isOutsideOfScope(path[i:]) {
 					if _, ok := scope[expr.Name]; ok {
 						return
 					}
@@ -393,6 +394,27 @@ func extractIdentsFromStmt(stmt build.Expr) (assigned, used map[*build.Ident]boo
 	return assigned, used
 }
 
+// isOutsideOfScope takes a path of nodes starting with a comprehension or a lambda and returns whether
+// the path leads to a part of it that's evaluated in the outer scope: the first iterable of a
+// comprehension or a default value of a lambda parameter.
+func isOutsideOfScope(path []build.Expr) bool {
+	if len(path) < 3 {
+		return false
+	}
+	switch expr := path[0].(type) {
+	case *build.Comprehension:
+		clause, ok := path[1].(*build.ForClause)
+		return ok && len(expr.Clauses) > 0 && path[1] == expr.Clauses[0] && path[2] == clause.X
+	case *build.LambdaExpr:
+		for _, param := range expr.Params {
+			if assign, ok := param.(*build.AssignExpr); ok && path[1] == param {
+				return path[2] == assign.RHS
+			}
+		}
+	}
+	return false
+}
+
 // functionHeaderExprs returns expressions in a header of a function that are evaluated in the scope
 // the function is defined in: default values of its parameters and type annotations.
 func functionHeaderExprs(def *build.DefStmt) []build.Expr {
-- 
2.43.0


From 20eedd3068a553e2599d340d81834b36ba56fdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:58 +0000
Subject: [PATCH 084/127] fix: don't take keyword arguments in default values
 for uninitialized variables

---
 warn/warn_control_flow.go | 31 +++++++------------------------
 1 file changed, 7 insertions(+), 24 deletions(-)

diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index c9d1c30..c097e74 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -793,17 +793,6 @@ func findUninitializedVariables(stmts []build.Expr, previouslyInitialized map[st
 		lValues := make(map[*build.Ident]bool)
 		build.WalkInterruptable(expr, func(expr build.Expr, stack []build.Expr) (err error) {
 			switch expr := expr.(type) {
-			case *build.DefStmt:
-				// Function arguments can't be uninitialized, even if they share the same
-				// name with a variable that's not initialized for some execution path
-				// in an outer scope.
-				for _, param := range expr.Params {
-					if ident, _ := build.GetParamIdent(param); ident != nil {
-						lValues[ident] = true
-					}
-				}
-				// Don't traverse into nested def statements
-				return &build.StopTraversalError{}
 			case *build.AssignExpr:
 				for _, ident := range bzlenv.CollectLValues(expr.LHS) {
 					lValues[ident] = true
@@ -819,20 +808,8 @@ func findUninitializedVariables(stmts []build.Expr, previouslyInitialized map[st
 			}
 		}
 
-		walkBlockList := map[build.Expr]bool{}
 		build.WalkInterruptable(expr, func(expr build.Expr, stack []build.Expr) (err error) {
-			if walkBlockList[expr] {
-				return &build.StopTraversalError{}
-			}
 			switch expr := expr.(type) {
-			case *build.DefStmt:
-				// The header of the DefStmt may contain uninitialized variables (e.g.
-				// default values of parameters) and should be traversed.
-				// Its body shouldn't be traversed because it has another scope and will
-				// be analyzed by another call of `findUninitializedVariables`.
-				for _, stmt := range expr.Body {
-					walkBlockList[stmt] = true
-				}
 			case *build.Comprehension, *build.LambdaExpr:
 				// Comprehension and Lambda nodes are special, they have their own scope
 				// with variables that are only defined inside.
@@ -859,7 +836,13 @@ func findUninitializedVariables(stmts []build.Expr, previouslyInitialized map[st
 		newlyDefinedVariables := make(map[string]bool)
 		switch stmt := stmt.(type) {
 		case *build.DefStmt:
-			// Don't traverse nested functions
+			// The header of the DefStmt may contain uninitialized variables (e.g. default values of
+			// parameters) and should be traversed. Its body shouldn't be traversed because it has
+			// another scope and will be analyzed by another call of `findUninitializedVariables`.
+			for _, expr := range functionHeaderExprs(stmt) {
+				findUninitializedIdents(expr, callback)
+			}
+			continue
 		case *build.CallExpr:
 			if _, ok := isFunctionCall(stmt, "fail"); ok {
 				findUninitializedIdents(stmt, callback)
-- 
2.43.0


From 0c908ac202e92cb3267ae202dc93961f0a67549c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:58 +0000
Subject: [PATCH 085/127] fix: don't report comments as unreachable statements

---
 warn/warn_control_flow.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index c097e74..b0f7cbe 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -118,6 +118,10 @@ The function may terminate by an implicit return in the end.`, function.Name)))
 func findUnreachableStatements(stmts []build.Expr, callback func(build.Expr)) bool {
 	unreachable := false
 	for _, stmt := range stmts {
+		if _, ok := stmt.(*build.CommentBlock); ok {
+			// Comments are not executed
+			continue
+		}
 		if unreachable {
 			callback(stmt)
 			return true
-- 
2.43.0


From 33544848aec69186c459df2f387309d9e0b852d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:45 +0000
Subject: [PATCH 086/127] fix: only remove loaded symbols that are unused or
 repeated

buildozer's unusedLoads fix ignored @unused comments of single symbols and took
another symbol of the same module loaded under the same name for a duplicate.
---
 edit/fix.go | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/edit/fix.go b/edit/fix.go
index 804b2c5..2153d10 100644
--- a/edit/fix.go
+++ b/edit/fix.go
@@ -358,8 +358,9 @@ func cleanUnusedLoads(f *build.File) bool {
 	symbols := UsedSymbols(f)
 	fixed := false
 
-	// Map of symbol in this file -> modules it's loaded from
-	symbolsToModules := make(map[string][]string)
+	// Map of symbol in this file -> the module and the symbol it has been loaded from most recently
+	type origin struct{ module, symbol string }
+	origins := make(map[string]origin)
 
 	var all []build.Expr
 	for _, stmt := range f.Stmt {
@@ -372,18 +373,16 @@ func cleanUnusedLoads(f *build.File) bool {
 		for i := range load.From {
 			fromSymbol := load.From[i]
 			toSymbol := load.To[i]
-			if symbols[toSymbol.Name] {
-				// The symbol is actually used
-
-				// If the most recent load for this symbol was from the same file, remove it.
-				previousModules := symbolsToModules[toSymbol.Name]
-				if len(previousModules) > 0 {
-					if previousModules[len(previousModules)-1] == load.Module.Value {
-						fixed = true
-						continue
-					}
+			if symbols[toSymbol.Name] || ContainsComments(fromSymbol, "@unused") || ContainsComments(toSymbol, "@unused") {
+				// The symbol is actually used, or protected by a comment
+
+				// If the most recent load for this symbol was of the same symbol from the same file, remove it.
+				current := origin{load.Module.Value, fromSymbol.Name}
+				if previous, ok := origins[toSymbol.Name]; ok && previous == current {
+					fixed = true
+					continue
 				}
-				symbolsToModules[toSymbol.Name] = append(symbolsToModules[toSymbol.Name], load.Module.Value)
+				origins[toSymbol.Name] = current
 
 				fromSymbols = append(fromSymbols, fromSymbol)
 				toSymbols = append(toSymbols, toSymbol)
-- 
2.43.0


From 2783e30b7d37a7e1f4cc9c623aa917c0bf131cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:05 +0000
Subject: [PATCH 087/127] fix: repeat fixes as long as there are fewer findings

---
 warn/warn.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/warn/warn.go b/warn/warn.go
index fcae88e..a0e197e 100644
--- a/warn/warn.go
+++ b/warn/warn.go
@@ -275,12 +275,12 @@ func ruleWarningWrapper(ruleWarning func(call *build.CallExpr, pkg string) *Lint
 // runWarningsFunction runs a linter/fixer function over a file and applies the fixes conditionally
 func runWarningsFunction(category string, f *build.File, fct func(f *build.File, pkg string, fileReader *FileReader) []*LinterFinding, formatted *[]byte, mode LintMode, fileReader *FileReader) []*Finding {
 	findings, fixed := runWarningsFunctionOnce(category, f, fct, formatted, mode, fileReader)
-	// If findings are nested, a fix of an outer node can revert a fix of an inner one. Repeat until
-	// everything is fixed, or there's no progress any more.
+	// If findings are nested, a fix of an outer node can revert a fix of an inner one, and a fix can make
+	// another one possible. Repeat until everything is fixed, or there's no progress any more.
 	for fixed > 0 {
-		previouslyFixed := fixed
+		total := len(findings) + fixed
 		findings, fixed = runWarningsFunctionOnce(category, f, fct, formatted, mode, fileReader)
-		if fixed >= previouslyFixed {
+		if len(findings)+fixed >= total {
 			break
 		}
 	}
-- 
2.43.0


From 9b1030bb89f698480e31f11e91a5c73aa4057fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:08 +0000
Subject: [PATCH 088/127] fix: replace all occurrences of skylark in a comment
 or docstring correctly

---
 warn/warn_cosmetic.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/warn/warn_cosmetic.go b/warn/warn_cosmetic.go
index e0401c0..3ae66da 100644
--- a/warn/warn_cosmetic.go
+++ b/warn/warn_cosmetic.go
@@ -224,16 +224,18 @@ func skylarkToStarlark(s string) string {
 // supported by Go regexp module.
 func replaceSkylark(s string) (newString string, changed bool) {
 	skylarkRegex := regexp.MustCompile("(?i)skylark")
-	newString = s
+	end := 0 // end of the last replaced substring
 	for _, r := range skylarkRegex.FindAllStringIndex(s, -1) {
 		if r[0] > 0 && s[r[0]-1] == '/' {
 			continue
 		}
-		if r[1] < len(s)-1 && s[r[1]+1] == '/' {
+		if r[1] < len(s) && s[r[1]] == '/' {
 			continue
 		}
-		newString = newString[:r[0]] + skylarkToStarlark(newString[r[0]:r[1]]) + newString[r[1]:]
+		newString += s[end:r[0]] + skylarkToStarlark(s[r[0]:r[1]])
+		end = r[1]
 	}
+	newString += s[end:]
 	return newString, newString != s
 }
 
-- 
2.43.0


From 5ba167ad440e0959c8ea35abf781d1452f3ab164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:53 +0000
Subject: [PATCH 089/127] fix: don't take names of arguments and loaded symbols
 for usages of globals

---
 warn/warn_bazel_api.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index 5d0b97f..743b0b2 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -97,6 +97,27 @@ func isFunctionCall(expr build.Expr, name string) (*build.CallExpr, bool) {
 	return nil, false
 }
 
+// isUsage checks whether an identifier refers to the variable with its name. The names of keyword
+// arguments and the symbols in load statements don't.
+// env is the environment the identifier is visited with (see bzlenv.WalkOnceWithEnvironment).
+func isUsage(e *build.Expr, env *bzlenv.Environment) bool {
+	depth := len(env.Stack)
+	if depth == 0 {
+		return true
+	}
+	switch parent := env.Stack[depth-1].(type) {
+	case *build.LoadStmt:
+		return false
+	case *build.AssignExpr:
+		if depth < 2 || e != &parent.LHS {
+			return true
+		}
+		_, isArgument := env.Stack[depth-2].(*build.CallExpr)
+		return !isArgument
+	}
+	return true
+}
+
 // globalVariableUsageCheck checks whether there's a usage of a given global variable in the file.
 // It's ok to shadow the name with a local variable and use it.
 func globalVariableUsageCheck(f *build.File, global, alternative string) []*LinterFinding {
@@ -114,7 +135,7 @@ func globalVariableUsageCheck(f *build.File, global, alternative string) []*Lint
 		if !ok {
 			return
 		}
-		if ident.Name != global {
+		if ident.Name != global || !isUsage(e, env) {
 			return
 		}
 		if binding := env.Get(ident.Name); binding != nil {
@@ -260,7 +281,7 @@ func notLoadedSymbolUsageCheckInternal(expr *build.Expr, env *bzlenv.Environment
 	if !ok {
 		return loads, findings
 	}
-	if binding := env.Get(ident.Name); binding != nil {
+	if binding := env.Get(ident.Name); binding != nil || !isUsage(expr, env) {
 		return loads, findings
 	}
 
-- 
2.43.0


From 0c648a3ea3a06ea16fcbf8c9c1f1c911d16ee9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:13 +0000
Subject: [PATCH 090/127] fix: know parameters of lambdas and nested functions
 in bzlenv

---
 bzlenv/bzlenv.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/bzlenv/bzlenv.go b/bzlenv/bzlenv.go
index d254bd8..0a9d9b5 100644
--- a/bzlenv/bzlenv.go
+++ b/bzlenv/bzlenv.go
@@ -158,8 +158,8 @@ func CollectLValues(node build.Expr) []*build.Ident {
 	return result
 }
 
-func declareParams(fct *build.DefStmt, env *Environment) {
-	for _, node := range fct.Params {
+func declareParams(params []build.Expr, env *Environment) {
+	for _, node := range params {
 		name, _ := build.GetParamName(node)
 		env.declare(name, Parameter, node)
 	}
@@ -184,6 +184,8 @@ func declareLocalVariables(stmts []build.Expr, env *Environment) {
 				env.declare(id.Name, Local, node)
 			}
 			declareLocalVariables(node.Body, env)
+		case *build.DefStmt:
+			env.declare(node.Name, Function, node)
 		}
 	}
 }
@@ -197,11 +199,17 @@ func WalkOnceWithEnvironment(node build.Expr, env *Environment, fct func(e *buil
 		build.WalkOnce(node, func(e *build.Expr) { fct(e, env) })
 	case *build.DefStmt:
 		env.enterBlock()
+		outer := env.Function
 		env.Function = node
-		declareParams(node, env)
+		declareParams(node.Params, env)
 		declareLocalVariables(node.Body, env)
 		build.WalkOnce(node, func(e *build.Expr) { fct(e, env) })
-		env.Function = nil
+		env.Function = outer
+		env.exitBlock()
+	case *build.LambdaExpr:
+		env.enterBlock()
+		declareParams(node.Params, env)
+		build.WalkOnce(node, func(e *build.Expr) { fct(e, env) })
 		env.exitBlock()
 	case *build.Comprehension:
 		env.enterBlock()
-- 
2.43.0


From 999964974fcfdb2c35b4399de76907abef7ba3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:21 +0000
Subject: [PATCH 091/127] fix: negate variables with not

---
 warn/warn_bazel_api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index 743b0b2..58dd1b5 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -52,7 +52,7 @@ func negateExpression(expr build.Expr) build.Expr {
 	}
 
 	boolean, ok := expr.(*build.Ident)
-	if ok {
+	if ok && (boolean.Name == "True" || boolean.Name == "False") {
 		newBoolean := *boolean
 		if boolean.Name == "True" {
 			newBoolean.Name = "False"
-- 
2.43.0


From 86c86ad3efd2fb810de989f0cf767e1b2ebad236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:32 +0000
Subject: [PATCH 092/127] fix: don't replace native.foo with foo if it's
 another variable

---
 warn/warn_bazel.go     | 22 ++++++++++++++++------
 warn/warn_bazel_api.go | 38 ++++++++++++++++++++++++++++++++++++--
 2 files changed, 52 insertions(+), 8 deletions(-)

diff --git a/warn/warn_bazel.go b/warn/warn_bazel.go
index 456f011..9e20e60 100644
--- a/warn/warn_bazel.go
+++ b/warn/warn_bazel.go
@@ -23,6 +23,7 @@ import (
 	"strings"
 
 	"github.com/bazelbuild/buildtools/build"
+	"github.com/bazelbuild/buildtools/bzlenv"
 )
 
 var functionsWithPositionalArguments = map[string]bool{
@@ -101,7 +102,10 @@ func nativeInBuildFilesWarning(f *build.File) []*LinterFinding {
 	}
 
 	findings := []*LinterFinding{}
-	build.WalkPointers(f, func(expr *build.Expr, stack []build.Expr) {
+	var walk func(expr *build.Expr, env *bzlenv.Environment)
+	walk = func(expr *build.Expr, env *bzlenv.Environment) {
+		defer bzlenv.WalkOnceWithEnvironment(*expr, env, walk)
+
 		// Search for `native.xxx` nodes
 		dot, ok := (*expr).(*build.DotExpr)
 		if !ok {
@@ -112,11 +116,17 @@ func nativeInBuildFilesWarning(f *build.File) []*LinterFinding {
 			return
 		}
 
-		findings = append(findings,
-			makeLinterFinding(ident,
-				`The "native" module shouldn't be used in BUILD files, its members are available as global symbols.`,
-				LinterReplacement{expr, &build.Ident{Name: dot.Name}}))
-	})
+		finding := makeLinterFinding(ident,
+			`The "native" module shouldn't be used in BUILD files, its members are available as global symbols.`)
+		if env.Get(dot.Name) == nil {
+			// Otherwise the name is used for something else and the call can't be fixed automatically.
+			finding.Replacement = append(finding.Replacement,
+				LinterReplacement{expr, &build.Ident{Name: dot.Name}})
+		}
+		findings = append(findings, finding)
+	}
+	var expr build.Expr = f
+	walk(&expr, bzlenv.NewEnvironment())
 	return findings
 }
 
diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index 58dd1b5..0925516 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -227,6 +227,30 @@ func useApparentRepoNameIfExternal(load string, fileReader *FileReader) string {
 	return l.Format()
 }
 
+// isLoadedFrom checks whether a name is bound by a load statement, to the symbol with the same name
+// of the given module.
+func isLoadedFrom(binding *bzlenv.NameInfo, env *bzlenv.Environment, module string) bool {
+	if binding == nil || binding.Kind != bzlenv.Imported || len(env.Stack) == 0 {
+		return false
+	}
+	file, ok := env.Stack[0].(*build.File)
+	if !ok {
+		return false
+	}
+	for _, stmt := range file.Stmt {
+		load, ok := stmt.(*build.LoadStmt)
+		if !ok || load.Module.Value != module {
+			continue
+		}
+		for i, to := range load.To {
+			if to == binding.Definition {
+				return load.From[i].Name == binding.Name
+			}
+		}
+	}
+	return false
+}
+
 func notLoadedFunctionUsageCheckInternal(expr *build.Expr, env *bzlenv.Environment, globals []string, loadFrom string, fileReader *FileReader) ([]string, []*LinterFinding) {
 	var loads []string
 	var findings []*LinterFinding
@@ -238,6 +262,7 @@ func notLoadedFunctionUsageCheckInternal(expr *build.Expr, env *bzlenv.Environme
 
 	var name string
 	var replacements []LinterReplacement
+	needsLoad := true
 	switch node := call.X.(type) {
 	case *build.DotExpr:
 		// Maybe native.`global`?
@@ -247,6 +272,13 @@ func notLoadedFunctionUsageCheckInternal(expr *build.Expr, env *bzlenv.Environme
 		}
 
 		name = node.Name
+		if binding := env.Get(name); binding != nil {
+			needsLoad = false
+			if !isLoadedFrom(binding, env, useApparentRepoNameIfExternal(loadFrom, fileReader)) {
+				// Can't fix automatically because `foo` is something else here.
+				break
+			}
+		}
 		// Replace `native.foo()` with `foo()`
 		newCall := *call
 		newCall.X = &build.Ident{Name: node.Name}
@@ -263,7 +295,9 @@ func notLoadedFunctionUsageCheckInternal(expr *build.Expr, env *bzlenv.Environme
 
 	for _, global := range globals {
 		if name == global {
-			loads = append(loads, name)
+			if needsLoad {
+				loads = append(loads, name)
+			}
 			findings = append(findings,
 				makeLinterFinding(call.X, fmt.Sprintf(`Function %q is not global anymore and needs to be loaded from %q.`, global, useApparentRepoNameIfExternal(loadFrom, fileReader)), replacements...))
 			break
@@ -323,7 +357,7 @@ func notLoadedUsageCheck(f *build.File, fileReader *FileReader, functions, symbo
 	walk(&expr, bzlenv.NewEnvironment())
 
 	if len(toLoad) == 0 {
-		return nil
+		return findings
 	}
 
 	loadFrom = useApparentRepoNameIfExternal(loadFrom, fileReader)
-- 
2.43.0


From 3097ee4be736aa341a28a642d222958416cf90be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:22 +0000
Subject: [PATCH 093/127] fix: replace single_file parameters in one step

---
 warn/warn_bazel_api.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index 0925516..cc5d9db 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -598,12 +598,14 @@ func attrSingleFileWarning(f *build.File) []*LinterFinding {
 					singleFileIndex--
 				}
 			}
+			newSingleFileParam := *singleFileParam
+			newSingleFileParam.LHS = &newSingleFileKw
+			newSingleFileParam.RHS = singleFileValue
+			newCall.List[singleFileIndex] = &newSingleFileParam
 		}
 		findings = append(findings,
 			makeLinterFinding(singleFileParam, "single_file is deprecated in favor of allow_single_file.",
 				LinterReplacement{expr, &newCall},
-				LinterReplacement{&singleFileParam.LHS, &newSingleFileKw},
-				LinterReplacement{&singleFileParam.RHS, singleFileValue},
 			))
 	})
 	return findings
-- 
2.43.0


From 9ed46d639eaae2adc85267eff9fe1a26a3d84f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:23 +0000
Subject: [PATCH 094/127] fix: format files with fixed warnings like other
 files

---
 buildifier/buildifier.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/buildifier/buildifier.go b/buildifier/buildifier.go
index 20e07f9..1b253e1 100644
--- a/buildifier/buildifier.go
+++ b/buildifier/buildifier.go
@@ -314,6 +314,12 @@ func (b *buildifier) processFile(filename string, data []byte, displayFileNames
 	fileDiagnostics := utils.NewFileDiagnostics(f.DisplayPath(), warnings)
 
 	ndata := build.Format(f)
+	if b.config.Lint == "fix" {
+		// Fixed code may be printed with another layout than the same code if it's read from a file.
+		if fixed, err := parser(displayFilename, ndata); err == nil {
+			ndata = build.Format(fixed)
+		}
+	}
 
 	switch b.config.Mode {
 	case "check":
-- 
2.43.0


From 0c7e13d64c04c2b6b1c21e02c0cc7e9a55a8b185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:53 +0000
Subject: [PATCH 095/127] fix: don't offer a fix for loads of different symbols
 with the same name

---
 warn/warn_control_flow.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index b0f7cbe..1b99743 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -660,6 +660,7 @@ func unusedLoadWarning(f *build.File) []*LinterFinding {
 
 		// Findings related to the current load statement
 		loadFindings := []*LinterFinding{}
+		var fixableFinding *LinterFinding // the first finding about a symbol to be removed
 
 		// Copy the `load` object to provide a replacement if needed
 		load := *originalLoad
@@ -691,6 +692,9 @@ func unusedLoadWarning(f *build.File) []*LinterFinding {
 					i--
 					loadFindings = append(loadFindings, makeLinterFinding(to,
 						fmt.Sprintf("Symbol %q has already been loaded on line %d. Please remove it.", to.Name, origin.line)))
+					if fixableFinding == nil {
+						fixableFinding = loadFindings[len(loadFindings)-1]
+					}
 					continue
 				}
 
@@ -719,6 +723,9 @@ If you want to re-export a symbol, use the following pattern:
     %s = _%s
 `, to.Name, from.Name, to.Name, to.Name)
 				}
+				if fixableFinding == nil {
+					fixableFinding = loadFindings[len(loadFindings)-1]
+				}
 			}
 		}
 
@@ -726,6 +733,11 @@ If you want to re-export a symbol, use the following pattern:
 			// No problems with the current load statement
 			continue
 		}
+		findings = append(findings, loadFindings...)
+		if fixableFinding == nil {
+			// No symbols can be removed
+			continue
+		}
 
 		build.SortLoadArgs(&load)
 		var newStmt build.Expr = &load
@@ -745,9 +757,8 @@ If you want to re-export a symbol, use the following pattern:
 		//
 		//     load(":foo.bzl")
 		//
-		// A workaround is to attach the full replacement to the first finding.
-		loadFindings[0].Replacement = []LinterReplacement{replacement}
-		findings = append(findings, loadFindings...)
+		// A workaround is to attach the full replacement to the first finding about a symbol to be removed.
+		fixableFinding.Replacement = []LinterReplacement{replacement}
 	}
 	return findings
 }
-- 
2.43.0


From c6a0994ddebfc3dc541ec27339d90ef1eeac0d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:28 +0000
Subject: [PATCH 096/127] fix: replace skylark in comments inside load
 statements and dictionaries

---
 warn/warn_cosmetic.go | 108 ++++++++++++++++++++++++++++++------------
 1 file changed, 78 insertions(+), 30 deletions(-)

diff --git a/warn/warn_cosmetic.go b/warn/warn_cosmetic.go
index 3ae66da..d3d5f5a 100644
--- a/warn/warn_cosmetic.go
+++ b/warn/warn_cosmetic.go
@@ -239,48 +239,96 @@ func replaceSkylark(s string) (newString string, changed bool) {
 	return newString, newString != s
 }
 
+// replaceSkylarkInComments replaces "skylark" in the comments of a node. It returns the new comments
+// and the last one of the old comments that differs (nil if nothing has been replaced).
+func replaceSkylarkInComments(comments *build.Comments) (newComments build.Comments, lastChanged *build.Comment) {
+	newComments = build.Comments{
+		Before: append([]build.Comment{}, comments.Before...),
+		Suffix: append([]build.Comment{}, comments.Suffix...),
+		After:  append([]build.Comment{}, comments.After...),
+	}
+	for _, block := range [][]build.Comment{newComments.Before, newComments.Suffix, newComments.After} {
+		for i, comment := range block {
+			// Don't trigger on disabling comments
+			if strings.Contains(comment.Token, "disable=skylark-docstring") {
+				continue
+			}
+			newValue, changed := replaceSkylark(comment.Token)
+			block[i] = build.Comment{
+				Start: comment.Start,
+				Token: newValue,
+			}
+			if changed {
+				old := comment
+				lastChanged = &old
+			}
+		}
+	}
+	return newComments, lastChanged
+}
+
 func skylarkCommentWarning(f *build.File) []*LinterFinding {
 	var findings []*LinterFinding
 	msg := `"Skylark" is an outdated name of the language, please use "starlark" instead.`
 
+	// Dictionary items and the parts of load statements can't be replaced on their own, only together
+	// with the entire dictionary or load statement.
+	replacements := make(map[build.Expr]LinterReplacement)
+
 	// Check comments
 	build.WalkPointers(f, func(expr *build.Expr, stack []build.Expr) {
-		comments := (*expr).Comment()
-		newComments := build.Comments{
-			Before: append([]build.Comment{}, comments.Before...),
-			Suffix: append([]build.Comment{}, comments.Suffix...),
-			After:  append([]build.Comment{}, comments.After...),
+		switch node := (*expr).(type) {
+		case *build.DictExpr:
+			newDict := *node
+			newDict.List = append([]*build.KeyValueExpr{}, node.List...)
+			replacements[node] = LinterReplacement{expr, &newDict}
+		case *build.LoadStmt:
+			newLoad := *node
+			newLoad.From = append([]*build.Ident{}, node.From...)
+			newLoad.To = append([]*build.Ident{}, node.To...)
+			replacements[node] = LinterReplacement{expr, &newLoad}
 		}
-		isModified := false
-		var start, end build.Position
-
-		for _, block := range []*[]build.Comment{&newComments.Before, &newComments.Suffix, &newComments.After} {
-			for i, comment := range *block {
-				// Don't trigger on disabling comments
-				if strings.Contains(comment.Token, "disable=skylark-docstring") {
-					continue
+
+		newComments, comment := replaceSkylarkInComments((*expr).Comment())
+		if comment == nil {
+			return
+		}
+
+		replacement, ok := replacements[*expr]
+		if !ok {
+			replacement = LinterReplacement{expr, (*expr).Copy()}
+		}
+		newExpr := replacement.New
+		*newExpr.Comment() = newComments
+
+		if len(stack) > 0 {
+			parent := stack[len(stack)-1]
+			switch newParent := replacements[parent].New.(type) {
+			case *build.DictExpr:
+				for i, item := range newParent.List {
+					if item == *expr {
+						newParent.List[i] = newExpr.(*build.KeyValueExpr)
+					}
 				}
-				newValue, changed := replaceSkylark(comment.Token)
-				(*block)[i] = build.Comment{
-					Start: comment.Start,
-					Token: newValue,
+				replacement = replacements[parent]
+			case *build.LoadStmt:
+				if newParent.Module == *expr {
+					newParent.Module = newExpr.(*build.StringExpr)
 				}
-				if changed {
-					isModified = true
-					start, end = comment.Span()
+				for i := range newParent.From {
+					if newParent.From[i] == *expr {
+						newParent.From[i] = newExpr.(*build.Ident)
+					}
+					if newParent.To[i] == *expr {
+						newParent.To[i] = newExpr.(*build.Ident)
+					}
 				}
+				replacement = replacements[parent]
 			}
 		}
-		if !isModified {
-			return
-		}
-		newExpr := (*expr).Copy()
-		newExpr.Comment().Before = newComments.Before
-		newExpr.Comment().Suffix = newComments.Suffix
-		newExpr.Comment().After = newComments.After
-		finding := makeLinterFinding(*expr, msg, LinterReplacement{expr, newExpr})
-		finding.Start = start
-		finding.End = end
+
+		finding := makeLinterFinding(*expr, msg, replacement)
+		finding.Start, finding.End = comment.Span()
 		findings = append(findings, finding)
 	})
 
-- 
2.43.0


From 9e277c0e4709cf19994d6ebb1991da0e070c6c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:30 +0000
Subject: [PATCH 097/127] fix: know variables of toplevel blocks in bzlenv

---
 bzlenv/bzlenv.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bzlenv/bzlenv.go b/bzlenv/bzlenv.go
index 0a9d9b5..59fd942 100644
--- a/bzlenv/bzlenv.go
+++ b/bzlenv/bzlenv.go
@@ -133,6 +133,8 @@ func declareGlobals(stmts []build.Expr, env *Environment) {
 			}
 		case *build.DefStmt:
 			env.declare(node.Name, Function, node)
+		case *build.IfStmt, *build.ForStmt:
+			declareLocalVariables([]build.Expr{node}, env)
 		}
 	}
 }
-- 
2.43.0


From c0f6a777134dc4df7abfc0d8d2e19fb655283d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:59 +0000
Subject: [PATCH 098/127] fix: repeat fixes of warnings of different categories

---
 warn/warn.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/warn/warn.go b/warn/warn.go
index a0e197e..f6da6bc 100644
--- a/warn/warn.go
+++ b/warn/warn.go
@@ -18,6 +18,7 @@ limitations under the License.
 package warn
 
 import (
+	"bytes"
 	"fmt"
 	"log"
 	"os"
@@ -507,7 +508,18 @@ func calculateDifference(old, new *[]byte) (start, end int, replacement string)
 
 // FixWarnings fixes all warnings that can be fixed automatically.
 func FixWarnings(f *build.File, enabledWarnings []string, verbose bool, fileReader *FileReader) {
-	warnings := FileWarnings(f, enabledWarnings, nil, ModeFix, fileReader)
+	var warnings []*Finding
+	contents := build.FormatWithoutRewriting(f)
+	// A fix of one category can make fixes of other categories possible. Repeat until nothing is changed
+	// (or stop after several attempts in case some fixes contradict each other).
+	for i := 0; i < 10; i++ {
+		warnings = FileWarnings(f, enabledWarnings, nil, ModeFix, fileReader)
+		newContents := build.FormatWithoutRewriting(f)
+		if bytes.Equal(newContents, contents) {
+			break
+		}
+		contents = newContents
+	}
 	if verbose {
 		fmt.Fprintf(os.Stderr, "%s: applied fixes, %d warnings left\n",
 			f.DisplayPath(),
-- 
2.43.0


From 08fd595dac9f1addf3fd4336f558970d3f5631a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:06 +0000
Subject: [PATCH 099/127] fix: keep comments and positions of fixed expressions

---
 warn/warn_bazel.go           |  2 +-
 warn/warn_bazel_api.go       | 47 +++++++++++++++++++++++++++++-------
 warn/warn_bazel_operation.go | 10 +++++---
 warn/warn_operation.go       | 11 ++++++---
 4 files changed, 53 insertions(+), 17 deletions(-)

diff --git a/warn/warn_bazel.go b/warn/warn_bazel.go
index 9e20e60..05fcf3e 100644
--- a/warn/warn_bazel.go
+++ b/warn/warn_bazel.go
@@ -121,7 +121,7 @@ func nativeInBuildFilesWarning(f *build.File) []*LinterFinding {
 		if env.Get(dot.Name) == nil {
 			// Otherwise the name is used for something else and the call can't be fixed automatically.
 			finding.Replacement = append(finding.Replacement,
-				LinterReplacement{expr, &build.Ident{Name: dot.Name}})
+				LinterReplacement{expr, &build.Ident{Comments: dot.Comments, NamePos: ident.NamePos, Name: dot.Name}})
 		}
 		findings = append(findings, finding)
 	}
diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index cc5d9db..e11fbc1 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -281,7 +281,7 @@ func notLoadedFunctionUsageCheckInternal(expr *build.Expr, env *bzlenv.Environme
 		}
 		// Replace `native.foo()` with `foo()`
 		newCall := *call
-		newCall.X = &build.Ident{Name: node.Name}
+		newCall.X = &build.Ident{Comments: node.Comments, NamePos: ident.NamePos, Name: node.Name}
 		replacements = append(replacements, LinterReplacement{expr, &newCall})
 	case *build.Ident:
 		// Maybe `global`()?
@@ -391,10 +391,31 @@ func NotLoadedSymbolUsageCheck(f *build.File, fileReader *FileReader, globals []
 	return notLoadedUsageCheck(f, fileReader, []string{}, globals, loadFrom)
 }
 
+// withoutComments returns a node without comments to be used inside of another node that takes over the
+// comments (also returned).
+func withoutComments(expr build.Expr) (build.Expr, build.Comments) {
+	comments := *expr.Comment()
+	if len(comments.Before)+len(comments.Suffix)+len(comments.After) == 0 {
+		return expr, comments
+	}
+	newExpr := expr.Copy()
+	*newExpr.Comment() = build.Comments{}
+	return newExpr, comments
+}
+
 // makePositional makes the function argument positional (removes the keyword if it exists)
 func makePositional(argument build.Expr) build.Expr {
 	if binary, ok := argument.(*build.AssignExpr); ok {
-		return binary.RHS
+		if len(binary.Before)+len(binary.Suffix)+len(binary.After) == 0 {
+			return binary.RHS
+		}
+		// Preserve the comments
+		value := binary.RHS.Copy()
+		comments := value.Comment()
+		comments.Before = append(append([]build.Comment{}, binary.Before...), comments.Before...)
+		comments.Suffix = append(append([]build.Comment{}, comments.Suffix...), binary.Suffix...)
+		comments.After = append(append([]build.Comment{}, comments.After...), binary.After...)
+		return value
 	}
 	return argument
 }
@@ -403,10 +424,13 @@ func makePositional(argument build.Expr) build.Expr {
 func makeKeyword(argument build.Expr, name string) build.Expr {
 	assign, ok := argument.(*build.AssignExpr)
 	if !ok {
+		start, _ := argument.Span()
+		value, comments := withoutComments(argument)
 		return &build.AssignExpr{
-			LHS: &build.Ident{Name: name},
-			Op:  "=",
-			RHS: argument,
+			Comments: comments,
+			LHS:      &build.Ident{NamePos: start, Name: name},
+			Op:       "=",
+			RHS:      value,
 		}
 	}
 	ident, ok := assign.LHS.(*build.Ident)
@@ -417,7 +441,8 @@ func makeKeyword(argument build.Expr, name string) build.Expr {
 
 	// Technically it's possible that the LHS is not an ident, but that is a syntax error anyway.
 	newAssign := *assign
-	newAssign.LHS = &build.Ident{Name: name}
+	start, _ := assign.LHS.Span()
+	newAssign.LHS = &build.Ident{NamePos: start, Name: name}
 	return &newAssign
 }
 
@@ -759,8 +784,11 @@ func outputGroupWarning(f *build.File) []*LinterFinding {
 			makeLinterFinding(outputGroup,
 				`"ctx.attr.dep.output_group" is deprecated in favor of "ctx.attr.dep[OutputGroupInfo]".`,
 				LinterReplacement{expr, &build.IndexExpr{
-					X: dep,
-					Y: &build.Ident{Name: "OutputGroupInfo"},
+					Comments:   outputGroup.Comments,
+					X:          dep,
+					IndexStart: outputGroup.Dot,
+					Y:          &build.Ident{NamePos: outputGroup.NamePos, Name: "OutputGroupInfo"},
+					End:        outputGroup.NamePos,
 				},
 				}))
 	})
@@ -938,10 +966,11 @@ func contextArgsAPIWarning(f *build.File) []*LinterFinding {
 				newBeforeEachKw.Name = "format_each"
 
 				replacements = append(replacements, LinterReplacement{&beforeEach.LHS, &newBeforeEachKw})
+				_, end := beforeEach.RHS.Span()
 				replacements = append(replacements, LinterReplacement{&beforeEach.RHS, &build.BinaryExpr{
 					X:  beforeEach.RHS,
 					Op: "+",
-					Y:  &build.StringExpr{Value: "%s"},
+					Y:  &build.StringExpr{Value: "%s", Start: end, End: end},
 				}})
 			}
 		}
diff --git a/warn/warn_bazel_operation.go b/warn/warn_bazel_operation.go
index 6bf8b08..d536016 100644
--- a/warn/warn_bazel_operation.go
+++ b/warn/warn_bazel_operation.go
@@ -78,12 +78,16 @@ func depsetIterationWarning(f *build.File) []*LinterFinding {
 
 	addFinding := func(expr *build.Expr) {
 		_, end := (*expr).Span()
+		depset, comments := withoutComments(*expr)
 		newNode := &build.CallExpr{
+			Comments: comments,
 			X: &build.DotExpr{
-				X:    *expr,
-				Name: "to_list",
+				X:       depset,
+				NamePos: end,
+				Name:    "to_list",
 			},
-			End: build.End{Pos: end},
+			ListStart: end,
+			End:       build.End{Pos: end},
 		}
 		findings = append(findings,
 			makeLinterFinding(*expr, `Depset iteration is deprecated, use the "to_list()" method instead.`, LinterReplacement{expr, newNode}))
diff --git a/warn/warn_operation.go b/warn/warn_operation.go
index db92667..06d92b8 100644
--- a/warn/warn_operation.go
+++ b/warn/warn_operation.go
@@ -189,15 +189,18 @@ func listAppendWarning(f *build.File) []*LinterFinding {
 		}
 
 		_, end := as.Span()
+		_, targetEnd := as.LHS.Span()
 		findings = append(findings, makeLinterFinding(as, `Prefer using ".append()" to adding a single element list. NOTE: This does not work if the target is a select, hence this warning can safely be ignored or suppressed.`,
 			LinterReplacement{expr, &build.CallExpr{
 				Comments: as.Comments,
 				X: &build.DotExpr{
-					X:    as.LHS,
-					Name: "append",
+					X:       as.LHS,
+					NamePos: targetEnd,
+					Name:    "append",
 				},
-				List: list.List,
-				End:  build.End{Pos: end},
+				ListStart: targetEnd,
+				List:      list.List,
+				End:       build.End{Comments: list.End.Comments, Pos: end},
 			}}))
 
 	})
-- 
2.43.0


From 03706a505e8aece0370eb6199c2099d05cf41693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:04 +0000
Subject: [PATCH 100/127] fix: compare modules of loads by value

---
 warn/warn_control_flow.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index 1b99743..8c8132f 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -676,7 +676,7 @@ func unusedLoadWarning(f *build.File) []*LinterFinding {
 			loaded[to.Name] = struct {
 				label, from string
 				line        int
-			}{load.Module.Token, from.Name, start.Line}
+			}{load.Module.Value, from.Name, start.Line}
 
 			if HasDisablingComment(to, "load") || HasDisablingComment(from, "load") {
 				// Don't remove the symbol together with other symbols of the same load statement
@@ -685,7 +685,7 @@ func unusedLoadWarning(f *build.File) []*LinterFinding {
 
 			if alreadyLoaded {
 				// The same symbol has already been loaded earlier
-				if origin.label == load.Module.Token && origin.from == from.Name {
+				if origin.label == load.Module.Value && origin.from == from.Name {
 					// Only fix if it's loaded from the same label and variable
 					load.To = append(load.To[:i], load.To[i+1:]...)
 					load.From = append(load.From[:i], load.From[i+1:]...)
-- 
2.43.0


From ab995a903a0951877bb15eabe207ab9a48d70e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:54 +0000
Subject: [PATCH 101/127] fix: keep comments of list calls of iterated depsets

---
 warn/warn_bazel_operation.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/warn/warn_bazel_operation.go b/warn/warn_bazel_operation.go
index d536016..3d78733 100644
--- a/warn/warn_bazel_operation.go
+++ b/warn/warn_bazel_operation.go
@@ -130,7 +130,24 @@ func depsetIterationWarning(f *build.File) []*LinterFinding {
 				addFinding(&expr.List[0])
 				if ident.Name == "list" {
 					// `list(d.to_list())` can be simplified to just `d.to_list()`
-					findings[len(findings)-1].Replacement[0].Old = e
+					replacement := &findings[len(findings)-1].Replacement[0]
+					replacement.Old = e
+					// Preserve the comments of the call
+					newCall := replacement.New.(*build.CallExpr)
+					if len(newCall.Before) > 0 || len(expr.End.Comments.Before) > 0 {
+						// The comments can only be placed inside parentheses
+						replacement.New = &build.ParenExpr{
+							Comments:       expr.Comments,
+							Start:          expr.ListStart,
+							X:              newCall,
+							End:            expr.End,
+							ForceMultiLine: true,
+						}
+						return
+					}
+					newCall.Before = append(append([]build.Comment{}, expr.Before...), newCall.Before...)
+					newCall.Suffix = append(append([]build.Comment{}, newCall.Suffix...), expr.Suffix...)
+					newCall.After = append(append([]build.Comment{}, newCall.After...), expr.After...)
 				}
 			case "zip":
 				for i, arg := range expr.List {
-- 
2.43.0


From 9a3c0fadd4da834d9b634500e8dc391583c80d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:54 +0000
Subject: [PATCH 102/127] fix: don't undo changes of docstrings while
 formatting them

---
 build/rewrite.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/build/rewrite.go b/build/rewrite.go
index 534cbfd..c6a80f3 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -1384,6 +1384,10 @@ func formatDocstrings(f *File, _ *Rewriter) {
 
 		// Operate on Token, not Value, because their line breaks can be different if a line ends with
 		// a backslash.
+		if value, _, err := Unquote(docstring.Token); err != nil || value != docstring.Value {
+			// The value has been changed after parsing, the token is outdated
+			docstring.Token = quote(docstring.Value, true)
+		}
 		updatedToken := formatString(docstring.Token, oldIndentation, newIndentation)
 		if updatedToken != docstring.Token {
 			docstring.Token = updatedToken
-- 
2.43.0


From 6dae08c3e9a662856b8811e52b365f5e818cb3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:30 +0000
Subject: [PATCH 103/127] fix: allow to merge tables into replaced ones that
 lack a field

---
 tables/tables.go | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/tables/tables.go b/tables/tables.go
index 7ff8b02..1eb1ac8 100644
--- a/tables/tables.go
+++ b/tables/tables.go
@@ -280,27 +280,23 @@ func OverrideTables(labelArg, denylist, listArg, sortableListArg, sortDenylist,
 
 // MergeTables allows a user of the build package to override the special-case rules. The user-provided tables are merged into the built-in tables.
 func MergeTables(labelArg, denylist, listArg, sortableListArg, sortDenylist, sortAllowlist map[string]bool, namePriority map[string]int, stripLabelLeadingSlashes, shortenAbsoluteLabelsToRelative bool) {
-	for k, v := range labelArg {
-		IsLabelArg[k] = v
-	}
-	for k, v := range denylist {
-		LabelDenylist[k] = v
-	}
-	for k, v := range listArg {
-		IsListArg[k] = v
-	}
-	for k, v := range sortableListArg {
-		IsSortableListArg[k] = v
-	}
-	for k, v := range sortDenylist {
-		SortableDenylist[k] = v
-	}
-	for k, v := range sortAllowlist {
-		SortableAllowlist[k] = v
-	}
-	for k, v := range namePriority {
-		NamePriority[k] = v
-	}
+	mergeTable(&IsLabelArg, labelArg)
+	mergeTable(&LabelDenylist, denylist)
+	mergeTable(&IsListArg, listArg)
+	mergeTable(&IsSortableListArg, sortableListArg)
+	mergeTable(&SortableDenylist, sortDenylist)
+	mergeTable(&SortableAllowlist, sortAllowlist)
+	mergeTable(&NamePriority, namePriority)
 	StripLabelLeadingSlashes = stripLabelLeadingSlashes || StripLabelLeadingSlashes
 	ShortenAbsoluteLabelsToRelative = shortenAbsoluteLabelsToRelative || ShortenAbsoluteLabelsToRelative
 }
+
+// mergeTable adds the entries to the table, which may be missing after the tables were replaced.
+func mergeTable[V any](table *map[string]V, entries map[string]V) {
+	if *table == nil && len(entries) > 0 {
+		*table = make(map[string]V)
+	}
+	for k, v := range entries {
+		(*table)[k] = v
+	}
+}
-- 
2.43.0


From 9852a68d327f8678105db8c6b3166833c8203450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:40 +0000
Subject: [PATCH 104/127] fix: convert dictionary comprehensions

---
 convertast/convert_ast.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/convertast/convert_ast.go b/convertast/convert_ast.go
index 6978354..a29028d 100644
--- a/convertast/convert_ast.go
+++ b/convertast/convert_ast.go
@@ -228,14 +228,15 @@ func convExpr(e syntax.Expr) build.Expr {
 	case *syntax.DictExpr:
 		list := []*build.KeyValueExpr{}
 		for i := range e.List {
-			entry := e.List[i].(*syntax.DictEntry)
-			list = append(list, &build.KeyValueExpr{
-				Key:      convExpr(entry.Key),
-				Value:    convExpr(entry.Value),
-				Comments: convComments(entry.Comments()),
-			})
+			list = append(list, convExpr(e.List[i]).(*build.KeyValueExpr))
 		}
 		return &build.DictExpr{List: list, Comments: convComments(e.Comments())}
+	case *syntax.DictEntry:
+		return &build.KeyValueExpr{
+			Key:      convExpr(e.Key),
+			Value:    convExpr(e.Value),
+			Comments: convComments(e.Comments()),
+		}
 	case *syntax.CondExpr:
 		return &build.ConditionalExpr{
 			Then:     convExpr(e.True),
-- 
2.43.0


From fccbf0852819344fbc07617aa8b414dc84d2f06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:01 +0000
Subject: [PATCH 105/127] fix: convert big integers

---
 convertast/convert_ast.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/convertast/convert_ast.go b/convertast/convert_ast.go
index a29028d..f073026 100644
--- a/convertast/convert_ast.go
+++ b/convertast/convert_ast.go
@@ -22,7 +22,6 @@ package convertast
 
 import (
 	"fmt"
-	"strconv"
 	"strings"
 
 	"github.com/bazelbuild/buildtools/build"
@@ -172,7 +171,7 @@ func convExpr(e syntax.Expr) build.Expr {
 		switch e.Token {
 		case syntax.INT:
 			return &build.LiteralExpr{
-				Token:    strconv.FormatInt(e.Value.(int64), 10),
+				Token:    fmt.Sprint(e.Value), // int64 or *big.Int
 				Comments: convComments(e.Comments())}
 		case syntax.FLOAT:
 			return &build.LiteralExpr{
-- 
2.43.0


From d3eef35883694704f6401f787244454e1481f322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:27 +0000
Subject: [PATCH 106/127] fix: keep the comma of converted tuples of one
 element

---
 convertast/convert_ast.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/convertast/convert_ast.go b/convertast/convert_ast.go
index f073026..4c8f308 100644
--- a/convertast/convert_ast.go
+++ b/convertast/convert_ast.go
@@ -138,6 +138,15 @@ func convComments(c *syntax.Comments) build.Comments {
 	}
 }
 
+// joinComments returns the comments of two nodes which are converted to one.
+func joinComments(outer, inner build.Comments) build.Comments {
+	return build.Comments{
+		Before: append(outer.Before, inner.Before...),
+		Suffix: append(inner.Suffix, outer.Suffix...),
+		After:  append(inner.After, outer.After...),
+	}
+}
+
 // singleLine returns true if the node fits on a single line.
 func singleLine(n syntax.Node) bool {
 	start, end := n.Span()
@@ -251,6 +260,14 @@ func convExpr(e syntax.Expr) build.Expr {
 			Curly:    e.Curly,
 		}
 	case *syntax.ParenExpr:
+		if tuple, ok := e.X.(*syntax.TupleExpr); ok && !tuple.Lparen.IsValid() {
+			// The parentheses of a tuple are a separate node only in go.starlark.net/syntax
+			return &build.TupleExpr{
+				List:         convExprs(tuple.List),
+				Comments:     joinComments(convComments(e.Comments()), convComments(tuple.Comments())),
+				ForceCompact: singleLine(e),
+			}
+		}
 		return &build.ParenExpr{
 			X:        convExpr(e.X),
 			Comments: convComments(e.Comments()),
@@ -258,7 +275,7 @@ func convExpr(e syntax.Expr) build.Expr {
 	case *syntax.TupleExpr:
 		return &build.TupleExpr{
 			List:         convExprs(e.List),
-			NoBrackets:   !e.Lparen.IsValid(),
+			NoBrackets:   !e.Lparen.IsValid() && len(e.List) != 1, // a single element needs a comma
 			Comments:     convComments(e.Comments()),
 			ForceCompact: singleLine(e),
 		}
-- 
2.43.0


From 1427ef60615847462bd661305e7f8ec3f9afbdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:52 +0000
Subject: [PATCH 107/127] fix: print the step of slices without a position of
 the second colon

---
 build/print.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/print.go b/build/print.go
index c325305..835dfb0 100644
--- a/build/print.go
+++ b/build/print.go
@@ -724,7 +724,7 @@ func (p *printer) expr(v Expr, outerPrec int) {
 		if v.To != nil {
 			p.expr(v.To, precLow)
 		}
-		if v.SecondColon.Byte != 0 {
+		if v.SecondColon.Byte != 0 || v.Step != nil {
 			p.printf(":")
 			if v.Step != nil {
 				p.expr(v.Step, precLow)
-- 
2.43.0


From 2e29efb5ec4cc04dc565541836dc074555c0dcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:56 +0000
Subject: [PATCH 108/127] fix: start final comments of a file on a new line

---
 build/print.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/build/print.go b/build/print.go
index 835dfb0..7703c7f 100644
--- a/build/print.go
+++ b/build/print.go
@@ -198,6 +198,9 @@ func (p *printer) file(f *File) {
 
 	p.statements(f.Stmt)
 
+	if len(f.After) > 0 {
+		p.newlineIfNeeded()
+	}
 	for _, com := range f.After {
 		p.printf("%s", strings.TrimSpace(com.Token))
 		p.newline()
-- 
2.43.0


From a69084c27ed2d747f2cd01149600f0646dc77e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:56 +0000
Subject: [PATCH 109/127] fix: keep comments inside arguments of load
 statements

---
 build/print.go   | 7 +++----
 build/rewrite.go | 4 ++--
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/build/print.go b/build/print.go
index 7703c7f..6d5664d 100644
--- a/build/print.go
+++ b/build/print.go
@@ -840,11 +840,10 @@ func (p *printer) expr(v Expr, outerPrec int) {
 			to := v.To[i]
 			var arg Expr
 			if from.Name == to.Name {
-				// Suffix comments are attached to the `to` token,
-				// Before comments are attached to the `from` token,
-				// they need to be combined.
+				// The comments of both tokens need to be combined.
 				arg = from.asString()
-				arg.Comment().Before = to.Comment().Before
+				arg.Comment().Before = append(append([]Comment{}, to.Before...), from.Before...)
+				arg.Comment().Suffix = append(append([]Comment{}, to.Suffix...), from.Suffix...)
 			} else {
 				// Comments of the parts belong to the whole argument.
 				lhs, rhs := *to, from.asString()
diff --git a/build/rewrite.go b/build/rewrite.go
index c6a80f3..ee6005a 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -1335,8 +1335,8 @@ func (args *loadArgs) deduplicate() {
 			// Overwrite, but keep the comments. The identifiers may be shared with another
 			// load statement (e.g. with the original of a suggested one), don't change them.
 			newFrom, newTo := *args.From[i], *args.To[i]
-			newTo.Before = append(append([]Comment{}, to[j].Before...), newTo.Before...)
-			newFrom.Suffix = append(append([]Comment{}, from[j].Suffix...), newFrom.Suffix...)
+			newTo.Before = append(append(append([]Comment{}, to[j].Before...), from[j].Before...), newTo.Before...)
+			newFrom.Suffix = append(append(append([]Comment{}, to[j].Suffix...), from[j].Suffix...), newFrom.Suffix...)
 			from[j] = &newFrom
 			to[j] = &newTo
 			args.modified = true
-- 
2.43.0


From 40fa3fec1c8a5fffd0bcbf2ad53a4e79f87ae438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:56 +0000
Subject: [PATCH 110/127] fix: keep comments of converted programs

---
 convertast/convert_ast.go | 111 ++++++++++++++++++++++++++++++++++----
 1 file changed, 100 insertions(+), 11 deletions(-)

diff --git a/convertast/convert_ast.go b/convertast/convert_ast.go
index 4c8f308..ad864ce 100644
--- a/convertast/convert_ast.go
+++ b/convertast/convert_ast.go
@@ -42,10 +42,65 @@ func ConvFile(f *syntax.File) *build.File {
 }
 
 func convStmt(stmt syntax.Stmt) build.Expr {
+	res := convStmtNode(stmt)
+	// Lines of comments are only allowed between statements and inside brackets. In
+	// go.starlark.net/syntax those before a closing bracket belong to what follows the bracket.
+	comments := res.Comment()
+	comments.Before = append(comments.Before, takeLineComments(res)...)
+	return res
+}
+
+// takeLineComments removes and returns the comments before those subexpressions of a statement or
+// of an expression that are not inside brackets.
+func takeLineComments(e build.Expr) []build.Comment {
+	var children []build.Expr
+	switch e := e.(type) {
+	case *build.AssignExpr:
+		children = []build.Expr{e.LHS, e.RHS}
+	case *build.IfStmt:
+		children = []build.Expr{e.Cond}
+	case *build.ForStmt:
+		children = []build.Expr{e.Vars, e.X}
+	case *build.ReturnStmt:
+		children = []build.Expr{e.Result}
+	case *build.BinaryExpr:
+		children = []build.Expr{e.X, e.Y}
+	case *build.UnaryExpr:
+		children = []build.Expr{e.X}
+	case *build.SliceExpr:
+		children = []build.Expr{e.X}
+	case *build.IndexExpr:
+		children = []build.Expr{e.X}
+	case *build.DotExpr:
+		children = []build.Expr{e.X}
+	case *build.CallExpr:
+		children = []build.Expr{e.X}
+	case *build.ConditionalExpr:
+		children = []build.Expr{e.Then, e.Test, e.Else}
+	case *build.TupleExpr:
+		if e.NoBrackets {
+			children = e.List
+		}
+	case *build.LambdaExpr:
+		children = append(append(children, e.Params...), e.Body...)
+	}
+
+	var res []build.Comment
+	for _, child := range children {
+		if child != nil {
+			res = append(res, child.Comment().Before...)
+			child.Comment().Before = nil
+			res = append(res, takeLineComments(child)...)
+		}
+	}
+	return res
+}
+
+func convStmtNode(stmt syntax.Stmt) build.Expr {
 	switch stmt := stmt.(type) {
 	case *syntax.ExprStmt:
 		s := convExpr(stmt.X)
-		*s.Comment() = convComments(stmt.Comments())
+		*s.Comment() = joinComments(convComments(stmt.Comments()), *s.Comment())
 		return s
 	case *syntax.BranchStmt:
 		return &build.BranchStmt{
@@ -55,13 +110,18 @@ func convStmt(stmt syntax.Stmt) build.Expr {
 	case *syntax.LoadStmt:
 		load := &build.LoadStmt{
 			Module:       convExpr(stmt.Module).(*build.StringExpr),
+			Comments:     convComments(stmt.Comments()),
 			ForceCompact: singleLine(stmt),
 		}
 		for _, ident := range stmt.From {
 			load.From = append(load.From, convExpr(ident).(*build.Ident))
 		}
-		for _, ident := range stmt.To {
-			load.To = append(load.To, convExpr(ident).(*build.Ident))
+		for i, ident := range stmt.To {
+			to := convExpr(ident).(*build.Ident)
+			if ident == stmt.From[i] {
+				to.Comments = build.Comments{} // the same node, its comments are already there
+			}
+			load.To = append(load.To, to)
 		}
 		return load
 	case *syntax.AssignStmt:
@@ -72,16 +132,20 @@ func convStmt(stmt syntax.Stmt) build.Expr {
 			Comments: convComments(stmt.Comments()),
 		}
 	case *syntax.IfStmt:
-		return &build.IfStmt{
+		res := &build.IfStmt{
 			Cond:     convExpr(stmt.Cond),
 			True:     convStmts(stmt.True),
 			False:    convStmts(stmt.False),
 			Comments: convComments(stmt.Comments()),
 		}
+		// The end-of-line comments after the statement are those after its last inner statement.
+		last := lastStmt(res).Comment()
+		last.Suffix, res.Suffix = append(last.Suffix, res.Suffix...), nil
+		return res
 	case *syntax.DefStmt:
 		return &build.DefStmt{
 			Name:     stmt.Name.Name,
-			Comments: convComments(stmt.Comments()),
+			Comments: joinComments(convComments(stmt.Comments()), convComments(stmt.Name.Comments())),
 			Function: build.Function{
 				Params: convExprs(stmt.Params),
 				Body:   convStmts(stmt.Body),
@@ -103,6 +167,18 @@ func convStmt(stmt syntax.Stmt) build.Expr {
 	panic("unreachable")
 }
 
+// lastStmt returns the last inner statement of a conditional statement.
+func lastStmt(stmt build.Expr) build.Expr {
+	for {
+		block, ok := stmt.(*build.IfStmt)
+		if !ok {
+			return stmt
+		}
+		body := append(append([]build.Expr{}, block.True...), block.False...)
+		stmt = body[len(body)-1]
+	}
+}
+
 func convStmts(list []syntax.Stmt) []build.Expr {
 	res := []build.Expr{}
 	for _, i := range list {
@@ -159,12 +235,14 @@ func convClauses(list []syntax.Node) []build.Expr {
 		switch stmt := c.(type) {
 		case *syntax.ForClause:
 			res = append(res, &build.ForClause{
-				Vars: convExpr(stmt.Vars),
-				X:    convExpr(stmt.X),
+				Vars:     convExpr(stmt.Vars),
+				X:        convExpr(stmt.X),
+				Comments: convComments(stmt.Comments()),
 			})
 		case *syntax.IfClause:
 			res = append(res, &build.IfClause{
-				Cond: convExpr(stmt.Cond),
+				Cond:     convExpr(stmt.Cond),
+				Comments: convComments(stmt.Comments()),
 			})
 		}
 	}
@@ -212,11 +290,21 @@ func convExpr(e syntax.Expr) build.Expr {
 			LineBreak: lhsEnd.Line != rhsBegin.Line,
 			Comments:  convComments(e.Comments())}
 	case *syntax.UnaryExpr:
-		return &build.UnaryExpr{Op: e.Op.String(), X: convExpr(e.X)}
+		return &build.UnaryExpr{Op: e.Op.String(), X: convExpr(e.X), Comments: convComments(e.Comments())}
 	case *syntax.SliceExpr:
-		return &build.SliceExpr{X: convExpr(e.X), From: convExpr(e.Lo), To: convExpr(e.Hi), Step: convExpr(e.Step)}
+		return &build.SliceExpr{
+			X:        convExpr(e.X),
+			From:     convExpr(e.Lo),
+			To:       convExpr(e.Hi),
+			Step:     convExpr(e.Step),
+			Comments: convComments(e.Comments()),
+		}
 	case *syntax.DotExpr:
-		return &build.DotExpr{X: convExpr(e.X), Name: e.Name.Name}
+		return &build.DotExpr{
+			X:        convExpr(e.X),
+			Name:     e.Name.Name,
+			Comments: joinComments(convComments(e.Comments()), convComments(e.Name.Comments())),
+		}
 	case *syntax.CallExpr:
 		args := []build.Expr{}
 		for _, a := range e.Args {
@@ -225,6 +313,7 @@ func convExpr(e syntax.Expr) build.Expr {
 		return &build.CallExpr{
 			X:            convExpr(e.Fn),
 			List:         args,
+			Comments:     convComments(e.Comments()),
 			ForceCompact: singleLine(e),
 		}
 	case *syntax.ListExpr:
-- 
2.43.0


From a1fc19e169e35fa2c06ece32ab5d8f0148026346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:55 +0000
Subject: [PATCH 111/127] fix: don't crash on a params file that ends with
 --direct_dependencies

---
 unused_deps/unused_deps.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unused_deps/unused_deps.go b/unused_deps/unused_deps.go
index ef5d8f4..ef723af 100644
--- a/unused_deps/unused_deps.go
+++ b/unused_deps/unused_deps.go
@@ -165,9 +165,9 @@ func directDepParams(blazeOutputPath string, paramsFileNames ...string) (depsByJ
 		if arg < 0 {
 			continue
 		}
-		first := arg + len(directDepsFlag) + 1
+		deps := bytes.TrimPrefix(data[arg+len(directDepsFlag):], []byte("\n"))
 
-		scanner := bufio.NewScanner(bytes.NewReader(data[first:]))
+		scanner := bufio.NewScanner(bytes.NewReader(deps))
 		for scanner.Scan() {
 			jar := scanner.Text()
 			if strings.HasPrefix(jar, "--") {
-- 
2.43.0


From 6c59b3eb00c51eefa042090bb29e973a7fd311ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:56 +0000
Subject: [PATCH 112/127] fix: find outputs of targets in subdirectories of a
 package

---
 unused_deps/unused_deps.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unused_deps/unused_deps.go b/unused_deps/unused_deps.go
index ef723af..7e5a702 100644
--- a/unused_deps/unused_deps.go
+++ b/unused_deps/unused_deps.go
@@ -138,7 +138,8 @@ func blazeInfo(key string) (value string) {
 
 // inputFileName returns a blaze output file name from which to read input.
 func inputFileName(blazeBin, pkg, ruleName, extension string) string {
-	name := fmt.Sprintf("%s/%s/lib%s.%s", blazeBin, pkg, ruleName, extension) // *_library
+	dir, base := path.Split(ruleName)
+	name := fmt.Sprintf("%s/%s/%slib%s.%s", blazeBin, pkg, dir, base, extension) // *_library
 	if _, err := os.Stat(name); err == nil {
 		return name
 	}
-- 
2.43.0


From 06f8c5aa5647d01c44a144908acc9c4c49e01ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:56 +0000
Subject: [PATCH 113/127] fix: don't read the direct dependencies of libfoo for
 foo

---
 unused_deps/unused_deps.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unused_deps/unused_deps.go b/unused_deps/unused_deps.go
index 7e5a702..b9295ea 100644
--- a/unused_deps/unused_deps.go
+++ b/unused_deps/unused_deps.go
@@ -404,7 +404,9 @@ func main() {
 		if repo != "" {
 			blazeBin = fmt.Sprintf("%s/external/%s", binDir, repo)
 		}
-		depsByJar := directDepParams(blazeOutputPath, inputFileName(blazeBin, pkg, ruleName, "javac_params"))
+		// The aspect names this file by the target alone
+		paramsFileName := fmt.Sprintf("%s/%s/%s.javac_params", blazeBin, pkg, ruleName)
+		depsByJar := directDepParams(blazeOutputPath, paramsFileName)
 		depsToRemove := unusedDeps(inputFileName(blazeBin, pkg, ruleName, "jdeps"), depsByJar)
 		// TODO(bazel-team): instead of printing, have buildifier-like modes?
 		anyCommandPrinted = printCommands(label, depsToRemove) || anyCommandPrinted
-- 
2.43.0


From e5733f71c8f1e93c3a6487779527c61468a5e8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:57 +0000
Subject: [PATCH 114/127] fix: resolve all labels of external BUILD files in
 their repository

---
 unused_deps/unused_deps.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/unused_deps/unused_deps.go b/unused_deps/unused_deps.go
index b9295ea..ac48b16 100644
--- a/unused_deps/unused_deps.go
+++ b/unused_deps/unused_deps.go
@@ -278,11 +278,11 @@ func printCommands(label string, deps map[string]bool) (anyCommandPrinted bool)
 				if !ok {
 					continue
 				}
-				buildLabel := str.Value
-				if repo != "" && buildLabel[:2] == "//" {
-					buildLabel = fmt.Sprintf("@%s%s", repo, str.Value)
+				buildLabel := labels.ParseRelative(str.Value, pkg)
+				if !strings.HasPrefix(str.Value, "@") {
+					buildLabel.Repository = repo
 				}
-				if !labels.Equal(buildLabel, dep, pkg) {
+				if !labels.Equal(buildLabel.Format(), dep, pkg) {
 					continue
 				}
 				if hasRuntimeComment(str) {
-- 
2.43.0


From 3f48f989d6c5b090cf30de61162e1a5d62f83549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:57 +0000
Subject: [PATCH 115/127] fix: query the exports of absolute labels

---
 unused_deps/unused_deps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unused_deps/unused_deps.go b/unused_deps/unused_deps.go
index ac48b16..3d5b68f 100644
--- a/unused_deps/unused_deps.go
+++ b/unused_deps/unused_deps.go
@@ -289,7 +289,7 @@ func printCommands(label string, deps map[string]bool) (anyCommandPrinted bool)
 					fmt.Printf("buildozer 'move deps runtime_deps %s' %s\n", str.Value, label)
 				} else {
 					// add dep's exported dependencies to label before removing dep
-					fmt.Printf("buildozer \"add deps $(%s query 'labels(exports, %s)' | tr '\\n' ' ')\" %s\n", *buildTool, str.Value, label)
+					fmt.Printf("buildozer \"add deps $(%s query 'labels(exports, %s)' | tr '\\n' ' ')\" %s\n", *buildTool, buildLabel.Format(), label)
 					fmt.Printf("buildozer 'remove deps %s' %s\n", str.Value, label)
 				}
 				anyCommandPrinted = true
-- 
2.43.0


From 20ca461e07de420eee8ae1034d94591ea39ae6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:58 +0000
Subject: [PATCH 116/127] fix: find BUILD files of packages in external
 repositories

---
 unused_deps/unused_deps.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/unused_deps/unused_deps.go b/unused_deps/unused_deps.go
index 3d5b68f..6698632 100644
--- a/unused_deps/unused_deps.go
+++ b/unused_deps/unused_deps.go
@@ -267,7 +267,12 @@ func printCommands(label string, deps map[string]bool) (anyCommandPrinted bool)
 	buildFileName, repo, pkg, ruleName := edit.InterpretLabelWithRepo(label)
 	if repo != "" {
 		outputBase := blazeInfo(config.DefaultOutputBase)
-		buildFileName = fmt.Sprintf("%s/external/%s/%s", outputBase, repo, buildFileName)
+		for _, name := range edit.BuildFileNames {
+			buildFileName = fmt.Sprintf("%s/external/%s/%s/%s", outputBase, repo, pkg, name)
+			if info, err := os.Stat(buildFileName); err == nil && !info.IsDir() {
+				break
+			}
+		}
 	}
 
 	depsExpr := getDepsExpr(buildFileName, ruleName)
-- 
2.43.0


From 3a0a52a084cfd2664945f2aac359cdc13c2c355d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:14 +0000
Subject: [PATCH 117/127] fix: read the direct dependencies of an extra action

---
 unused_deps/unused_deps.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unused_deps/unused_deps.go b/unused_deps/unused_deps.go
index 6698632..6e61a60 100644
--- a/unused_deps/unused_deps.go
+++ b/unused_deps/unused_deps.go
@@ -113,10 +113,10 @@ func getJarPath(path string) (string, error) {
 
 // writeUnusedDeps writes the labels of unused direct deps, one per line, to outputFileName.
 func writeUnusedDeps(jarPath, outputFileName string) {
-	depsPath := strings.Replace(jarPath, ".jar", ".jdeps", 1)
+	depsPath := strings.TrimSuffix(jarPath, ".jar") + ".jdeps"
 	paramsPath := jarPath + "-2.params"
 	file, _ := os.Create(outputFileName)
-	for dep := range unusedDeps(depsPath, directDepParams(paramsPath)) {
+	for dep := range unusedDeps(depsPath, directDepParams("bazel-out", paramsPath)) {
 		file.WriteString(dep + "\n")
 	}
 }
-- 
2.43.0


From 6ae80cea586c5af137b4e8154d69e0ded1bfa12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:58 +0000
Subject: [PATCH 118/127] fix: don't find keys of jar manifests inside longer
 ones

---
 unused_deps/jar_manifest.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/unused_deps/jar_manifest.go b/unused_deps/jar_manifest.go
index af6f65b..0f326b9 100644
--- a/unused_deps/jar_manifest.go
+++ b/unused_deps/jar_manifest.go
@@ -77,7 +77,16 @@ func jarManifestValue(jarFileName string, key string) (string, error) {
 		}
 		contents := string(bytes)
 
+		// The key starts a line, it may also be the end of another key.
 		found := strings.Index(contents, key+":")
+		for found > 0 && contents[found-1] != '\n' && contents[found-1] != '\r' {
+			next := strings.Index(contents[found+1:], key+":")
+			if next < 0 {
+				found = -1
+				break
+			}
+			found += 1 + next
+		}
 		if found < 0 {
 			return "", fmt.Errorf("manifest of jar %s contains no key %s", jarFileName, key)
 		}
-- 
2.43.0


From 46a4228e3c7a20714713386f6ef7e2e5a8a40563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:41 +0000
Subject: [PATCH 119/127] fix: break the line before a comment of a joined
 label

Joining the parts of a label keeps the comments of the second part. If the value of an argument
started on the line of its name, the comment was indented differently when the result was formatted
again.
---
 build/rewrite.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/build/rewrite.go b/build/rewrite.go
index ee6005a..35a840e 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -378,11 +378,29 @@ func fixLabels(f *File, w *Rewriter) {
 				}
 
 				findAndModifyStrings(&as.RHS, fixLabelsWithinAContainer)
+				if startsWithLineComment(as.RHS) {
+					// A joined label may have got a comment from its second part.
+					as.LineBreak = true
+				}
 			}
 		}
 	})
 }
 
+// startsWithLineComment reports whether there are line comments before the first token of x.
+func startsWithLineComment(x Expr) bool {
+	for {
+		if len(x.Comment().Before) > 0 {
+			return true
+		}
+		binary, ok := x.(*BinaryExpr)
+		if !ok {
+			return false
+		}
+		x = binary.X
+	}
+}
+
 // callName returns the name of the rule being called by call.
 // If the call is not to a literal rule name or a dot expression, callName
 // returns "".
-- 
2.43.0


From 0352fd38e24b4a58079a5c92760165ed76b9c428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:32 +0000
Subject: [PATCH 120/127] fix: keep end-of-line comments after + out of the
 list that follows

If the line break after a + was replaced by line breaks inside the list that follows, an end-of-line
comment after the + was printed inside the list. A special comment there had an effect on the list when
the result was formatted again.
---
 build/rewrite.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/build/rewrite.go b/build/rewrite.go
index 35a840e..7d7b4c7 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -980,6 +980,10 @@ func fixMultilinePlus(f *File, _ *Rewriter) {
 			if !bin.LineBreak {
 				continue
 			}
+			if len(bin.X.Comment().Suffix) > 0 {
+				// The end-of-line comment would be moved into the list that follows.
+				continue
+			}
 
 			// We're going to break the line after the +.
 			// If it is followed by a list, force that to be
-- 
2.43.0


From befbd583f0b40639353a7e065ae77d99c2c3f983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:34 +0000
Subject: [PATCH 121/127] fix: joined labels end where their last part ends

Otherwise lists of labels which are joined are broken into lines if the parts were on different lines,
and formatted differently the next time.
---
 build/rewrite.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/build/rewrite.go b/build/rewrite.go
index 7d7b4c7..0da3494 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -268,6 +268,7 @@ func fixLabels(f *File, w *Rewriter) {
 			return
 		}
 		str1.Value += str2.Value
+		str1.End = str2.End
 
 		// Deleting nodes add and str2.
 		// Merge comments from add, str1, and str2 and save in str1.
-- 
2.43.0


From d591769d0e93e0afe060e097737386cd3eaa5cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:42 +0000
Subject: [PATCH 122/127] fix: lists of joined labels with comments are
 multi-line

Otherwise the line break after the list was only removed when the result was formatted again.
---
 build/rewrite.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/build/rewrite.go b/build/rewrite.go
index 0da3494..f8e0be4 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -340,6 +340,10 @@ func fixLabels(f *File, w *Rewriter) {
 				}
 				joinLabel(&list.List[i])
 				shortenLabel(list.List[i])
+				if com := list.List[i].Comment(); len(com.Before)+len(com.Suffix) > 0 {
+					// A joined label may have got comments, with them the list is printed on several lines.
+					list.ForceMultiLine = true
+				}
 			}
 		}
 		if set, ok := (*e).(*SetExpr); ok {
-- 
2.43.0


From 09a3f5ac2c56a829b8313ae32d55fb40bd273b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:36 +0000
Subject: [PATCH 123/127] fix: remove parentheses around calls which end up on
 a single line

The parentheses were only removed when the result was formatted again.
---
 build/rewrite.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index f8e0be4..bace2a3 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -19,6 +19,7 @@ limitations under the License.
 package build
 
 import (
+	"bytes"
 	"path"
 	"path/filepath"
 	"regexp"
@@ -125,6 +126,7 @@ var rewrites = []struct {
 	fn    func(*File, *Rewriter)
 	scope FileType
 }{
+	{"collapseEmpty", collapseEmpty, scopeBoth},
 	{"removeParens", removeParens, scopeBuild},
 	{"reorderarguments", reorderArguments, scopeBoth},
 	{"callsort", sortCallArgs, scopeBuild},
@@ -139,7 +141,6 @@ var rewrites = []struct {
 	{"formatdocstrings", formatDocstrings, scopeBoth},
 	{"editoctal", editOctals, scopeBoth},
 	{"editfloat", editFloats, scopeBoth},
-	{"collapseEmpty", collapseEmpty, scopeBoth},
 }
 
 // leaveAlone reports whether any of the nodes on the stack are marked
@@ -1568,7 +1569,7 @@ func removeParens(f *File, _ *Rewriter) {
 		case *CallExpr:
 			// Parens might be needed if the callable is multiline.
 			start, end := x.X.Span()
-			if start.Line == end.Line {
+			if start.Line == end.Line || !isPrintedMultiLine(f, x.X, stack) {
 				return Edit(x, simplify)
 			}
 		}
@@ -1578,6 +1579,19 @@ func removeParens(f *File, _ *Rewriter) {
 	Edit(f, simplify)
 }
 
+// isPrintedMultiLine reports whether an expression with the given ancestors takes several lines.
+func isPrintedMultiLine(f *File, x Expr, stack []Expr) bool {
+	pr := &printer{fileType: f.Type, depth: 1}
+	for _, parent := range stack {
+		switch parent.(type) {
+		case *DefStmt, *ForStmt, *IfStmt:
+			pr.level++
+		}
+	}
+	pr.expr(x, precSuffix)
+	return bytes.ContainsRune(pr.Bytes(), '\n')
+}
+
 // collapseEmpty unsets ForceMultiLine for empty call expressions.
 func collapseEmpty(f *File, _ *Rewriter) {
 	Walk(f, func(expr Expr, stack []Expr) {
-- 
2.43.0


From 8c7b7a30fb6fabd5f9e8935e31023a08312f6d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:01 +0000
Subject: [PATCH 124/127] fix: keep line breaks between lists and comments in
 nested statements

The line breaks were removed because of lists which were supposed to become multi-line but are not
in nested statements, and the result was formatted differently the next time.
---
 build/rewrite.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/build/rewrite.go b/build/rewrite.go
index bace2a3..069eacc 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -981,6 +981,7 @@ func fixMultilinePlus(f *File, _ *Rewriter) {
 
 		// Okay, there are lists.
 		// Consider each + next to a line break.
+		forced := -1 // the last operand which has been forced to be multiline
 		for i := 1; i < len(all); i += 2 {
 			bin := all[i].(*BinaryExpr)
 			if !bin.LineBreak {
@@ -994,7 +995,11 @@ func fixMultilinePlus(f *File, _ *Rewriter) {
 			// We're going to break the line after the +.
 			// If it is followed by a list, force that to be
 			// multiline instead.
+			wasMultiLine := isMultiLine(all[i+1])
 			if forceMultiLine(all[i+1]) {
+				if !wasMultiLine {
+					forced = i + 1
+				}
 				bin.LineBreak = false
 				continue
 			}
@@ -1003,6 +1008,11 @@ func fixMultilinePlus(f *File, _ *Rewriter) {
 			// don't bother with the line break after
 			// the +.
 			if isMultiLine(all[i-1]) {
+				if forced == i-1 && isNested(stk) && startsWithLineComment(all[i+1]) {
+					// The previous list isn't really printed on multiple lines, and the
+					// line will be broken anyway.
+					continue
+				}
 				bin.LineBreak = false
 				continue
 			}
@@ -1010,6 +1020,18 @@ func fixMultilinePlus(f *File, _ *Rewriter) {
 	})
 }
 
+// isNested reports whether an expression with the given parents is a part of a compound statement.
+// Lists keep their original style there.
+func isNested(stk []Expr) bool {
+	for _, parent := range stk {
+		switch parent.(type) {
+		case *DefStmt, *ForStmt, *IfStmt:
+			return true
+		}
+	}
+	return false
+}
+
 // isFunctionCall checks whether expr is a call of a function with a given name
 func isFunctionCall(expr Expr, name string) bool {
 	call, ok := expr.(*CallExpr)
-- 
2.43.0


From 9633fa7a5a367a23a9c43d8048096862d789190d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:24 +0000
Subject: [PATCH 125/127] fix: report buildozer 'set kind' without a value
 instead of crashing

---
 edit/buildozer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 680a28e..65c2160 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -570,6 +570,9 @@ func cmdSet(opts *Options, env CmdEnvironment) (*build.File, error) {
 	attr := env.Args[0]
 	args := env.Args[1:]
 	if attr == "kind" {
+		if len(args) != 1 {
+			return nil, fmt.Errorf("setting 'kind' requires exactly one value. Got %s", env.Args)
+		}
 		env.Rule.SetKind(args[0])
 	} else {
 		env.Rule.SetAttr(attr, getAttrValueExpr(attr, args, env))
-- 
2.43.0


From 22aa492962fcae36b1b625e0e836d82f839ba6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:12 +0000
Subject: [PATCH 126/127] fix: don't keep a use_repo or bazel_dep call compact
 if its arguments don't fit on a line

---
 build/print.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/build/print.go b/build/print.go
index 6d5664d..9313cc7 100644
--- a/build/print.go
+++ b/build/print.go
@@ -419,6 +419,29 @@ func useSameModuleExtensionProxy(x, y Expr) bool {
 	return extX == extY && (!isUseRepoX || isUseRepoY)
 }
 
+// argsFitOnOneLine reports whether no argument of a top-level call, which is on one line in the file, is
+// going to be broken into several lines: the call wouldn't be on one line anymore after that.
+func argsFitOnOneLine(call *CallExpr) bool {
+	result := true
+	for _, arg := range call.List {
+		Walk(arg, func(x Expr, stk []Expr) {
+			switch x := x.(type) {
+			case *CallExpr:
+				result = result && (len(x.List) <= 1 || x.ForceCompact)
+			case *TupleExpr:
+				result = result && (len(x.List) <= 1 || x.ForceCompact)
+			case *ListExpr:
+				result = result && len(x.List) <= 1
+			case *SetExpr:
+				result = result && len(x.List) <= 1
+			case *DictExpr:
+				result = result && len(x.List) <= 1
+			}
+		})
+	}
+	return result
+}
+
 func usedModuleExtensionProxy(x Expr) (name string, isUseRepo bool) {
 	if call, ok := x.(*CallExpr); ok {
 		if callee, isIdent := call.X.(*Ident); isIdent && callee.Name == "use_repo" {
@@ -825,7 +848,7 @@ func (p *printer) expr(v Expr, outerPrec int) {
 		forceCompact := v.ForceCompact
 		if p.fileType == TypeModule && (isBazelDep(v) || isUseRepoOrUseExtension(v)) {
 			start, end := v.Span()
-			forceCompact = start.Line == end.Line
+			forceCompact = start.Line == end.Line && argsFitOnOneLine(v)
 		}
 		addParen(precSuffix)
 		p.expr(v.X, precSuffix)
-- 
2.43.0


From 487235a20ce1f678891ac2292153522665ed9403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:12 +0000
Subject: [PATCH 127/127] fix: don't break the line after a list which has
 become multiline by removing duplicates

---
 build/rewrite.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/build/rewrite.go b/build/rewrite.go
index 069eacc..89c8b84 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -887,11 +887,24 @@ func fixMultilinePlus(f *File, _ *Rewriter) {
 		return false
 	}
 
+	// Whether the expression is inside a block (e.g. of a function), where lists keep their original style.
+	inBlock := false
+
 	// isMultiLine reports whether x is a multiline list.
 	var isMultiLine func(Expr) bool
 	isMultiLine = func(x Expr) bool {
 		switch x := x.(type) {
 		case *ListExpr:
+			if len(x.List) == 1 {
+				// The list may have had other elements, which have been removed as duplicates.
+				com := x.List[0].Comment()
+				if len(com.Before) > 0 || len(com.Suffix) > 0 || len(x.End.Before) > 0 {
+					return true
+				}
+				if inBlock && forceMultiLine(x.Start, x.List, x.End.Pos) {
+					return true
+				}
+			}
 			return x.ForceMultiLine || len(x.List) > 1
 		case *CallExpr:
 			if x.ForceMultiLine || len(x.List) > 1 && !x.ForceCompact {
@@ -981,6 +994,13 @@ func fixMultilinePlus(f *File, _ *Rewriter) {
 
 		// Okay, there are lists.
 		// Consider each + next to a line break.
+		inBlock = false
+		for _, parent := range stk {
+			switch parent.(type) {
+			case *DefStmt, *ForStmt, *IfStmt:
+				inBlock = true
+			}
+		}
 		forced := -1 // the last operand which has been forced to be multiline
 		for i := 1; i < len(all); i += 2 {
 			bin := all[i].(*BinaryExpr)
-- 
2.43.0


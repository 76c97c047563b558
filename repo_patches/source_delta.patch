From bea545ddf1ab2a2c735f8505e986194477304704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:37 +0000
Subject: [PATCH 01/31] fix: stop a repetition or list after an element that
 matches no tokens

*G, +G and G1 % G2 looped forever when the element succeeded without
consuming a token (e.g. *(?IDENT)).
---
 tpl/grammar.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tpl/grammar.go b/tpl/grammar.go
index cd5b591..99992b7 100644
--- a/tpl/grammar.go
+++ b/tpl/grammar.go
@@ -413,6 +413,10 @@ func (p *grRepeat0) Match(src []Token, ctx Context) (n int, err error) {
 		}
 		len++
 		n += n1
+		if n1 == 0 { // an empty match would repeat forever
+			p.len = len
+			return
+		}
 		src = src[n1:]
 	}
 }
@@ -530,6 +534,10 @@ func (p *grList) Match(src []Token, ctx Context) (n int, err error) {
 		}
 		len++
 		n += n1
+		if n1 == 0 { // an empty match would repeat forever
+			p.len = len
+			return
+		}
 		src = src[n1:]
 	}
 }
-- 
2.43.0


From cd0abae397eb1a61f4bb3ff219bb63d6608ca5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:00 +0000
Subject: [PATCH 02/31] fix: MatchError.Error panics when the error is at the
 end of the input

With IdxErr == len(Src) (a fail-fast sequence that ran out of tokens)
calcErrorInfo indexed past the token list.
---
 tpl/grammar.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tpl/grammar.go b/tpl/grammar.go
index 99992b7..54e292c 100644
--- a/tpl/grammar.go
+++ b/tpl/grammar.go
@@ -130,7 +130,11 @@ func calcErrorInfo(doc []Token, idxErr int, t Tokener) (line int, text []byte) {
 	s := t.Source()
 	start := s.File.Offset(doc[0].Pos)
 	end := s.File.Offset(doc[n].Pos)
-	errpos := s.File.Offset(doc[idxErr+1].Pos)
+	next := idxErr + 1
+	if next > n { // the error is at the end of doc
+		next = n
+	}
+	errpos := s.File.Offset(doc[next].Pos)
 	all := s.Src[start:end]
 	text = nextLines(all, 9)
 	if len(text) < errpos-start {
-- 
2.43.0


From 7017ff4f11f253e703092dd5893e70744d7db159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:02 +0000
Subject: [PATCH 03/31] fix: EvalSub of source text does not reset the run
 state

The token path of EvalSub calls Init before matching, the text path did
not: an extractor crashed and an interpreter kept a stale mute count.
---
 tpl/compiler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index 5e2b0ab..cf7631b 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -106,6 +106,7 @@ func (p CompileRet) EvalSub(name string, src interface{}) error {
 		Grammar:  g,
 		Scanner:  p.Scanner,
 		ScanMode: p.ScanMode,
+		Init:     p.Init,
 	}
 	return m.MatchExactly(text, "")
 }
-- 
2.43.0


From dfade53f02194c3c26da40ed8a0d5586dde60403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 04/31] fix: TokenLen panics or is negative for a kind that is
 not an operator

TokenLen(len(tokens)) indexed out of range and kinds without a table
entry (e.g. 'A') gave -2.
---
 tpl/token.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpl/token.go b/tpl/token.go
index 6f09c1a..f145600 100644
--- a/tpl/token.go
+++ b/tpl/token.go
@@ -167,7 +167,7 @@ var tokens = [...]string{
 // 2) 0 for else.
 //
 func TokenLen(tok uint) int {
-	if tok > ' ' && tok <= uint(len(tokens)) {
+	if tok > ' ' && tok < uint(len(tokens)) && tokens[tok] != "" {
 		return len(tokens[tok]) - 2
 	}
 	return 0
-- 
2.43.0


From 64d664d6e874dc648704b96e1287c137bf705a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 05/31] fix: Token.End counts the text of a semicolon twice

---
 tpl/scanner.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tpl/scanner.go b/tpl/scanner.go
index 90bf6e8..2ab0784 100644
--- a/tpl/scanner.go
+++ b/tpl/scanner.go
@@ -20,7 +20,10 @@ type Token struct {
 
 // End returns end position of this token.
 func (p *Token) End() token.Pos {
-	return p.Pos + token.Pos(len(p.Literal)+TokenLen(p.Kind))
+	if p.Literal == "" {
+		return p.Pos + token.Pos(TokenLen(p.Kind))
+	}
+	return p.Pos + token.Pos(len(p.Literal))
 }
 
 // An ScanErrorHandler may be provided to Scanner.Init. If a syntax error is
-- 
2.43.0


From 57b224c98286c2480f2cf8588a88188a4fabf76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:37 +0000
Subject: [PATCH 06/31] fix: scanner returns an illegal token for '..' without
 reporting an error

---
 tpl/scanner.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tpl/scanner.go b/tpl/scanner.go
index 2ab0784..6f3e58e 100644
--- a/tpl/scanner.go
+++ b/tpl/scanner.go
@@ -676,6 +676,11 @@ scanAgain:
 				if s.ch == '.' {
 					s.next()
 					t.Kind = ELLIPSIS
+				} else {
+					s.error(s.file.Offset(t.Pos), "illegal token '..'")
+					insertSemi = s.insertSemi // preserve insertSemi info
+					t.Kind = ILLEGAL
+					t.Literal = ".."
 				}
 			} else {
 				t.Kind = PERIOD
-- 
2.43.0


From 6f90101019f59b13b620ef0359980e330eb3433d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:39 +0000
Subject: [PATCH 07/31] fix: AutoKwScanner.Ltot panics on a keyword before Init

---
 tpl/compiler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index cf7631b..aa26c12 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -57,6 +57,9 @@ func (p *AutoKwScanner) Ltot(lit string) (tok uint) { // "keyword"
 		if tok, ok := p.keywords[kw]; ok {
 			return tok
 		}
+		if p.keywords == nil { // Init is not called yet
+			p.keywords = make(map[string]uint)
+		}
 		tok = USER_TOKEN_BEGIN + uint(len(p.tokens))
 		p.keywords[kw] = tok
 		p.tokens = append(p.tokens, lit)
-- 
2.43.0


From 450608176c8b9514b9780a0cb90139be9cca7f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 08/31] fix: Code drops the parentheses of a list used as a
 separator

a % (b % c) was rendered as a % b % c, which is (a % b) % c.
---
 tpl/grammar.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpl/grammar.go b/tpl/grammar.go
index 54e292c..c92a67c 100644
--- a/tpl/grammar.go
+++ b/tpl/grammar.go
@@ -556,7 +556,7 @@ func (p *grList) Marshal(b []byte, t Tokener, lvlParent int) []byte {
 		b = append(b, '=')
 	}
 	b = append(b, ' ')
-	b = p.b.Marshal(b, t, lvlList)
+	b = p.b.Marshal(b, t, lvlList+1) // G1 % G2 is left-associative
 	if lvlParent > lvlList {
 		b = append(b, ')')
 	}
-- 
2.43.0


From 51651d018fa62130512efb34261dadc83ff73ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 09/31] fix: qlang keeps the frame base of a block that
 panicked

After SafeExec recovered the panic, later statements of the same
interpreter ran with a base above the cleared stack.
---
 tpl/qlang/cl/ctrl.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tpl/qlang/cl/ctrl.go b/tpl/qlang/cl/ctrl.go
index bc39e31..d901b10 100644
--- a/tpl/qlang/cl/ctrl.go
+++ b/tpl/qlang/cl/ctrl.go
@@ -187,8 +187,10 @@ func evalCode(e interpreter.Engine, p *Interpreter, name string, code interface{
 
 	old := p.base
 	p.base = p.stk.BaseFrame()
+	defer func() { // EvalCode may panic, and an outer SafeExec may recover it
+		p.base = old
+	}()
 	err := e.EvalCode(p, name, code)
-	p.base = old
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 51056fa34b8e3147039468be96881b850afc5d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:43 +0000
Subject: [PATCH 10/31] fix: cmplx reads a malformed imaginary literal as 0

---
 tpl/cmplx/cmplx.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tpl/cmplx/cmplx.go b/tpl/cmplx/cmplx.go
index 8951db0..350ae51 100644
--- a/tpl/cmplx/cmplx.go
+++ b/tpl/cmplx/cmplx.go
@@ -113,7 +113,10 @@ func (stk *Stack) PushReal(v float64) {
 
 func (stk *Stack) PushImag(v string) {
 
-	val, _ := strconv.ParseFloat(v[:len(v)-1], 64)
+	val, err := strconv.ParseFloat(v[:len(v)-1], 64)
+	if err != nil {
+		panic("invalid imaginary literal `" + v + "`: " + err.Error())
+	}
 	*stk = append(*stk, complex(0, val))
 }
 
-- 
2.43.0


From 79849fd9ce0c730af54c9e090eca4b2a14d50e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:44 +0000
Subject: [PATCH 11/31] fix: rat pushes a nil number for a malformed literal

---
 tpl/rat/big.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tpl/rat/big.go b/tpl/rat/big.go
index 43a8db0..6a4432f 100644
--- a/tpl/rat/big.go
+++ b/tpl/rat/big.go
@@ -131,7 +131,10 @@ func (stk *Stack) PushInt(v int64) {
 
 func (stk *Stack) PushString(v string) { // 这个v可以很大，超出int64范围
 
-	val, _ := new(big.Rat).SetString(v)
+	val, ok := new(big.Rat).SetString(v)
+	if !ok {
+		panic("invalid rational literal: " + v)
+	}
 	*stk = append(*stk, val)
 }
 
-- 
2.43.0


From 888b3bc80243811492fca349355137e92f205ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:06 +0000
Subject: [PATCH 12/31] fix: Code drops the fail-fast mark of a sequence

---
 tpl/grammar.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tpl/grammar.go b/tpl/grammar.go
index c92a67c..5e564bb 100644
--- a/tpl/grammar.go
+++ b/tpl/grammar.go
@@ -316,12 +316,13 @@ func (p *grAnd) Marshal(b []byte, t Tokener, lvlParent int) []byte {
 		b = append(b, '(')
 	}
 	for i, g := range p.gs {
-		if g == nil {
-			continue
-		}
 		if i > 0 {
 			b = append(b, ' ')
 		}
+		if g == nil {
+			b = append(b, '!')
+			continue
+		}
 		b = g.Marshal(b, t, lvlAnd)
 	}
 	if lvlParent > lvlAnd {
-- 
2.43.0


From c2f62526d07dd58d9011b63657d6fb8cf6aebbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:07 +0000
Subject: [PATCH 13/31] fix: extractor loses array elements that are
 interleaved with other marks

Only the first contiguous run of each array tag was kept: 1 "x" 2 "y"
with a_Ints and b_Texts gave a=[1] b=["x"].
---
 tpl/extractor/document.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tpl/extractor/document.go b/tpl/extractor/document.go
index e063485..c1299c4 100644
--- a/tpl/extractor/document.go
+++ b/tpl/extractor/document.go
@@ -75,6 +75,9 @@ func (p *Node) toMap() map[string]interface{} {
 				items[i] = hd.val.(*Node).toMap()
 				hd = hd.tail
 			}
+			if later, ok := data[tag].([]map[string]interface{}); ok {
+				items = append(items, later...)
+			}
 			v = items
 		case cateLeafArray:
 			n := arrayCollect(hd)
@@ -83,6 +86,9 @@ func (p *Node) toMap() map[string]interface{} {
 				items[i] = hd.val
 				hd = hd.tail
 			}
+			if later, ok := data[tag].([]interface{}); ok {
+				items = append(items, later...)
+			}
 			v = items
 		default:
 			panic("unknown node category")
-- 
2.43.0


From e87d4f736568f0113c1fc82316cec140eab33ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 14/31] fix: extractor does not support the documented xxx_Bool
 marks

---
 tpl/extractor/extractor.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tpl/extractor/extractor.go b/tpl/extractor/extractor.go
index 20f3bd7..d66921b 100644
--- a/tpl/extractor/extractor.go
+++ b/tpl/extractor/extractor.go
@@ -48,6 +48,12 @@ func GetValue(typ string, lit string) interface{} {
 			panic("invalid char: " + lit)
 		}
 		return byte(v)
+	case "Bool":
+		v, err := strconv.ParseBool(lit)
+		if err != nil {
+			panic(err)
+		}
+		return v
 	case "Text":
 		return lit
 	}
-- 
2.43.0


From 1a95938a99682743d44292b0171ab1dc893dec45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 15/31] fix: a panic in a deferred expression escapes
 qlang.SafeExec

The deferred expressions ran after the recover, so their own panic went
through, and the failing one stayed queued for the next run.
---
 tpl/qlang/cl/function.go |  5 +++--
 tpl/qlang/engine.go      | 12 +++++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/tpl/qlang/cl/function.go b/tpl/qlang/cl/function.go
index e8066e9..87964f5 100644
--- a/tpl/qlang/cl/function.go
+++ b/tpl/qlang/cl/function.go
@@ -301,12 +301,13 @@ func (p *Interpreter) Return(e interpreter.Engine) {
 
 func (p *Interpreter) ExecDefers(e interpreter.Engine) {
 
-	for d := p.defers; d != nil; d = d.next {
+	for p.defers != nil {
+		d := p.defers
+		p.defers = d.next // a deferred expr that panics is not run again
 		if err := e.EvalCode(p, "expr", d.src); err != nil {
 			panic(err)
 		}
 	}
-	p.defers = nil
 }
 
 func (p *Interpreter) Defer() {
diff --git a/tpl/qlang/engine.go b/tpl/qlang/engine.go
index dfd43b5..bc6c4da 100644
--- a/tpl/qlang/engine.go
+++ b/tpl/qlang/engine.go
@@ -40,9 +40,7 @@ func (p Qlang) Exec(code []byte, fname string) (err error) {
 func (p Qlang) SafeExec(code []byte, fname string) (err error) {
 
 	defer func() {
-		p.Recov = recover()
-		p.ExecDefers(p.Engine)
-		if e := p.Recov; e != nil {
+		if e := recover(); e != nil {
 			switch v := e.(type) {
 			case string:
 				err = errors.New(v)
@@ -54,6 +52,14 @@ func (p Qlang) SafeExec(code []byte, fname string) (err error) {
 		}
 	}()
 
+	defer func() {
+		p.Recov = recover()
+		p.ExecDefers(p.Engine) // may panic too
+		if p.Recov != nil {
+			panic(p.Recov)
+		}
+	}()
+
 	err = p.MatchExactly(code, fname)
 	return
 }
-- 
2.43.0


From c67c0cb1dd36ba7e77f4e6b7b655ec0e6079e0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:44 +0000
Subject: [PATCH 16/31] fix: generator emits an undefined name for +G

---
 tpl/generator/static_parser_gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index 1b8ab9f..3b8fd52 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -129,7 +129,7 @@ func GenStaticCode(source string) (string, error) {
 	repeat1 := func(tokens []tpl.Token, g tpl.Grammar) {
 		n := len(stk)
 		a := stk[n-1]
-		stk[n-1] = fmt.Sprintf("tpl.tpl.Repeat1(%s)", a)
+		stk[n-1] = fmt.Sprintf("tpl.Repeat1(%s)", a)
 	}
 
 	repeat01 := func(tokens []tpl.Token, g tpl.Grammar) {
-- 
2.43.0


From c726b9651bbab215dfa61e84913432ecb50d41de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:44 +0000
Subject: [PATCH 17/31] fix: generated matcher ignores the scan mode

---
 tpl/generator/static_parser_gen.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index 3b8fd52..e124e6f 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -217,6 +217,7 @@ func GenStaticCode(source string) (string, error) {
 			"ret.Matcher = &tpl.Matcher{\n"+
 			"		Grammar: doc,\n"+
 			"		Scanner: cmplr.Scanner,\n"+
+			"		ScanMode: cmplr.ScanMode,\n"+
 			"		Init: cmplr.Init,\n"+
 			"	}\n"+
 			"return ret}\n",
-- 
2.43.0


From f318ac14c20c58ae4364f31f1cad510db25c3a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:45 +0000
Subject: [PATCH 18/31] fix: generator mishandles variables

A variable referenced after its definition was replaced by a copy of its
assignment statement, true became a variable, and an undefined or doubly
defined variable was emitted instead of being reported.
---
 tpl/generator/static_parser_gen.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index e124e6f..e2d2d9d 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -53,7 +53,10 @@ func GenStaticCode(source string) (string, error) {
 		n := len(stk)
 		a := stk[n-1]
 		name := tokens[0].Literal
-		if _, ok := vars[name]; ok {
+		if s, ok := vars[name]; ok {
+			if s != name {
+				panic(tpl.ErrVarAssigned)
+			}
 			vars[name] = fmt.Sprintf("%s.Assign(%s)", name, a)
 		} else if _, ok := grammars[name]; ok {
 			panic("grammar already exists: " + name)
@@ -80,14 +83,13 @@ func GenStaticCode(source string) (string, error) {
 			_, ok := grammars[name]
 			if ok {
 				s = name
-			} else if s, ok = vars[name]; !ok {
-				if name == "true" {
-					vars[name] = "tpl.GrTrue"
-					s = "tpl.GrTrue"
-				} else {
-					vars[name] = name
-					s = name
-				}
+			} else if _, ok = vars[name]; ok {
+				s = name // vars[name] may be its assignment already
+			} else if name == "true" {
+				s = "tpl.GrTrue"
+			} else {
+				vars[name] = name
+				s = name
 			}
 		}
 		stk = append(stk, s)
@@ -193,6 +195,9 @@ func GenStaticCode(source string) (string, error) {
 		assignments  string
 	)
 	for k, v := range vars {
+		if v == k {
+			return "", fmt.Errorf("variable `%s` is not assigned", k)
+		}
 		declarations += fmt.Sprintf("%s = new(tpl.GrVar)\n", k)
 		assignments += fmt.Sprintf("// GrVar %s\n%s\n", k, v)
 	}
-- 
2.43.0


From 9149c7a50707c681ee32e8f0bc44b1864a98c9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 19/31] fix: generator turns every operator and keyword literal
 into the STRING token

---
 tpl/generator/static_parser_gen.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index e2d2d9d..8e8d708 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -2,6 +2,7 @@ package generator
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 
 	"github.com/qiniu/text/tpl"
@@ -109,7 +110,7 @@ func GenStaticCode(source string) (string, error) {
 		if tok == tpl.ILLEGAL {
 			panic("illegal token: " + name)
 		}
-		stk = append(stk, "tpl.Gr(tpl.STRING)")
+		stk = append(stk, fmt.Sprintf("tpl.Gr(cmplr.Scanner.Ltot(%s))", strconv.Quote(name)))
 	}
 	grTrue := func(tokens []tpl.Token, g tpl.Grammar) {
 		if tokens[0].Literal != "1" {
@@ -216,6 +217,9 @@ func GenStaticCode(source string) (string, error) {
 			"	ScanMode tpl.ScanMode\n"+
 			"}\n"+
 			"func(cmplr *StaticCompiler)Cl()tpl.CompileRet{\n"+
+			"if cmplr.Scanner == nil {\n"+
+			"cmplr.Scanner = new(tpl.AutoKwScanner)\n"+
+			"}\n"+
 			"%s"+
 			"%s"+
 			"ret := tpl.CompileRet{}\n"+
-- 
2.43.0


From 371bd71138594c0f27a2829c253ec91357f42103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:59 +0000
Subject: [PATCH 20/31] fix: tplgen panics on declarations without a value or
 body

---
 tpl/cmd/tplgen/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tpl/cmd/tplgen/main.go b/tpl/cmd/tplgen/main.go
index cfa3541..05b65a1 100644
--- a/tpl/cmd/tplgen/main.go
+++ b/tpl/cmd/tplgen/main.go
@@ -33,7 +33,7 @@ func findInGenDecl(genDecl *ast.GenDecl, grammarName string) string {
 					index = i
 				}
 			}
-			if index != -1 {
+			if index != -1 && index < len(valueSpec.Values) {
 				basicLit, ok := valueSpec.Values[index].(*ast.BasicLit)
 				if ok {
 					return basicLit.Value
@@ -55,7 +55,7 @@ func findInAssignment(assignStmt *ast.AssignStmt, grammarName string) string {
 			}
 		}
 	}
-	if index != -1 {
+	if index != -1 && index < len(assignStmt.Rhs) {
 		basicLit, ok := assignStmt.Rhs[index].(*ast.BasicLit)
 		if ok {
 			return basicLit.Value
@@ -73,7 +73,7 @@ func findInDecl(decl ast.Decl, grammarName string) string {
 		}
 	}
 	funcDecl, ok := decl.(*ast.FuncDecl)
-	if ok {
+	if ok && funcDecl.Body != nil {
 		for _, stmt := range funcDecl.Body.List {
 			declStmt, ok := stmt.(*ast.DeclStmt)
 			if ok {
-- 
2.43.0


From 9f602f8556c0c203bfc411f20456ce9603b27ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 21/31] fix: scanner does not report an exponent without digits

---
 tpl/scanner.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tpl/scanner.go b/tpl/scanner.go
index 6f3e58e..3355638 100644
--- a/tpl/scanner.go
+++ b/tpl/scanner.go
@@ -361,7 +361,11 @@ exponent:
 		if s.ch == '-' || s.ch == '+' {
 			s.next()
 		}
-		s.scanMantissa(10)
+		if digitVal(s.ch) < 10 {
+			s.scanMantissa(10)
+		} else {
+			s.error(offs, "illegal floating-point exponent")
+		}
 	}
 
 	if s.ch == 'i' {
-- 
2.43.0


From bbcff196ca3eb801598e416d7e7a718f83690cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 22/31] fix: no semicolon is inserted before a # comment that
 follows a /* comment

---
 tpl/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpl/scanner.go b/tpl/scanner.go
index 3355638..4609087 100644
--- a/tpl/scanner.go
+++ b/tpl/scanner.go
@@ -253,7 +253,7 @@ func (s *Scanner) findLineEnd() bool {
 			}
 		}
 		s.skipWhitespace() // s.insertSemi is set
-		if s.ch < 0 || s.ch == '\n' {
+		if s.ch < 0 || s.ch == '\n' || s.ch == '#' {
 			return true
 		}
 		if s.ch != '/' {
-- 
2.43.0


From f2ec3296d4cec27deccc4a9a53455b6b93ce8f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:38 +0000
Subject: [PATCH 23/31] fix: pass the values of a []interface{} to Go functions
 bound in a script's interpreter

---
 tpl/qlang/cl/interpreter/interpret.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tpl/qlang/cl/interpreter/interpret.go b/tpl/qlang/cl/interpreter/interpret.go
index 496e034..f5302c7 100644
--- a/tpl/qlang/cl/interpreter/interpret.go
+++ b/tpl/qlang/cl/interpreter/interpret.go
@@ -78,7 +78,11 @@ func callFn(stk *qlang.Object, fn interface{}, arity int) {
 		n := ret.Len()
 		in = make([]reflect.Value, n)
 		for i := 0; i < n; i++ {
-			in[i] = ret.Index(i)
+			v := ret.Index(i)
+			if v.Kind() == reflect.Interface && !v.IsNil() {
+				v = v.Elem() // the value in a []interface{}
+			}
+			in[i] = v
 		}
 	}
 	vfn := reflect.ValueOf(fn)
-- 
2.43.0


From 6aae2793b5016ab77f92169d75b606d32453cc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:19 +0000
Subject: [PATCH 24/31] fix: an octal integer out of range is an error, not the
 decimal number of its digits

---
 tpl/interpreter/interpreter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tpl/interpreter/interpreter.go b/tpl/interpreter/interpreter.go
index 0a4ed46..ecb090d 100644
--- a/tpl/interpreter/interpreter.go
+++ b/tpl/interpreter/interpreter.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"reflect"
 	"strconv"
+	"strings"
 
 	"github.com/qiniu/text/tpl"
 	"github.com/qiniu/text/tpl/interpreter.util"
@@ -50,8 +51,8 @@ func ParseFloat(lit string) (v float64, err error) {
 			return float64(v1), err1
 		default:
 			v1, err1 := strconv.ParseInt(lit[1:], 8, 64)
-			if err1 == nil {
-				return float64(v1), nil
+			if err1 == nil || strings.IndexAny(lit, ".eE") < 0 { // an octal integer
+				return float64(v1), err1
 			}
 		}
 	}
-- 
2.43.0


From db13d64d14003f6b8a22801fd38aa30014bea529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:20 +0000
Subject: [PATCH 25/31] fix: the rational calculator reads 017 as the octal
 number it is, as the other calculators do

---
 tpl/rat/big.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tpl/rat/big.go b/tpl/rat/big.go
index 6a4432f..dc59091 100644
--- a/tpl/rat/big.go
+++ b/tpl/rat/big.go
@@ -131,8 +131,10 @@ func (stk *Stack) PushInt(v int64) {
 
 func (stk *Stack) PushString(v string) { // 这个v可以很大，超出int64范围
 
-	val, ok := new(big.Rat).SetString(v)
-	if !ok {
+	val := new(big.Rat)
+	if n, ok := new(big.Int).SetString(v, 0); ok { // 017 is octal for big.Int, not for big.Rat
+		val.SetInt(n)
+	} else if _, ok := val.SetString(v); !ok {
 		panic("invalid rational literal: " + v)
 	}
 	*stk = append(*stk, val)
-- 
2.43.0


From 77e1e2cedf290a6867a1de6a8f750091d4b3f1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:14 +0000
Subject: [PATCH 26/31] fix: generated compiler returns no rule tables, so
 EvalSub never finds a rule

---
 tpl/generator/static_parser_gen.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index 8e8d708..c9326a9 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -194,6 +194,7 @@ func GenStaticCode(source string) (string, error) {
 	var (
 		declarations string = "var (\n"
 		assignments  string
+		tables       string
 	)
 	for k, v := range vars {
 		if v == k {
@@ -201,10 +202,12 @@ func GenStaticCode(source string) (string, error) {
 		}
 		declarations += fmt.Sprintf("%s = new(tpl.GrVar)\n", k)
 		assignments += fmt.Sprintf("// GrVar %s\n%s\n", k, v)
+		tables += fmt.Sprintf("ret.Vars[\"%s\"] = %s\n", k, k)
 	}
 	for k, v := range grammars {
 		declarations += fmt.Sprintf("%s = new(tpl.GrNamed)\n", k)
 		assignments += fmt.Sprintf("// GrNamed %s\n%s.Assign(\"%s\", %s)\n", k, k, k, v)
+		tables += fmt.Sprintf("ret.Grammars[\"%s\"] = %s\n", k, k)
 	}
 	declarations += ")\n"
 	if _, ok := grammars["doc"]; ok {
@@ -220,18 +223,20 @@ func GenStaticCode(source string) (string, error) {
 			"if cmplr.Scanner == nil {\n"+
 			"cmplr.Scanner = new(tpl.AutoKwScanner)\n"+
 			"}\n"+
+			"ret := tpl.CompileRet{Grammars: map[string]tpl.Grammar{}, Vars: map[string]*tpl.GrVar{}}\n"+
 			"%s"+
 			"%s"+
-			"ret := tpl.CompileRet{}\n"+
 			"ret.Matcher = &tpl.Matcher{\n"+
 			"		Grammar: doc,\n"+
 			"		Scanner: cmplr.Scanner,\n"+
 			"		ScanMode: cmplr.ScanMode,\n"+
 			"		Init: cmplr.Init,\n"+
 			"	}\n"+
+			"%s"+
 			"return ret}\n",
 			declarations,
 			assignments,
+			tables,
 		)
 		return output, nil
 	}
-- 
2.43.0


From fbe87243a8e68519e54237fedc88939e8c9b590d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:15 +0000
Subject: [PATCH 27/31] fix: generated file imports packages that do not exist

---
 tpl/cmd/tplgen/output.tpl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpl/cmd/tplgen/output.tpl b/tpl/cmd/tplgen/output.tpl
index 2094864..dd12007 100644
--- a/tpl/cmd/tplgen/output.tpl
+++ b/tpl/cmd/tplgen/output.tpl
@@ -8,9 +8,9 @@ import (
 	"strconv"
 	{{ end }}
 
-	"github.com/qiniu/text/tpl.v1"
+	"github.com/qiniu/text/tpl"
 	{{ if .genInterpreter}}
-	"github.com/qiniu/text/tpl.v1/interpreter.util"
+	"github.com/qiniu/text/tpl/interpreter.util"
 	{{ end }}
 )
 {{if .genInterpreter}}
-- 
2.43.0


From c6c0612935ead7dab32a959e32021fbe7bba53a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:16 +0000
Subject: [PATCH 28/31] fix: tplgen takes any literal for a grammar and does
 not unquote it

---
 tpl/cmd/tplgen/main.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tpl/cmd/tplgen/main.go b/tpl/cmd/tplgen/main.go
index 05b65a1..6567c6e 100644
--- a/tpl/cmd/tplgen/main.go
+++ b/tpl/cmd/tplgen/main.go
@@ -10,6 +10,7 @@ import (
 	"os"
 	"path"
 	"runtime"
+	"strconv"
 	"text/template"
 
 	"github.com/qiniu/text/tpl/generator"
@@ -35,7 +36,7 @@ func findInGenDecl(genDecl *ast.GenDecl, grammarName string) string {
 			}
 			if index != -1 && index < len(valueSpec.Values) {
 				basicLit, ok := valueSpec.Values[index].(*ast.BasicLit)
-				if ok {
+				if ok && basicLit.Kind == token.STRING {
 					return basicLit.Value
 				}
 			}
@@ -57,7 +58,7 @@ func findInAssignment(assignStmt *ast.AssignStmt, grammarName string) string {
 	}
 	if index != -1 && index < len(assignStmt.Rhs) {
 		basicLit, ok := assignStmt.Rhs[index].(*ast.BasicLit)
-		if ok {
+		if ok && basicLit.Kind == token.STRING {
 			return basicLit.Value
 		}
 	}
@@ -123,7 +124,9 @@ OUT:
 	if grammarContent == "" {
 		exitIfNotNil(errors.New(*grammarName + " not found."))
 	}
-	code, err := generator.GenStaticCode(grammarContent[1 : len(grammarContent)-1])
+	grammarText, err := strconv.Unquote(grammarContent)
+	exitIfNotNil(err)
+	code, err := generator.GenStaticCode(grammarText)
 	exitIfNotNil(err)
 	fd, err := os.OpenFile(*outputFileName, os.O_RDWR|os.O_CREATE, 0664)
 	exitIfNotNil(err)
-- 
2.43.0


From 079504d5b8495c6d85dc8a7fe58be6a5dbf2d476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:00 +0000
Subject: [PATCH 29/31] fix: Code renders +(+G) as ++G, which is not rule text

---
 tpl/grammar.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tpl/grammar.go b/tpl/grammar.go
index 5e564bb..989e637 100644
--- a/tpl/grammar.go
+++ b/tpl/grammar.go
@@ -29,8 +29,9 @@ const (
 	lvlAnd
 	lvlList
 	lvlRepeat
-	lvlNot  = lvlRepeat
-	lvlPeek = lvlRepeat
+	lvlRepeat1 // the operand of +G: "++" is another token
+	lvlNot     = lvlRepeat
+	lvlPeek    = lvlRepeat
 )
 
 // TokenSource represents the source file.
@@ -463,8 +464,15 @@ func (p *grRepeat1) Match(src []Token, ctx Context) (n int, err error) {
 }
 
 func (p *grRepeat1) Marshal(b []byte, t Tokener, lvlParent int) []byte {
+	if lvlParent == lvlRepeat1 {
+		b = append(b, '(')
+	}
 	b = append(b, '+')
-	return p.g.Marshal(b, t, lvlRepeat)
+	b = p.g.Marshal(b, t, lvlRepeat1)
+	if lvlParent == lvlRepeat1 {
+		b = append(b, ')')
+	}
+	return b
 }
 
 // Repeat1 represents +G
-- 
2.43.0


From 7b96c49957a65c921748bdcd94c3126510bbff29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:01 +0000
Subject: [PATCH 30/31] fix: Code drops the parentheses of a sequence with a
 fail-fast mark

---
 tpl/grammar.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tpl/grammar.go b/tpl/grammar.go
index 989e637..5a79b93 100644
--- a/tpl/grammar.go
+++ b/tpl/grammar.go
@@ -313,7 +313,13 @@ func (p *grAnd) Match(src []Token, ctx Context) (n int, err error) {
 }
 
 func (p *grAnd) Marshal(b []byte, t Tokener, lvlParent int) []byte {
-	if lvlParent > lvlAnd {
+	paren := lvlParent > lvlAnd
+	if lvlParent == lvlAnd { // a fail-fast mark ends with its own sequence
+		for _, g := range p.gs {
+			paren = paren || g == nil
+		}
+	}
+	if paren {
 		b = append(b, '(')
 	}
 	for i, g := range p.gs {
@@ -326,7 +332,7 @@ func (p *grAnd) Marshal(b []byte, t Tokener, lvlParent int) []byte {
 		}
 		b = g.Marshal(b, t, lvlAnd)
 	}
-	if lvlParent > lvlAnd {
+	if paren {
 		b = append(b, ')')
 	}
 	return b
-- 
2.43.0


From d19552bad00955d67c0185f8c318b6f1fa36ef64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:22 +0000
Subject: [PATCH 31/31] fix: tplconv ignores a failure to write its JSON output

---
 tpl/cmd/tplconv/tplconv.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpl/cmd/tplconv/tplconv.go b/tpl/cmd/tplconv/tplconv.go
index 04a918e..f7336e0 100644
--- a/tpl/cmd/tplconv/tplconv.go
+++ b/tpl/cmd/tplconv/tplconv.go
@@ -91,8 +91,8 @@ func processFile(root, inputFile string) (err error) {
 		if !ok {
 			return fmt.Errorf("unknown output format: %s", *outputFormat)
 		}
-		io.WriteString(w, print(doc))
-		return nil
+		_, err = io.WriteString(w, print(doc))
+		return err
 	}
 
 	gen, ok := outTemplates[outext]
-- 
2.43.0


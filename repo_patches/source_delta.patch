From 3922bd950c35cb928e95924f766ec833450a457a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:08 +0000
Subject: [PATCH 01/23] fix: simplelexer no longer changes the lexer when it
 meets a lex error

Lex added the error kind to the lexer's symbol set. Concurrent calls raced on
the set, and a rule added afterwards left a nil gap in the rules, so the next
call to Lex panicked.
---
 lexer/simplelexer/lexer.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lexer/simplelexer/lexer.go b/lexer/simplelexer/lexer.go
index c019f86..8c32fe6 100644
--- a/lexer/simplelexer/lexer.go
+++ b/lexer/simplelexer/lexer.go
@@ -117,8 +117,7 @@ func (op *lexOp) checkError() {
 	}
 	op.errFlag = false
 	val := string(op.b[op.errStart:op.cur])
-	errKind := op.set.Str(op.Error)
-	lxm := lexeme.New(errKind).Set(val)
+	lxm := lexeme.String(op.Error).Set(val)
 	op.lxs = append(op.lxs, &errLexeme{lxm})
 }
 
-- 
2.43.0


From 27ba1ccc7259279d580f4476e576c501450f6d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:10 +0000
Subject: [PATCH 02/23] fix: stacklexer no longer changes the lexer when lexing

Lex added the error kind to the lexer's symbol set, so concurrent calls raced
on it. The default error kind is now registered by New.
---
 lexer/stacklexer/construct.go | 1 +
 lexer/stacklexer/lex.go       | 8 +++++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/lexer/stacklexer/construct.go b/lexer/stacklexer/construct.go
index 0a9f503..7e6eea1 100644
--- a/lexer/stacklexer/construct.go
+++ b/lexer/stacklexer/construct.go
@@ -125,6 +125,7 @@ func New(definitions ...string) (*StackLexer, error) {
 		sl.parse(subLexerDefs, done, stack)
 	}
 
+	l.set.Str(l.Error)
 	return l, nil
 }
 
diff --git a/lexer/stacklexer/lex.go b/lexer/stacklexer/lex.go
index e8f34ab..a7ac8c6 100644
--- a/lexer/stacklexer/lex.go
+++ b/lexer/stacklexer/lex.go
@@ -3,7 +3,6 @@ package stacklexer
 import (
 	"github.com/adamcolton/parlex"
 	"github.com/adamcolton/parlex/lexeme"
-	"github.com/adamcolton/parlex/symbol/setsymbol"
 	"strings"
 )
 
@@ -16,7 +15,7 @@ type lexOp struct {
 	err   struct {
 		flag  bool
 		start int
-		kind  *setsymbol.Symbol
+		kind  parlex.Symbol
 	}
 	cur   int
 	lines int
@@ -30,7 +29,10 @@ func (l *StackLexer) Lex(str string) []parlex.Lexeme {
 		lines:    1,
 		lxs:      make([]parlex.Lexeme, 0),
 	}
-	op.err.kind = l.set.Str(op.Error)
+	op.err.kind = lexeme.String(op.Error).Kind()
+	if kind := l.set.HasSymbol(op.err.kind); kind != nil {
+		op.err.kind = kind
+	}
 	if op.insert.startKind != "" {
 		op.lxs = append(op.lxs, lexeme.String(op.insert.startKind).Set(op.insert.startVal))
 	}
-- 
2.43.0


From f1e68ed98f741141f828100f75544bb56d8a3cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:12 +0000
Subject: [PATCH 03/23] fix: looking up the productions of an unknown symbol no
 longer changes the grammar

Productions added every symbol it was asked for to the grammar's symbol set, a
data race between parsers that share a grammar.
---
 grammar/grammar.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grammar/grammar.go b/grammar/grammar.go
index 9e739b1..21a15b3 100644
--- a/grammar/grammar.go
+++ b/grammar/grammar.go
@@ -120,8 +120,8 @@ func Empty() *Grammar {
 // not a non-terminal in the Grammar, nil is returned. It is part of the
 // parlex.Grammer interface.
 func (g *Grammar) Productions(symbol parlex.Symbol) parlex.Productions {
-	idx := g.set.Symbol(symbol).Idx()
-	if idx >= len(g.productions) {
+	idx := g.set.Idx(symbol)
+	if idx < 0 || idx >= len(g.productions) {
 		return nil
 	}
 	p := g.productions[idx]
-- 
2.43.0


From c695a213967e373ad508543056073d27c2e57682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:13 +0000
Subject: [PATCH 04/23] fix: stacklexer.New reports errors and parses
 sub-lexers in the order written

A bad regular expression or cyclic inheritance was dropped and the lexer
silently lost rules. Sub-lexers were parsed in map order, so symbol indexes
differed from run to run.
---
 lexer/stacklexer/construct.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lexer/stacklexer/construct.go b/lexer/stacklexer/construct.go
index 7e6eea1..c4c4949 100644
--- a/lexer/stacklexer/construct.go
+++ b/lexer/stacklexer/construct.go
@@ -91,6 +91,7 @@ func New(definitions ...string) (*StackLexer, error) {
 		compare: lengthThenPriority,
 	}
 	subLexerDefs := make(map[string]string)
+	var names []string
 	for _, definition := range definitions {
 		ms := subParserDef.FindAllStringSubmatchIndex(definition, -1)
 		cur := struct {
@@ -110,6 +111,7 @@ func New(definitions ...string) (*StackLexer, error) {
 				name:       cur.name,
 			}
 			l.lexers[cur.name] = sl
+			names = append(names, cur.name)
 			if l.start == nil {
 				l.start = sl
 			}
@@ -121,8 +123,10 @@ func New(definitions ...string) (*StackLexer, error) {
 
 	done := make(map[string]bool)
 	stack := make(map[string]bool)
-	for _, sl := range l.lexers {
-		sl.parse(subLexerDefs, done, stack)
+	for _, name := range names {
+		if err := l.lexers[name].parse(subLexerDefs, done, stack); err != nil {
+			return nil, err
+		}
 	}
 
 	l.set.Str(l.Error)
-- 
2.43.0


From 12b7bc645258701b4777bd083c220e12a39c3c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:15 +0000
Subject: [PATCH 05/23] fix: inherited stacklexer rules keep the order they
 were written in

They were inherited in the order in which their symbols first appeared
anywhere in the definition, which changed their relative priority.
---
 lexer/stacklexer/construct.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lexer/stacklexer/construct.go b/lexer/stacklexer/construct.go
index c4c4949..177e162 100644
--- a/lexer/stacklexer/construct.go
+++ b/lexer/stacklexer/construct.go
@@ -251,10 +251,8 @@ func (sl *subLexer) addHeir(heir *subLexer, defs map[string]string, done, stack
 	sl.inheirit.by = append(sl.inheirit.by, heir)
 	heir.inheirit.from = append(heir.inheirit.from, sl)
 
-	for _, r := range sl.rules {
-		if r != nil {
-			heir.addRule(*r)
-		}
+	for _, kind := range sl.order {
+		heir.addRule(*sl.rules[kind])
 	}
 	return nil
 }
-- 
2.43.0


From a4be668acccc5ee361759390265b9c83da725258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:54 +0000
Subject: [PATCH 06/23] fix: popping an empty stacklexer stack no longer panics

A rule marked ^ that matches in the outermost sub-lexer indexed an empty stack.
---
 lexer/stacklexer/lex.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lexer/stacklexer/lex.go b/lexer/stacklexer/lex.go
index a7ac8c6..3f94b53 100644
--- a/lexer/stacklexer/lex.go
+++ b/lexer/stacklexer/lex.go
@@ -89,8 +89,10 @@ func (op *lexOp) pop(i int) {
 	if ln < 0 {
 		ln = 0
 	}
-	op.subLexer = op.stack[ln]
-	op.stack = op.stack[:ln]
+	if ln < len(op.stack) {
+		op.subLexer = op.stack[ln]
+		op.stack = op.stack[:ln]
+	}
 	op.populateNext()
 }
 
-- 
2.43.0


From 06a30a6ebd5ce63500744d2f08579243960ce1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:55 +0000
Subject: [PATCH 07/23] fix: a stacklexer group that is missing or took no part
 in the match no longer panics

It contributes nothing to the value.
---
 lexer/stacklexer/lex.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lexer/stacklexer/lex.go b/lexer/stacklexer/lex.go
index 3f94b53..e792954 100644
--- a/lexer/stacklexer/lex.go
+++ b/lexer/stacklexer/lex.go
@@ -135,8 +135,8 @@ func (op *lexOp) findNextMatch() (*lexeme.Lexeme, int, *rule) {
 		for _, sub := range r.submatches {
 			if sub.section == -1 {
 				lx.V += sub.str
-			} else {
-				lx.V += string(op.b[offset+idx[sub.section*2] : offset+idx[sub.section*2+1]])
+			} else if s := sub.section * 2; s >= 0 && s+2 < len(idx) && idx[s] >= 0 {
+				lx.V += string(op.b[offset+idx[s] : offset+idx[s+1]])
 			}
 		}
 		op.handleLineCol(lx, string(op.b[offset+idx[0]:offset+idx[1]]))
-- 
2.43.0


From 6bc87fe93eb80ec9073aa84d40f85b7bf3c31740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:57 +0000
Subject: [PATCH 08/23] fix: a stacklexer group literal that contains a digit
 is no longer taken for group 0

---
 lexer/stacklexer/construct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/stacklexer/construct.go b/lexer/stacklexer/construct.go
index 177e162..21413d3 100644
--- a/lexer/stacklexer/construct.go
+++ b/lexer/stacklexer/construct.go
@@ -55,7 +55,7 @@ type submatch struct {
 	str     string
 }
 
-var intRe = regexp.MustCompile(`\d+`)
+var intRe = regexp.MustCompile(`^\d+$`)
 
 func parseSubmatches(str string) []submatch {
 	if str == "" {
-- 
2.43.0


From 72b6c257ebe7db4cb8eb09bef34def3b4911aadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:58 +0000
Subject: [PATCH 09/23] fix: stacklexer looks for matches again after an error

Matches found before the error were kept, so an empty match ahead of the
current position hid every later match of its rule, and the lengths of matches
found from different positions were compared as if they were the same.
---
 lexer/stacklexer/lex.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lexer/stacklexer/lex.go b/lexer/stacklexer/lex.go
index e792954..a9f69ab 100644
--- a/lexer/stacklexer/lex.go
+++ b/lexer/stacklexer/lex.go
@@ -57,6 +57,7 @@ func (op *lexOp) lex() {
 				if op.cur >= len(op.b) {
 					break
 				}
+				op.updateNext()
 			} else {
 				op.pop(1)
 			}
-- 
2.43.0


From b26ac00a085e4facb6db83493880370d198946e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:00 +0000
Subject: [PATCH 10/23] fix: an empty match of a stacklexer rule no longer
 hides a lower priority match

---
 lexer/stacklexer/lex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/stacklexer/lex.go b/lexer/stacklexer/lex.go
index a9f69ab..fd91ed0 100644
--- a/lexer/stacklexer/lex.go
+++ b/lexer/stacklexer/lex.go
@@ -116,7 +116,7 @@ func (op *lexOp) findNextMatch() (*lexeme.Lexeme, int, *rule) {
 
 	// look in next for matches and take the longest one
 	for kind, loc := range op.next {
-		if loc != nil && loc[0]+loc[len(loc)-1] == op.cur {
+		if loc != nil && loc[0]+loc[len(loc)-1] == op.cur && loc[0] < loc[1] {
 			tr := op.rules[kind]
 			if tr != nil && (r == nil || op.compare(loc[1], tr.priority, idx[1], r.priority)) {
 				idx = loc
-- 
2.43.0


From 2661f875d1ae5837a16d24ab7a5e5433d8027354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:02 +0000
Subject: [PATCH 11/23] fix: simplelexer in ByPriority mode matches its rules

The first match was compared with the priority -1 of "no match yet" and never
won, so every text was an error. Empty matches are passed over.
---
 lexer/simplelexer/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lexer/simplelexer/lexer.go b/lexer/simplelexer/lexer.go
index 8c32fe6..7f7e8dd 100644
--- a/lexer/simplelexer/lexer.go
+++ b/lexer/simplelexer/lexer.go
@@ -36,7 +36,7 @@ func (l *Lexer) ByLength() { l.compare = lengthThenPriority }
 func (l *Lexer) ByPriority() { l.compare = priorityThenLength }
 
 func priorityThenLength(e1, p1, e2, p2 int) bool {
-	return p1 < p2 || (p1 == p2 && e1 > e2)
+	return p2 == -1 || p1 < p2 || (p1 == p2 && e1 > e2)
 }
 func lengthThenPriority(e1, p1, e2, p2 int) bool {
 	return e1 > e2 || (e1 == e2 && p1 < p2)
@@ -148,7 +148,7 @@ func (op *lexOp) findNextMatch() (*lexeme.Lexeme, int) {
 
 	// look in next for matches and take the longest one
 	for kind, loc := range op.next {
-		if loc != nil && loc[0] == op.cur {
+		if loc != nil && loc[0] == op.cur && loc[0] < loc[1] {
 			p := op.rules[kind].priority
 			if op.compare(loc[1], p, lxEnd, lxP) {
 				lx.K = op.set.ByIdx(kind)
-- 
2.43.0


From 4f37c970f6c39ce288d80e7e6c3f904a7c3c19f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:03 +0000
Subject: [PATCH 12/23] fix: packrat no longer accepts empty input for every
 grammar

The zero value of a missing memo entry ends at 0, which is where an empty input
has to end.
---
 parser/packrat/packrat.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/packrat/packrat.go b/parser/packrat/packrat.go
index 45965d9..622ae27 100644
--- a/parser/packrat/packrat.go
+++ b/parser/packrat/packrat.go
@@ -108,8 +108,8 @@ func (p *Packrat) Parse(lexemes []parlex.Lexeme) parlex.ParseNode {
 	var accept treeKey
 	accept.idx = start.idx
 	accept.end = len(lexemes)
-	accepted := op.memo[accept]
-	if accepted.end != accept.end {
+	accepted, ok := op.memo[accept]
+	if !ok {
 		return nil
 	}
 	return accepted.toPN(op.lxms, op.memo, op.set)
-- 
2.43.0


From 268c45e9c13cc983a8529b35b0e7c88c40274fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:05 +0000
Subject: [PATCH 13/23] fix: the parent of a root node is nil

It was a non-nil parlex.ParseNode holding a nil *PN.
---
 tree/parsetree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree/parsetree.go b/tree/parsetree.go
index f88e5f9..6269de6 100644
--- a/tree/parsetree.go
+++ b/tree/parsetree.go
@@ -57,6 +57,9 @@ type PN struct {
 // Parent returns a reference to the nodes parent. If parent is nil, this is the
 // root of the tree. This is part of the parlex.ParseNode interface.
 func (p *PN) Parent() parlex.ParseNode {
+	if p.P == nil {
+		return nil
+	}
 	return p.P
 }
 
-- 
2.43.0


From 4ab78c067798478e060d4d602ddca6b215558305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:07 +0000
Subject: [PATCH 14/23] fix: PromoteChildValue leaves the node alone when the
 index is out of bounds

An index below -len was made relative to the end twice and could remove another
child.
---
 tree/node_reductions.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/tree/node_reductions.go b/tree/node_reductions.go
index 2937334..3afae8f 100644
--- a/tree/node_reductions.go
+++ b/tree/node_reductions.go
@@ -89,14 +89,12 @@ func (p *PN) PromoteSingleChild() bool {
 // is negative, it will find the child relative to the end. If cIdx is out of
 // bounds, no action will be taken.
 func (p *PN) PromoteChildValue(cIdx int) {
-	l := len(p.C)
-	if cIdx < 0 {
-		cIdx = l + cIdx
-	}
-	if cIdx >= 0 && l > cIdx {
-		ch := p.C[cIdx]
-		p.Lexeme = lexeme.New(p.Kind()).Set(ch.Value()).At(ch.Pos())
+	cIdx, _, ok := p.GetIdx(cIdx)
+	if !ok {
+		return
 	}
+	ch := p.C[cIdx]
+	p.Lexeme = lexeme.New(p.Kind()).Set(ch.Value()).At(ch.Pos())
 	p.RemoveChild(cIdx)
 }
 
-- 
2.43.0


From 5b2fe4b81c1e6b28f844356c0663ec7cbb34fafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:10 +0000
Subject: [PATCH 15/23] fix: ReplaceWithChild keeps the parent links right

The node became its own parent and its new children kept pointing at the
replaced child.
---
 tree/node_reductions.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tree/node_reductions.go b/tree/node_reductions.go
index 3afae8f..279dd07 100644
--- a/tree/node_reductions.go
+++ b/tree/node_reductions.go
@@ -10,7 +10,11 @@ func (p *PN) ReplaceWithChild(cIdx int) bool {
 	if !ok {
 		return false
 	}
-	*p = *(p.C[cIdx])
+	ch := p.C[cIdx]
+	p.Lexeme, p.C = ch.Lexeme, ch.C
+	for _, c := range p.C {
+		c.P = p
+	}
 	return true
 }
 
-- 
2.43.0


From 56580159dd8a26d9d178ffe4ecce857680c00905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:12 +0000
Subject: [PATCH 16/23] fix: PromoteChildrenOf sets the parent of the children
 it promotes

---
 tree/node_reductions.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree/node_reductions.go b/tree/node_reductions.go
index 279dd07..c4ac70e 100644
--- a/tree/node_reductions.go
+++ b/tree/node_reductions.go
@@ -119,6 +119,9 @@ func (p *PN) PromoteChildrenOf(cIdx int) bool {
 	if !ok {
 		return false
 	}
+	for _, c := range p.C[cIdx].C {
+		c.P = p
+	}
 	if cIdx == l-1 {
 		p.C = append(p.C[:cIdx], p.C[cIdx].C...)
 	} else {
-- 
2.43.0


From 5004018d45177bff308d0e56638de3574dc36762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:13 +0000
Subject: [PATCH 17/23] fix: a reduced tree has parent links

---
 tree/reducer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tree/reducer.go b/tree/reducer.go
index 942c4bd..1652aa8 100644
--- a/tree/reducer.go
+++ b/tree/reducer.go
@@ -79,6 +79,11 @@ func (r Reducer) RawReduce(node parlex.ParseNode) *PN {
 	if reduction := r[cp.Kind().String()]; reduction != nil {
 		reduction(cp)
 	}
+	for _, c := range cp.C {
+		if c != nil {
+			c.P = cp
+		}
+	}
 
 	return cp
 }
-- 
2.43.0


From adc492f9179eed8f7f12e32fca887ced2217d6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:15 +0000
Subject: [PATCH 18/23] fix: Clone keeps the positions of the lexemes

---
 tree/parsetree.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/tree/parsetree.go b/tree/parsetree.go
index 6269de6..95aba04 100644
--- a/tree/parsetree.go
+++ b/tree/parsetree.go
@@ -159,11 +159,8 @@ func (p *PN) ChildAt(cIdx int, symbs ...string) bool {
 // Clone takes a node and clones it and all it's children.
 func Clone(node parlex.ParseNode) *PN {
 	pn := &PN{
-		Lexeme: &lexeme.Lexeme{
-			K: node.Kind(),
-			V: node.Value(),
-		},
-		C: make([]*PN, node.Children()),
+		Lexeme: lexeme.Copy(node),
+		C:      make([]*PN, node.Children()),
 	}
 	for i := 0; i < node.Children(); i++ {
 		c := Clone(node.Child(i))
-- 
2.43.0


From e0b0be468fe5793836ccb052263c3f52ae1424a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:17 +0000
Subject: [PATCH 19/23] fix: the tree from the topdown parser has parent links
 and no shared nodes

The memo hands the same node out wherever a symbol matches nothing at the same
position, so one node could appear twice in a tree; none had a parent.
---
 parser/topdown/topdown.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/topdown/topdown.go b/parser/topdown/topdown.go
index 803bbf7..10e1be5 100644
--- a/parser/topdown/topdown.go
+++ b/parser/topdown/topdown.go
@@ -47,7 +47,8 @@ func (t *Topdown) Parse(lexemes []parlex.Lexeme) parlex.ParseNode {
 	if node == nil {
 		return nil
 	}
-	return node
+	// the memoized nodes are shared and have no parents
+	return tree.Clone(node)
 }
 
 type treeKey struct {
-- 
2.43.0


From 66653c0407561befc7385f0309a56d9470e2a325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:19 +0000
Subject: [PATCH 20/23] fix: tree.New returns an error for an empty or
 unbalanced tree

It panicked, or returned a node from the middle of the tree.
---
 tree/parsetree.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tree/parsetree.go b/tree/parsetree.go
index 95aba04..7884dc4 100644
--- a/tree/parsetree.go
+++ b/tree/parsetree.go
@@ -20,7 +20,8 @@ var handleSlash = strings.NewReplacer(`\\`, "\\", `\n`, "\n", `\"`, "\"")
 // New creates a *PN from a string. They are more commonly created from a Parser
 // but this can be useful for testing.
 func New(str string) (*PN, error) {
-	cur := &PN{}
+	root := &PN{}
+	cur := root
 	for _, line := range strings.Split(str, "\n") {
 		m := reTreeLine.FindStringSubmatch(line)
 		if len(line) != len(m[0]) {
@@ -28,6 +29,9 @@ func New(str string) (*PN, error) {
 		}
 		if m[1] == "}" {
 			cur = cur.P
+			if cur == nil {
+				return nil, ErrBadTreeString
+			}
 		}
 		if m[2] != "" {
 			kind := stringsymbol.Symbol(m[2])
@@ -42,7 +46,10 @@ func New(str string) (*PN, error) {
 			}
 		}
 	}
-	cur = cur.C[0]
+	if cur != root || len(root.C) == 0 {
+		return nil, ErrBadTreeString
+	}
+	cur = root.C[0]
 	cur.P = nil
 	return cur, nil
 }
-- 
2.43.0


From b811a884816d7f923436cbddbeda64c4a7bfa5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:21 +0000
Subject: [PATCH 21/23] fix: a text reducer with a fractional child index is an
 error

The index was silently taken to be 0.
---
 tree/reducer/reducer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/reducer/reducer.go b/tree/reducer/reducer.go
index 2b61a0a..781a6c1 100644
--- a/tree/reducer/reducer.go
+++ b/tree/reducer/reducer.go
@@ -23,7 +23,7 @@ const lexerRules = `
   PromoteSingleChild
   ReplaceWithChild
   Nil
-  number  /-?\d*\.?\d+/
+  number  /-?\d+/
   rule    /(\w+)/
   string  /\"([^\"\\]|(\\.))*\"/
   lp      /\(/
-- 
2.43.0


From 7f3605a49b74068cec002366ef7f357a2c3d38e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:12 +0000
Subject: [PATCH 22/23] fix: packrat no longer extends a production with the
 lexeme at its start

When a lexeme had the name of a non-terminal, a production after its first
symbol was extended with that lexeme in place of the symbol it asked for.
---
 parser/packrat/packrat.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/parser/packrat/packrat.go b/parser/packrat/packrat.go
index 622ae27..993ed34 100644
--- a/parser/packrat/packrat.go
+++ b/parser/packrat/packrat.go
@@ -166,14 +166,6 @@ func (u *updater) update(op *prOp) {
 		start: extended.end,
 	}
 
-	if td := op.checkNonTerminal(extended.treeMarker); td != nil {
-		(&updater{
-			base:      extended,
-			extension: td.treeKey,
-		}).update(op)
-		return
-	}
-
 	op.addPartial(extended, requires)
 }
 
-- 
2.43.0


From e037ec56108ccf2b89da533814a4ecfe681391ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:15 +0000
Subject: [PATCH 23/23] fix: an out of range index below zero has no symbol or
 production

---
 symbol/setsymbol/set.go       | 4 ++--
 symbol/stringsymbol/symbol.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/symbol/setsymbol/set.go b/symbol/setsymbol/set.go
index 856a9d9..670e01e 100644
--- a/symbol/setsymbol/set.go
+++ b/symbol/setsymbol/set.go
@@ -180,7 +180,7 @@ func (p *Production) Symbols() int {
 
 // Symbol returns the symbol at the given index
 func (p *Production) Symbol(i int) parlex.Symbol {
-	if i < len(p.symbs) {
+	if i >= 0 && i < len(p.symbs) {
 		return &Symbol{
 			val: p.symbs[i],
 			set: p.set,
@@ -260,7 +260,7 @@ func (p *Productions) Productions() int {
 
 // Production returns the production at the given index
 func (p *Productions) Production(i int) parlex.Production {
-	if i < len(p.prods) {
+	if i >= 0 && i < len(p.prods) {
 		return &Production{
 			symbs: p.prods[i],
 			set:   p.set,
diff --git a/symbol/stringsymbol/symbol.go b/symbol/stringsymbol/symbol.go
index 290cc9a..279f918 100644
--- a/symbol/stringsymbol/symbol.go
+++ b/symbol/stringsymbol/symbol.go
@@ -69,7 +69,7 @@ func (p Production) Symbols() int {
 
 // Symbol returns a symbol at a given index.
 func (p Production) Symbol(i int) parlex.Symbol {
-	if i < len(p) {
+	if i >= 0 && i < len(p) {
 		return p[i]
 	}
 	return nil
@@ -112,7 +112,7 @@ func (p Productions) Productions() int {
 
 // Production returns the production at a given index.
 func (p Productions) Production(i int) parlex.Production {
-	if i < len(p) {
+	if i >= 0 && i < len(p) {
 		return p[i]
 	}
 	return nil
-- 
2.43.0


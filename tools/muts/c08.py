S="lexer/simplelexer/lexer.go"
SC="lexer/simplelexer/construct.go"
K="lexer/stacklexer/lex.go"
KC="lexer/stacklexer/construct.go"
def b(n,*e): mut("C08",n,"bad",*e)
def k(n,*e): mut("C08",n,"ok",*e)
b("sl-len-ge",(S,"e1 > e2 || (e1 == e2 && p1 < p2)","e1 >= e2 || (e1 == e2 && p1 < p2)"))
b("sl-len-tie-later",(S,"e1 > e2 || (e1 == e2 && p1 < p2)","e1 > e2 || (e1 == e2 && p1 > p2)"))
b("sl-prio-first",(S,"p2 == -1 || p1 < p2 || (p1 == p2 && e1 > e2)","p1 < p2 || (p1 == p2 && e1 > e2)"))
b("sl-prio-or",(S,"p2 == -1 || p1 < p2 || (p1 == p2 && e1 > e2)","p2 == -1 || p1 < p2 || e1 > e2"))
b("sl-prio-is-len",(S,"func (l *Lexer) ByPriority() { l.compare = priorityThenLength }","func (l *Lexer) ByPriority() { l.compare = lengthThenPriority }"))
b("sl-default-prio",(SC,"		compare: lengthThenPriority,","		compare: priorityThenLength,"))
b("sl-counter",(SC,"	l.priorityCounter++\n",""))
b("sl-counter-len",(SC,"	r.priority = l.priorityCounter\n","	r.priority = 0\n"))
b("sl-prio-notkept",(S,"				lxEnd = loc[1]\n				lxP = p\n","				if lxP < 0 {\n					lxP = p\n				}\n				lxEnd = loc[1]\n"))
b("sl-end-notkept",(S,"				lxP = p\n","				lxP = kind\n"))
b("sl-bypriority-resets",(S,"func (l *Lexer) ByPriority() { l.compare = priorityThenLength }","func (l *Lexer) ByPriority() { l.compare = priorityThenLength; l.priorityCounter = 0 }"))
b("st-len-tie",(KC,"e1 > e2 || (e1 == e2 && (p2 == -1 || p1 < p2))","e1 > e2 || (e1 == e2 && (p2 == -1 || p1 > p2))"))
b("st-prio",(KC,"p2 == -1 || p1 < p2 || (p1 == p2 && e1 > e2)","p2 == -1 || p1 > p2 || (p1 == p2 && e1 > e2)"))
b("st-select",(KC,"	l.compare = priorityThenLength\n	return l","	l.compare = lengthThenPriority\n	return l"))
b("st-heir-prio",(KC,"	r.priority = sl.priorityCounter\n	sl.priorityCounter++\n","	if r.priority == 0 {\n		r.priority = sl.priorityCounter\n		sl.priorityCounter++\n	}\n"))
b("st-counter-cond",(KC,"	sl.priorityCounter++\n","	if !r.discard {\n		sl.priorityCounter++\n	}\n"))
b("st-r-notkept",(K,"				idx = loc\n				r = tr\n","				if r == nil || tr.priority < r.priority {\n					r = tr\n				}\n				idx = loc\n"))
b("sl-decr",(SC,"	l.priorityCounter++\n","	l.priorityCounter--\n"))
k("sl-swap",(S,"func lengthThenPriority(e1, p1, e2, p2 int) bool {\n	return e1 > e2 || (e1 == e2 && p1 < p2)","func lengthThenPriority(e2, p2, e1, p1 int) bool {\n	return e1 > e2 || (e1 == e2 && p1 < p2)"),(S,"func priorityThenLength(e1, p1, e2, p2 int) bool","func priorityThenLength(e2, p2, e1, p1 int) bool"),(S,"op.compare(loc[1], p, lxEnd, lxP)","op.compare(lxEnd, lxP, loc[1], p)"))
k("sl-switch",(S,"	return e1 > e2 || (e1 == e2 && p1 < p2)","	if e1 != e2 {\n		return e1 > e2\n	}\n	return p1 < p2"))
k("sl-set",(S,"func (l *Lexer) ByLength() { l.compare = lengthThenPriority }","func (l *Lexer) ByLength() { l.setCompare(lengthThenPriority) }\n\nfunc (l *Lexer) setCompare(f func(e1, p1, e2, p2 int) bool) { l.compare = f }"))
k("sl-closure",(S,"func (l *Lexer) ByLength() { l.compare = lengthThenPriority }","func (l *Lexer) ByLength() {\n	l.compare = func(e1, p1, e2, p2 int) bool { return e1 > e2 || e1 == e2 && p1 < p2 }\n}"))
k("sl-orderlen",(SC,"	r.priority = l.priorityCounter\n	l.priorityCounter++\n","	r.priority = len(l.order)\n"),(S,"	priorityCounter int\n",""))
k("sl-prio-early",(SC,"	r.priority = l.priorityCounter\n	l.priorityCounter++\n	l.rules[r.kind] = r\n","	l.rules[r.kind] = r\n	l.priorityCounter += 2\n	r.priority = l.priorityCounter - 1\n"))
k("sl-struct",(S,"""	lxEnd := op.cur
	lxP := -1
""","""	best := struct{ end, p int }{op.cur, -1}
"""),(S,"op.compare(loc[1], p, lxEnd, lxP)","op.compare(loc[1], p, best.end, best.p)"),(S,"				lxEnd = loc[1]\n				lxP = p\n","				best.end, best.p = loc[1], p\n"),(S,"	return lx, lxEnd\n","	return lx, best.end\n"))
k("st-notcompare",(K,"			if tr != nil && (r == nil || op.compare(loc[1], tr.priority, idx[1], r.priority)) {\n				idx = loc\n				r = tr\n			}","			if tr == nil {\n				continue\n			}\n			if r != nil && !op.compare(loc[1], tr.priority, idx[1], r.priority) {\n				continue\n			}\n			idx, r = loc, tr"))
k("st-helper",(K,"r == nil || op.compare(loc[1], tr.priority, idx[1], r.priority)","r == nil || op.better(loc, tr, idx, r)"),(K,"","\nfunc (op *lexOp) better(loc []int, tr *rule, idx []int, r *rule) bool {\n	return op.compare(loc[1], tr.priority, idx[1], r.priority)\n}\n"))
b("sl-break",(S,"				lxP = p\n","				lxP = p\n				if lxEnd == len(op.b) {\n					break\n				}\n"))
b("st-skip-discard",(K,"			if tr != nil && (r == nil ||","			if tr != nil && (r == nil || !tr.discard) && (r == nil ||"))
k("st-range-int",(K,"	for kind, loc := range op.next {\n		if loc != nil && loc[0]+loc[len(loc)-1] == op.cur && loc[0] < loc[1] {","	for kind := 0; kind < len(op.next); kind++ {\n		loc := op.next[kind]\n		if loc != nil && loc[0]+loc[len(loc)-1] == op.cur && loc[0] < loc[1] {"))
k("st-caller-prio",(KC,"	r.priority = sl.priorityCounter\n	sl.priorityCounter++\n	sl.rules","	sl.rank(&r)\n	sl.rules"),(KC,"","\nfunc (sl *subLexer) rank(r *rule) {\n	r.priority = sl.priorityCounter\n	sl.priorityCounter++\n}\n"))
# --- matches kept up to date
def fb(n,*e): mut("C08",n,"bad",*e)
def fk(n,*e): mut("C08",n,"ok",*e)
FS="lexer/simplelexer/lexer.go"
FK="lexer/stacklexer/lex.go"
fb("fresh-sl-end",(FS,"loc != nil && loc[0] <= op.cur {","loc != nil && loc[1] <= op.cur {"))
fb("fresh-sl-off",(FS,"loc != nil && loc[0] <= op.cur {","loc != nil && loc[0] < op.cur-1 {"))
fb("fresh-sl-eq",(FS,"loc != nil && loc[0] <= op.cur {","loc != nil && loc[0] == op.cur {"))
fb("fresh-sl-first",(FS,"loc != nil && loc[0] <= op.cur {","kind > 0 && loc != nil && loc[0] <= op.cur {"))
fb("fresh-sl-break",(FS,"			op.next[kind] = loc\n		}\n	}\n}","			op.next[kind] = loc\n			if loc == nil {\n				break\n			}\n		}\n	}\n}"))
fk("fresh-sl-lt",(FS,"loc != nil && loc[0] <= op.cur {","loc != nil && loc[0] < op.cur {"))
fk("fresh-sl-all",(FS,"loc != nil && loc[0] <= op.cur {","loc != nil {"))
fk("fresh-sl-continue",(FS,"""		if loc != nil && loc[0] <= op.cur {
			loc := op.rules[kind].re.FindIndex(op.b[op.cur:])
			if loc != nil {
				loc[0] += op.cur
				loc[1] += op.cur
			}
			op.next[kind] = loc
		}
""","""		if loc == nil || loc[0] > op.cur {
			continue
		}
		m := op.rules[kind].re.FindIndex(op.b[op.cur:])
		for i := range m {
			m[i] += op.cur
		}
		op.next[kind] = m
"""))
fk("fresh-sl-helper",(FS,"loc != nil && loc[0] <= op.cur {","op.passed(kind) {"),(FS,"	for kind, loc := range op.next {\n		if loc != nil && loc[0] <= op.cur {","") if False else (FS,"","\nfunc (op *lexOp) passed(kind int) bool {\n	loc := op.next[kind]\n	return loc != nil && loc[0] <= op.cur\n}\n"),(FS,"			loc := op.rules[kind].re.FindIndex(op.b[op.cur:])","			loc = op.rules[kind].re.FindIndex(op.b[op.cur:])"))
fb("fresh-st-end",(FK,"loc != nil && loc[0]+loc[len(loc)-1] <= op.cur {","loc != nil && loc[1]+loc[len(loc)-1] <= op.cur {"))
fb("fresh-st-eq",(FK,"loc != nil && loc[0]+loc[len(loc)-1] <= op.cur {","loc != nil && loc[len(loc)-1] < op.cur && loc[0]+loc[len(loc)-1] == op.cur {"))
fk("fresh-st-rel",(FK,"loc != nil && loc[0]+loc[len(loc)-1] <= op.cur {","loc != nil && loc[0] <= op.cur-loc[len(loc)-1] {"))
fk("fresh-st-over",(FK,"loc != nil && loc[0]+loc[len(loc)-1] <= op.cur {","loc != nil && loc[0] <= op.cur {"))
fk("fresh-st-search",(FK,"			loc := op.rules[kind].re.FindSubmatchIndex(op.b[op.cur:])\n			if loc != nil {\n				loc = append(loc, op.cur)\n			}\n			op.next[kind] = loc\n		}\n	}\n}\n\nfunc (op *lexOp) consume","			op.next[kind] = op.search(kind)\n		}\n	}\n}\n\nfunc (op *lexOp) search(kind int) []int {\n	loc := op.rules[kind].re.FindSubmatchIndex(op.b[op.cur:])\n	if loc == nil {\n		return nil\n	}\n	return append(loc, op.cur)\n}\n\nfunc (op *lexOp) consume"))
fk("fresh-st-index",(FK,"	for kind, loc := range op.next {\n		if loc != nil && loc[0]+loc[len(loc)-1] <= op.cur {\n","	for kind := 0; kind < len(op.next); kind++ {\n		loc := op.next[kind]\n		if loc != nil && loc[0]+loc[len(loc)-1] <= op.cur {\n"))

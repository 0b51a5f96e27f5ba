S="lexer/simplelexer/lexer.go"
K="lexer/stacklexer/lex.go"
def b(n,*e): mut("C06",n,"bad",*e)
def k(n,*e): mut("C06",n,"ok",*e)
# --- simplelexer
b("sl-err-noadvance",(S,"""				op.errStart = op.cur
			}
			op.cur++""","""				op.errStart = op.cur
				op.cur++
			}"""))
b("sl-end-eq",(S,"		if op.cur >= len(op.b) {\n			break","		if op.cur == len(op.b) {\n			break"))
b("sl-end-gt",(S,"		if op.cur >= len(op.b) {\n			break","		if op.cur > len(op.b)+1 {\n			break"))
b("sl-checkerror-unguarded",(S,"if !op.errFlag || op.cur > len(op.b) {","if !op.errFlag {"))
k("sl-relative",(S,"				loc[1] += op.cur\n",""))
b("sl-upd-twice",(S,"				loc[1] += op.cur\n","				loc[1] += op.cur + loc[0]\n"))
b("sl-errstart",(S,"op.b[op.errStart:op.cur]","op.b[op.errStart:op.cur+1]"))
k("sl-stuck-mark",(S,"			op.cur = lxEnd\n","			if op.rules[lx.K.(*setsymbol.Symbol).Idx()].discard && op.errFlag {\n				op.updateNext()\n				continue\n			}\n			op.cur = lxEnd\n"))
k("sl-for-cond",(S,"	for {\n		lx, lxEnd := op.findNextMatch()","	for first := true; first || op.cur < len(op.b); first = false {\n		if !first {\n			op.updateNext()\n		}\n		lx, lxEnd := op.findNextMatch()"),(S,"""		if op.cur >= len(op.b) {
			break
		}
		op.updateNext()
	}""","	}"))
k("sl-local-end",(S,"			op.cur = lxEnd\n","			op.cur += lxEnd - op.cur\n"))
k("sl-helper",(S,"				loc[0] += op.cur\n				loc[1] += op.cur\n","				shift(loc, op.cur)\n"),(S,"","\nfunc shift(loc []int, by int) {\n	for i := range loc {\n		loc[i] += by\n	}\n}\n"))
k("sl-popnext-shared",(S,"	op.next = make([][]int, len(op.rules))\n	for kind, r := range op.rules {\n		op.next[kind] = r.re.FindIndex(op.b)\n	}","	op.next = make([][]int, 0, len(op.rules))\n	for _, r := range op.rules {\n		op.next = append(op.next, r.re.FindIndex(op.b))\n	}"))
# --- stacklexer
b("st-pop-empty",(K,"			if len(op.stack) == 0 {\n				op.setError()\n				op.cur++","			if len(op.stack) == 0 {\n				op.setError()\n				if op.err.start == op.cur {\n					op.cur++\n				}"))
b("st-pop-noclamp",(K,"	if ln < 0 {\n		ln = 0\n	}\n",""))
b("st-pop-noshrink",(K,"		op.stack = op.stack[:ln]\n","		op.stack = op.stack[:ln+1]\n"))
b("st-group-bound",(K,"s >= 0 && s+2 < len(idx) && idx[s] >= 0","s >= 0 && s < len(idx) && idx[s] >= 0"))
b("st-group-neg",(K,"s >= 0 && s+2 < len(idx) && idx[s] >= 0","s >= 0 && s+2 < len(idx)"))
b("st-end-eq",(K,"				if op.cur >= len(op.b) {\n					break\n				}\n				op.updateNext()","				if op.cur == len(op.b) {\n					break\n				}\n				op.updateNext()"))
k("st-offset-forgotten",(K,"	return lx, offset + idx[1], r","	return lx, op.cur + offset + idx[1], r"))
b("st-peek-stack",(K,"			} else {\n				op.pop(1)\n			}","			} else {\n				op.subLexer = op.stack[len(op.stack)-1]\n				op.populateNext()\n			}"))
k("st-pop-min",(K,"	ln := len(op.stack) - i\n	if ln < 0 {\n		ln = 0\n	}\n	if ln < len(op.stack) {","	if i > len(op.stack) {\n		i = len(op.stack)\n	}\n	if ln := len(op.stack) - i; ln < len(op.stack) {"))
k("st-step",(K,"		op.cur = lxEnd\n		if op.cur >= len(op.b) {\n			break\n		}","		if op.cur = lxEnd; op.atEnd() {\n			break\n		}"),(K,"","\nfunc (op *lexOp) atEnd() bool { return op.cur >= len(op.b) }\n"))
k("st-next-one",(K,"			loc := op.rules[kind].re.FindSubmatchIndex(op.b[op.cur:])\n			if loc != nil {\n				loc = append(loc, op.cur)\n			}\n			op.next[kind] = loc\n		}\n	}\n}\n\nfunc (op *lexOp) consume","			op.next[kind] = op.search(kind)\n		}\n	}\n}\n\nfunc (op *lexOp) search(kind int) []int {\n	loc := op.rules[kind].re.FindSubmatchIndex(op.b[op.cur:])\n	if loc == nil {\n		return nil\n	}\n	return append(loc, op.cur)\n}\n\nfunc (op *lexOp) consume"))

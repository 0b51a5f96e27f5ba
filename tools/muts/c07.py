S="lexer/simplelexer/lexer.go"
K="lexer/stacklexer/lex.go"
def b(n,*e): mut("C07",n,"bad",*e)
def k(n,*e): mut("C07",n,"ok",*e)
# --- simplelexer
b("sl-no-final-error",(S,"	op.checkError()\n\n	if op.insert.endKind","	if op.cur > len(op.b) {\n		op.checkError()\n	}\n\n	if op.insert.endKind"))
b("sl-errstart-late",(S,"				op.errStart = op.cur\n			}\n			op.cur++","			}\n			op.cur++\n			op.errStart = op.cur"))
b("sl-errstart-moves",(S,"			if !op.errFlag {\n				op.errFlag = true\n				op.errStart = op.cur\n			}","			op.errFlag = true\n			op.errStart = op.cur"))
b("sl-flush-only-kept",(S,"			op.checkError()\n			if !op.rules[lx.K.(*setsymbol.Symbol).Idx()].discard {\n","			if !op.rules[lx.K.(*setsymbol.Symbol).Idx()].discard {\n				op.checkError()\n"))
b("sl-flush-after",(S,"			op.checkError()\n			if !op.rules[lx.K.(*setsymbol.Symbol).Idx()].discard {\n				op.lxs = append(op.lxs, lx)\n			}\n","			if !op.rules[lx.K.(*setsymbol.Symbol).Idx()].discard {\n				op.lxs = append(op.lxs, lx)\n			}\n			op.checkError()\n"))
b("sl-flag-stays",(S,"	op.errFlag = false\n",""))
k("sl-relative",(S,"				loc[1] += op.cur\n",""))
b("sl-flush-end",(S,"if !op.errFlag || op.cur > len(op.b) {","if !op.errFlag || op.cur >= len(op.b) {"))
b("sl-end-early",(S,"		if op.cur >= len(op.b) {\n			break","		if op.cur >= len(op.b)-1 {\n			break"))
b("sl-twice",(S,"				op.lxs = append(op.lxs, lx)\n			}","				op.lxs = append(op.lxs, lx)\n				if op.errFlag {\n					op.lxs = append(op.lxs, lx)\n				}\n			}"),(S,"			op.checkError()\n			if","			if !op.rules[lx.K.(*setsymbol.Symbol).Idx()].discard {\n				op.checkError()\n			}\n			if"))
b("sl-stop-error",(S,"			op.cur++\n		} else","			op.cur++\n			if len(op.lxs) == 0 && op.cur > 64 {\n				return op.lxs\n			}\n		} else"))
b("sl-value-short",(S,"lx.V = string(op.b[loc[0]:loc[1]])","lx.V = string(op.b[loc[0] : loc[1]-1])"))
b("sl-value-trim",(S,"	val := string(op.b[op.errStart:op.cur])","	val := string(op.b[op.errStart+1 : op.cur])"))
k("sl-for-cond",(S,"	for {\n		lx, lxEnd := op.findNextMatch()","	for first := true; first || op.cur < len(op.b); first = false {\n		if !first {\n			op.updateNext()\n		}\n		lx, lxEnd := op.findNextMatch()"),(S,"""		if op.cur >= len(op.b) {
			break
		}
		op.updateNext()
	}""","	}"))
k("sl-local-end",(S,"			op.cur = lxEnd\n","			op.cur += lxEnd - op.cur\n"))
k("sl-helper",(S,"				loc[0] += op.cur\n				loc[1] += op.cur\n","				shift(loc, op.cur)\n"),(S,"","\nfunc shift(loc []int, by int) {\n	for i := range loc {\n		loc[i] += by\n	}\n}\n"))
k("sl-discard-helper",(S,"			if !op.rules[lx.K.(*setsymbol.Symbol).Idx()].discard {\n				op.lxs = append(op.lxs, lx)\n			}\n","			op.keep(lx)\n"),(S,"","\nfunc (op *lexOp) keep(lx *lexeme.Lexeme) {\n	if op.rules[lx.K.(*setsymbol.Symbol).Idx()].discard {\n		return\n	}\n	op.lxs = append(op.lxs, lx)\n}\n"))
k("sl-discard-var",(S,"			op.checkError()\n			if !op.rules[lx.K.(*setsymbol.Symbol).Idx()].discard {","			drop := op.rules[lx.K.(*setsymbol.Symbol).Idx()].discard\n			op.checkError()\n			if !drop {"))
k("sl-discard-first",(S,"			op.checkError()\n			if !op.rules[lx.K.(*setsymbol.Symbol).Idx()].discard {\n				op.lxs = append(op.lxs, lx)\n			}\n","			if op.rules[lx.K.(*setsymbol.Symbol).Idx()].discard {\n				op.checkError()\n			} else {\n				op.checkError()\n				op.lxs = append(op.lxs, lx)\n			}\n"))
k("sl-mark-error",(S,"			if !op.errFlag {\n				op.errFlag = true\n				op.errStart = op.cur\n			}\n			op.cur++\n","			op.skip()\n"),(S,"","\nfunc (op *lexOp) skip() {\n	start := op.errStart\n	if !op.errFlag {\n		start = op.cur\n	}\n	op.errFlag, op.errStart = true, start\n	op.cur++\n}\n"))
k("sl-value-late",(S,"				lx.V = string(op.b[loc[0]:loc[1]])\n",""),(S,"	lx.L = op.lines\n","	if lxEnd > op.cur {\n		lx.V = string(op.b[op.cur:lxEnd])\n	}\n	lx.L = op.lines\n"))
k("sl-substr",(S,"lx.V = string(op.b[loc[0]:loc[1]])","m := op.b[loc[0]:loc[1]]\n				lx.V = string(m)"))
# --- stacklexer
b("st-no-final",(K,"	op.consumeRemainingAsError()\n	op.checkError()\n","	if op.cur < len(op.b) {\n		op.consumeRemainingAsError()\n		op.checkError()\n	}\n"))
b("st-offset-forgotten",(K,"	return lx, offset + idx[1], r","	return lx, op.cur + offset + idx[1], r"))
b("st-flush-kept",(K,"		op.checkError()\n		if !r.discard {\n","		if !r.discard {\n			op.checkError()\n"))
b("st-seterror-moves",(K,"	if op.err.flag {\n		return\n	}\n	op.err.flag = true","	op.err.flag = true"))
b("st-pop-skip",(K,"			} else {\n				op.pop(1)\n			}","			} else {\n				op.cur++\n				op.pop(1)\n			}"))
b("st-end-early",(K,"		op.cur = lxEnd\n		if op.cur >= len(op.b) {\n			break","		op.cur = lxEnd\n		if op.cur >= len(op.b) {\n			op.err.flag = false\n			break"),(K,"		op.checkError()\n		if !r.discard","		if r.pop == 0 {\n			op.checkError()\n		}\n		if !r.discard"))
k("st-remaining-unset",(K,"	op.setError()\n	op.cur = len(op.b)\n","	op.cur = len(op.b)\n"),(K,"				if op.cur >= len(op.b) {\n					break","				if op.cur >= len(op.b)-1 {\n					break"))
b("st-push-skips",(K,"			op.subLexer = op.lexers[r.push]\n","			op.subLexer = op.lexers[r.push]\n			if op.subLexer == op.start {\n				op.cur = lxEnd + 1\n			}\n"))
b("st-pop-rewind",(K,"			op.pop(r.pop)\n","			op.cur = lxEnd - 1\n			op.pop(r.pop)\n"))
b("st-discard-pop",(K,"		if !r.discard {\n","		if !r.discard && r.pop == 0 {\n"))
b("st-error-len",(K,"	val := string(op.b[op.err.start:op.cur])","	val := string(op.b[op.err.start : op.cur-1])"))
b("st-flag-stays",(K,"	op.err.flag = false\n",""))
k("st-step",(K,"		op.cur = lxEnd\n		if op.cur >= len(op.b) {\n			break\n		}","		if op.cur = lxEnd; op.atEnd() {\n			break\n		}"),(K,"","\nfunc (op *lexOp) atEnd() bool { return op.cur >= len(op.b) }\n"))
k("st-next-one",(K,"			loc := op.rules[kind].re.FindSubmatchIndex(op.b[op.cur:])\n			if loc != nil {\n				loc = append(loc, op.cur)\n			}\n			op.next[kind] = loc\n		}\n	}\n}\n\nfunc (op *lexOp) consume","			op.next[kind] = op.search(kind)\n		}\n	}\n}\n\nfunc (op *lexOp) search(kind int) []int {\n	loc := op.rules[kind].re.FindSubmatchIndex(op.b[op.cur:])\n	if loc == nil {\n		return nil\n	}\n	return append(loc, op.cur)\n}\n\nfunc (op *lexOp) consume"))
k("st-match-var",(K,"""		op.handleLineCol(lx, string(op.b[offset+idx[0]:offset+idx[1]]))
	} else {
		lx.V = string(op.b[offset+idx[0] : offset+idx[1]])
		op.handleLineCol(lx, lx.V)
	}
""","""	} else {
		lx.V = string(op.b[offset+idx[0] : offset+idx[1]])
	}
	op.handleLineCol(lx, string(op.b[offset+idx[0]:offset+idx[1]]))
"""))
k("st-emit",(K,"		op.checkError()\n		if !r.discard {\n			op.lxs = append(op.lxs, lx)\n		}\n		op.cur = lxEnd\n","		op.emit(lx, r)\n		op.cur = lxEnd\n"),(K,"","\nfunc (op *lexOp) emit(lx *lexeme.Lexeme, r *rule) {\n	op.checkError()\n	if r.discard {\n		return\n	}\n	op.lxs = append(op.lxs, lx)\n}\n"))
k("st-linecol-last",(K,"	lx := lexeme.New(op.err.kind).Set(val)\n	op.handleLineCol(lx, lx.V)","	lx := lexeme.New(op.err.kind).Set(val)\n	op.handleLineCol(lx, val)"))
k("st-seterror-else",(K,"	if op.err.flag {\n		return\n	}\n	op.err.flag = true\n	op.err.start = op.cur\n","	if !op.err.flag {\n		op.err.flag, op.err.start = true, op.cur\n	}\n"))
k("st-flipped",(K,"		if lxEnd == op.cur {\n			if len(op.stack) == 0 {\n				op.setError()\n				op.cur++\n				if op.cur >= len(op.b) {\n					break\n				}\n				op.updateNext()\n			} else {\n				op.pop(1)\n			}\n			continue\n		}","		if lxEnd <= op.cur {\n			if len(op.stack) > 0 {\n				op.pop(1)\n				continue\n			}\n			op.setError()\n			if op.cur++; op.cur >= len(op.b) {\n				break\n			}\n			op.updateNext()\n			continue\n		}"))

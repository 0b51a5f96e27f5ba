# refactorings of the lexers that every check about them has to accept
_S="lexer/simplelexer/lexer.go"
_K="lexer/stacklexer/lex.go"
def zk(n,*e):
    for p in ("C06","C07","C08"): mut(p,"z-"+n,"ok",*e)
zk("sl-step",(_S,"""	for {
		lx, lxEnd := op.findNextMatch()
		if lxEnd == op.cur {
			if !op.errFlag {
				op.errFlag = true
				op.errStart = op.cur
			}
			op.cur++
		} else {
			op.checkError()
			if !op.rules[lx.K.(*setsymbol.Symbol).Idx()].discard {
				op.lxs = append(op.lxs, lx)
			}
			op.cur = lxEnd
		}
		if op.cur >= len(op.b) {
			break
		}
		op.updateNext()
	}
	op.checkError()
""","""	for op.step() {
		op.updateNext()
	}
	op.checkError()
"""),(_S,"","""
// step takes one match, or one byte of error; it reports whether text is left.
func (op *lexOp) step() bool {
	lx, end := op.findNextMatch()
	if end == op.cur {
		op.skipByte()
		return op.cur < len(op.b)
	}
	op.checkError()
	if r := op.rules[lx.K.(*setsymbol.Symbol).Idx()]; !r.discard {
		op.lxs = append(op.lxs, lx)
	}
	op.cur = end
	return op.cur < len(op.b)
}

func (op *lexOp) skipByte() {
	if !op.errFlag {
		op.errFlag, op.errStart = true, op.cur
	}
	op.cur++
}
"""))
zk("sl-find",(_S,"""	for kind, loc := range op.next {
		if loc != nil && loc[0] == op.cur && loc[0] < loc[1] {
			p := op.rules[kind].priority
			if op.compare(loc[1], p, lxEnd, lxP) {
				lx.K = op.set.ByIdx(kind)
				lx.V = string(op.b[loc[0]:loc[1]])
				lxEnd = loc[1]
				lxP = p
			}
		}
	}
""","""	for kind, loc := range op.next {
		if loc == nil {
			continue
		}
		start, end := loc[0], loc[1]
		if start != op.cur || end <= start {
			continue
		}
		if p := op.rules[kind].priority; op.compare(end, p, lxEnd, lxP) {
			lx.K, lx.V = op.set.ByIdx(kind), string(op.b[start:end])
			lxEnd, lxP = end, p
		}
	}
"""))
zk("sl-check",(_S,"""	if !op.errFlag || op.cur > len(op.b) {
		return
	}
	op.errFlag = false
	val := string(op.b[op.errStart:op.cur])
	lxm := lexeme.String(op.Error).Set(val)
	op.lxs = append(op.lxs, &errLexeme{lxm})
""","""	if op.errFlag && op.cur <= len(op.b) {
		text := op.b[op.errStart:op.cur]
		e := &errLexeme{lexeme.String(op.Error).Set(string(text))}
		op.lxs = append(op.lxs, e)
		op.errFlag = false
	}
"""))
zk("st-split",(_K,"""	if r == nil {
		return nil, op.cur, nil
	}

	lx := &lexeme.Lexeme{
""","""	if r == nil {
		return nil, op.cur, nil
	}
	lx, end := op.build(r, idx)
	return lx, end, r
}

func (op *lexOp) build(r *rule, idx []int) (*lexeme.Lexeme, int) {
	lx := &lexeme.Lexeme{
"""),(_K,"	return lx, offset + idx[1], r","	return lx, offset + idx[1]"))
zk("st-start",(_K,"		if loc != nil && loc[0]+loc[len(loc)-1] == op.cur && loc[0] < loc[1] {","		if loc != nil && startOf(loc) == op.cur && loc[0] < loc[1] {"),(_K,"		if loc != nil && loc[0]+loc[len(loc)-1] <= op.cur {","		if loc != nil && startOf(loc) <= op.cur {"),(_K,"","\nfunc startOf(loc []int) int { return loc[0] + loc[len(loc)-1] }\n"))
zk("st-switch",(_K,"""		if r != nil && r.pop > 0 {
			op.pop(r.pop)
		} else if r != nil && r.push != "" {
			op.stack = append(op.stack, op.subLexer)
			op.subLexer = op.lexers[r.push]
			op.populateNext()
		} else {
			op.updateNext()
		}
""","""		switch {
		case r.pop > 0:
			op.pop(r.pop)
		case r.push != "":
			op.pushLexer(r.push)
		default:
			op.updateNext()
		}
"""),(_K,"","""
func (op *lexOp) pushLexer(name string) {
	op.stack = append(op.stack, op.subLexer)
	op.subLexer = op.lexers[name]
	op.populateNext()
}
"""))
zk("st-whole",(_K,"""	offset := idx[len(idx)-1]
	if r.submatches != nil {
		for _, sub := range r.submatches {
			if sub.section == -1 {
				lx.V += sub.str
			} else if s := sub.section * 2; s >= 0 && s+2 < len(idx) && idx[s] >= 0 {
				lx.V += string(op.b[offset+idx[s] : offset+idx[s+1]])
			}
		}
		op.handleLineCol(lx, string(op.b[offset+idx[0]:offset+idx[1]]))
	} else {
		lx.V = string(op.b[offset+idx[0] : offset+idx[1]])
		op.handleLineCol(lx, lx.V)
	}

	return lx, offset + idx[1], r
""","""	offset := idx[len(idx)-1]
	start, end := offset+idx[0], offset+idx[1]
	whole := string(op.b[start:end])
	if r.submatches == nil {
		lx.V = whole
	} else {
		lx.V = op.rewrite(r.submatches, idx, offset)
	}
	op.handleLineCol(lx, whole)
	return lx, end, r
"""),(_K,"","""
func (op *lexOp) rewrite(subs []submatch, idx []int, offset int) string {
	v := ""
	for _, sub := range subs {
		if sub.section == -1 {
			v += sub.str
			continue
		}
		s := sub.section * 2
		if s < 0 || s+2 >= len(idx) || idx[s] < 0 {
			continue
		}
		v += string(op.b[offset+idx[s] : offset+idx[s+1]])
	}
	return v
}
"""))
zk("st-step",(_K,"""	for {
		lx, lxEnd, r := op.findNextMatch()
		if lxEnd == op.cur {
			if len(op.stack) == 0 {
				op.setError()
				op.cur++
				if op.cur >= len(op.b) {
					break
				}
				op.updateNext()
			} else {
				op.pop(1)
			}
			continue
		}
""","""	for {
		lx, lxEnd, r := op.findNextMatch()
		if r == nil {
			if !op.noMatch() {
				break
			}
			continue
		}
"""),(_K,"","""
func (op *lexOp) noMatch() bool {
	if len(op.stack) > 0 {
		op.pop(1)
		return true
	}
	op.setError()
	op.cur++
	if op.cur >= len(op.b) {
		return false
	}
	op.updateNext()
	return true
}
"""))
zk("st-unify",(_K,"""			loc := op.rules[kind].re.FindSubmatchIndex(op.b[op.cur:])
			if loc != nil {
				loc = append(loc, op.cur)
			}
			op.next[kind] = loc
		}
	}
}

func (op *lexOp) findNextMatch""","""			op.find(kind, r)
		}
	}
}

func (op *lexOp) find(kind int, r *rule) {
	loc := r.re.FindSubmatchIndex(op.b[op.cur:])
	if loc != nil {
		loc = append(loc, op.cur)
	}
	op.next[kind] = loc
}

func (op *lexOp) findNextMatch"""),(_K,"""			loc := op.rules[kind].re.FindSubmatchIndex(op.b[op.cur:])
			if loc != nil {
				loc = append(loc, op.cur)
			}
			op.next[kind] = loc
		}
	}
}

func (op *lexOp) consume""","""			op.find(kind, op.rules[kind])
		}
	}
}

func (op *lexOp) consume"""))
zk("sl-done",(_S,"		if op.cur >= len(op.b) {\n			break\n		}\n		op.updateNext()\n","		if op.done() {\n			break\n		}\n		op.updateNext()\n"),(_S,"","\nfunc (op *lexOp) done() bool { return op.cur >= len(op.b) }\n"))
zk("st-more",(_K,"	op.setError()\n	op.cur = len(op.b)\n","	op.setError()\n	op.cur += len(op.b) - op.cur\n"),(_K,"		op.cur = lxEnd\n		if op.cur >= len(op.b) {\n			break\n		}","		more := lxEnd < len(op.b)\n		op.cur = lxEnd\n		if !more {\n			break\n		}"))

N="tree/node_reductions.go"; T="tree/parsetree.go"
gi='''	l := len(p.C)
	if cIdx < 0 {
		cIdx = l + cIdx
	}
	return cIdx, l, cIdx >= 0 && cIdx < l
'''
mut("C12","getidx-early","ok",(N,gi,"	l := len(p.C)\n	if cIdx >= l || cIdx < -l {\n		if cIdx < 0 {\n			return l + cIdx, l, false\n		}\n		return cIdx, l, false\n	}\n	if cIdx < 0 {\n		cIdx += l\n	}\n	return cIdx, l, true\n"))
mut("C12","getidx-le","bad",(N,"cIdx >= 0 && cIdx < l","cIdx >= 0 && cIdx <= l"))
mut("C12","getidx-nolow","bad",(N,"return cIdx, l, cIdx >= 0 && cIdx < l","return cIdx, l, cIdx < l"))
mut("C12","getidx-wrap","bad",(N,"	if cIdx < 0 {\n		cIdx = l + cIdx\n	}\n	return","	for cIdx < 0 && l > 0 {\n		cIdx += l\n	}\n	return"))
rm='''	if cIdx == l-1 {
		p.C = p.C[:cIdx]
	} else {
		p.C = append(p.C[0:cIdx], p.C[cIdx+1:]...)
	}
	return true
}

// PromoteSingle'''
mut("C12","rm-append-only","ok",(N,rm,"	_ = l\n	p.C = append(p.C[:cIdx], p.C[cIdx+1:]...)\n	return true\n}\n\n// PromoteSingle"))
mut("C12","rm-copy","ok",(N,rm,"	copy(p.C[cIdx:], p.C[cIdx+1:])\n	p.C = p.C[:l-1]\n	return true\n}\n\n// PromoteSingle"))
mut("C12","rm-copy-nil","ok",(N,rm,"	copy(p.C[cIdx:], p.C[cIdx+1:])\n	p.C[l-1] = nil\n	p.C = p.C[:l-1]\n	return true\n}\n\n// PromoteSingle"))
mut("C12","rm-loop","ok",(N,rm,"	c := make([]*PN, 0, l-1)\n	for i, ch := range p.C {\n		if i != cIdx {\n			c = append(c, ch)\n		}\n	}\n	p.C = c\n	return true\n}\n\n// PromoteSingle"))
mut("C12","rm-two-appends","ok",(N,rm,"	c := make([]*PN, 0, l-1)\n	c = append(c, p.C[:cIdx]...)\n	c = append(c, p.C[cIdx+1:]...)\n	p.C = c\n	return true\n}\n\n// PromoteSingle"))
mut("C12","rm-swap","bad",(N,rm,"	p.C[cIdx] = p.C[l-1]\n	p.C = p.C[:l-1]\n	return true\n}\n\n// PromoteSingle"))
mut("C12","rm-last-wrong","bad",(N,"	if cIdx == l-1 {\n		p.C = p.C[:cIdx]","	if cIdx == l-1 {\n		p.C = p.C[:len(p.C)-2+1-1+1]\n	} else if cIdx == l-2 {\n		p.C = p.C[:cIdx]"))
pg='''	if cIdx == l-1 {
		p.C = append(p.C[:cIdx], p.C[cIdx].C...)
	} else {
		p.C = append(p.C[:cIdx], append(p.C[cIdx].C, p.C[cIdx+1:]...)...)
	}
'''
mut("C12","pco-flip","bad",(N,pg,"	_ = l\n	p.C = append(append(p.C[:cIdx], p.C[cIdx].C...), p.C[cIdx+1:]...)\n"))
mut("C12","pco-copytail","ok",(N,pg,"	_ = l\n	mid := p.C[cIdx].C\n	tail := append([]*PN(nil), p.C[cIdx+1:]...)\n	p.C = append(p.C[:cIdx], mid...)\n	p.C = append(p.C, tail...)\n"))
mut("C12","pco-fresh","ok",(N,pg,"	mid := p.C[cIdx].C\n	out := make([]*PN, 0, l-1+len(mid))\n	out = append(out, p.C[:cIdx]...)\n	out = append(out, mid...)\n	out = append(out, p.C[cIdx+1:]...)\n	p.C = out\n"))
mut("C12","pco-helper","ok",(N,pg,"	_ = l\n	p.C = splice(p.C, cIdx, p.C[cIdx].C)\n"),(N,"// PromoteGrandChildren will","func splice(list []*PN, at int, mid []*PN) []*PN {\n	out := make([]*PN, 0, len(list)-1+len(mid))\n	out = append(out, list[:at]...)\n	out = append(out, mid...)\n	return append(out, list[at+1:]...)\n}\n\n// PromoteGrandChildren will"))
mut("C12","pco-droplast","bad",(N,"p.C = append(p.C[:cIdx], append(p.C[cIdx].C, p.C[cIdx+1:]...)...)","p.C = append(p.C[:cIdx], append(p.C[cIdx].C, p.C[cIdx+1:l-1]...)...)"))
mut("C12","pc-order","ok",(N,'''	p.Lexeme = p.C[cIdx].Lexeme
	tail := p.C[cIdx].C
	if cIdx+1 < l {
		tail = append(tail, p.C[cIdx+1:]...)
	}
	p.C = append(p.C[0:cIdx], tail...)
''','''	ch := p.C[cIdx]
	p.PromoteChildrenOf(cIdx)
	p.Lexeme = ch.Lexeme
	_ = l
'''))
mut("C12","pc-lexeme-after","bad",(N,'''	p.Lexeme = p.C[cIdx].Lexeme
	tail := p.C[cIdx].C
	if cIdx+1 < l {
		tail = append(tail, p.C[cIdx+1:]...)
	}
	p.C = append(p.C[0:cIdx], tail...)
''','''	tail := p.C[cIdx].C
	if cIdx+1 < l {
		tail = append(tail, p.C[cIdx+1:]...)
	}
	ch := p.C[0:cIdx+1]
	p.C = append(p.C[0:cIdx], tail...)
	p.Lexeme = ch[cIdx].Lexeme
'''))
mut("C12","pc-skip-tail","bad",(N,"if cIdx+1 < l {","if cIdx+2 < l {"))
mut("C12","pcv-pos","bad",(N,".At(ch.Pos())",".At(p.Pos())"))
mut("C12","pcv-kind","bad",(N,"lexeme.New(p.Kind()).Set(ch","lexeme.New(ch.Kind()).Set(ch"))
mut("C12","pcv-steps","ok",(N,"	p.Lexeme = lexeme.New(p.Kind()).Set(ch.Value()).At(ch.Pos())\n","	line, col := ch.Pos()\n	lx := lexeme.New(p.Kind())\n	lx = lx.At(line, col)\n	lx = lx.Set(ch.Value())\n	p.Lexeme = lx\n"))
mut("C12","pcv-remove-first","bad",(N,"	p.RemoveChild(cIdx)\n}","	if len(p.C) > 1 {\n		p.RemoveChild(cIdx)\n	}\n}"))
mut("C12","rwc-loop","ok",(N,"	p.Lexeme, p.C = ch.Lexeme, ch.C\n","	p.C = ch.C\n	p.Lexeme = ch.Lexeme\n"))
mut("C12","rwc-nolex","bad",(N,"	p.Lexeme, p.C = ch.Lexeme, ch.C\n","	p.C = ch.C\n	if len(ch.C) > 0 {\n		p.Lexeme = ch.Lexeme\n	}\n"))
rc='''		if !drop[cIdx] {
			drop[cIdx] = true
			ln--
		}
'''
mut("C12","rcs-dup-panic","bad",(N,rc,"		drop[cIdx] = true\n		ln--\n"))
mut("C12","rcs-nocap","ok",(N,rc,"		drop[cIdx] = true\n"),(N,"newC := make([]*PN, 0, ln)","newC := make([]*PN, 0)"))
mut("C12","rcs-toggle","bad",(N,rc,"		if drop[cIdx] = !drop[cIdx]; drop[cIdx] {\n			ln--\n		} else {\n			ln++\n		}\n"))
mut("C12","rcs-neg","bad",(N,"	for _, cIdx := range cIdxs {\n		cIdx, _, ok := p.GetIdx(cIdx)\n		if !ok {\n			continue\n		}\n","	for _, cIdx := range cIdxs {\n		if cIdx < 0 || cIdx >= len(drop) {\n			continue\n		}\n"))
mut("C12","rcs-break","bad",(N,"		if !ok {\n			continue\n		}\n		if !drop","		if !ok {\n			break\n		}\n		if !drop"))
mut("C12","rcs-map","ok",(N,'''	ln := len(p.C)
	drop := make([]bool, ln)
''','''	drop := map[int]bool{}
'''),(N,rc,"		drop[cIdx] = true\n"),(N,'''	newC := make([]*PN, 0, ln)
	for idx, skip := range drop {
		if !skip {
			newC = append(newC, p.C[idx])
		}
	}
''','''	newC := make([]*PN, 0, len(p.C)-len(drop))
	for idx, c := range p.C {
		if !drop[idx] {
			newC = append(newC, c)
		}
	}
'''))
mut("C12","rcs-reuse","ok",(N,"newC := make([]*PN, 0, ln)","newC := p.C[:0]"))
mut("C12","rcs-inline","ok",(N,'''		if !drop[cIdx] {
			drop[cIdx] = true
			ln--
		}
''','''		if drop[cIdx] {
			continue
		}
		drop[cIdx] = true
		ln--
'''))
mut("C12","ra-noback","ok",(N,'''	for i := 0; i < len(p.C); i++ {
		if p.ChildAt(i, symbols...) {
			p.RemoveChild(i)
			i--
		}
	}''','''	for i := len(p.C) - 1; i >= 0; i-- {
		if p.ChildAt(i, symbols...) {
			p.RemoveChild(i)
		}
	}'''))
mut("C12","child-direct","bad",(T,'''	cIdx, _, ok := p.GetIdx(cIdx)
	if !ok {
		return nil
	}
	return p.C[cIdx]''','''	if cIdx < 0 {
		cIdx += len(p.C)
	}
	if cIdx >= len(p.C) {
		return nil
	}
	return p.C[cIdx]'''))
mut("C12","childis-direct","ok",(N,"return p.Child(cIdx).Kind().String() == kind","return p.C[cIdx].Kind().String() == kind"))
mut("C12","childis-at","ok",(N,'''	cIdx, _, ok := p.GetIdx(cIdx)
	if !ok {
		return false
	}
	return p.Child(cIdx).Kind().String() == kind''','''	ch := p.Child(cIdx)
	return ch != nil && ch.Kind().String() == kind'''))
mut("C12","childis-twice","bad",(N,'''	cIdx, _, ok := p.GetIdx(cIdx)
	if !ok {
		return false
	}
	return p.Child(cIdx).Kind().String() == kind''','''	i, _, ok := p.GetIdx(cIdx)
	if !ok {
		return false
	}
	if i != cIdx {
		i, _, _ = p.GetIdx(cIdx - 1)
	}
	return p.C[i].Kind().String() == kind'''))
mut("C12","childat-neg","bad",(T,"	cs := p.C[cIdx].Kind().String()","	cs := p.C[len(p.C)-1-cIdx].Kind().String()"))
mut("C12","psc-ge","bad",(N,"if len(p.C) == 1 {","if len(p.C) >= 1 {"))
mut("C12","psc-ret","ok",(N,"		p.PromoteChild(0)\n		return true\n	}\n	return false","		return p.PromoteChild(0)\n	}\n	return false"))
mut("C12","childat-all","bad",(T,"		if s == cs {\n			return true\n		}\n	}\n	return false","		if s != cs {\n			return false\n		}\n	}\n	return true"))
mut("C12","childat-first","bad",(T,"	for _, s := range symbs {","	for _, s := range symbs[:1] {"))

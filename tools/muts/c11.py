T="tree/parsetree.go"
par='''	if p.P == nil {
		return nil
	}
	return p.P
}'''
mut("C11","parent-unguarded","bad",(T,par,"	return p.P\n}"))
mut("C11","parent-inverted","ok",(T,par,"	if parent := p.P; parent != nil {\n		return parent\n	}\n	return nil\n}"))
mut("C11","parent-var","ok",(T,par,"	var r parlex.ParseNode\n	if p.P != nil {\n		r = p.P\n	}\n	return r\n}"))
mut("C11","parent-helper","ok",(T,par,"	if !p.hasParent() {\n		return nil\n	}\n	return p.P\n}\n\nfunc (p *PN) hasParent() bool { return p.P != nil }"))
mut("C11","parent-helper-wrap","bad",(T,par,"	return wrap(p.P)\n}\n\nfunc wrap(p *PN) parlex.ParseNode { return p }"))
mut("C11","parent-helper-wrap-ok","ok",(T,par,"	return wrap(p.P)\n}\n\nfunc wrap(p *PN) parlex.ParseNode {\n	if p == nil {\n		return nil\n	}\n	return p\n}"))
mut("C11","parent-grand","bad",(T,par,"	if p.P == nil {\n		return nil\n	}\n	if p.P.P == nil {\n		return p.P.P\n	}\n	return p.P\n}"))
ch='''	cIdx, _, ok := p.GetIdx(cIdx)
	if !ok {
		return nil
	}
	return p.C[cIdx]
}'''
mut("C11","child-typed-nil","bad",(T,ch,"	return p.child(cIdx)\n}\n\nfunc (p *PN) child(cIdx int) *PN {\n"+ch))
mut("C11","child-ok","ok",(T,ch,"	if c, ok := p.child(cIdx); ok {\n		return c\n	}\n	return nil\n}\n\nfunc (p *PN) child(cIdx int) (*PN, bool) {\n	cIdx, _, ok := p.GetIdx(cIdx)\n	if !ok {\n		return nil, false\n	}\n	return p.C[cIdx], true\n}"))
G="grammar/grammar.go"
pr='''	p := g.productions[idx]
	if p == nil {
		return nil
	}
	return p
}'''
mut("C11","productions-unguarded","bad",(G,pr,"	return g.productions[idx]\n}"))
mut("C11","productions-two-loads","ok",(G,"	if idx < 0 || idx >= len(g.productions) {\n		return nil\n	}\n"+pr,"	if idx < 0 || idx >= len(g.productions) || g.productions[idx] == nil {\n		return nil\n	}\n	return g.productions[idx]\n}"))
mut("C11","productions-inverted","ok",(G,"	if idx < 0 || idx >= len(g.productions) {\n		return nil\n	}\n"+pr,"	if idx >= 0 && idx < len(g.productions) && g.productions[idx] != nil {\n		return g.productions[idx]\n	}\n	return nil\n}"))
mut("C11","productions-helper","ok",(G,"	if idx < 0 || idx >= len(g.productions) {\n		return nil\n	}\n"+pr,"	if p := g.prodsAt(idx); p != nil {\n		return p\n	}\n	return nil\n}\n\nfunc (g *Grammar) prodsAt(idx int) *setsymbol.Productions {\n	if idx < 0 || idx >= len(g.productions) {\n		return nil\n	}\n	return g.productions[idx]\n}"))
mut("C11","productions-empty","bad",(G,"	if idx < 0 || idx >= len(g.productions) {\n		return nil\n	}\n","	if idx < 0 || idx >= len(g.productions) {\n		return &setsymbol.Productions{}\n	}\n"))
D="parser/topdown/topdown.go"
mut("C11","topdown-typed-nil","bad",(D,'''	if node == nil {
		return nil
	}
	// the memoized nodes are shared and have no parents
	return tree.Clone(node)
''','''	if node != nil {
		// the memoized nodes are shared and have no parents
		node = tree.Clone(node)
	}
	return node
'''))
mut("C11","topdown-inv","ok",(D,'''	if node == nil {
		return nil
	}
	// the memoized nodes are shared and have no parents
	return tree.Clone(node)
''','''	if node != nil {
		// the memoized nodes are shared and have no parents
		return tree.Clone(node)
	}
	return nil
'''))
mut("C11","topdown-resp","ok",(D,'''	node := op.accept(treeKey{start, 0}, true).node()
	if node == nil {
		return nil
	}
	// the memoized nodes are shared and have no parents
	return tree.Clone(node)
''','''	r := op.accept(treeKey{start, 0}, true)
	if r == nil {
		return nil
	}
	return tree.Clone(r.PN)
'''))
R="tree/reducer.go"
mut("C11","reduce-raw","bad",(R,'''	if node == nil {
		// RawReduce returning nil is not the same thing
		return nil
	}
''',""))
mut("C11","reduce-inverted","ok",(R,'''	if node == nil {
		// RawReduce returning nil is not the same thing
		return nil
	}
	return r.RawReduce(node)
''','''	if node != nil {
		return r.RawReduce(node)
	}
	return nil
'''))
mut("C11","reduce-result-test","ok",(R,'''	if node == nil {
		// RawReduce returning nil is not the same thing
		return nil
	}
	return r.RawReduce(node)
''','''	pn := r.RawReduce(node)
	if pn == nil {
		return nil
	}
	return pn
'''))
mut("C11","raw-drop","bad",(R,'''	for _, c := range cp.C {
		if c != nil {
			c.P = cp
		}
	}
''','''	for _, c := range cp.C {
		if c != nil {
			c.P = cp
		}
	}
	if cp.Lexeme == nil {
		return nil
	}
'''))
mut("C11","symbol-le","bad",("symbol/setsymbol/set.go","	if i >= 0 && i < len(p.symbs) {","	if i >= 0 && i <= len(p.symbs) {"))

S="lexer/simplelexer/construct.go"; K="lexer/stacklexer/construct.go"; G="grammar/grammar.go"; T="tree/parsetree.go"; TD="parser/topdown/topdown.go"; RG="grammar/regexgram/regexgram.go"; TR="tree/reducer/reducer.go"; H="helpers.go"; PK="parser/packrat/packrat.go"
mut("C10","simple-ignore-dup","bad",(S,"			err = l.addRule(r)\n			if err != nil {\n				return nil, err\n			}\n","			l.addRule(r)\n"))
mut("C10","simple-skip-bad-line","bad",(S,"			if err != nil {\n				return nil, err\n			}\n			if r == nil {","			if r == nil {"))
mut("C10","simple-value-and-error","bad",(S,"			err = l.addRule(r)\n			if err != nil {\n				return nil, err\n			}\n","			err = l.addRule(r)\n			if err != nil {\n				return l, err\n			}\n"))
mut("C10","simple-last-error","bad",(S,'''	for _, definition := range definitions {
		for _, line''','''	var last error
	for _, definition := range definitions {
		for _, line'''),(S,'''			err = l.addRule(r)
			if err != nil {
				return nil, err
			}
''','''			last = l.addRule(r)
'''),(S,"	return l, nil\n","	if last != nil {\n		return nil, last\n	}\n	return l, nil\n"))
mut("C10","simple-first-error","ok",(S,'''	for _, definition := range definitions {
		for _, line''','''	var first error
	for _, definition := range definitions {
		for _, line'''),(S,'''			err = l.addRule(r)
			if err != nil {
				return nil, err
			}
''','''			if err = l.addRule(r); err != nil && first == nil {
				first = err
			}
'''),(S,"	return l, nil\n","	if first != nil {\n		return nil, first\n	}\n	return l, nil\n"))
mut("C10","simple-collect-errors","ok",(S,'''	for _, definition := range definitions {
		for _, line''','''	var all []error
	for _, definition := range definitions {
		for _, line'''),(S,'''			err = l.addRule(r)
			if err != nil {
				return nil, err
			}
''','''			if err = l.addRule(r); err != nil {
				all = append(all, err)
			}
'''),(S,"	return l, nil\n","	if len(all) > 0 {\n		return nil, all[0]\n	}\n	return l, nil\n"))
mut("C10","simple-helper-bool","ok",(S,'''			err = l.addRule(r)
			if err != nil {
				return nil, err
			}
''','''			if !l.tryRule(r) {
				return nil, fmt.Errorf("Duplicate Kind: %s", l.set.ByIdx(r.kind).String())
			}
'''),(S,"// String exports","func (l *Lexer) tryRule(r *rule) bool {\n	return l.addRule(r) == nil\n}\n\n// String exports"))
mut("C10","simple-helper-line","ok",(S,'''			r, err := l.ruleFromLine(line)
			if err != nil {
				return nil, err
			}
			if r == nil {
				continue
			}
			err = l.addRule(r)
			if err != nil {
				return nil, err
			}
''','''			if err := l.addLine(line); err != nil {
				return nil, err
			}
'''),(S,"// String exports",'''func (l *Lexer) addLine(line string) error {
	r, err := l.ruleFromLine(line)
	if err == nil && r != nil {
		err = l.addRule(r)
	}
	return err
}

// String exports'''))
mut("C10","simple-wrap","ok",(S,'''			err = l.addRule(r)
			if err != nil {
				return nil, err
			}
''','''			if err = l.addRule(r); err != nil {
				return nil, fmt.Errorf("%s: %v", line, err)
			}
'''))
mut("C10","simple-mustcompile","bad",(S,'''	re, err := regexp.Compile(m[i])
	if err != nil {
		return nil, err
	}
''','''	re := regexp.MustCompile(m[i])
'''))
mut("C10","simple-quote-fallback","bad",(S,'''	re, err := regexp.Compile(m[i])
	if err != nil {
		return nil, err
	}
''','''	re, err := regexp.Compile(m[i])
	if err != nil {
		return nil, nil
	}
'''))
mut("C10","simple-dup-replaces","bad",(S,"		if l.rules[r.kind] != nil {\n			return","		if l.rules[r.kind] != nil && l.rules[r.kind].discard != r.discard {\n			return"))
mut("C10","simple-dup-inverted","bad",(S,"	if r.kind < len(l.rules) {\n		if l.rules","	if r.kind < len(l.order) {\n		if l.rules"))
mut("C10","simple-dup-flat","ok",(S,'''	if r.kind < len(l.rules) {
		if l.rules[r.kind] != nil {
			return fmt.Errorf("Duplicate Kind: %s", l.set.ByIdx(r.kind).String())
		}
	} else {
		l.rules = append(l.rules, make([]*rule, 1+r.kind-len(l.rules))...)
	}
''','''	if missing := 1 + r.kind - len(l.rules); missing > 0 {
		l.rules = append(l.rules, make([]*rule, missing)...)
	}
	if old := l.rules[r.kind]; old != nil {
		return fmt.Errorf("Duplicate Kind: %s", l.set.ByIdx(r.kind).String())
	}
'''))
mut("C10","stack-parse-shadow","bad",(K,"			err = from.addHeir(sl, defs, done, stack)\n","			err := from.addHeir(sl, defs, done, stack)\n			_ = err\n"))
mut("C10","stack-parse-nobreak","bad",(K,"		if err != nil {\n			break\n		}\n		m := sub","		m := sub"))
mut("C10","stack-heir-drops","bad",(K,"	err := sl.parse(defs, done, stack)\n	if err != nil {\n		return err\n	}\n","	sl.parse(defs, done, stack)\n"))
mut("C10","stack-done-first","bad",(K,'''	if stack[sl.name] {
		return ErrCyclic
	}
	if done[sl.name] {
		return nil
	}
''','''	if done[sl.name] {
		return nil
	}
	if stack[sl.name] {
		return ErrCyclic
	}
'''))
mut("C10","stack-mark-late","bad",(K,"	stack[sl.name] = true\n	var err error\n","	var err error\n"),(K,"	stack[sl.name] = false\n	return err","	stack[sl.name] = false\n	_ = stack\n	return err"))
mut("C10","stack-return-early","ok",(K,'''	var err error
	for _, line := range strings.Split(defs[sl.name], "\\n") {
		if err != nil {
			break
		}
''','''	for _, line := range strings.Split(defs[sl.name], "\\n") {
'''),(K,'''			err = from.addHeir(sl, defs, done, stack)
			continue
		}

		err = sl.addMatch(m)
	}
	stack[sl.name] = false
	return err
''','''			if err := from.addHeir(sl, defs, done, stack); err != nil {
				return err
			}
			continue
		}

		if err := sl.addMatch(m); err != nil {
			return err
		}
	}
	delete(stack, sl.name)
	return nil
'''))
mut("C10","stack-new-names","bad",(K,"			return nil, err\n		}\n	}\n\n	l.set.Str","			break\n		}\n	}\n\n	l.set.Str"))
mut("C10","stack-nil-nil","bad",(K,"	l.set.Str(l.Error)\n	return l, nil\n","	if l.start == nil {\n		return nil, nil\n	}\n	l.set.Str(l.Error)\n	return l, nil\n"))
mut("C10","grammar-arrows","bad",(G,"	} else if l > 2 {\n","	} else if l > 3 {\n"))
mut("C10","grammar-switch","ok",(G,'''	if l := len(p); l == 1 {
		prod = g.trimAndSplit(p[0])
	} else if l == 2 {
		ntstr''','''	switch len(p) {
	case 1:
		prod = g.trimAndSplit(p[0])
	case 2:
		ntstr'''),(G,"	} else if l > 2 {\n","	default:\n"))
mut("C10","grammar-continue","bad",(G,"		if err != nil {\n			return nil, err\n		}\n		if prod == nil {","		if err != nil || prod == nil {"))
mut("C10","grammar-only-if-prod","bad",(G,"		if err != nil {\n			return nil, err\n		}\n		if prod == nil {","		if err != nil && cur == -1 {\n			return nil, err\n		}\n		if prod == nil {"))
mut("C10","grammar-named","ok",(G,"		if err != nil {\n			return nil, err\n		}\n		if prod == nil {","		if failed := err != nil; failed {\n			g = nil\n			return g, err\n		}\n		if prod == nil {"))
mut("C10","tree-no-whole","bad",(T,"		if len(line) != len(m[0]) {\n			return nil, ErrBadTreeString\n		}\n",""))
mut("C10","tree-less","bad",(T,"		if len(line) != len(m[0]) {","		if len(line) < len(m[0]) {"))
mut("C10","tree-greater","ok",(T,"		if len(line) != len(m[0]) {","		if len(line) > len(m[0]) {"))
mut("C10","tree-streq","ok",(T,"		if len(line) != len(m[0]) {","		if m[0] != line {"))
mut("C10","tree-anchor","ok",(T,"MustCompile(`\\s*(\\}?)","MustCompile(`^\\s*(\\}?)"),(T,"		if len(line) != len(m[0]) {","		if m == nil {"))
mut("C10","tree-anchor-crash","ok",(T,"MustCompile(`\\s*(\\}?)","MustCompile(`^\\s*(\\}?)"))
mut("C10","tree-partial","bad",(T,"	cur = root.C[0]\n	cur.P = nil\n	return cur, nil","	var err error\n	if len(root.C) > 1 {\n		err = ErrBadTreeString\n	}\n	cur = root.C[0]\n	cur.P = nil\n	return cur, err"))
mut("C10","td-ignores","bad",(TD,"	if parlex.IsLeftRecursive(grmr) {\n","	if parlex.IsLeftRecursive(grmr) && len(grmr.NonTerminals()) > 1 {\n"))
mut("C10","td-flipped","ok",(TD,"	if parlex.IsLeftRecursive(grmr) {\n		return nil, ErrLeftRecursion\n	}\n	return &Topdown{\n		Grammar: grmr,\n	}, nil\n","	if !parlex.IsLeftRecursive(grmr) {\n		return &Topdown{Grammar: grmr}, nil\n	}\n	return nil, ErrLeftRecursion\n"))
mut("C10","rg-drops","bad",(RG,"	if err != nil {\n		return nil, nil, err\n	}\n	g, r :=","	if err != nil {\n		return nil, nil, nil\n	}\n	g, r :="))
mut("C10","rg-both","bad",(RG,"	if err != nil {\n		return nil, nil, err\n	}\n	g, r :=","	if err != nil {\n		return grammar.Empty(), nil, err\n	}\n	g, r :="))
mut("C10","rg-must","bad",(RG,"	if err != nil {\n		panic(err)\n	}\n	return g, r","	if err != nil && g != nil {\n		panic(err)\n	}\n	return g, r"))
mut("C10","tr-parse-empty","bad",(TR,"	if err != nil {\n		return nil, err\n	}\n	rdcr := make","	if err != nil {\n		return tree.Reducer{}, err\n	}\n	rdcr := make"))
mut("C10","must-helper","ok",(H,"	if err != nil {\n		panic(err)\n	}\n	return p\n","	must(err)\n	return p\n"),(H,"	if err != nil {\n		panic(err)\n	}\n	return l\n","	must(err)\n	return l\n"),(H,"// LexError allows","func must(err error) {\n	if err != nil {\n		panic(err)\n	}\n}\n\n// LexError allows"))
mut("C10","must-nilvalue","bad",(H,"	if err != nil {\n		panic(err)\n	}\n	return p\n","	if err != nil || p == nil {\n		panic(err)\n	}\n	return p\n"))
mut("C10","must-and","bad",(H,"	if err != nil {\n		panic(err)\n	}\n	return g\n","	if err != nil && g == nil {\n		panic(err)\n	}\n	return g\n"))
mut("C10","panic-elsewhere","bad",(PK,"	nts := p.Grammar.NonTerminals()\n	if len(nts) == 0 {\n		return nil\n","	nts := p.Grammar.NonTerminals()\n	if len(nts) == 0 {\n		panic(\"no start symbol\")\n"))
mut("C10","panic-tree","bad",("tree/node_reductions.go","","\nfunc mustIdx(ok bool) {\n	if !ok {\n		panic(\"index\")\n	}\n}\n\n// At gives a child.\nfunc (p *PN) At(i int) *PN {\n	i, _, ok := p.GetIdx(i)\n	mustIdx(ok)\n	return p.C[i]\n}\n"))
mut("C10","pk-constructor-nil","bad",(PK,"	return &Packrat{\n		Grammar: grmr,\n	}, nil\n","	if grmr == nil {\n		return nil, nil\n	}\n	return &Packrat{\n		Grammar: grmr,\n	}, nil\n"))
mut("C10","pk-constructor-new","ok",(PK,"	return &Packrat{\n		Grammar: grmr,\n	}, nil\n","	return New(grmr), nil\n"))
mut("C10","tree-open-brace","bad",(T,"	if cur != root || len(root.C) == 0 {","	if len(root.C) == 0 {"))
mut("C10","tree-open-depth","ok",(T,"	if cur != root || len(root.C) == 0 {","	if depth != 0 || len(root.C) == 0 {"),(T,"	cur := root\n","	cur, depth := root, 0\n"),(T,"				cur = ch\n","				cur = ch\n				depth++\n"),(T,"			cur = cur.P\n","			cur = cur.P\n			depth--\n"))
mut("C10","tree-open-split","ok",(T,"	if cur != root || len(root.C) == 0 {","	if len(root.C) == 0 {\n		return nil, ErrBadTreeString\n	}\n	if cur != root {"))
mut("C10","tree-open-nested","ok",(T,'''	if cur != root || len(root.C) == 0 {
		return nil, ErrBadTreeString
	}
	cur = root.C[0]
	cur.P = nil
	return cur, nil
''','''	if cur == root && len(root.C) > 0 {
		top := root.C[0]
		top.P = nil
		return top, nil
	}
	return nil, ErrBadTreeString
'''))

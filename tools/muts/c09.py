P="parlex.go"
errs='''	errs := LexErrors(lexemes)
	if len(errs) > 0 {
		return nil, errs[0]
	}
'''
loop='''	for _, reducer := range reducers {
		if reducer != nil {
			parseTree = reducer.Reduce(parseTree)
			if parseTree == nil {
				return nil, ErrCouldNotReduce
			}
		}
	}
'''
mut("C09","inline-errs","ok",(P,errs,'''	for i := 0; i < len(lexemes); i++ {
		if e, bad := lexemes[i].(LexError); bad {
			return nil, e
		}
	}
'''))
mut("C09","reduce-helper","ok",(P,loop,'''	parseTree, ok := reduceAll(parseTree, reducers)
	if !ok {
		return nil, ErrCouldNotReduce
	}
'''),(P,"",'''
func reduceAll(t ParseNode, rs []Reducer) (ParseNode, bool) {
	for i := range rs {
		if rs[i] == nil {
			continue
		}
		if t = rs[i].Reduce(t); t == nil {
			return nil, false
		}
	}
	return t, true
}
'''))
mut("C09","reduce-recursive-slice","ok",(P,loop,'''	for len(reducers) > 0 {
		r := reducers[0]
		reducers = reducers[1:]
		if r == nil {
			continue
		}
		parseTree = r.Reduce(parseTree)
		if parseTree == nil {
			return nil, ErrCouldNotReduce
		}
	}
'''))
mut("C09","copy-reducers","ok",(P,"		reducers: reducers,","		reducers: append([]Reducer(nil), reducers...),"))
mut("C09","new-drops-nil","ok",(P,'''	return &Runner{
		lexer:    lexer,
		parser:   parser,
		reducers: reducers,
	}''','''	r := &Runner{lexer: lexer, parser: parser}
	for _, x := range reducers {
		if x != nil {
			r.reducers = append(r.reducers, x)
		}
	}
	return r'''))
mut("C09","last-error","bad",(P,"errs[0]","errs[len(errs)-1]"))
mut("C09","nil-check-after","bad",(P,loop,'''	for _, reducer := range reducers {
		if reducer != nil {
			parseTree = reducer.Reduce(parseTree)
		}
	}
	if parseTree == nil {
		return nil, ErrCouldNotReduce
	}
'''))
mut("C09","stop-at-nil","bad",(P,"		if reducer != nil {\n","		if reducer == nil {\n			break\n		}\n		{\n"))
mut("C09","empty-lex","bad",(P,"if lexemes == nil","if len(lexemes) == 0"))
mut("C09","runner-first","bad",(P,"r.parser, r.reducers...)","r.parser, r.reducers[:1]...)"))
mut("C09","keep-tree","bad",(P,"return nil, ErrCouldNotReduce","return parseTree, ErrCouldNotParse"))
mut("C09","same-reducer-skip","bad",(P,"		if reducer != nil {\n			parseTree","		if reducer != nil && (i == 0 || reducers[i-1] != reducer) {\n			parseTree"),(P,"for _, reducer := range","for i, reducer := range"))
mut("C09","errors-after-parse","bad",(P,errs,""),(P,"		return nil, ErrCouldNotParse\n	}\n","		return nil, ErrCouldNotParse\n	}\n"+errs))
mut("C09","only-last-lexeme","bad",(P,"	errs := LexErrors(lexemes)\n","	errs := LexErrors(lexemes[len(lexemes)/2:])\n"))
mut("C09","collect-backwards","bad",("helpers.go","errs = append(errs, err)","errs = append([]LexError{err}, errs...)"))

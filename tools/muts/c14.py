C="tree/chain_reductions.go"; R="tree/reducer.go"
mut("C14","chain-order","bad",(C,"		r1(node)\n		r2(node)\n","		r2(node)\n		r1(node)\n"))
mut("C14","chain-nil2","bad",(C,"	if r2 == nil {\n		return r1\n	}\n","	if r2 == nil {\n		return nil\n	}\n"))
mut("C14","chain-lazy-nil","ok",(C,'''	if r1 == nil {
		return r2
	}
	if r2 == nil {
		return r1
	}
	return func(node *PN) {
		r1(node)
		r2(node)
	}''','''	return func(node *PN) {
		for _, r := range []Reduction{r1, r2} {
			if r != nil {
				r(node)
			}
		}
	}'''))
mut("C14","chain-switch","ok",(C,'''	if r1 == nil {
		return r2
	}
	if r2 == nil {
		return r1
	}
''','''	switch {
	case r1 == nil:
		return r2
	case r2 == nil:
		return r1
	}
'''))
ifb='''		if condition != nil && condition(node) {
			if then != nil {
				then(node)
			}
		} else {
			if otherwise != nil {
				otherwise(node)
			}
		}
'''
mut("C14","if-pick","ok",(C,ifb,'''		branch := otherwise
		if condition != nil && condition(node) {
			branch = then
		}
		if branch == nil {
			return
		}
		branch(node)
'''))
mut("C14","if-helper","ok",(C,ifb,'''		pick(condition, then, otherwise, node).apply(node)
'''),(C,"",'''
func pick(c Condition, a, b Reduction, n *PN) Reduction {
	if c == nil || !c(n) {
		return b
	}
	return a
}

func (r Reduction) apply(n *PN) {
	if r != nil {
		r(n)
	}
}
'''))
mut("C14","if-nil-then-falls","bad",(C,ifb,'''		if condition != nil && then != nil && condition(node) {
			then(node)
		} else if otherwise != nil {
			otherwise(node)
		}
'''))
mut("C14","if-nil-cond-then","bad",(C,"condition != nil && condition(node)","condition == nil || condition(node)"))
mut("C14","if-recheck","bad",(C,ifb,'''		if condition != nil && condition(node) && then != nil {
			then(node)
		}
		if condition == nil || !condition(node) {
			if otherwise != nil {
				otherwise(node)
			}
		}
'''))
mut("C14","if-no-chain","bad",(C,"	return Chain(r, If(condition, then, otherwise))","	if r == nil {\n		return If(condition, then, otherwise)\n	}\n	return Chain(r, If(condition, then, nil))"))
mut("C14","if-swapped-chain","bad",(C,"	return Chain(r, If(condition, then, otherwise))","	return If(condition, Chain(r, then), Chain(r, otherwise))"))
mut("C14","removechild-chain","bad",(C,"	return Chain(r, RemoveChild(cIdx))","	return Chain(RemoveChild(cIdx), r)"))
mut("C14","wrong-op","bad",(C,"	return Chain(r, PromoteChild(cIdx))","	return Chain(r, PromoteChildrenOf(cIdx))"))
mut("C14","variadic-first","bad",(C,"	return Chain(r, RemoveChildren(cIdxs...))","	if len(cIdxs) == 1 {\n		return Chain(r, RemoveChild(0))\n	}\n	return Chain(r, RemoveChildren(cIdxs...))"))
mut("C14","variadic-copy","ok",(C,"	return Chain(r, RemoveChildren(cIdxs...))","	return Chain(r, RemoveChildren(append([]int(nil), cIdxs...)...))"))
mut("C14","variadic-drop-last","bad",(C,"		node.RemoveAll(symbols...)\n","		node.RemoveAll(symbols[:len(symbols)/2]...)\n"))
mut("C14","twice","bad",(C,"		node.PromoteChildrenOf(cIdx)\n","		if !node.PromoteChildrenOf(cIdx) {\n			node.PromoteChildrenOf(cIdx)\n		}\n"))
mut("C14","bound-method","ok",(C,"	return func(node *PN) { node.RemoveChild(cIdx) }","	var r Reduction = func(n *PN) {\n		n.RemoveChild(cIdx)\n	}\n	return r"))
mg='''	merged := Reducer{}
	for symbol, r2fn := range r2 {
		if r1fn, found := r1[symbol]; !found {
			merged[symbol] = r2fn
		} else {
			merged[symbol] = Chain(r1fn, r2fn)
		}
	}
	for symbol, r1fn := range r1 {
		if _, found := merged[symbol]; !found {
			merged[symbol] = r1fn
		}
	}
	return merged
'''
mut("C14","merge-copy-first","ok",(R,mg,'''	merged := make(Reducer, len(r1)+len(r2))
	for symbol, r1fn := range r1 {
		merged[symbol] = r1fn
	}
	for symbol, r2fn := range r2 {
		merged[symbol] = Chain(merged[symbol], r2fn)
	}
	return merged
'''))
mut("C14","merge-helper","ok",(R,mg,'''	merged := Reducer{}
	addAll(merged, r1)
	addAll(merged, r2)
	return merged
'''),(R,"",'''
func addAll(to, from Reducer) {
	for s, fn := range from {
		old := to[s]
		to.Add(s, Chain(old, fn))
	}
}
'''))
mut("C14","merge-sorted","ok",(R,mg,'''	keys := make([]string, 0, len(r1)+len(r2))
	for k := range r1 {
		keys = append(keys, k)
	}
	for k := range r2 {
		if _, dup := r1[k]; !dup {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	merged := Reducer{}
	for _, k := range keys {
		merged[k] = Chain(r1[k], r2[k])
	}
	return merged
'''),(R,'	"github.com/adamcolton/parlex/lexeme"\n','	"github.com/adamcolton/parlex/lexeme"\n	"sort"\n'))
mut("C14","merge-order","bad",(R,"Chain(r1fn, r2fn)","Chain(r2fn, r1fn)"))
mut("C14","merge-drop-nil","bad",(R,mg,'''	merged := Reducer{}
	for symbol, r2fn := range r2 {
		merged[symbol] = r2fn
	}
	for symbol, r1fn := range r1 {
		if r2fn, found := merged[symbol]; found && r2fn == nil {
			continue
		}
		merged[symbol] = Chain(r1fn, merged[symbol])
	}
	return merged
'''))
mut("C14","merge-into-first","bad",(R,mg,'''	merged := Reducer{}
	for symbol, r1fn := range r1 {
		r2fn, found := r2[symbol]
		if !found {
			merged[symbol] = r1fn
			continue
		}
		merged[symbol] = Chain(r1fn, r2fn)
	}
	return merged
'''))
mut("C14","apply-nil-guard","ok",(R,'''	if reduction := r[cp.Kind().String()]; reduction != nil {
		reduction(cp)
	}
''','''	reduction, ok := r[cp.Kind().String()]
	if ok && reduction != nil {
		reduction(cp)
	}
'''))
mut("C14","apply-children-only","bad",(R,'''	if reduction := r[cp.Kind().String()]; reduction != nil {
		reduction(cp)
''','''	if reduction := r[cp.Kind().String()]; reduction != nil && len(cp.C) > 0 {
		reduction(cp)
'''))
mut("C14","apply-twice","bad",(R,'''	if reduction := r[cp.Kind().String()]; reduction != nil {
		reduction(cp)
''','''	if reduction := r[cp.Kind().String()]; reduction != nil {
		reduction(cp)
		if len(cp.C) == 0 {
			reduction(cp)
		}
'''))

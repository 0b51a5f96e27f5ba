T="parser/topdown/topdown.go"
P="parser/packrat/packrat.go"
def b(n,*e): mut("C15",n,"bad",*e)
def k(n,*e): mut("C15",n,"ok",*e)
# --- top-down
b("td-drop-all",(T,"accepts != nil && (!all || accepts.end == len(op.lxs))","accepts != nil"))
b("td-all-not-passed",(T,"op.accept(treeKey{start, 0}, true)","op.accept(treeKey{start, 0}, false)"))
b("td-end-le",(T,"accepts.end == len(op.lxs)","accepts.end <= len(op.lxs)"))
b("td-end-ge-last",(T,"accepts.end == len(op.lxs)","accepts.end >= len(op.lxs)-1"))
b("td-start-last",(T,"op.set.Symbol(nts[0])","op.set.Symbol(nts[len(nts)-1])"))
b("td-start-1",(T,"op.accept(treeKey{start, 0}, true)","op.accept(treeKey{start, len(lexemes) & 1}, true)"))
b("td-skip-nil-child",(T,"""		if resp == nil {
			return nil
		}
		children[""","""		if resp == nil {
			if i.Idx == 0 {
				return nil
			}
			break
		}
		children["""))
b("td-optional-last",(T,"""		if resp == nil {
			return nil
		}
		children[""","""		if resp == nil {
			if i.Idx > 0 && i.Idx == prod.Symbols()-1 && pos == len(op.lxs) {
				break
			}
			return nil
		}
		children["""))
b("td-pos-not-advanced",(T,"children[i.Idx], pos = resp.PN, resp.end","children[i.Idx] = resp.PN\n\t\tif resp.end > pos+1 {\n\t\t\tpos = resp.end - 1\n\t\t} else {\n\t\t\tpos = resp.end\n\t\t}"))
b("td-terminal-end",(T,"return resp(op.lxs[key.pos], key.pos+1)","return resp(op.lxs[key.pos], len(op.lxs))"))
b("td-terminal-no-kind",(T,"if key.pos < len(op.lxs) && key.idx == op.lxs[key.pos].K.(*setsymbol.Symbol).Idx() {","if key.pos < len(op.lxs) && (key.pos > 0 || key.idx == op.lxs[key.pos].K.(*setsymbol.Symbol).Idx()) {"))
b("td-resp-end-start",(T,"return resp(lexeme.New(symbol), pos, children...)","return resp(lexeme.New(symbol), len(op.lxs), children...)"))
b("td-memo-key",(T,"	op.memo[key] = resp\n","	op.memo[key] = resp\n	op.memo[treeKey{key.idx, len(op.lxs)}] = resp\n"))
b("td-empty-input",(T,"	set := setsymbol.New()\n","	if len(lexemes) == 0 {\n		return &tree.PN{Lexeme: lexeme.New(nts[0])}\n	}\n	set := setsymbol.New()\n"))
b("td-len1",(T,"lxs:     set.LoadLexemes(lexemes),","lxs:     set.LoadLexemes(lexemes[:len(lexemes)&^1]),"))
k("td-flag-loop",(T,"""	for i := productions.Iter(); i.Next(); {
		accepts := op.acceptProd(key, i.Production)
		if accepts != nil && (!all || accepts.end == len(op.lxs)) {
			return accepts
		}
	}

	return nil
}""","""	var found *acceptResp
	for i := productions.Iter(); found == nil && i.Next(); {
		accepts := op.acceptProd(key, i.Production)
		if accepts != nil && (!all || accepts.end == len(op.lxs)) {
			found = accepts
		}
	}
	return found
}"""))
k("td-continue",(T,"""		if accepts != nil && (!all || accepts.end == len(op.lxs)) {
			return accepts
		}
""","""		if accepts == nil {
			continue
		}
		if all && accepts.end != len(op.lxs) {
			continue
		}
		return accepts
"""))
k("td-index-loop",(T,"""	for i := prod.Iter(); i.Next(); {
		symbol := op.set.Symbol(i.Symbol)
		resp := op.accept(treeKey{symbol.Idx(), pos}, false)
		if resp == nil {
			return nil
		}
		children[i.Idx], pos = resp.PN, resp.end
	}
""","""	for i, ln := 0, prod.Symbols(); i < ln; i++ {
		symbol := op.set.Symbol(prod.Symbol(i))
		resp := op.accept(treeKey{symbol.Idx(), pos}, false)
		if resp == nil {
			return nil
		}
		children[i] = resp.PN
		pos = resp.end
	}
"""))
k("td-append-children",(T,"children := make([]*tree.PN, prod.Symbols())","children := make([]*tree.PN, 0, prod.Symbols())"),(T,"		children[i.Idx], pos = resp.PN, resp.end","		children = append(children, resp.PN)\n		pos = resp.end"))
k("td-terminal-helper",(T,"""		if key.pos < len(op.lxs) && key.idx == op.lxs[key.pos].K.(*setsymbol.Symbol).Idx() {
			return resp(op.lxs[key.pos], key.pos+1)
		}
		return nil
	}
""","""		return op.terminal(key)
	}
"""),(T,"func (op *tdOp) acceptProd(","""func (op *tdOp) terminal(key treeKey) *acceptResp {
	if key.pos >= len(op.lxs) {
		return nil
	}
	lx := op.lxs[key.pos]
	if lx.K.(*setsymbol.Symbol).Idx() != key.idx {
		return nil
	}
	return resp(lx, key.pos+1)
}

func (op *tdOp) acceptProd("""))
k("td-inline-try",(T,"""	if resp, ok := op.memo[key]; ok {
		return resp
	}
	resp := op.tryAccept(key, all)
	op.memo[key] = resp
	return resp""","""	resp, ok := op.memo[key]
	if !ok {
		resp = op.tryAccept(key, all)
		op.memo[key] = resp
	}
	return resp"""))
k("td-parse-check",(T,"	node := op.accept(treeKey{start, 0}, true).node()\n	if node == nil {\n		return nil\n	}\n","	accepted := op.accept(treeKey{start, 0}, true)\n	if accepted == nil {\n		return nil\n	}\n	node := accepted.node()\n"))
k("td-rename-struct",(T,"type treeKey struct {\n	idx int\n	pos int\n}","type treeKey struct {\n	idx, pos int\n}"))
# --- packrat
b("pr-accept-prefix",(P,"	accept.end = len(lexemes)\n	accepted, ok := op.memo[accept]\n","	accept.end = len(lexemes)\n	accepted, ok := op.memo[accept]\n	for ; !ok && accept.end > 0; accept.end-- {\n		accepted, ok = op.memo[accept]\n	}\n"))
b("pr-no-ok",(P,"	if !ok {\n		return nil\n	}\n	return accepted.toPN","	if !ok && len(lexemes) > 0 {\n		return nil\n	}\n	return accepted.toPN"))
b("pr-start-last",(P,"		idx: op.set.Symbol(nts[0]).Idx(),\n	}\n	op.addProds(start)","		idx: op.set.Symbol(nts[len(nts)-1]).Idx(),\n	}\n	op.addProds(start)"))
b("pr-requires-start",(P,"		start: extended.end,\n","		start: extended.start,\n"))
b("pr-early-complete",(P,"if ln+1 == extended.prod.Symbols() {","if ln+2 >= extended.prod.Symbols() && ln > 0 {"))
b("pr-skip-symbol",(P,"extended.prod.Symbol(ln + 1)).Idx()","extended.prod.Symbol(extended.prod.Symbols() - 1)).Idx()"))
b("pr-terminal-end",(P,"	td.end = at.start + 1\n","	td.end = len(op.lxms)\n"))
b("pr-terminal-bounds",(P,"matchesNonterminal := at.start < len(op.lxms) && at.idx == op.lxms[at.start].K.(*setsymbol.Symbol).Idx()","matchesNonterminal := at.start >= len(op.lxms) || at.idx == op.lxms[at.start].K.(*setsymbol.Symbol).Idx()"))
b("pr-terminal-kind",(P,"matchesNonterminal := at.start < len(op.lxms) && at.idx == op.lxms[at.start].K.(*setsymbol.Symbol).Idx()","matchesNonterminal := at.start < len(op.lxms) && at.idx <= op.lxms[at.start].K.(*setsymbol.Symbol).Idx()"))
b("pr-empty-end",(P,"nilTreeDef.end = root.start","nilTreeDef.end = root.start + 1"))
b("pr-empty-any",(P,"		if i.Symbols() == 0 {\n","		if i.Symbols() == 0 || i.Symbols() == 1 && root.start == len(op.lxms) {\n"))
b("pr-prodstart",(P,"			start: root.start,\n","			start: root.start + i.Idx,\n"))
b("pr-first-symbol",(P,"op.set.Symbol(i.Symbol(0)).Idx()","op.set.Symbol(i.Symbol(i.Symbols() - 1)).Idx()"))
b("pr-push-any",(P,"	for _, td := range op.markers[requires] {\n		op.push(tp, td.treeKey)","	for _, td := range op.markers[tp.treeMarker] {\n		op.push(tp, td.treeKey)"))
b("pr-partial-key",(P,"op.partials[requires] = append(op.partials[requires], tp)","op.partials[tp.treeMarker] = append(op.partials[tp.treeMarker], tp)"))
b("pr-marker-key",(P,"op.markers[td.treeMarker] = append(op.markers[td.treeMarker], td)","m := td.treeMarker\n		m.start = td.end\n		op.markers[m] = append(op.markers[m], td)"))
b("pr-extended-end",(P,"	extended.end = u.extension.end\n","	if extended.end < u.extension.end {\n		extended.end = u.extension.end + ln&1\n	}\n"))
b("pr-copy-short",(P,"	copy(extended.children, u.base.children)\n","	if ln > 1 {\n		copy(extended.children, u.base.children[1:])\n	} else {\n		copy(extended.children, u.base.children)\n	}\n"))
b("pr-ext-first",(P,"	copy(extended.children, u.base.children)\n	extended.children[ln] = u.extension\n","	copy(extended.children[1:], u.base.children)\n	extended.children[0] = u.extension\n"))
b("pr-memo-widen",(P,"		op.memo[td.treeKey] = td\n		op.markers","		op.memo[td.treeKey] = td\n		if len(td.children) == 1 {\n			k := td.treeKey\n			k.idx = td.children[0].idx\n			k.end = len(op.lxms)\n			op.memo[k] = td\n		}\n		op.markers"))
b("pr-lexeme-at-start",(P,"	op.addProds(requires)\n}","	op.addProds(requires)\n	if td := op.checkNonTerminal(tp.treeMarker); td != nil {\n		op.push(tp, td.treeKey)\n	}\n}"))
b("pr-base-accept",(P,"	accepted, ok := op.memo[accept]\n	if !ok {","	accepted := op.memo[accept]\n	if accepted.end != accept.end {"))
k("pr-update-append",(P,"""	extended.children = make([]treeKey, ln+1)
	copy(extended.children, u.base.children)
	extended.children[ln] = u.extension
""","""	extended.children = make([]treeKey, 0, ln+1)
	extended.children = append(extended.children, u.base.children...)
	extended.children = append(extended.children, u.extension)
"""))
k("pr-update-if-else",(P,"""		op.addToMemo(extended.treeDef)
		return
	}

	requires := treeMarker{
		idx:   op.set.Symbol(extended.prod.Symbol(ln + 1)).Idx(),
		start: extended.end,
	}

	op.addPartial(extended, requires)
}""","""		op.addToMemo(extended.treeDef)
	} else {
		next := op.set.Symbol(extended.prod.Symbol(ln + 1))
		op.addPartial(extended, treeMarker{
			idx:   next.Idx(),
			start: u.extension.end,
		})
	}
}"""))
k("pr-pop-helper",(P,"""	var u *updater
	for op.stack != nil {
		u, op.stack = op.stack, op.stack.next
		u.update(op)
	}
""","""	for u := op.pop(); u != nil; u = op.pop() {
		u.update(op)
	}
"""),(P,"func (op *prOp) push(","""func (op *prOp) pop() *updater {
	u := op.stack
	if u != nil {
		op.stack = u.next
	}
	return u
}

func (op *prOp) push("""))
k("pr-accept-literal",(P,"""	var accept treeKey
	accept.idx = start.idx
	accept.end = len(lexemes)
	accepted, ok := op.memo[accept]
	if !ok {
		return nil
	}
	return accepted.toPN(op.lxms, op.memo, op.set)""","""	accept := treeKey{treeMarker: start, end: len(op.lxms)}
	if accepted, ok := op.memo[accept]; ok {
		return accepted.toPN(op.lxms, op.memo, op.set)
	}
	return nil"""))
k("pr-newpartial-helper",(P,"""		prodStart := treeMarker{
			idx:   op.set.Symbol(i.Symbol(0)).Idx(),
			start: root.start,
		}
		var prodPartial treePartial
		prodPartial.treeMarker = root
		prodPartial.prod = i.Production
		prodPartial.priority = i.Idx

		op.addPartial(prodPartial, prodStart)
	}
}""","""		op.addPartial(newPartial(root, i.Production, i.Idx), treeMarker{
			idx:   op.set.Symbol(i.Symbol(0)).Idx(),
			start: root.start,
		})
	}
}

func newPartial(root treeMarker, prod parlex.Production, priority int) treePartial {
	return treePartial{
		treeDef: treeDef{
			treeKey:  treeKey{treeMarker: root, end: root.start},
			priority: priority,
		},
		prod: prod,
	}
}"""))
k("pr-slice-stack",(P,"	stack    *updater\n","	stack    []updater\n"),(P,"	next      *updater\n",""),(P,"""	var u *updater
	for op.stack != nil {
		u, op.stack = op.stack, op.stack.next
		u.update(op)
	}
""","""	for len(op.stack) > 0 {
		last := len(op.stack) - 1
		u := op.stack[last]
		op.stack = op.stack[:last]
		u.update(op)
	}
"""),(P,"""	op.stack = &updater{
		next:      op.stack,
		base:      tp,
		extension: tk,
	}
""","""	op.stack = append(op.stack, updater{
		base:      tp,
		extension: tk,
	})
"""))
k("pr-markers-keys",(P,"	markers  map[treeMarker][]treeDef\n","	markers  map[treeMarker][]treeKey\n"),(P,"make(map[treeMarker][]treeDef)","make(map[treeMarker][]treeKey)"),(P,"append(op.markers[td.treeMarker], td)","append(op.markers[td.treeMarker], td.treeKey)"),(P,"	for _, td := range op.markers[requires] {\n		op.push(tp, td.treeKey)","	for _, tk := range op.markers[requires] {\n		op.push(tp, tk)"))
k("pr-index-loops",(P,"""		for _, tp := range op.partials[td.treeMarker] {
			op.push(tp, td.treeKey)
		}
""","""		waiting := op.partials[td.treeMarker]
		for i := 0; i < len(waiting); i++ {
			op.push(waiting[i], td.treeKey)
		}
"""))
k("pr-terminal-early",(P,"""	matchesNonterminal := at.start < len(op.lxms) && at.idx == op.lxms[at.start].K.(*setsymbol.Symbol).Idx()
	if !matchesNonterminal {
		return nil
	}
""","""	if at.start >= len(op.lxms) {
		return nil
	}
	if lx := op.lxms[at.start]; lx.K.(*setsymbol.Symbol).Idx() != at.idx {
		return nil
	}
"""))
k("pr-addprods-split",(P,"""		if i.Symbols() == 0 {
			var nilTreeDef treeDef
			nilTreeDef.treeMarker = root
			nilTreeDef.end = root.start
			nilTreeDef.priority = i.Idx
			op.addToMemo(nilTreeDef)
			continue
		}
""","""		if i.Symbols() == 0 {
			op.addEmpty(root, i.Idx)
			continue
		}
"""),(P,"func (u *updater) update(","""func (op *prOp) addEmpty(root treeMarker, priority int) {
	op.addToMemo(treeDef{
		treeKey:  treeKey{treeMarker: root, end: root.start},
		priority: priority,
	})
}

func (u *updater) update("""))
k("pr-memo-ptr",(P,"	old, ok := op.memo[td.treeKey]\n	if !ok {","	key := td.treeKey\n	old, known := op.memo[key]\n	if !known {"),(P,"		op.memo[td.treeKey] = td\n		op.markers","		op.memo[key] = td\n		op.markers"))

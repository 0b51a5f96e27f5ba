N="tree/node_reductions.go"; T="tree/parsetree.go"; R="tree/reducer.go"; PK="parser/packrat/packrat.go"; TD="parser/topdown/topdown.go"
P="C13"
rwc="	for _, c := range p.C {\n		c.P = p\n	}\n	return true\n}\n\n// RemoveAll"
mut(P,"rwc-nolink","bad",(N,rwc,"	return true\n}\n\n// RemoveAll"))
mut(P,"rwc-first","bad",(N,rwc,"	if len(p.C) > 0 {\n		p.C[0].P = p\n	}\n	return true\n}\n\n// RemoveAll"))
mut(P,"rwc-from1","bad",(N,rwc,"	for i := 1; i < len(p.C); i++ {\n		p.C[i].P = p\n	}\n	return true\n}\n\n// RemoveAll"))
mut(P,"rwc-idx","ok",(N,rwc,"	for i := 0; i < len(p.C); i++ {\n		p.C[i].P = p\n	}\n	return true\n}\n\n// RemoveAll"))
mut(P,"rwc-down","ok",(N,rwc,"	for i := len(p.C) - 1; i >= 0; i-- {\n		p.C[i].P = p\n	}\n	return true\n}\n\n// RemoveAll"))
mut(P,"rwc-before","ok",(N,"	p.Lexeme, p.C = ch.Lexeme, ch.C\n	for _, c := range p.C {\n		c.P = p\n	}","	for _, c := range ch.C {\n		c.P = p\n	}\n	p.C = ch.C\n	p.Lexeme = ch.Lexeme"))
mut(P,"rwc-helper","ok",(N,rwc,"	p.adopt(p.C)\n	return true\n}\n\nfunc (p *PN) adopt(cs []*PN) {\n	for _, c := range cs {\n		c.P = p\n	}\n}\n\n// RemoveAll"))
mut(P,"rwc-selfparent","bad",(N,rwc,"	for _, c := range p.C {\n		c.P = p.P\n	}\n	return true\n}\n\n// RemoveAll"))
mut(P,"rwc-cond","bad",(N,rwc,"	for _, c := range p.C {\n		if c.P == nil {\n			c.P = p\n		}\n	}\n	return true\n}\n\n// RemoveAll"))
pco="	for _, c := range p.C[cIdx].C {\n		c.P = p\n	}\n"
mut(P,"pco-nolink","bad",(N,pco,""))
mut(P,"pco-last","bad",(N,pco,"	if cIdx == l-1 {\n		for _, c := range p.C[cIdx].C {\n			c.P = p\n		}\n	}\n"))
mut(P,"pco-after","ok",(N,pco,""),(N,"append(p.C[cIdx].C, p.C[cIdx+1:]...)...)\n	}\n	return true","append(p.C[cIdx].C, p.C[cIdx+1:]...)...)\n	}\n	for _, c := range p.C {\n		c.P = p\n	}\n	return true"))
mut(P,"pco-after-range","bad",(N,pco,""),(N,"append(p.C[cIdx].C, p.C[cIdx+1:]...)...)\n	}\n	return true","append(p.C[cIdx].C, p.C[cIdx+1:]...)...)\n	}\n	for _, c := range p.C[cIdx+1:] {\n		c.P = p\n	}\n	return true"))
mut(P,"pgc-nolink","bad",(N,"		for _, grandChild := range child.C {\n			grandChild.P = p\n		}\n",""))
mut(P,"pgc-child","bad",(N,"grandChild.P = p","grandChild.P = child"))
mut(P,"pgc-after","ok",(N,"		for _, grandChild := range child.C {\n			grandChild.P = p\n		}\n",""),(N,"	p.C = newChildren\n","	for _, c := range newChildren {\n		c.P = p\n	}\n	p.C = newChildren\n"))
mut(P,"pgc-one","ok",(N,"		for _, grandChild := range child.C {\n			grandChild.P = p\n		}\n		newChildren = append(newChildren, child.C...)\n","		for _, grandChild := range child.C {\n			grandChild.P = p\n			newChildren = append(newChildren, grandChild)\n		}\n"))
pc="	for _, c := range p.C {\n		c.P = p\n	}\n	return true\n}\n"
mut(P,"pc-tail","bad",(N,"	p.C = append(p.C[0:cIdx], tail...)\n	for _, c := range p.C {\n","	p.C = append(p.C[0:cIdx], tail...)\n	for _, c := range tail[1:] {\n"))
mut(P,"pc-tail-ok","ok",(N,"	p.C = append(p.C[0:cIdx], tail...)\n	for _, c := range p.C {\n","	p.C = append(p.C[0:cIdx], tail...)\n	for _, c := range tail {\n"))
mut(P,"pc-only-if-tail","bad",(N,"		tail = append(tail, p.C[cIdx+1:]...)\n	}\n	p.C = append(p.C[0:cIdx], tail...)\n	for _, c := range p.C {\n		c.P = p\n	}\n","		tail = append(tail, p.C[cIdx+1:]...)\n		for _, c := range tail {\n			c.P = p\n		}\n	}\n	p.C = append(p.C[0:cIdx], tail...)\n"))
mut(P,"rm-clear","ok",(N,"	if cIdx == l-1 {\n		p.C = p.C[:cIdx]\n	} else {\n		p.C = append(p.C[0:cIdx], p.C[cIdx+1:]...)","	p.C[cIdx].P = nil\n	if cIdx == l-1 {\n		p.C = p.C[:cIdx]\n	} else {\n		p.C = append(p.C[0:cIdx], p.C[cIdx+1:]...)"))
mut(P,"rm-clear-after","bad",(N,"		p.C = append(p.C[0:cIdx], p.C[cIdx+1:]...)\n	}","		p.C = append(p.C[0:cIdx], p.C[cIdx+1:]...)\n		p.C[cIdx].P = nil\n	}"))
mut(P,"rmch-clear-wrong","bad",(N,"			newC = append(newC, p.C[idx])\n		}","			newC = append(newC, p.C[idx])\n			p.C[idx].P = nil\n		}"))
mut(P,"rmch-clear","ok",(N,"			newC = append(newC, p.C[idx])\n		}","			newC = append(newC, p.C[idx])\n		} else {\n			p.C[idx].P = nil\n		}"))
mut(P,"clone-nolink","bad",(T,"		c.P = pn\n",""))
mut(P,"clone-first","bad",(T,"		c.P = pn\n","		if i == 0 {\n			c.P = pn\n		}\n"))
mut(P,"clone-range","ok",(T,"	for i := 0; i < node.Children(); i++ {\n		c := Clone(node.Child(i))\n		c.P = pn\n		pn.C[i] = c\n	}","	for i := range pn.C {\n		pn.C[i] = Clone(node.Child(i))\n		pn.C[i].P = pn\n	}"))
mut(P,"clone-append","ok",(T,"		C:      make([]*PN, node.Children()),\n	}\n	for i := 0; i < node.Children(); i++ {\n		c := Clone(node.Child(i))\n		c.P = pn\n		pn.C[i] = c\n	}","		C:      make([]*PN, 0, node.Children()),\n	}\n	for i := 0; i < node.Children(); i++ {\n		c := Clone(node.Child(i))\n		c.P = pn\n		pn.C = append(pn.C, c)\n	}"))
mut(P,"clone-late","ok",(T,"		c.P = pn\n		pn.C[i] = c\n	}","		pn.C[i] = c\n	}\n	for _, c := range pn.C {\n		c.P = pn\n	}"))
mut(P,"clone-late-bad","bad",(T,"		c.P = pn\n		pn.C[i] = c\n	}","		pn.C[i] = c\n	}\n	for _, c := range pn.C[1:] {\n		c.P = pn\n	}"))
mut(P,"clone-root","bad",(T,"		c.P = pn\n		pn.C[i] = c\n	}\n	return pn","		c.P = pn\n		pn.C[i] = c\n	}\n	if p, ok := node.(*PN); ok {\n		pn.P = p.P\n	}\n	return pn"))
mut(P,"rr-nolink","bad",(R,"		if c != nil {\n			c.P = cp\n		}\n",""),(R,"for _, c := range cp.C {","for range cp.C {"))
mut(P,"rr-before","bad",(R,"	if reduction := r[cp.Kind().String()]; reduction != nil {\n		reduction(cp)\n	}\n	for _, c := range cp.C {\n		if c != nil {\n			c.P = cp\n		}\n	}\n","	for _, c := range cp.C {\n		if c != nil {\n			c.P = cp\n		}\n	}\n	if reduction := r[cp.Kind().String()]; reduction != nil {\n		reduction(cp)\n	}\n"))
mut(P,"rr-else","bad",(R,"		reduction(cp)\n	}\n	for _, c := range cp.C {\n		if c != nil {\n			c.P = cp\n		}\n	}\n","		reduction(cp)\n	} else {\n		for _, c := range cp.C {\n			if c != nil {\n				c.P = cp\n			}\n		}\n	}\n"))
mut(P,"rr-idx","ok",(R,"	for _, c := range cp.C {\n		if c != nil {\n			c.P = cp\n		}\n	}\n","	for i := 0; i < len(cp.C); i++ {\n		if cp.C[i] == nil {\n			continue\n		}\n		cp.C[i].P = cp\n	}\n"))
mut(P,"rr-helper","ok",(R,"	for _, c := range cp.C {\n		if c != nil {\n			c.P = cp\n		}\n	}\n\n	return cp\n}","	return link(cp)\n}\n\nfunc link(n *PN) *PN {\n	for _, c := range n.C {\n		if c != nil {\n			c.P = n\n		}\n	}\n	return n\n}"))
mut(P,"rr-both","ok",(R,"		cp.C[i] = r.RawReduce(node.Child(i))\n","		c := r.RawReduce(node.Child(i))\n		if c != nil {\n			c.P = cp\n		}\n		cp.C[i] = c\n"))
mut(P,"topn-nolink","bad",(PK,"		cpn.P = pn\n",""))
mut(P,"topn-skip","bad",(PK,"		cpn.P = pn\n","		if i < len(td.children)-1 {\n			cpn.P = pn\n		}\n"))
mut(P,"topn-append","ok",(PK,"make([]*tree.PN, len(td.children))","make([]*tree.PN, 0, len(td.children))"),(PK,"	for i, c := range td.children {\n		ct := memo[c]","	for _, c := range td.children {\n		ct := memo[c]"),(PK,"		pn.C[i] = cpn\n","		pn.C = append(pn.C, cpn)\n"))
mut(P,"topn-cache","ok",(PK,"	for i, c := range td.children {\n		ct := memo[c]\n		cpn := ct.toPN(lxms, memo, set)\n		cpn.P = pn\n		pn.C[i] = cpn\n	}","	for i, c := range td.children {\n		if i > 0 && c == td.children[i-1] {\n			pn.C[i] = &tree.PN{Lexeme: pn.C[i-1].Lexeme, C: pn.C[i-1].C}\n			continue\n		}\n		ct := memo[c]\n		cpn := ct.toPN(lxms, memo, set)\n		cpn.P = pn\n		pn.C[i] = cpn\n	}"))
mut(P,"td-noclone","bad",(TD,"	return tree.Clone(node)","	return node"))
mut(P,"td-cloneparent","bad",(TD,"	return tree.Clone(node)","	cp := tree.Clone(node)\n	cp.P = node\n	return cp"))
mut(P,"td-helper","ok",(TD,"	return tree.Clone(node)","	return hand(node)"),(TD,"type treeKey struct {","func hand(n *tree.PN) parlex.ParseNode {\n	return tree.Clone(n)\n}\n\ntype treeKey struct {"))
mut(P,"new-root","bad",(T,"				P:      cur,\n","				P:      root,\n"))
mut(P,"new-nop","bad",(T,"				P:      cur,\n",""))
mut(P,"new-rootkeeps","bad",(T,"	cur.P = nil\n",""))
mut(P,"new-set","ok",(T,"				P:      cur,\n			}\n","			}\n			ch.P = cur\n"))
mut(P,"new-helper","ok",(T,"			cur.C = append(cur.C, ch)\n","			cur.push(ch)\n"),(T,"// PN parse node forms a tree","func (p *PN) push(ch *PN) {\n	p.C = append(p.C, ch)\n}\n\n// PN parse node forms a tree"))
mut(P,"rwc-whole","bad",(N,"	p.Lexeme, p.C = ch.Lexeme, ch.C\n","	*p = *ch\n"))
mut(P,"rwc-whole-keep","ok",(N,"	p.Lexeme, p.C = ch.Lexeme, ch.C\n","	up := p.P\n	*p = *ch\n	p.P = up\n"))
mut(P,"pc-parent","bad",(N,"	p.Lexeme = p.C[cIdx].Lexeme\n","	p.Lexeme = p.C[cIdx].Lexeme\n	p.P = p.C[cIdx].P\n"))

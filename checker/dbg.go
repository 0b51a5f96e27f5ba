package main

import (
	"fmt"
	"strings"
)

func (h *Heap) dump(fnsub string) {
	for _, in := range h.insts {
		if !strings.Contains(in.fn.String(), fnsub) {
			continue
		}
		fmt.Println("INST", h.chain(in))
		for _, b := range in.fn.Blocks {
			fmt.Println(" block", b.Index, in.reach[b])
			for _, i := range b.Instrs {
				fmt.Printf("   %v", i)
				if v, ok := i.(interface{ Name() string }); ok {
					fmt.Printf("  (%s)", v.Name())
				}
				for v, x := range in.nodes {
					if vi, ok := v.(interface{ String() string }); ok && vi == i.(interface{ String() string }) {
						for l, s := range x {
							for e := range s {
								if e.kind == 'n' {
									continue
								}
								fmt.Printf("\n        %s-> kind=%c %v%s dyn=%s", l, e.kind, e.obj, e.path, e.dyn)
								if e.obj != nil && e.obj.site != nil {
									fmt.Printf(" @%s", h.p.InstrPos(e.obj.site))
								}
							}
						}
					}
				}
				fmt.Println()
			}
		}
	}
}

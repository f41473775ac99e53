package main

import (
	"fmt"
	"os"
)

func dbgSum(a *Analysis, name string) {
	a.runSummaries()
	for _, f := range a.p.Funcs {
		if fname(f) == name {
			s := a.sums[f]
			for i := range s.ret {
				for _, r := range s.ret[i].sorted() {
					fmt.Println("ret", i, r)
				}
				for t, e := range s.retC[i] {
					for _, r := range e.refs.sorted() {
						fmt.Println("    content", t, r)
					}
				}
			}
			for _, e := range sortedEffects(s) {
				fmt.Printf("guarded=%v resolve=%v freeze=%v %s via %s\n", e.Guarded, e.Resolve, e.Freeze, e, e.Via)
			}
			for _, e := range sortedLinks(s) {
				fmt.Printf("link %s <- %s (%s) field %s at %s\n", e.Dst, e.Src, tname(e.T), e.Field, e.Pos)
			}
		}
	}
}

func dbgf(f string, a ...interface{}) {
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

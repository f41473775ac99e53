package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func dbgConv(a *Analysis) {
	for _, f := range a.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Convert)
				if !ok {
					continue
				}
				x, ok1 := c.X.Type().Underlying().(*types.Basic)
				y, ok2 := c.Type().Underlying().(*types.Basic)
				if !ok1 || !ok2 || x.Info()&types.IsNumeric == 0 || y.Info()&types.IsInteger == 0 {
					continue
				}
				fmt.Println(a.p.instrPos(in), fname(f), tname(c.X.Type()), "->", tname(c.Type()), c.X)
			}
		}
	}
}

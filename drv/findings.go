package main

import (
	"fmt"

	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/normalform"
	"github.com/booleworks/logicng-go/parser"
	"github.com/booleworks/logicng-go/primeimplicant"
)

// A finding is a recorded genuine defect: its witness is run again on every check.
type finding struct {
	ID    string
	Fails func() bool // true while the real code still shows the defect
}

var findings = map[string][]finding{
	"N01": {{"N01-AIG-EQUIV", func() bool {
		fac := f.NewFactory()
		return !shapeAIG(fac, normalform.AIG(fac, parser.New(fac).ParseUnsafe("(a | b) <=> (x | y)")))
	}}},
	"I01": {{"I01-MINIMUM-STRUCTURAL", func() bool {
		fac := f.NewFactory()
		ls, err := primeimplicant.Minimum(fac, parser.New(fac).ParseUnsafe("a & b | a & ~b"))
		return err == nil && len(ls) > 1 // the only prime implicant is a
	}}, {"I01-MINIMUM-AUXILIARY", func() bool {
		fac := f.NewFactory()
		x := fac.CC(f.GE, 2, fac.Vars("a", "b", "c", "d")...)
		ls, err := primeimplicant.Minimum(fac, x)
		if err != nil {
			return false
		}
		for _, l := range ls {
			name, _, _ := fac.LitNamePhase(l)
			if len(name) != 1 {
				return true
			}
		}
		return false
	}}},
}

func runFindings(prop string) {
	for _, x := range findings[prop] {
		func() {
			defer func() {
				if recover() != nil {
					fmt.Println(x.ID)
				}
			}()
			if x.Fails() {
				fmt.Println(x.ID)
			}
		}()
	}
}

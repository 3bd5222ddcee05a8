package main

import (
	"fmt"
	"math/bits"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/booleworks/logicng-go/explanation/mus"
	"github.com/booleworks/logicng-go/explanation/smus"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/graph"
	lio "github.com/booleworks/logicng-go/io"
	"github.com/booleworks/logicng-go/maxsat"
	"github.com/booleworks/logicng-go/parser"
	"github.com/booleworks/logicng-go/sat"
	"github.com/booleworks/logicng-go/transformation"
)

// ------------------------------------------------------------ MaxSAT
var algNames = []string{"WBO", "IncWBO", "LinearSU", "LinearUS", "MSU3", "WMSU3", "OLL"}

func maxSolver(c *Case, fac f.Factory, weighted bool) (*maxsat.Solver, string) {
	cfg := maxsat.DefaultConfig()
	cfg.CNFMethod = sat.CNFMethod(c.R.Intn(3))
	cfg.WeightStrategy = maxsat.WeightStrategy(c.R.Intn(3))
	cfg.Symmetry = c.R.Intn(2) == 0
	if c.R.Intn(3) == 0 {
		cfg.Limit = c.R.Intn(10)
	}
	cfg.BMO = c.R.Intn(2) == 0
	alg := c.R.Intn(7)
	if weighted {
		for alg == 3 || alg == 4 {
			alg = c.R.Intn(7)
		}
	} else {
		for alg == 5 {
			alg = c.R.Intn(7)
		}
	}
	if alg == 3 || alg == 4 || alg == 5 {
		cfg.IncrementalStrategy = maxsat.IncrementalStrategy(c.R.Intn(2))
	}
	var s *maxsat.Solver
	switch alg {
	case 0:
		s = maxsat.WBO(fac, cfg)
	case 1:
		s = maxsat.IncWBO(fac, cfg)
	case 2:
		s = maxsat.LinearSU(fac, cfg)
	case 3:
		s = maxsat.LinearUS(fac, cfg)
	case 4:
		s = maxsat.MSU3(fac, cfg)
	case 5:
		s = maxsat.WMSU3(fac, cfg)
	case 6:
		s = maxsat.OLL(fac, cfg)
	}
	return s, fmt.Sprintf("%s %+v", algNames[alg], *cfg)
}

type mw struct {
	c     *Case
	fac   f.Factory
	n     int
	hard  TT
	soft  []TT
	wt    []int
	known map[int]bool // variables known to the solver
}

func (w *mw) optimum() (int, bool) {
	best, ok := 0, false
	for a := 0; a < 1<<w.n; a++ {
		if !w.hard.bit(a) {
			continue
		}
		cost := 0
		for i, s := range w.soft {
			if !s.bit(a) {
				cost += w.wt[i]
			}
		}
		if !ok || cost < best {
			best, ok = cost, true
		}
	}
	return best, ok
}

// check verifies the result of a solve call
func (w *mw) check(what string, r maxsat.Result) {
	c := w.c
	opt, ok := w.optimum()
	if !c.Check(r.Satisfiable == ok, what+": ensures unsatisfiable iff the hard formulas are", "got %v", r.Satisfiable) || !ok {
		return
	}
	c.Check(r.Optimum == opt, what+": ensures the minimum weight", "got %d want %d", r.Optimum, opt)
	if !c.Check(r.Model != nil, what+": ensures a model", "") {
		return
	}
	// the model's literals fix some of the variables; every completion must attain the optimum
	fix := ttConst(w.n, true)
	for _, l := range r.Model.Literals {
		nm, ph, _ := w.fac.LitNamePhase(l)
		var i int
		if k, err := fmt.Sscanf(nm, "v%d", &i); err == nil && k == 1 && i < w.n && nm == vname(i) {
			t := ttVar(w.n, i)
			if !ph {
				t = t.not(w.n)
			}
			fix = fix.and(t)
		}
	}
	c.Check(!fix.zero(), what+": ensures a consistent model", "%s", litNames(w.fac, r.Model.Literals))
	for a := 0; a < 1<<w.n; a++ {
		if !fix.bit(a) {
			continue
		}
		cost := 0
		for i, s := range w.soft {
			if !s.bit(a) {
				cost += w.wt[i]
			}
		}
		if !c.Check(w.hard.bit(a) && cost == opt, what+": ensures the model attains the optimum", "model %s cost %d optimum %d", litNames(w.fac, r.Model.Literals), cost, opt) {
			return
		}
	}
}

// m01groups: soft literals of different weights, hard formulas which force several of them to be falsified, so
// that the cores overlap and the bounds of their cardinality constraints rise up to the number of literals
func m01groups(c *Case) {
	n := 6 + c.R.Intn(5)
	fac := c.Fac()
	weighted := c.R.Intn(4) > 0
	s, name := maxSolver(c, fac, weighted)
	c.Log("%s", name)
	w := &mw{c: c, fac: fac, n: n, hard: ttConst(n, true)}
	maxw := []int{2, 3, 6, 40}[c.R.Intn(4)]
	soft := func(nd *Node) {
		k := 1
		if weighted {
			k = 1 + c.R.Intn(maxw)
			if len(w.soft) == 0 {
				k = 2
			}
		}
		c.Log("soft %d %s", k, nd)
		s.AddSoftFormula(nd.build(fac), k)
		w.soft, w.wt = append(w.soft, nd.tt(n)), append(w.wt, k)
	}
	hard := func(nd *Node) {
		c.Log("hard %s", nd)
		s.AddHardFormula(nd.build(fac))
		w.hard = w.hard.and(nd.tt(n))
	}
	lit := func(v int, ph bool) *Node { return &Node{K: KLit, Var: v, Phase: ph} }
	for v := 0; v < n; v++ {
		soft(lit(v, false))
	}
	for i := c.R.Intn(4); i > 0; i-- {
		soft(lit(c.R.Intn(n), c.R.Intn(4) == 0))
	}
	for g := 1 + c.R.Intn(4); g > 0; g-- { // at least k of m variables are true
		vs := perm(c.R, n, 3+c.R.Intn(3))
		k := 1 + c.R.Intn(len(vs))
		for a := 0; a < 1<<len(vs); a++ {
			if bits.OnesCount(uint(a)) != len(vs)-k+1 {
				continue
			}
			or := &Node{K: KOr}
			for i, v := range vs {
				if a>>i&1 == 1 {
					or.Kids = append(or.Kids, lit(v, true))
				}
			}
			hard(or)
		}
	}
	for i := c.R.Intn(4); i > 0; i-- {
		hard(genCNF(c.R, n, 1, 3))
	}
	w.check("Solve", s.Solve())
	if c.R.Intn(3) == 0 {
		hard(genCNF(c.R, n, 1, 3))
		w.check("Solve (again)", s.Solve())
	}
}

func m01(c *Case)      { m01n(c, false) }
func m01large(c *Case) { m01n(c, true) }
func m01n(c *Case, large bool) {
	n := 2 + c.R.Intn(5)
	if large {
		n = 7 + c.R.Intn(3)
	}
	fac := c.Fac()
	weighted := c.R.Intn(2) == 0
	s, name := maxSolver(c, fac, weighted)
	c.Log("%s", name)
	w := &mw{c: c, fac: fac, n: n, hard: ttConst(n, true)}
	type saved struct {
		st   *maxsat.SolverState
		hard TT
		k    int
		id   int
	}
	var stack []saved
	steps := 3 + c.R.Intn(14)
	if large {
		steps += 20
	}
	big := c.R.Intn(3) == 0
	weight := func() int {
		if !weighted {
			return 1
		}
		if big {
			return 1 + c.R.Intn(1000)
		}
		return 1 + c.R.Intn(4)
	}
	if weighted { // the problem stays weighted: every state has a soft formula of weight >1
		t := 2 + c.R.Intn(3)
		nd := &Node{K: KLit, Var: c.R.Intn(n), Phase: c.R.Intn(2) == 0}
		c.Log("soft %d %s", t, nd)
		s.AddSoftFormula(nd.build(fac), t)
		w.soft, w.wt = append(w.soft, nd.tt(n)), append(w.wt, t)
	}
	solves := 0
	for i := 0; i < steps && len(c.errs) == 0; i++ {
		nd := genCNF(c.R, n, 1, 3)
		if c.R.Intn(4) == 0 {
			nd = gen(c.R, 1+c.R.Intn(3), GenOpt{N: n, Const: true, CC: true, PBC: c.R.Intn(3) == 0})
		}
		switch op := c.R.Intn(12); {
		case op < 3:
			c.Log("hard %s", nd)
			s.AddHardFormula(nd.build(fac))
			w.hard = w.hard.and(nd.tt(n))
		case op < 8:
			k := weight()
			c.Log("soft %d %s", k, nd)
			s.AddSoftFormula(nd.build(fac), k)
			w.soft, w.wt = append(w.soft, nd.tt(n)), append(w.wt, k)
		case op == 8:
			c.Log("save")
			stack = append(stack, saved{s.SaveState(), w.hard, len(w.soft), len(stack)})
		case op == 9 && len(stack) > 0:
			j := c.R.Intn(len(stack))
			c.Log("load %d", j)
			err := s.LoadState(stack[j].st)
			if c.Check(err == nil, "LoadState: ensures success on a valid state", "%v", err) {
				w.hard, w.soft, w.wt = stack[j].hard, w.soft[:stack[j].k:stack[j].k], w.wt[:stack[j].k:stack[j].k]
				for _, inv := range stack[j+1:] {
					_ = inv
				}
				stack = stack[:j+1]
			}
		case op == 10:
			err := s.AddSoftFormula(nd.build(fac), -c.R.Intn(3))
			c.Check(err != nil, "AddSoftFormula: ensures non-positive weights are rejected", "")
		default:
			c.Log("solve")
			w.check("Solve", s.Solve())
			solves++
		}
	}
	if len(c.errs) == 0 {
		c.Log("solve")
		w.check("Solve", s.Solve())
		w.check("Solve again", s.Solve())
	}
}

// ------------------------------------------------------------ MUS / SMUS
func e01(c *Case) {
	n := 2 + c.R.Intn(4)
	fac := c.Fac()
	k := 2 + c.R.Intn(7)
	if c.R.Intn(12) == 0 {
		k = c.R.Intn(2)
	}
	var nds []*Node
	var props []f.Proposition
	for i := 0; i < k; i++ {
		nd := genCNF(c.R, n, 1, 2)
		switch c.R.Intn(5) {
		case 0:
			nd = gen(c.R, 1+c.R.Intn(2), GenOpt{N: n, CC: true, PBC: c.R.Intn(4) == 0})
		case 1:
			if len(nds) > 0 {
				nd = nds[c.R.Intn(len(nds))]
			}
		}
		nds = append(nds, nd)
		props = append(props, f.NewStandardProposition(nd.build(fac), fmt.Sprintf("p%d", i)))
		c.Log("%s", nd)
	}
	conj := func(idx map[int]bool, add TT) TT {
		t := add
		for i, nd := range nds {
			if idx[i] {
				t = t.and(nd.tt(n))
			}
		}
		return t
	}
	all := map[int]bool{}
	for i := range nds {
		all[i] = true
	}
	ident := func(what string, ps []f.Proposition) (map[int]bool, bool) {
		r := map[int]bool{}
		for _, p := range ps {
			found := false
			for i, q := range props {
				if p == q && !r[i] {
					r[i], found = true, true
					break
				}
			}
			if !c.Check(found, what+": ensures a subset of the propositions", "") {
				return nil, false
			}
		}
		return r, true
	}
	one := ttConst(n, true)
	for _, del := range []bool{true, false} {
		what := "mus.ComputeInsertionBased"
		call := mus.ComputeInsertionBased
		if del {
			what, call = "mus.ComputeDeletionBased", mus.ComputeDeletionBased
		}
		cp := append([]f.Proposition(nil), props...)
		core, err := call(fac, &cp)
		for i := range cp {
			c.Check(cp[i] == props[i], what+": ensures the caller's propositions are unchanged", "")
		}
		if !c.Check((err != nil) == !conj(all, one).zero(), what+": ensures error iff satisfiable", "%v", err) || err != nil {
			continue
		}
		m, ok := ident(what, core.Propositions)
		if !ok {
			return
		}
		c.Check(conj(m, one).zero(), what+": ensures unsatisfiable", "%v", m)
		for i := range m {
			delete(m, i)
			c.Check(!conj(m, one).zero(), what+": ensures minimal", "%v without %d", m, i)
			m[i] = true
		}
	}
	add := one
	var adds []f.Formula
	for i := 0; i < c.R.Intn(3); i++ {
		nd := gen(c.R, 1, GenOpt{N: n, CC: true})
		c.Log("additional %s", nd)
		adds, add = append(adds, nd.build(fac)), add.and(nd.tt(n))
	}
	best, unsat := k+1, false
	for s := 0; s < 1<<k; s++ {
		m := map[int]bool{}
		for i := 0; i < k; i++ {
			if s>>i&1 == 1 {
				m[i] = true
			}
		}
		if len(m) < best && conj(m, add).zero() {
			best, unsat = len(m), true
		}
	}
	res := smus.Compute(fac, props, adds...)
	if !c.Check((res != nil) == unsat, "smus.Compute: ensures a set iff unsatisfiable", "%v", res) || res == nil {
		return
	}
	m, ok := ident("smus.Compute", res)
	if !ok {
		return
	}
	c.Check(conj(m, add).zero(), "smus.Compute: ensures unsatisfiable with the additional constraints", "%v", m)
	c.Check(len(m) == best, "smus.Compute: ensures smallest", "%d want %d", len(m), best)
	if c.R.Intn(4) == 0 {
		var fs []f.Formula
		for _, p := range props {
			fs = append(fs, p.Formula())
		}
		r2 := smus.ComputeForFormulas(fac, fs, adds...)
		c.Check(len(r2) == best, "smus.ComputeForFormulas: ensures smallest", "%d want %d", len(r2), best)
		t := add
		env := newEnv(fac, n)
		for _, x := range r2 {
			t = t.and(env.tt(x))
		}
		c.Check(t.zero(), "smus.ComputeForFormulas: ensures unsatisfiable", "")
	}
}

// ------------------------------------------------------------ transformations
func t01(c *Case) {
	n := 2 + c.R.Intn(4)
	fac := c.Fac()
	cc := c.R.Intn(3) == 0
	nd := gen(c.R, 1+c.R.Intn(4), GenOpt{N: n, Const: true, CC: cc, PBC: cc})
	c.Log("formula %s", nd)
	x := nd.build(fac)
	t := nd.tt(n)
	env := newEnv(fac, n)
	compose := func(t TT, m map[int]TT) TT {
		r := ttConst(n, false)
		for a := 0; a < 1<<n; a++ {
			b := a
			for i, s := range m {
				if s.bit(a) {
					b |= 1 << i
				} else {
					b &^= 1 << i
				}
			}
			if t.bit(b) {
				r.set(a)
			}
		}
		return r
	}
	inCC := map[string]bool{}
	for _, s := range f.SubNodes(fac, x) {
		if s.Sort() == f.SortCC || s.Sort() == f.SortPBC {
			for v := range oracleVars(fac, s, map[string]bool{}) {
				inCC[v] = true
			}
		}
	}
	for k := 0; k < 1+c.R.Intn(4) && len(c.errs) == 0; k++ {
		switch c.R.Intn(6) {
		case 0, 1: // formulas for variables
			sub := transformation.NewSubstitution()
			m := map[int]TT{}
			bad := false
			for _, i := range perm(c.R, n, c.R.Intn(n+1)) {
				s := gen(c.R, c.R.Intn(3), GenOpt{N: n, Const: true})
				c.Log("substitute %s -> %s", vname(i), s)
				sub.AddVar(fac.Var(vname(i)), s.build(fac))
				m[i] = s.tt(n)
				if inCC[vname(i)] {
					bad = true
				}
			}
			y, err := transformation.Substitute(fac, x, sub)
			if bad {
				if err == nil {
					c.eqTT("Substitute: ensures the value under the substituted assignment", n, env.tt(y), compose(t, m), y.Sprint(fac))
				}
				continue
			}
			if c.Check(err == nil, "Substitute: ensures success without constraints", "%v", err) {
				c.eqTT("Substitute: ensures the value under the substituted assignment", n, env.tt(y), compose(t, m), y.Sprint(fac))
			}
		case 2: // literals for literals
			ls := map[f.Literal]f.Literal{}
			m := map[int]TT{}
			for _, i := range perm(c.R, n, c.R.Intn(n+1)) {
				j, ph := c.R.Intn(n), c.R.Intn(2) == 0
				ls[fac.Lit(vname(i), true)] = fac.Lit(vname(j), ph)
				m[i] = ttVar(n, j)
				if !ph {
					m[i] = m[i].not(n)
				}
				if c.R.Intn(2) == 0 { // consistent mapping of the negative literal
					ls[fac.Lit(vname(i), false)] = fac.Lit(vname(j), !ph)
				}
				c.Log("substitute literal %s -> %v %s", vname(i), ph, vname(j))
			}
			y := transformation.SubstituteLiterals(fac, x, &ls)
			c.eqTT("SubstituteLiterals: ensures the value under the substituted assignment", n, env.tt(y), compose(t, m), y.Sprint(fac))
		case 3: // quantifier elimination
			var vs []f.Variable
			ex, un := t, t
			for _, i := range perm(c.R, n, c.R.Intn(n+1)) {
				vs = append(vs, fac.Var(vname(i)))
				ex, un = ex.exists(n, i), un.forall(n, i)
			}
			c.Log("eliminate %v", varIdx(fac, vs))
			y, z := transformation.ExistentialQE(fac, x, vs...), transformation.UniversalQE(fac, x, vs...)
			c.eqTT("ExistentialQE: ensures the disjunction of the restrictions", n, env.tt(y), ex, y.Sprint(fac))
			c.eqTT("UniversalQE: ensures the conjunction of the restrictions", n, env.tt(z), un, z.Sprint(fac))
			for _, i := range varIdx(fac, vs) {
				c.Check(!oracleVars(fac, y, map[string]bool{})[vname(i)], "ExistentialQE: ensures the variables are eliminated", "%s", y.Sprint(fac))
				c.Check(!oracleVars(fac, z, map[string]bool{})[vname(i)], "UniversalQE: ensures the variables are eliminated", "%s", z.Sprint(fac))
			}
		case 4: // anonymisation over several formulas
			a := transformation.NewAnonymizer(fac, "anon")
			env2 := newEnv(fac, n)
			ren := map[string]string{}
			for _, d := range []*Node{nd, gen(c.R, 2, GenOpt{N: n})} {
				o := d.build(fac)
				y := a.Anonymize(o)
				env3 := &Env{fac: fac, n: n, idx: map[string]int{}, memo: map[f.Formula]TT{}}
				for v := range oracleVars(fac, o, map[string]bool{}) {
					if _, ok := ren[v]; !ok {
						ren[v] = ""
					}
				}
				// the renaming is read off the anonymiser's public substitution
				for v := range ren {
					z, err := transformation.Substitute(fac, fac.Variable(v), a.Substitution)
					if c.Check(err == nil && z.Sort() == f.SortLiteral && z.IsPos(), "Anonymize: ensures variables are renamed to variables", "%s", v) {
						nm := z.Sprint(fac)
						c.Check(ren[v] == "" || ren[v] == nm, "Anonymize: ensures a consistent renaming", "%s", v)
						ren[v] = nm
						_, dup := env3.idx[nm]
						c.Check(!dup && strings.HasPrefix(nm, "anon"), "Anonymize: ensures an injective renaming to fresh names", "%s -> %s", v, nm)
						env3.idx[nm] = env2.idx[v]
					}
				}
				if len(c.errs) == 0 {
					c.eqTT("Anonymize: ensures the renamed formula", n, env3.tt(y), d.tt(n), y.Sprint(fac))
					c.Check(y.Sort() == o.Sort(), "Anonymize: ensures the structure is kept", "%s", y.Sprint(fac))
				}
			}
		case 5:
			has, other := false, false
			for _, s := range f.SubNodes(fac, x) {
				if s.Sort() == f.SortPBC {
					other = true
				}
				if s.Sort() == f.SortCC {
					has = true
					cmp, rhs, _, _, _ := fac.PBCOps(s)
					if !(cmp == f.LE && rhs == 1 || cmp == f.LT && rhs == 2 || cmp == f.EQ && rhs == 1) {
						other = true
					}
				}
			}
			y, err := transformation.ExpandAMOAndEXO(fac, x)
			c.Check((err != nil) == other, "ExpandAMOAndEXO: ensures error iff another constraint occurs", "%v %v", has, err)
			if err == nil {
				c.eqTT("ExpandAMOAndEXO: ensures equivalent", n, env.tt(y), t, y.Sprint(fac))
				for _, s := range f.SubNodes(fac, y) {
					c.Check(s.Sort() != f.SortCC && s.Sort() != f.SortPBC, "ExpandAMOAndEXO: ensures no constraints", "%s", y.Sprint(fac))
				}
			}
		}
	}
}

// amoNode is a tree of at-most-one / exactly-one constraints for the pure expansion
func t01expand(c *Case) {
	n := 2 + c.R.Intn(4)
	fac := c.Fac()
	mk := func() *Node {
		k := 1 + c.R.Intn(n)
		lv := perm(c.R, n, k)
		lp := make([]bool, k)
		for i := range lp {
			lp[i] = true
		}
		p := [][2]int{{1, 1}, {2, 2}, {0, 1}}[c.R.Intn(3)]
		return &Node{K: KCC, LV: lv, LP: lp, Cmp: p[0], Rhs: p[1]}
	}
	nd := mk()
	for i := 0; i < c.R.Intn(3); i++ {
		o := &Node{K: []Kind{KAnd, KOr, KImpl, KEquiv}[c.R.Intn(4)], Kids: []*Node{nd, mk()}}
		if c.R.Intn(2) == 0 {
			o = &Node{K: KNot, Kids: []*Node{o}}
		}
		nd = o
	}
	c.Log("formula %s", nd)
	x := nd.build(fac)
	y, err := transformation.ExpandAMOAndEXO(fac, x)
	if c.Check(err == nil, "ExpandAMOAndEXO: ensures success", "%v", err) {
		c.eqTT("ExpandAMOAndEXO: ensures equivalent", n, newEnv(fac, n).tt(y), nd.tt(n), y.Sprint(fac))
		for _, s := range f.SubNodes(fac, y) {
			c.Check(s.Sort() != f.SortCC && s.Sort() != f.SortPBC, "ExpandAMOAndEXO: ensures no constraints", "%s", y.Sprint(fac))
		}
	}
}

// ------------------------------------------------------------ parsing
// text prints the tree in the grammar's syntax with random redundant brackets and white space
func (nd *Node) text(c *Case, lvl int) string {
	sp := func() string { return []string{" ", "", "  ", "\t"}[c.R.Intn(4)] }
	join := func(op string, sub int) string {
		var s []string
		for _, k := range nd.Kids {
			s = append(s, k.text(c, sub))
		}
		return strings.Join(s, sp()+op+sp())
	}
	br := func(s string, my int) string {
		if my > lvl || c.R.Intn(6) == 0 {
			return "(" + sp() + s + sp() + ")"
		}
		return s
	}
	// levels: equiv 5, impl 4, or 3, and 2, not 1, atom 0
	switch nd.K {
	case KTrue:
		return "$true"
	case KFalse:
		return "$false"
	case KLit:
		if nd.Phase {
			return vname(nd.Var)
		}
		return "~" + vname(nd.Var)
	case KNot:
		k := nd.Kids[0].text(c, 1)
		if kd := nd.Kids[0].K; kd == KCC || kd == KPBC || k[0] >= '0' && k[0] <= '9' { // "~1" and the "~x" of "~x + y = 1" are literals
			k = "(" + k + ")"
		}
		return br("~"+sp()+k, 1)
	case KEquiv:
		return br(nd.Kids[0].text(c, 4)+sp()+"<=>"+sp()+nd.Kids[1].text(c, 5), 5)
	case KImpl:
		return br(nd.Kids[0].text(c, 3)+sp()+"=>"+sp()+nd.Kids[1].text(c, 4), 4)
	case KAnd:
		return br(join("&", 1), 2)
	case KOr:
		return br(join("|", 2), 3)
	}
	var s []string
	for i := range nd.LV {
		l := vname(nd.LV[i])
		if !nd.LP[i] {
			l = "~" + l
		}
		if nd.K == KPBC {
			l = strconv.Itoa(nd.Co[i]) + sp() + "*" + sp() + l
		}
		s = append(s, l)
	}
	return br(strings.Join(s, sp()+"+"+sp())+sp()+cmpStr[nd.Cmp]+sp()+strconv.Itoa(nd.Rhs), 0)
}

var oddNames = []string{"a", "A_b", "@x", "#y", "12", "3", "_", "x#1", "4a", "T", "true", "v00"}

func r01(c *Case) {
	n := 2 + c.R.Intn(4)
	fac := c.Fac()
	nd := gen(c.R, c.R.Intn(5), GenOpt{N: n, Const: true, CC: c.R.Intn(3) == 0, PBC: c.R.Intn(3) == 0, Raw: c.R.Intn(3) == 0})
	c.Log("formula %s", nd)
	x := nd.build(fac)
	txt := x.Sprint(fac)
	y, err := parser.New(fac).Parse(txt)
	if c.Check(err == nil, "Parse(Sprint): ensures accepted", "%q: %v", txt, err) {
		c.Check(y == x, "Parse(Sprint): ensures the same formula", "%q parsed as %q", txt, y.Sprint(fac))
	}
	fac2 := f.NewFactory(c.consv)
	z, err := parser.New(fac2).Parse(txt)
	if c.Check(err == nil, "Parse(Sprint) on another factory: ensures accepted", "%q: %v", txt, err) {
		c.Check(sig(fac2, z) == sig(fac, x), "Parse(Sprint) on another factory: ensures an equal formula", "%q parsed as %q", txt, z.Sprint(fac2))
	}
}

// text -> formula against the grammar
func r01text(c *Case) {
	n := 2 + c.R.Intn(4)
	nd := gen(c.R, 1+c.R.Intn(4), GenOpt{N: n, Const: true, CC: c.R.Intn(3) == 0, PBC: c.R.Intn(3) == 0})
	okTree := true
	var walk func(x *Node)
	walk = func(x *Node) {
		if x.K == KClause || x.K == KMinterm || (x.K == KAnd || x.K == KOr) && len(x.Kids) < 2 || (x.K == KCC || x.K == KPBC) && len(x.LV) == 0 {
			okTree = false
		}
		for _, k := range x.Kids {
			walk(k)
		}
	}
	walk(nd)
	if !okTree {
		c.triv = true
		return
	}
	txt := nd.text(c, 5)
	c.Log("%q", txt)
	fac := c.Fac()
	x, err := parser.New(fac).Parse(txt)
	if c.Check(err == nil, "Parse: ensures every text of the grammar is accepted", "%q: %v", txt, err) {
		c.eqTT("Parse: ensures the formula of the grammar", n, newEnv(fac, n).tt(x), nd.tt(n), x.Sprint(fac))
		c.Check(x == nd.build(fac), "Parse: ensures the constructed formula", "%s", x.Sprint(fac))
	}
}

// an independent recogniser of the grammar (PEG over tokens with full backtracking through memoised sets)
type recog struct{ tok []string }

func lexRef(s string) ([]string, bool) {
	var toks []string
	isW := func(b byte) bool {
		return b >= 'A' && b <= 'Z' || b >= 'a' && b <= 'z' || b >= '0' && b <= '9' || b == '_' || b == '#'
	}
	isD := func(b byte) bool { return b >= '0' && b <= '9' }
	for i := 0; i < len(s); {
		if s[i] == ' ' || s[i] == '\t' || s[i] == '\r' || s[i] == '\n' {
			i++
			continue
		}
		best, kind := 0, ""
		try := func(n int, k string) {
			if n > best {
				best, kind = n, k
			}
		}
		// NUMBER
		j := i
		if s[j] == '-' {
			j++
		}
		k := j
		for k < len(s) && isD(s[k]) {
			k++
		}
		if k > j {
			try(k-i, "N")
		}
		// LITERAL
		j = i
		if s[j] == '~' {
			j++
		}
		if j < len(s) && (isW(s[j]) || s[j] == '@') {
			k = j + 1
			for k < len(s) && isW(s[k]) {
				k++
			}
			try(k-i, "L")
		}
		for _, o := range []string{"$true", "$false", "(", ")", "~", "&", "|", "=>", "<=>", "*", "+", "=", "<=", "<", ">=", ">"} {
			if strings.HasPrefix(s[i:], o) {
				try(len(o), o)
			}
		}
		if best == 0 {
			return nil, false
		}
		toks = append(toks, kind)
		i += best
	}
	return toks, true
}

// each rule returns the set of positions reachable from p
func (r *recog) at(p int, t string) bool { return p < len(r.tok) && r.tok[p] == t }
func (r *recog) mul(p int) []int {
	var o []int
	if r.at(p, "L") {
		o = append(o, p+1)
	}
	if r.at(p, "N") {
		o = append(o, p+1)
		if r.at(p+1, "*") && (r.at(p+2, "L") || r.at(p+2, "N")) {
			o = append(o, p+3)
		}
	}
	return o
}
func (r *recog) list(p int, sub func(int) []int, op string) []int {
	seen := map[int]bool{}
	work := sub(p)
	var out []int
	for len(work) > 0 {
		q := work[0]
		work = work[1:]
		if seen[q] {
			continue
		}
		seen[q] = true
		out = append(out, q)
		if r.at(q, op) {
			work = append(work, sub(q+1)...)
		}
	}
	return out
}
func (r *recog) simp(p int) []int {
	var o []int
	if r.at(p, "L") || r.at(p, "N") || r.at(p, "$true") || r.at(p, "$false") {
		o = append(o, p+1)
	}
	if r.at(p, "(") {
		for _, q := range r.equiv(p + 1) {
			if r.at(q, ")") {
				o = append(o, q+1)
			}
		}
	}
	for _, q := range r.list(p, r.mul, "+") {
		for _, op := range cmpStr {
			if r.at(q, op) && r.at(q+1, "N") {
				o = append(o, q+2)
			}
		}
	}
	return o
}
func (r *recog) lit(p int) []int {
	if r.at(p, "~") {
		return r.lit(p + 1)
	}
	return r.simp(p)
}
func (r *recog) conj(p int) []int { return r.list(p, r.lit, "&") }
func (r *recog) disj(p int) []int { return r.list(p, r.conj, "|") }
func (r *recog) right(p int, sub, self func(int) []int, op string) []int {
	var o []int
	for _, q := range sub(p) {
		o = append(o, q)
		if r.at(q, op) {
			o = append(o, self(q+1)...)
		}
	}
	return o
}
func (r *recog) impl(p int) []int  { return r.right(p, r.disj, r.impl, "=>") }
func (r *recog) equiv(p int) []int { return r.right(p, r.impl, r.equiv, "<=>") }
func accepts(s string) bool {
	if strings.TrimSpace(s) == "" {
		return true
	}
	t, ok := lexRef(s)
	if !ok {
		return false
	}
	r := &recog{t}
	for _, q := range r.equiv(0) {
		if q == len(t) {
			return true
		}
	}
	return false
}

func r01malformed(c *Case) {
	var txt string
	if c.R.Intn(2) == 0 {
		atoms := []string{"a", "b", "~a", "~", "(", ")", "&", "|", "=>", "<=>", "$true", "$false", "2", "-3", "*", "+", "=", "<=", "<", ">=", ">", " ", "@", "#", "$", "a1", "x_", ",", "\n", "9999999999999999999999"}
		for i := 0; i < 1+c.R.Intn(9); i++ {
			txt += atoms[c.R.Intn(len(atoms))]
			if c.R.Intn(3) == 0 {
				txt += " "
			}
		}
	} else { // a well-formed text with a defect
		nd := gen(c.R, 1+c.R.Intn(3), GenOpt{N: 3, Const: true, CC: true, PBC: true})
		fac := f.NewFactory()
		txt = nd.build(fac).Sprint(fac)
		for i := 0; i < 1+c.R.Intn(2); i++ {
			p := c.R.Intn(len(txt) + 1)
			switch c.R.Intn(3) {
			case 0:
				if p < len(txt) {
					txt = txt[:p] + txt[p+1:]
				}
			case 1:
				txt = txt[:p] + []string{"(", ")", "&", " a", "~", "*", " 1 ", "=", "+"}[c.R.Intn(9)] + txt[p:]
			case 2:
				txt = txt[:p]
			}
		}
	}
	c.Log("%q", txt)
	fac := c.Fac()
	x, err := parser.New(fac).Parse(txt)
	want := accepts(txt)
	if strings.Contains(txt, "999999999") { // numbers beyond the integer range may be rejected
		if err == nil {
			x.Sprint(fac)
		}
		return
	}
	c.Check((err == nil) == want, "Parse: ensures exactly the texts of the grammar are accepted", "%q: error %v, in the grammar %v", txt, err, want)
	if err == nil {
		y, err := parser.New(fac).Parse(x.Sprint(fac))
		c.Check(err == nil && x == y, "Parse(Sprint(Parse)): ensures the same formula", "%q -> %q", txt, x.Sprint(fac))
	}
}

func r01names(c *Case) {
	fac := c.Fac()
	pick := func() f.Literal { return fac.Lit(oddNames[c.R.Intn(len(oddNames))], c.R.Intn(2) == 0) }
	k := 1 + c.R.Intn(4)
	lits := make([]f.Literal, k)
	co := make([]int, k)
	for i := range lits {
		lits[i], co[i] = pick(), c.R.Intn(9)-4
	}
	var x f.Formula
	switch c.R.Intn(5) {
	case 0:
		x = fac.PBC(cmps[c.R.Intn(5)], c.R.Intn(9)-4, lits, co)
	case 1:
		x = fac.Clause(lits...)
	case 2:
		x = fac.Minterm(lits...)
	case 3:
		x = fac.Implication(fac.Clause(lits...), pick().AsFormula())
	case 4:
		x = fac.Not(fac.Equivalence(fac.Minterm(lits...), fac.PBC(cmps[c.R.Intn(5)], c.R.Intn(9)-4, lits, co)))
	}
	txt := x.Sprint(fac)
	c.Log("%q", txt)
	y, err := parser.New(fac).Parse(txt)
	if c.Check(err == nil, "Parse(Sprint): ensures accepted", "%q: %v", txt, err) {
		c.Check(y == x, "Parse(Sprint): ensures the same formula", "%q parsed as %q", txt, y.Sprint(fac))
	}
}

// ------------------------------------------------------------ files
var scratch = func() func() string {
	dir := ""
	k := 0
	return func() string {
		if dir == "" {
			dir, _ = os.MkdirTemp(".", "lngdrv")
			scratchDir = dir
		}
		k++
		return filepath.Join(dir, fmt.Sprintf("f%d.cnf", k%4))
	}
}()
var scratchDir string

func r02(c *Case) {
	n := 2 + c.R.Intn(4)
	fac := c.Fac()
	nd := gen(c.R, c.R.Intn(4), GenOpt{N: n, Const: true, CC: c.R.Intn(3) == 0, PBC: c.R.Intn(3) == 0})
	c.Log("formula %s", nd)
	x := nd.build(fac)
	file := scratch()
	split := c.R.Intn(2) == 0
	err := lio.WriteFormula(fac, file, x, split)
	if !c.Check(err == nil, "WriteFormula: ensures success", "%v", err) {
		return
	}
	y, err := lio.ReadFormula(fac, file)
	c.Check(err == nil && y == x, "ReadFormula(WriteFormula): ensures the same formula", "%v %v", err, y)
	ys, err := lio.ReadFormulas(fac, file)
	if c.Check(err == nil, "ReadFormulas: ensures success", "%v", err) {
		c.Check(fac.And(ys...) == x, "ReadFormulas(WriteFormula): ensures the conjuncts", "")
		if !split {
			c.Check(len(ys) == 1, "ReadFormulas: ensures one formula per line", "%d", len(ys))
		}
	}
	fac2 := f.NewFactory(c.consv)
	z, err := lio.ReadFormula(fac2, file)
	c.Check(err == nil && sig(fac2, z) == sig(fac, x), "ReadFormula on another factory: ensures an equal formula", "%v", err)
}

func r02dimacs(c *Case) {
	n := 1 + c.R.Intn(5)
	fac := c.Fac()
	nd := genCNF(c.R, n, c.R.Intn(7), 4)
	if c.R.Intn(10) == 0 {
		nd = gen(c.R, 2, GenOpt{N: n, Const: true})
	}
	c.Log("formula %s", nd)
	x := nd.build(fac)
	file := scratch()
	os.Remove(file)
	target := file
	if c.R.Intn(2) == 0 { // the extension is added
		target = strings.TrimSuffix(file, ".cnf")
	}
	m, err := lio.WriteDimacs(fac, target, x)
	if !c.Check((err == nil) == shapeCNF(fac, x), "WriteDimacs: ensures error iff not a CNF", "%v %s", err, x.Sprint(fac)) || err != nil {
		return
	}
	// read the file independently
	data, _ := os.ReadFile(file)
	lines := strings.Split(strings.TrimSpace(string(data)), "\n")
	var nv, nc int
	fmt.Sscanf(lines[0], "p cnf %d %d", &nv, &nc)
	id2v := map[int]int{}
	for v, id := range m {
		nm, _ := fac.VarName(v)
		var i int
		fmt.Sscanf(nm, "v%d", &i)
		_, dup := id2v[id]
		c.Check(!dup && id >= 1 && id <= nv, "WriteDimacs: ensures distinct indices 1..n", "%s -> %d", nm, id)
		id2v[id] = i
	}
	vars := oracleVars(fac, x, map[string]bool{})
	c.Check(len(m) == len(vars) && nv == len(vars), "WriteDimacs: ensures every variable is mapped and the header is right", "%s", lines[0])
	c.Check(nc == len(lines)-1, "WriteDimacs: ensures the number of clauses of the header", "%s, %d lines", lines[0], len(lines)-1)
	t := ttConst(n, true)
	for _, l := range lines[1:] {
		cl := ttConst(n, false)
		fs := strings.Fields(l)
		if !c.Check(len(fs) > 0 && fs[len(fs)-1] == "0", "WriteDimacs: ensures clauses end with 0", "%q", l) {
			return
		}
		for _, w := range fs[:len(fs)-1] {
			k, err := strconv.Atoi(w)
			i, ok := id2v[k]
			if k < 0 {
				i, ok = id2v[-k]
			}
			if !c.Check(err == nil && ok, "WriteDimacs: ensures mapped literals", "%q", w) {
				return
			}
			v := ttVar(n, i)
			if k < 0 {
				v = v.not(n)
			}
			cl = cl.or(v)
		}
		t = t.and(cl)
	}
	c.eqTT("WriteDimacs: ensures the clauses of the formula under the mapping", n, t, nd.tt(n), string(data))
	cls, err := lio.ReadDimacs(fac, file)
	if !c.Check(err == nil, "ReadDimacs: ensures success", "%v", err) {
		return
	}
	env := &Env{fac: fac, n: n, idx: map[string]int{}, memo: map[f.Formula]TT{}}
	for id, i := range id2v {
		env.idx[fmt.Sprintf("v%d", id)] = i
	}
	c.eqTT("ReadDimacs(WriteDimacs): ensures an equivalent formula", n, env.tt(fac.And(*cls...)), nd.tt(n), "clauses")
}

// r02text: a DIMACS text of the format (comments, blank lines, any blanks between the literals, empty clauses)
// is read as exactly its clauses over the prefixed variables
func r02text(c *Case) {
	n := 1 + c.R.Intn(12)
	fac := c.Fac()
	pfx := []string{"v", "v", "x", "var_"}[c.R.Intn(4)]
	var sb strings.Builder
	noise := func() {
		switch c.R.Intn(8) {
		case 0:
			sb.WriteString("c a comment 1 -2 0\n")
		case 1:
			sb.WriteString("\n")
		case 2:
			sb.WriteString("  \t \n")
		}
	}
	noise()
	ncl := c.R.Intn(9)
	fmt.Fprintf(&sb, "p cnf %d %d\n", n, ncl)
	var want []f.Formula
	for i := 0; i < ncl; i++ {
		noise()
		var ops []f.Formula
		for j := c.R.Intn(5) + c.R.Intn(2); j > 0; j-- {
			v := 1 + c.R.Intn(n)
			ph := c.R.Intn(2) == 0
			if !ph {
				sb.WriteString("-")
			}
			fmt.Fprintf(&sb, "%d%s", v, []string{" ", "  ", "\t"}[c.R.Intn(3)])
			ops = append(ops, fac.Literal(fmt.Sprintf("%s%d", pfx, v), ph))
		}
		sb.WriteString("0")
		if i+1 < ncl || c.R.Intn(2) == 0 {
			sb.WriteString([]string{"\n", "\r\n", " \n"}[c.R.Intn(3)])
		}
		want = append(want, fac.Or(ops...))
	}
	c.Log("%q", sb.String())
	file := scratch()
	os.WriteFile(file, []byte(sb.String()), 0o600)
	var cls *[]f.Formula
	var err error
	if pfx == "v" && c.R.Intn(2) == 0 {
		cls, err = lio.ReadDimacs(fac, file)
	} else {
		cls, err = lio.ReadDimacs(fac, file, pfx)
	}
	if !c.Check(err == nil && len(*cls) == len(want), "ReadDimacs: ensures one formula per clause", "%v", err) {
		return
	}
	for i, w := range want {
		c.Check((*cls)[i] == w, "ReadDimacs: ensures exactly the clause of the line", "%s want %s", (*cls)[i].Sprint(fac), w.Sprint(fac))
	}
}

// r02large: many variables and clauses, lines longer than the usual read buffers
func r02large(c *Case) {
	fac := f.NewFactory(c.consv)
	n := []int{11, 120, 1500, 15000}[c.R.Intn(4)]
	lit := func(v int, ph bool) f.Formula { return fac.Literal(fmt.Sprintf("v%d", v), ph) }
	var cls []f.Formula
	long := make([]f.Formula, n)
	for i := range long {
		long[i] = lit(i+1, c.R.Intn(2) == 0)
	}
	cls = append(cls, fac.Or(long...))
	for i := 0; i < 30; i++ {
		a, b, d := 1+c.R.Intn(n), 1+c.R.Intn(n), 1+c.R.Intn(n)
		cls = append(cls, fac.Or(lit(a, c.R.Intn(2) == 0), lit(b, c.R.Intn(2) == 0), lit(d, c.R.Intn(2) == 0)))
	}
	x := fac.And(cls...)
	c.Log("%d variables, %d clauses, long clause first", n, len(cls))
	file := scratch()
	err := lio.WriteFormula(fac, file, x, c.R.Intn(2) == 0)
	if c.Check(err == nil, "WriteFormula: ensures success", "%v", err) {
		y, err := lio.ReadFormula(fac, file)
		c.Check(err == nil && y == x, "ReadFormula(WriteFormula): ensures the same formula", "%v", err)
	}
	m, err := lio.WriteDimacs(fac, file, x)
	if !c.Check(err == nil, "WriteDimacs: ensures success", "%v", err) {
		return
	}
	fac2 := f.NewFactory(c.consv)
	back, err := lio.ReadDimacs(fac2, file, "y")
	if !c.Check(err == nil && len(*back) == len(fac.Operands(x)), "ReadDimacs(WriteDimacs): ensures one formula per clause", "%v", err) {
		return
	}
	used := map[int]bool{}
	for _, id := range m {
		c.Check(id >= 1 && id <= n && !used[id], "WriteDimacs: ensures distinct indices 1..n", "%d", id)
		used[id] = true
	}
	key := func(g f.Factory, y f.Formula, name func(string) string) string {
		var ls []string
		for _, l := range f.Literals(g, y).Content() {
			nm, ph, _ := g.LitNamePhase(l)
			ls = append(ls, fmt.Sprintf("%v%s", ph, name(nm)))
		}
		sort.Strings(ls)
		return strings.Join(ls, " ")
	}
	got, want := map[string]int{}, map[string]int{}
	for _, cl := range *back {
		got[key(fac2, cl, func(s string) string { return s })]++
	}
	for _, cl := range fac.Operands(x) {
		want[key(fac, cl, func(s string) string { return fmt.Sprintf("y%d", m[fac.Var(s)]) })]++
	}
	for k, v := range want {
		if got[k] != v {
			c.Fail("ReadDimacs(WriteDimacs): ensures the same clauses under the mapping: clause of length %d", len(strings.Fields(k)))
			return
		}
	}
	c.Check(len(got) == len(want), "ReadDimacs(WriteDimacs): ensures no other clauses", "")
	// the same clauses as a MaxSAT file: all unit clauses of the long clause's literals soft, the others hard
	var sb strings.Builder
	fmt.Fprintf(&sb, "p wcnf %d %d 1000\n1000 ", n, n+1)
	for i := 1; i <= n; i++ {
		fmt.Fprintf(&sb, "-%d ", i)
	}
	sb.WriteString("0\n")
	k := 1 + c.R.Intn(5)
	for i := 1; i <= k; i++ {
		fmt.Fprintf(&sb, "%d %d 0\n", i, 1+c.R.Intn(min(n, 10)))
	}
	os.WriteFile(file, []byte(sb.String()), 0o600)
	fac3 := f.NewFactory(c.consv)
	s := maxsat.OLL(fac3)
	err = maxsat.ReadDimacsToSolver(fac3, s, file)
	if c.Check(err == nil, "ReadDimacsToSolver: ensures success", "%v", err) {
		r := s.Solve()
		c.Check(r.Satisfiable && r.Optimum == 0, "ReadDimacsToSolver: ensures exactly the soft clauses", "%v", r.Optimum)
	}
}

func r02maxsat(c *Case) {
	n := 1 + c.R.Intn(4)
	fac := c.Fac()
	weighted := c.R.Intn(2) == 0
	w := &mw{c: c, fac: fac, n: n, hard: ttConst(n, true)}
	var sb strings.Builder
	top := 50
	ncl := 1 + c.R.Intn(8)
	if c.R.Intn(3) == 0 {
		sb.WriteString("c a comment\n")
	}
	hasHard := c.R.Intn(3) > 0
	sp := func() string { return []string{" ", " ", "  ", "\t"}[c.R.Intn(4)] }
	if weighted {
		if hasHard {
			fmt.Fprintf(&sb, "p wcnf %d %d %d\n", n, ncl, top)
		} else {
			fmt.Fprintf(&sb, "p wcnf %d %d\n", n, ncl)
		}
	} else {
		fmt.Fprintf(&sb, "p cnf %d %d\n", n, ncl)
	}
	for i := 0; i < ncl; i++ {
		t := ttConst(n, false)
		wt := 1
		if weighted {
			wt = 1 + c.R.Intn(5)
			if i == 0 {
				wt = 2
			} else if hasHard && c.R.Intn(3) == 0 {
				wt = top
			}
			fmt.Fprintf(&sb, "%d%s", wt, sp())
		}
		for _, v := range perm(c.R, n, 1+c.R.Intn(n)) {
			x := ttVar(n, v)
			if c.R.Intn(2) == 0 {
				x = x.not(n)
				sb.WriteString("-")
			}
			fmt.Fprintf(&sb, "%d%s", v, sp())
			if v == 0 { // DIMACS variables start at 1
				s := sb.String()
				k := strings.LastIndex(strings.TrimRight(s, " \t"), "0")
				sb.Reset()
				sb.WriteString(s[:k] + strconv.Itoa(n) + s[k+1:])
			}
			t = t.or(x)
		}
		sb.WriteString("0\n")
		if wt == top {
			w.hard = w.hard.and(t)
		} else {
			w.soft, w.wt = append(w.soft, t), append(w.wt, wt)
		}
	}
	txt := sb.String()
	c.Log("%q", txt)
	file := scratch()
	os.WriteFile(file, []byte(txt), 0o600)
	var s *maxsat.Solver
	if weighted {
		s = maxsat.OLL(fac)
	} else {
		s = maxsat.LinearSU(fac)
	}
	err := maxsat.ReadDimacsToSolver(fac, s, file)
	if !c.Check(err == nil, "ReadDimacsToSolver: ensures success", "%v", err) {
		return
	}
	r := s.Solve()
	opt, ok := w.optimum()
	c.Check(r.Satisfiable == ok, "ReadDimacsToSolver: ensures exactly the hard clauses", "")
	if ok && r.Satisfiable {
		c.Check(r.Optimum == opt, "ReadDimacsToSolver: ensures exactly the soft clauses", "got %d want %d", r.Optimum, opt)
	}
}

// ------------------------------------------------------------ graphs
func g01(c *Case) {
	n := 2 + c.R.Intn(7)
	fac := c.Fac()
	var fs []f.Formula
	for i := 0; i < 1+c.R.Intn(5); i++ {
		k := 1 + c.R.Intn(3)
		vs := perm(c.R, n, k)
		nd := gen(c.R, c.R.Intn(3), GenOpt{N: k, Const: c.R.Intn(5) == 0, CC: c.R.Intn(4) == 0, PBC: c.R.Intn(4) == 0})
		var ren func(x *Node)
		ren = func(x *Node) {
			if x.K == KLit {
				x.Var = vs[x.Var%len(vs)]
			}
			for i := range x.LV {
				x.LV[i] = vs[x.LV[i]%len(vs)]
			}
			for _, y := range x.Kids {
				ren(y)
			}
		}
		ren(nd)
		c.Log("%s", nd)
		fs = append(fs, nd.build(fac))
	}
	vars := map[string]bool{}
	edge := map[[2]string]bool{}
	for _, x := range fs {
		vs := sortedKeys(oracleVars(fac, x, map[string]bool{}))
		for _, a := range vs {
			vars[a] = true
			for _, b := range vs {
				if a != b {
					edge[[2]string{a, b}] = true
				}
			}
		}
	}
	g := graph.GenerateConstraintGraph(fac, fs...)
	seen := map[string]bool{}
	for _, nd := range g.Nodes() {
		v := nd.Sprint(fac)
		c.Check(vars[v] && !seen[v], "GenerateConstraintGraph: ensures the nodes are the variables", "%s", v)
		seen[v] = true
		nb := map[string]bool{}
		for _, m := range g.Neighbours(nd) {
			u := m.Sprint(fac)
			c.Check(edge[[2]string{v, u}] && !nb[u], "GenerateConstraintGraph: ensures only joint occurrences are linked", "%s-%s", v, u)
			nb[u] = true
		}
		for u := range vars {
			c.Check(nb[u] || !edge[[2]string{v, u}], "GenerateConstraintGraph: ensures every joint occurrence is linked", "%s-%s", v, u)
		}
	}
	c.Check(len(seen) == len(vars), "GenerateConstraintGraph: ensures every variable is a node", "")
	comps := graph.ComputeConnectedComponents(g)
	// reference components
	ref := map[string]string{}
	for v := range vars {
		ref[v] = v
	}
	for ch := true; ch; {
		ch = false
		for e := range edge {
			if ref[e[0]] < ref[e[1]] {
				ref[e[1]], ch = ref[e[0]], true
			}
		}
	}
	where := map[string]int{}
	for i, cp := range comps {
		c.Check(len(cp) > 0, "ComputeConnectedComponents: ensures non-empty components", "")
		for _, v := range cp {
			nm := v.Sprint(fac)
			_, dup := where[nm]
			c.Check(vars[nm] && !dup, "ComputeConnectedComponents: ensures a partition", "%s", nm)
			where[nm] = i
		}
	}
	for a := range vars {
		_, ok := where[a]
		c.Check(ok, "ComputeConnectedComponents: ensures every variable occurs", "%s", a)
		for b := range vars {
			c.Check((where[a] == where[b]) == (ref[a] == ref[b]), "ComputeConnectedComponents: ensures exactly connected variables share a component", "%s %s", a, b)
		}
	}
	parts := graph.SplitFormulasByComponent(fac, fs, comps)
	cnt := map[f.Formula]int{}
	for i, p := range parts {
		for _, x := range p {
			cnt[x]++
			for v := range oracleVars(fac, x, map[string]bool{}) {
				c.Check(where[v] == i, "SplitFormulasByComponent: ensures formulas only in the component of their variables", "%s", x.Sprint(fac))
			}
		}
	}
	mult := map[f.Formula]int{}
	for _, x := range fs {
		mult[x]++
	}
	for x, k := range mult {
		if len(oracleVars(fac, x, map[string]bool{})) > 0 {
			c.Check(cnt[x] == k, "SplitFormulasByComponent: ensures every formula in exactly one component", "%s %d times", x.Sprint(fac), cnt[x])
		} else {
			c.Check((cnt[x] > 0) == (x.Sort() == f.SortFalse), "SplitFormulasByComponent: ensures falsum is kept", "%s", x.Sprint(fac))
		}
	}
}

func g01hyper(c *Case) {
	n := 1 + c.R.Intn(5)
	fac := c.Fac()
	nd := genCNF(c.R, n, 1+c.R.Intn(6), 4)
	if c.R.Intn(6) == 0 {
		nd = gen(c.R, 2, GenOpt{N: n, Const: true})
	}
	c.Log("%s", nd)
	x := nd.build(fac)
	check := func(what string, h *graph.Hypergraph, cls []f.Formula) {
		want := map[string]int{}
		vars := map[string]bool{}
		for _, cl := range cls {
			if cl.Sort() == f.SortTrue || cl.Sort() == f.SortFalse {
				continue
			}
			vs := sortedKeys(oracleVars(fac, cl, map[string]bool{}))
			want[strings.Join(vs, " ")]++
			for _, v := range vs {
				vars[v] = true
			}
		}
		seen := map[string]bool{}
		for _, nd := range h.Nodes {
			v := nd.Content.Sprint(fac)
			c.Check(vars[v] && !seen[v], what+": ensures one node per variable", "%s", v)
			seen[v] = true
			for _, e := range nd.Edges {
				in := false
				for _, m := range e.Nodes {
					in = in || m == nd
				}
				c.Check(in, what+": ensures nodes know exactly their edges", "")
			}
		}
		c.Check(len(seen) == len(vars), what+": ensures every variable is a node", "")
		got := map[string]int{}
		for _, e := range h.Edges {
			m := map[string]bool{}
			for _, nd := range e.Nodes {
				m[nd.Content.Sprint(fac)] = true
				in := false
				for _, o := range nd.Edges {
					in = in || o == e
				}
				c.Check(in, what+": ensures nodes know exactly their edges", "")
			}
			c.Check(len(m) == len(e.Nodes), what+": ensures distinct nodes of an edge", "")
			got[strings.Join(sortedKeys(m), " ")]++
		}
		for k, v := range want {
			c.Check(got[k] == v, what+": ensures one edge per clause with exactly its variables", "%q %d want %d", k, got[k], v)
		}
		c.Check(len(got) == len(want), what+": ensures no further edges", "%v", got)
	}
	h, err := graph.HypergraphFromCNF(fac, x)
	if c.Check((err == nil) == shapeCNF(fac, x), "HypergraphFromCNF: ensures error iff not a CNF", "%v", err) && err == nil {
		check("HypergraphFromCNF", h, topClauses(fac, x))
	}
	cls := topClauses(fac, x)
	clausal := true
	for _, cl := range cls {
		clausal = clausal && shapeTerm(fac, cl, f.SortOr)
	}
	h, err = graph.HypergraphFromClauses(fac, cls...)
	if c.Check((err == nil) == clausal, "HypergraphFromClauses: ensures error iff not clauses", "%v", err) && err == nil {
		check("HypergraphFromClauses", h, cls)
	}
}

func init() {
	reg("M01", Family{"histories", "maxsat.{WBO,IncWBO,LinearSU,LinearUS,MSU3,WMSU3,OLL}.{AddHardFormula,AddSoftFormula,Solve,SaveState,LoadState}", "<=6 variables, <=17 operations", 8000, 200000, m01},
		Family{"large", "maxsat.{WBO,IncWBO,LinearSU,LinearUS,MSU3,WMSU3,OLL}", "7 to 9 variables, <=37 operations", 300, 8000, m01large},
		Family{"groups", "maxsat.{WBO,IncWBO,LinearSU,LinearUS,MSU3,WMSU3,OLL}", "6 to 10 variables, <=14 soft literals, <=4 at-least groups", 400, 20000, m01groups})
	reg("E01", Family{"sets", "mus.Compute*, smus.Compute*", "<=8 propositions, <=5 variables", 4000, 60000, e01})
	reg("T01",
		Family{"formulas", "transformation.{Substitute,SubstituteLiterals,ExistentialQE,UniversalQE,Anonymize,ExpandAMOAndEXO}", "<=5 variables, depth<=4", 20000, 400000, t01},
		Family{"expansion", "transformation.ExpandAMOAndEXO", "<=5 variables", 5000, 60000, t01expand})
	reg("R01",
		Family{"print-parse", "Formula.Sprint, parser.Parse", "random formulas, <=5 variables", 8000, 150000, r01},
		Family{"grammar", "parser.Parse", "random texts of the grammar", 8000, 150000, r01text},
		Family{"names", "Formula.Sprint, parser.Parse", "unusual variable names", 4000, 60000, r01names},
		Family{"malformed", "parser.Parse", "random token sequences and damaged texts", 8000, 150000, r01malformed})
	reg("R02",
		Family{"formulas", "io.{WriteFormula,ReadFormula,ReadFormulas}", "random formulas", 1500, 40000, r02},
		Family{"dimacs", "io.{WriteDimacs,ReadDimacs}", "random CNFs, <=5 variables, <=6 clauses", 3000, 60000, r02dimacs},
		Family{"text", "io.ReadDimacs", "random DIMACS texts, <=12 variables, <=8 clauses", 3000, 60000, r02text},
		Family{"large", "io.{WriteFormula,ReadFormula,WriteDimacs,ReadDimacs}, maxsat.ReadDimacsToSolver", "31 clauses, <=15000 variables, one line of up to 130 kB", 8, 200, r02large},
		Family{"maxsat", "maxsat.ReadDimacsToSolver", "random files, <=4 variables, <=8 clauses", 2000, 40000, r02maxsat})
	reg("G01",
		Family{"constraint-graph", "graph.{GenerateConstraintGraph,ComputeConnectedComponents,SplitFormulasByComponent}", "<=8 variables, <=5 formulas", 10000, 200000, g01},
		Family{"hypergraph", "graph.HypergraphFrom*", "<=5 variables, <=6 clauses", 10000, 200000, g01hyper})
}

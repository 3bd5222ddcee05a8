package main

import (
	"fmt"
	"math/big"

	"github.com/booleworks/logicng-go/bdd"
	"github.com/booleworks/logicng-go/dnnf"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/model"
	"github.com/booleworks/logicng-go/model/enum"
	"github.com/booleworks/logicng-go/normalform"
	"github.com/booleworks/logicng-go/primeimplicant"
	"github.com/booleworks/logicng-go/sat"
	"github.com/booleworks/logicng-go/simplification"
)

// ------------------------------------------------------------ shape oracles
func isLitish(s f.FSort) bool { return s == f.SortTrue || s == f.SortFalse || s == f.SortLiteral }
func shapeNNF(fac f.Factory, x f.Formula) bool {
	if isLitish(x.Sort()) {
		return true
	}
	if x.Sort() != f.SortAnd && x.Sort() != f.SortOr {
		return false
	}
	for _, k := range kidsOf(fac, x) {
		if !shapeNNF(fac, k) {
			return false
		}
	}
	return true
}
func shapeTerm(fac f.Factory, x f.Formula, s f.FSort) bool {
	if isLitish(x.Sort()) {
		return true
	}
	if x.Sort() != s {
		return false
	}
	for _, k := range kidsOf(fac, x) {
		if k.Sort() != f.SortLiteral {
			return false
		}
	}
	return true
}
func shape2(fac f.Factory, x f.Formula, outer, inner f.FSort) bool {
	if shapeTerm(fac, x, inner) {
		return true
	}
	if x.Sort() != outer {
		return false
	}
	for _, k := range kidsOf(fac, x) {
		if !shapeTerm(fac, k, inner) {
			return false
		}
	}
	return true
}
func shapeCNF(fac f.Factory, x f.Formula) bool { return shape2(fac, x, f.SortAnd, f.SortOr) }
func shapeDNF(fac f.Factory, x f.Formula) bool { return shape2(fac, x, f.SortOr, f.SortAnd) }
func shapeAIG(fac f.Factory, x f.Formula) bool { return shapeAIGUpTo(fac, x, nil) }

// shapeAIGUpTo is the AIG shape where the formulas of raw may occur untransformed
func shapeAIGUpTo(fac f.Factory, x f.Formula, raw map[f.Formula]bool) bool {
	if isLitish(x.Sort()) || raw[x] {
		return true
	}
	if x.Sort() != f.SortAnd && x.Sort() != f.SortNot {
		return false
	}
	for _, k := range kidsOf(fac, x) {
		if !shapeAIGUpTo(fac, k, raw) {
			return false
		}
	}
	return true
}

func topClauses(fac f.Factory, x f.Formula) []f.Formula {
	if x.Sort() == f.SortAnd {
		return kidsOf(fac, x)
	}
	return []f.Formula{x}
}

// auxTT is the function of a formula over the first n variables, all other (auxiliary) variables projected away;
// false if there are too many of them
func auxTT(fac f.Factory, n int, x f.Formula) (TT, bool, bool) {
	env := newEnv(fac, n)
	m := n
	for _, v := range sortedKeys(oracleVars(fac, x, map[string]bool{})) {
		if _, ok := env.idx[v]; !ok {
			env.idx[v] = m
			m++
		}
	}
	if m > n+8 {
		return nil, true, false
	}
	env.n = m
	t := env.tt(x)
	for i := n; i < m; i++ {
		t = t.exists(m, i)
	}
	r := ttConst(n, false)
	for a := 0; a < 1<<n; a++ {
		if t.bit(a) {
			r.set(a)
		}
	}
	return r, m > n, true
}

func checkShapes(c *Case, fac f.Factory, x f.Formula) {
	for _, s := range f.SubNodes(fac, x) {
		p := s.Sprint(fac)
		c.Check(normalform.IsNNF(fac, s) == shapeNNF(fac, s), "IsNNF: ensures exactly the definition", "%s", p)
		c.Check(normalform.IsCNF(fac, s) == shapeCNF(fac, s), "IsCNF: ensures exactly the definition", "%s", p)
		c.Check(normalform.IsDNF(fac, s) == shapeDNF(fac, s), "IsDNF: ensures exactly the definition", "%s", p)
		c.Check(normalform.IsAIG(fac, s) == shapeAIG(fac, s), "IsAIG: ensures exactly the definition", "%s", p)
		c.Check(normalform.IsMinterm(fac, s) == shapeTerm(fac, s, f.SortAnd), "IsMinterm: ensures exactly the definition", "%s", p)
		c.Check(normalform.IsMaxterm(fac, s) == shapeTerm(fac, s, f.SortOr), "IsMaxterm: ensures exactly the definition", "%s", p)
	}
}

func n01(c *Case) {
	n := 2 + c.R.Intn(4)
	fac := c.Fac()
	cc := c.R.Intn(3) == 0
	depth := 1 + c.R.Intn(4)
	if cc {
		depth = 1 + c.R.Intn(2) // factorising encoded constraints is exponential
	}
	nd := gen(c.R, depth, GenOpt{N: n, Const: true, CC: cc, PBC: cc})
	c.Log("formula %s", nd)
	x := nd.build(fac)
	t := nd.tt(n)
	env := newEnv(fac, n)
	same := func(what string, y f.Formula, ok bool) {
		c.Check(ok, what+": ensures the form", "%s", y.Sprint(fac))
		if !cc {
			c.eqTT(what+": ensures equivalent", n, env.tt(y), t, y.Sprint(fac))
			for v := range oracleVars(fac, y, map[string]bool{}) {
				c.Check(oracleVars(fac, x, map[string]bool{})[v], what+": ensures no new variables", "%s in %s", v, y.Sprint(fac))
			}
		} else if shapeCNF(fac, y) {
			c.eqTT(what+": ensures equivalent over the input's variables", n, c.clauses(fac, topClauses(fac, y)).project(n), t, y.Sprint(fac))
		}
	}
	for k := 0; k < 1+c.R.Intn(5); k++ {
		switch op := c.R.Intn(9); op {
		case 0:
			y := normalform.NNF(fac, x)
			same("NNF", y, shapeNNF(fac, y))
			if y2 := normalform.NNF(fac, x); y2 != y {
				c.Fail("NNF: ensures deterministic result")
			}
		case 1:
			y := normalform.FactorizedCNF(fac, x)
			same("FactorizedCNF", y, shapeCNF(fac, y))
		case 2:
			if !cc {
				y := normalform.FactorizedDNF(fac, x)
				same("FactorizedDNF", y, shapeDNF(fac, y))
			}
		case 3:
			y := normalform.CNF(fac, x, &normalform.CNFConfig{Algorithm: normalform.CNFFactorization})
			same("CNF(factorization)", y, shapeCNF(fac, y))
		case 4:
			if !cc {
				y := normalform.AIG(fac, x)
				// known finding N01-AIG-EQUIV: operands of an equivalence are left untransformed in its second half
				raw := map[f.Formula]bool{}
				for _, s := range f.SubNodes(fac, x) {
					if s.Sort() == f.SortEquiv {
						l, r, _ := fac.BinaryLeftRight(s)
						raw[fac.Not(l)], raw[r] = true, true
						for _, o := range []f.Formula{fac.Not(l), r} {
							if o.Sort() == f.SortAnd { // merged into the surrounding conjunction
								for _, k := range kidsOf(fac, o) {
									raw[k] = true
								}
							}
						}
					}
				}
				same("AIG", y, shapeAIGUpTo(fac, y, raw))
			}
		case 5:
			if !cc {
				y := enum.CanonicalCNF(fac, x)
				same("CanonicalCNF", y, shapeCNF(fac, y))
			}
		case 6:
			if !cc {
				y := enum.CanonicalDNF(fac, x)
				same("CanonicalDNF", y, shapeDNF(fac, y))
			}
		case 7:
			if !cc {
				y := bdd.CNF(fac, x)
				same("bdd.CNF", y, shapeCNF(fac, y))
			}
		case 8:
			if !cc {
				y := bdd.DNF(fac, x)
				same("bdd.DNF", y, shapeDNF(fac, y))
			}
		}
	}
	checkShapes(c, fac, x)
}

// canonical forms on multiple formulas of one factory, caches warm
func n01shapes(c *Case) {
	n := 2 + c.R.Intn(3)
	fac := c.Fac()
	for i := 0; i < 6; i++ {
		nd := gen(c.R, 1+c.R.Intn(3), GenOpt{N: n, Const: c.R.Intn(2) == 0, CC: true, Raw: true})
		if c.R.Intn(2) == 0 {
			nd = genCNF(c.R, n, 1+c.R.Intn(4), 3)
		}
		c.Log("formula %s", nd)
		x := nd.build(fac)
		checkShapes(c, fac, x)
	}
}

func n02(c *Case) {
	n := 2 + c.R.Intn(4)
	fac := c.Fac()
	var st1, st2 *normalform.CNFAuxState
	for i := 0; i < 1+c.R.Intn(3) && len(c.errs) == 0; i++ {
		pb := c.R.Intn(3) == 0
		depth := 2 + c.R.Intn(3)
		if pb {
			depth = 1 + c.R.Intn(2) // the factorisation of nested pseudo-Boolean encodings is huge
		}
		nd := gen(c.R, depth, GenOpt{N: n, Const: true, CC: c.R.Intn(3) == 0, PBC: pb})
		c.Log("formula %s", nd)
		x := nd.build(fac)
		t := nd.tt(n)
		b := c.R.Intn(4)
		if c.R.Intn(3) == 0 {
			b = 12
		}
		var y f.Formula
		var what string
		switch c.R.Intn(8) {
		case 0:
			what, y = "TseitinCNFWithBoundary", normalform.TseitinCNFWithBoundary(fac, x, b)
		case 1:
			what, y = "PGCNFWithBoundary", normalform.PGCNFWithBoundary(fac, x, b)
		case 2:
			what, y = "TseitinCNFDefault", normalform.TseitinCNFDefault(fac, x)
		case 3:
			what, y = "PGCNFDefault", normalform.PGCNFDefault(fac, x)
		case 4:
			if st1 == nil {
				st1 = normalform.NewCNFAuxState()
			}
			what, y = "TseitinCNF(shared state)", normalform.TseitinCNF(fac, x, b, st1)
		case 5:
			if st2 == nil {
				st2 = normalform.NewCNFAuxState()
			}
			what, y = "PGCNF(shared state)", normalform.PGCNF(fac, x, b, st2)
		default:
			cfg := &normalform.CNFConfig{
				Algorithm:                            []normalform.CNFAlgorithm{normalform.CNFFactorization, normalform.CNFTseitin, normalform.CNFPlaistedGreenbaum, normalform.CNFAdvanced, normalform.CNFAdvanced}[c.R.Intn(5)],
				FallbackAlgorithmForAdvancedEncoding: []normalform.CNFAlgorithm{normalform.CNFTseitin, normalform.CNFPlaistedGreenbaum}[c.R.Intn(2)],
				DistributionBoundary:                 c.R.Intn(6) - 1,
				CreatedClauseBoundary:                c.R.Intn(6) - 1,
				AtomBoundary:                         b,
			}
			what, y = fmt.Sprintf("CNF(%+v)", *cfg), normalform.CNF(fac, x, cfg)
		}
		c.Log("%s boundary %d", what, b)
		c.Check(shapeCNF(fac, y), "auxiliary CNF: ensures CNF", "%s: %s", what, y.Sprint(fac))
		if shapeCNF(fac, y) {
			c.eqTT("auxiliary CNF: ensures projected models are exactly the input's", n, c.clauses(fac, topClauses(fac, y)).project(n), t, what+" "+y.Sprint(fac))
		}
	}
}

// conversions sharing one state, where later formulas contain earlier ones
func n02shared(c *Case) {
	n := 2 + c.R.Intn(4)
	fac := c.Fac()
	st := normalform.NewCNFAuxState()
	conv, what := normalform.TseitinCNF, "TseitinCNF(shared state)"
	if c.R.Intn(2) == 0 {
		conv, what = normalform.PGCNF, "PGCNF(shared state)"
	}
	var pool []*Node
	pick := func() *Node {
		if len(pool) > 0 && c.R.Intn(2) == 0 {
			return pool[c.R.Intn(len(pool))]
		}
		return gen(c.R, 1+c.R.Intn(2), GenOpt{N: n})
	}
	for i := 0; i < 2+c.R.Intn(3) && len(c.errs) == 0; i++ {
		nd := &Node{K: []Kind{KAnd, KOr, KOr, KNot, KEquiv, KImpl}[c.R.Intn(6)], Kids: []*Node{pick(), pick()}}
		switch {
		case nd.K == KNot:
			nd.Kids = nd.Kids[:1]
		case len(pool) > 0 && c.R.Intn(5) == 0:
			nd = pool[c.R.Intn(len(pool))]
		}
		pool = append(pool, nd)
		b := []int{0, 1, 3, 5, 8, 12}[c.R.Intn(6)]
		c.Log("%s boundary %d formula %s", what, b, nd)
		y := conv(fac, nd.build(fac), b, st)
		if c.Check(shapeCNF(fac, y), "auxiliary CNF: ensures CNF", "%s: %s", what, y.Sprint(fac)) {
			c.eqTT("auxiliary CNF: ensures projected models are exactly the input's", n, c.clauses(fac, topClauses(fac, y)).project(n), nd.tt(n), what+" "+y.Sprint(fac))
		}
	}
}

func n02solver(c *Case) {
	n := 2 + c.R.Intn(4)
	fac := c.Fac()
	cfg := satCfg(c, false)
	cfg.CNFMethod = sat.CNFMethod(c.R.Intn(3))
	s := sat.NewSolver(fac, cfg)
	cur := ttConst(n, true)
	for i := 0; i < 1+c.R.Intn(3); i++ {
		nd := gen(c.R, 2+c.R.Intn(3), GenOpt{N: n, Const: true, CC: c.R.Intn(3) == 0, PBC: c.R.Intn(3) == 0})
		c.Log("add %s", nd)
		s.Add(nd.build(fac))
		cur = cur.and(nd.tt(n))
	}
	c.solverTT("Solver.Add: ensures the solver's models project to the formula's", fac, s, n, cur)
}

// ------------------------------------------------------------ BDD
func b01order(c *Case, fac f.Factory, n int, x f.Formula) (*bdd.Kernel, []f.Variable) {
	var ord []f.Variable
	switch c.R.Intn(6) {
	case 0:
		ord = bdd.BFSOrder(fac, x)
	case 1:
		ord = bdd.DFSOrder(fac, x)
	case 2:
		ord = bdd.ForceOrder(fac, x)
	case 3:
		ord = bdd.MinToMaxOrder(fac, x)
	case 4:
		ord = bdd.MaxToMinOrder(fac, x)
	}
	has := map[f.Variable]bool{}
	for _, v := range ord {
		c.Check(!has[v], "order: ensures no repetition", "")
		has[v] = true
	}
	if ord != nil {
		for v := range oracleVars(fac, x, map[string]bool{}) {
			c.Check(has[fac.Var(v)], "order: ensures every variable ordered", "%s", v)
		}
	}
	for _, i := range perm(c.R, n, n) {
		if v := fac.Var(vname(i)); !has[v] {
			ord = append(ord, v)
		}
	}
	sz := int32(10 + c.R.Intn(100))
	if c.R.Intn(6) == 0 {
		return bdd.NewKernel(fac, int32(n), sz, sz), nil
	}
	return bdd.NewKernelWithOrdering(fac, ord, sz, int32(1+c.R.Intn(50))), ord
}

type bworld struct {
	c   *Case
	fac f.Factory
	n   int
	k   *bdd.Kernel
	bs  []*bdd.BDD
	ts  []TT
}

// semantics of a diagram read off its node representation, independent of the kernel's operations
func (w *bworld) nodeTT(x bdd.Node) TT {
	memo := map[string]TT{}
	var rec func(x bdd.Node) TT
	rec = func(x bdd.Node) TT {
		if !x.InnerNode() {
			return ttConst(w.n, x.Label() == w.fac.Verum().Sprint(w.fac))
		}
		key := fmt.Sprintf("%p", x)
		if in, ok := x.(*bdd.InnerNode); ok {
			key = fmt.Sprintf("%p", in)
		} else {
			key = x.String()
		}
		if t, ok := memo[key]; ok {
			return t
		}
		var i int
		fmt.Sscanf(x.Label(), "v%d", &i)
		v := ttVar(w.n, i)
		t := v.and(rec(x.High())).or(v.not(w.n).and(rec(x.Low())))
		memo[key] = t
		return t
	}
	return rec(x)
}
func (w *bworld) put(what string, b *bdd.BDD, t TT) {
	if got := w.nodeTT(b.NodeRepresentation()); !got.eq(t) {
		w.c.eqTT(what+": ensures the diagram represents the function", w.n, got, t, "diagram")
	}
	w.bs, w.ts = append(w.bs, b), append(w.ts, t)
}
func (w *bworld) recheck(what string) {
	for i, b := range w.bs {
		if got := w.nodeTT(b.NodeRepresentation()); !got.eq(w.ts[i]) {
			w.c.eqTT(what+": ensures no other diagram changes", w.n, got, w.ts[i], fmt.Sprintf("diagram %d", i))
			return
		}
	}
	for i := range w.bs {
		for j := range w.bs {
			if (w.bs[i].Index == w.bs[j].Index) != w.ts[i].eq(w.ts[j]) {
				w.c.Fail("%s: ensures two diagrams are identical iff their functions are equal: diagrams %d and %d", what, i, j)
				return
			}
		}
	}
}
func (w *bworld) modelTT(m *model.Model) (TT, map[int]bool) {
	t := ttConst(w.n, true)
	cov := map[int]bool{}
	for _, l := range m.Literals {
		nm, ph, _ := w.fac.LitNamePhase(l)
		var i int
		fmt.Sscanf(nm, "v%d", &i)
		x := ttVar(w.n, i)
		if !ph {
			x = x.not(w.n)
		}
		t = t.and(x)
		cov[i] = true
	}
	return t, cov
}
func (w *bworld) queries(i int) {
	c, n, b, t := w.c, w.n, w.bs[i], w.ts[i]
	c.Check(b.IsTautology() == t.not(n).zero(), "IsTautology: ensures exact", "")
	c.Check(b.IsContradiction() == t.zero(), "IsContradiction: ensures exact", "")
	c.Check(b.ModelCount().Cmp(b.ModelCount()) == 0, "ModelCount: ensures repeatable", "")
	c.Check(b.ModelCount().Cmp(big.NewInt(int64(t.count()))) == 0, "ModelCount: ensures exact", "got %v want %d", b.ModelCount(), t.count())
	if m, err := b.Model(); c.Check((err != nil) == t.zero(), "Model: ensures error iff contradiction", "%v", err) && err == nil {
		mt, _ := w.modelTT(m)
		c.Check(!mt.zero() && mt.implies(t), "Model: ensures an implicant", "%s", litNames(w.fac, m.Literals))
	}
	if m, err := b.FullModel(); c.Check((err != nil) == t.zero(), "FullModel: ensures error iff contradiction", "%v", err) && err == nil {
		mt, cov := w.modelTT(m)
		c.Check(mt.implies(t) && mt.count() == 1 && len(cov) == n, "FullModel: ensures a full model", "%s", litNames(w.fac, m.Literals))
	}
	var vs []f.Variable
	for _, j := range perm(c.R, n, 1+c.R.Intn(n)) {
		vs = append(vs, w.fac.Var(vname(j)))
	}
	if m, err := b.ModelWithVariables(c.R.Intn(2) == 0, vs...); c.Check((err != nil) == t.zero(), "ModelWithVariables: ensures error iff contradiction", "%v", err) && err == nil {
		mt, cov := w.modelTT(m)
		ok := !mt.zero() && mt.implies(t)
		for _, j := range varIdx(w.fac, vs) {
			ok = ok && cov[j]
		}
		c.Check(ok, "ModelWithVariables: ensures an implicant with the variables", "%s", litNames(w.fac, m.Literals))
	}
	sup := map[int]bool{}
	for _, j := range varIdx(w.fac, b.Support()) {
		sup[j] = true
	}
	for j := 0; j < n; j++ {
		c.Check(sup[j] == !t.cofactor(n, j, true).eq(t.cofactor(n, j, false)), "Support: ensures exactly the relevant variables", "%s", vname(j))
	}
	// paths
	var paths func(x bdd.Node, one bool) int64
	paths = func(x bdd.Node, one bool) int64 {
		if !x.InnerNode() {
			if (x.Label() == w.fac.Verum().Sprint(w.fac)) == one {
				return 1
			}
			return 0
		}
		return paths(x.Low(), one) + paths(x.High(), one)
	}
	root := b.NodeRepresentation()
	c.Check(b.PathCountOne().Int64() == paths(root, true), "PathCountOne: ensures exact", "")
	c.Check(b.PathCountZero().Int64() == paths(root, false), "PathCountZero: ensures exact", "")
	c.Check(b.NumberOfCNFClauses().Int64() == paths(root, false), "NumberOfCNFClauses: ensures exact", "")
	nodes := map[string]bool{}
	prof := map[string]int{}
	var cnt func(x bdd.Node)
	cnt = func(x bdd.Node) {
		if x.InnerNode() && !nodes[x.String()] {
			nodes[x.String()] = true
			prof[x.Label()]++
			cnt(x.Low())
			cnt(x.High())
		}
	}
	cnt(root)
	c.Check(b.NodeCount() == len(nodes), "NodeCount: ensures exact", "got %d want %d", b.NodeCount(), len(nodes))
	for v, k := range b.VariableProfile() {
		nm, _ := w.fac.VarName(v)
		c.Check(prof[nm] == k, "VariableProfile: ensures exact", "%s %d want %d", nm, k, prof[nm])
	}
	env := newEnv(w.fac, n)
	y := b.CNF()
	c.Check(shapeCNF(w.fac, y), "CNF: ensures form", "%s", y.Sprint(w.fac))
	c.eqTT("BDD.CNF: ensures equivalent", n, env.tt(y), t, y.Sprint(w.fac))
	y = b.DNF()
	c.Check(shapeDNF(w.fac, y), "DNF: ensures form", "%s", y.Sprint(w.fac))
	c.eqTT("BDD.DNF: ensures equivalent", n, env.tt(y), t, y.Sprint(w.fac))
	c.eqTT("ToFormula: ensures equivalent", n, env.tt(b.ToFormula(w.fac)), t, "")
	c.eqTT("ToFormula(true paths): ensures equivalent", n, env.tt(b.ToFormula(w.fac, true)), t, "")
	c.eqTT("ToFormula(false paths): ensures equivalent", n, env.tt(b.ToFormula(w.fac, false)), t, "")
	// enumeration over the chosen variables
	idx := varIdx(w.fac, vs)
	want := projSet(n, t, idx)
	seen := map[int]bool{}
	for _, m := range b.ModelEnumeration(vs...) {
		_, cov := w.modelTT(m)
		k := 0
		for j, v := range idx {
			c.Check(cov[v], "ModelEnumeration: ensures every variable assigned", "")
			for _, l := range m.Literals {
				if l == w.fac.Lit(vname(v), true) {
					k |= 1 << j
				}
			}
		}
		c.Check(len(cov) == len(idx), "ModelEnumeration: ensures only the variables", "%s", litNames(w.fac, m.Literals))
		c.Check(!seen[k], "ModelEnumeration: ensures each once", "%s", litNames(w.fac, m.Literals))
		c.Check(want[k], "ModelEnumeration: ensures extends to a model", "%s", litNames(w.fac, m.Literals))
		seen[k] = true
	}
	c.Check(len(seen) == len(want), "ModelEnumeration: ensures complete", "%d of %d", len(seen), len(want))
}

var reorderings = []bdd.ReorderingMethod{bdd.ReorderWin2, bdd.ReorderWin2Ite, bdd.ReorderWin3, bdd.ReorderWin3Ite, bdd.ReorderSift, bdd.ReorderSiftIte, bdd.ReorderRandom}

// addBlocks adds nested variable blocks in random order.
func addBlocks(c *Case, k *bdd.Kernel, n int) {
	type blk struct{ a, b int }
	var bs []blk
	var split func(a, b, d int)
	split = func(a, b, d int) {
		bs = append(bs, blk{a, b})
		for a < b && d > 0 {
			e := a + c.R.Intn(b-a+1)
			if e == b && len(bs) > 0 && bs[len(bs)-1] == (blk{a, b}) {
				e = b - 1
			}
			split(a, e, d-1)
			a = e + 1
		}
		if a == b && d > 0 && bs[len(bs)-1] != (blk{a, b}) {
			bs = append(bs, blk{a, b})
		}
	}
	split(0, n-1, 1+c.R.Intn(3))
	seen := map[blk]bool{}
	for _, i := range perm(c.R, len(bs), len(bs)) {
		if !seen[bs[i]] {
			seen[bs[i]] = true
			fixed := c.R.Intn(3) == 0
			c.Log("  block %d-%d fixed=%v", bs[i].a, bs[i].b, fixed)
			k.AddVariableBlock(int32(bs[i].a), int32(bs[i].b), fixed)
		}
	}
}

func b01(reorder, big bool) func(c *Case) {
	return func(c *Case) {
		n := 2 + c.R.Intn(5)
		if big {
			n = 7 + c.R.Intn(4)
		}
		fac := c.Fac()
		w := &bworld{c: c, fac: fac, n: n}
		gform := func(d int) *Node {
			if !big {
				return gen(c.R, d+c.R.Intn(3), GenOpt{N: n, Const: true})
			}
			if c.R.Intn(2) == 0 {
				return genCNF(c.R, n, 4+c.R.Intn(2*n), 3)
			}
			return gen(c.R, 4+c.R.Intn(3), GenOpt{N: n, Const: true})
		}
		nd := gform(2)
		c.Log("formula %s", nd)
		x := nd.build(fac)
		var ord []f.Variable
		w.k, ord = b01order(c, fac, n, x)
		blocks, moved := false, false
		if reorder && c.R.Intn(2) == 0 && ord != nil {
			m := reorderings[c.R.Intn(len(reorderings))]
			blocks = true
			if c.R.Intn(2) == 0 {
				addBlocks(c, w.k, n)
			} else {
				w.k.AddAllVariablesAsBlock()
			}
			w.k.ActivateReorderDuringBuild(m, int32(1+c.R.Intn(20)))
			c.Log("reorder during build %v", m)
		}
		w.put("CompileWithKernel", bdd.CompileWithKernel(fac, x, w.k), nd.tt(n))
		if c.R.Intn(3) == 0 {
			w0 := &bworld{c: c, fac: fac, n: n}
			w0.put("Compile", bdd.Compile(fac, x), nd.tt(n))
		}
		steps := 1 + c.R.Intn(6)
		if big {
			steps += 5
		}
		for i := 0; i < steps && len(c.errs) == 0; i++ {
			a, b := c.R.Intn(len(w.bs)), c.R.Intn(len(w.bs))
			A, B, ta, tb := w.bs[a], w.bs[b], w.ts[a], w.ts[b]
			op := c.R.Intn(11)
			if reorder && ord != nil && c.R.Intn(3) == 0 {
				op = 11 + c.R.Intn(2)
			}
			c.Log("op %d on %d,%d", op, a, b)
			switch op {
			case 0:
				nd := gform(1)
				c.Log("  formula %s", nd)
				w.put("CompileWithKernel", bdd.CompileWithKernel(fac, nd.build(fac), w.k), nd.tt(n))
			case 1:
				w.put("Negate", A.Negate(), ta.not(n))
			case 2:
				w.put("And", A.And(B), ta.and(tb))
			case 3:
				w.put("Or", A.Or(B), ta.or(tb))
			case 4:
				w.put("Implies", A.Implies(B), ta.not(n).or(tb))
			case 5:
				w.put("Equivalence", A.Equivalence(B), ta.and(tb).or(ta.not(n).and(tb.not(n))))
			case 6:
				w.put("ImpliedBy", A.ImpliedBy(B), ta.or(tb.not(n)))
			case 7:
				t := ta
				var ls []f.Literal
				for _, j := range perm(c.R, n, 1+c.R.Intn(n)) {
					ph := c.R.Intn(2) == 0
					ls = append(ls, fac.Lit(vname(j), ph))
					t = t.cofactor(n, j, ph)
				}
				c.Log("  restrict %s", litNames(fac, ls))
				w.put("Restrict", A.Restrict(ls...), t)
			case 8, 9:
				t := ta
				var vs []f.Variable
				for _, j := range perm(c.R, n, 1+c.R.Intn(n)) {
					vs = append(vs, fac.Var(vname(j)))
					if op == 8 {
						t = t.exists(n, j)
					} else {
						t = t.forall(n, j)
					}
				}
				if op == 8 {
					w.put("Exists", A.Exists(vs...), t)
				} else {
					w.put("ForAll", A.ForAll(vs...), t)
				}
			case 10:
				var ls []f.Literal
				t := ttConst(n, true)
				for _, j := range perm(c.R, n, c.R.Intn(n+1)) {
					ph := c.R.Intn(2) == 0
					ls = append(ls, fac.Lit(vname(j), ph))
					v := ttVar(n, j)
					if !ph {
						v = v.not(n)
					}
					t = t.and(v)
				}
				w.put("CompileLiterals", bdd.CompileLiterals(ls, w.k), t)
			case 11:
				if !blocks {
					if !moved && c.R.Intn(2) == 0 {
						addBlocks(c, w.k, n)
					} else {
						w.k.AddAllVariablesAsBlock()
					}
					blocks = true
				}
				m := reorderings[c.R.Intn(len(reorderings))]
				c.Log("  reorder %v", m)
				w.k.Reorder(m)
			case 12:
				if !blocks {
					i, j := c.R.Intn(n), c.R.Intn(n)
					if i != j {
						c.Log("  swap %s %s", vname(i), vname(j))
						err := w.k.SwapVariables(fac.Var(vname(i)), fac.Var(vname(j)))
						moved = true
						c.Check(err == nil, "SwapVariables: ensures success", "%v", err)
					}
				}
			}
			w.recheck(fmt.Sprintf("operation %d", op))
		}
		if len(c.errs) == 0 && ord != nil {
			w.queries(c.R.Intn(len(w.bs)))
		}
	}
}

// ------------------------------------------------------------ DNNF
func d01(c *Case) {
	n := 2 + c.R.Intn(5)
	fac := c.Fac()
	var nd *Node
	if c.R.Intn(2) == 0 {
		nd = genCNF(c.R, n, 2+c.R.Intn(3*n), 3)
	} else {
		nd = gen(c.R, 2+c.R.Intn(3), GenOpt{N: n, Const: true})
	}
	c.Log("formula %s", nd)
	x := nd.build(fac)
	t := nd.tt(n)
	d := dnnf.Compile(fac, x)
	dt, aux, ok := auxTT(fac, n, d.Formula)
	if ok {
		c.eqTT("dnnf.Compile: ensures equivalent over the formula's variables", n, dt, t, d.Formula.Sprint(fac))
	}
	env := newEnv(fac, n)
	c.Check(shapeNNF(fac, d.Formula), "dnnf.Compile: ensures NNF", "%s", d.Formula.Sprint(fac))
	for _, s := range f.SubNodes(fac, d.Formula) {
		ks := kidsOf(fac, s)
		for i := range ks {
			for j := 0; j < i; j++ {
				if s.Sort() == f.SortAnd {
					a, b := oracleVars(fac, ks[i], map[string]bool{}), oracleVars(fac, ks[j], map[string]bool{})
					for v := range a {
						c.Check(!b[v], "dnnf.Compile: ensures decomposable", "%s", s.Sprint(fac))
					}
				} else if s.Sort() == f.SortOr && !aux {
					c.Check(env.tt(ks[i]).and(env.tt(ks[j])).zero(), "dnnf.Compile: ensures deterministic", "%s", s.Sprint(fac))
				}
			}
		}
	}
	vars := oracleVars(fac, x, map[string]bool{})
	want := t.count() >> (n - len(vars))
	for k := 0; k < 2; k++ {
		got := d.ModelCount()
		c.Check(got.Cmp(big.NewInt(int64(want))) == 0, "DNNF.ModelCount: ensures exact over the formula's variables", "got %v want %d (%s)", got, want, d.Formula.Sprint(fac))
	}
}

// d01large: clauses over windows of consecutive variables, so that the count is known from a sweep; caches then have
// keys of several words. Equivalence is checked on sampled assignments.
func d01large(c *Case) {
	fac := c.Fac()
	win := 3 + c.R.Intn(3)
	n := 10 + c.R.Intn(40)
	var cls [][]int
	perVar := 1 + c.R.Intn(3)
	if c.R.Intn(4) == 0 { // bit sets of many words
		win = 3
		n = 60 + c.R.Intn(120)
		perVar = 1 + c.R.Intn(2)
	}
	for v := 0; v+win <= n; v++ {
		for i := 0; i < perVar; i++ {
			var l []int
			for _, k := range perm(c.R, win, 2+c.R.Intn(2)) {
				l = append(l, 2*(v+k)+c.R.Intn(2))
			}
			cls = append(cls, l)
		}
	}
	c.R.Shuffle(len(cls), func(i, j int) { cls[i], cls[j] = cls[j], cls[i] })
	names := perm(c.R, n, n) // the order of the variables is not the order of their creation
	c.Log("clauses %v names %v", cls, names)
	used := make([]bool, n)
	var fs []f.Formula
	for _, l := range cls {
		var ls []f.Literal
		for _, x := range l {
			used[x/2] = true
			ls = append(ls, fac.Lit(fmt.Sprintf("w%d", names[x/2]), x%2 == 0))
		}
		fs = append(fs, fac.Clause(ls...))
	}
	x := fac.And(fs...)
	// sweep: counts of the assignments to variables 0..v by the values of the last win-1 of them
	cnt := map[int]*big.Int{0: big.NewInt(1)}
	byMax := make([][][]int, n)
	for _, l := range cls {
		m := 0
		for _, y := range l {
			if y/2 > m {
				m = y / 2
			}
		}
		byMax[m] = append(byMax[m], l)
	}
	for v := 0; v < n; v++ {
		nx := map[int]*big.Int{}
		for st, k := range cnt {
			for b := 0; b < 2; b++ {
				if b == 1 && !used[v] {
					continue
				}
				s2 := (st<<1 | b) & (1<<win - 1) // bit i: variable v-i
				ok := true
				for _, l := range byMax[v] {
					sat := false
					for _, y := range l {
						sat = sat || (s2>>(v-y/2)&1 == 1) == (y%2 == 0)
					}
					ok = ok && sat
				}
				if ok {
					s2 &= 1<<win - 1
					if nx[s2] == nil {
						nx[s2] = new(big.Int)
					}
					nx[s2].Add(nx[s2], k)
				}
			}
		}
		cnt = nx
	}
	want := new(big.Int)
	for _, k := range cnt {
		want.Add(want, k)
	}
	d := dnnf.Compile(fac, x)
	got := d.ModelCount()
	c.Check(got.Cmp(want) == 0, "DNNF.ModelCount: ensures exact over the formula's variables", "got %v want %v", got, want)
	ev := func(val []bool) bool {
		memo := map[f.Formula]bool{}
		var rec func(y f.Formula) bool
		rec = func(y f.Formula) bool {
			switch y.Sort() {
			case f.SortTrue:
				return true
			case f.SortFalse:
				return false
			case f.SortLiteral:
				nm, ph, _ := fac.LitNamePhase(f.Literal(y))
				var i int
				fmt.Sscanf(nm, "w%d", &i)
				return val[i] == ph
			}
			if r, ok := memo[y]; ok {
				return r
			}
			isAnd := y.Sort() == f.SortAnd
			r := isAnd
			for _, o := range kidsOf(fac, y) {
				if rec(o) != isAnd {
					r = !isAnd
					break
				}
			}
			memo[y] = r
			return r
		}
		return rec(d.Formula)
	}
	for k := 0; k < 60; k++ {
		val := make([]bool, n)
		for i := range val {
			val[i] = c.R.Intn(2) == 0
		}
		for it := 0; it < 20*k; it++ { // walk towards a model
			var bad []int
			for _, l := range cls {
				ok := false
				for _, y := range l {
					ok = ok || val[names[y/2]] == (y%2 == 0)
				}
				if !ok {
					bad = l
					break
				}
			}
			if bad == nil {
				break
			}
			y := bad[c.R.Intn(len(bad))]
			val[names[y/2]] = y%2 == 0
		}
		w := true
		for _, l := range cls {
			ok := false
			for _, y := range l {
				ok = ok || val[names[y/2]] == (y%2 == 0)
			}
			w = w && ok
		}
		if !c.Check(ev(val) == w, "dnnf.Compile: ensures equivalent over the formula's variables", "value %v", w) {
			return
		}
	}
	memo := map[f.Formula]map[string]bool{}
	var vars func(y f.Formula) map[string]bool
	vars = func(y f.Formula) map[string]bool {
		if m, ok := memo[y]; ok {
			return m
		}
		m := map[string]bool{}
		if y.Sort() == f.SortLiteral {
			nm, _, _ := fac.LitNamePhase(f.Literal(y))
			m[nm] = true
		} else {
			for _, o := range kidsOf(fac, y) {
				for v := range vars(o) {
					if y.Sort() == f.SortAnd {
						c.Check(!m[v], "dnnf.Compile: ensures decomposable", "variable %s", v)
					}
					m[v] = true
				}
			}
		}
		memo[y] = m
		return m
	}
	vars(d.Formula)
}

// ------------------------------------------------------------ prime implicants
func (c *Case) cube(fac f.Factory, n int, ls []f.Literal, clause bool) (TT, bool) {
	t := ttConst(n, !clause)
	seen := map[int]bool{}
	for _, l := range ls {
		nm, ph, _ := fac.LitNamePhase(l)
		var i int
		if k, err := fmt.Sscanf(nm, "v%d", &i); err != nil || k != 1 || seen[i] {
			c.Fail("ensures literals over distinct input variables: %s", litNames(fac, ls))
			return t, false
		}
		seen[i] = true
		x := ttVar(n, i)
		if !ph {
			x = x.not(n)
		}
		if clause {
			t = t.or(x)
		} else {
			t = t.and(x)
		}
	}
	return t, true
}

func i01(c *Case) {
	n := 2 + c.R.Intn(4)
	fac := c.Fac()
	nd := gen(c.R, 1+c.R.Intn(4), GenOpt{N: n, Const: true, CC: c.R.Intn(3) == 0})
	c.Log("formula %s", nd)
	x := nd.build(fac)
	t := nd.tt(n)
	cov := primeimplicant.CoverImplicants
	if c.R.Intn(2) == 0 {
		cov = primeimplicant.CoverImplicates
	}
	var res *primeimplicant.PrimeResult
	if c.R.Intn(2) == 0 {
		c.Log("CoverMin %v", cov)
		res = primeimplicant.CoverMin(fac, x, cov)
	} else {
		c.Log("CoverMax %v", cov)
		res = primeimplicant.CoverMax(fac, x, cov)
	}
	checkPrime(c, fac, n, t, res)
}

func checkPrime(c *Case, fac f.Factory, n int, t TT, res *primeimplicant.PrimeResult) {
	chk := func(what string, set [][]f.Literal, clause bool) {
		acc := ttConst(n, clause)
		for _, ls := range set {
			m, ok := c.cube(fac, n, ls, clause)
			if !ok {
				return
			}
			good := func(m TT) bool {
				if clause {
					return t.implies(m)
				}
				return m.implies(t)
			}
			c.Check(good(m), what+": ensures implicant/implicate", "%s", litNames(fac, ls))
			for i := range ls {
				r := append(append([]f.Literal{}, ls[:i]...), ls[i+1:]...)
				mr, _ := c.cube(fac, n, r, clause)
				c.Check(!good(mr), what+": ensures prime", "%s", litNames(fac, ls))
			}
			if clause {
				acc = acc.and(m)
			} else {
				acc = acc.or(m)
			}
		}
		c.eqTT(what+": ensures the cover is equivalent", n, acc, t, "cover")
	}
	chk("implicants", res.Implicants, false)
	chk("implicates", res.Implicates, true)
}

// kleene reports whether the partial assignment makes the tree true / false in Kleene's strong logic, reading
// equivalences as two implications: what a minimum over the literals of the negation normal form can see.  The
// optimum of Minimum lies between the true optimum and the one under this reading (known finding I01-MINIMUM).
func kleene(nd *Node, pos, neg int) (bool, bool) {
	switch nd.K {
	case KTrue:
		return true, false
	case KFalse:
		return false, true
	case KLit:
		t, fl := pos>>nd.Var&1 == 1, neg>>nd.Var&1 == 1
		if !nd.Phase {
			t, fl = fl, t
		}
		return t, fl
	case KNot:
		t, fl := kleene(nd.Kids[0], pos, neg)
		return fl, t
	case KImpl:
		lt, lf := kleene(nd.Kids[0], pos, neg)
		rt, rf := kleene(nd.Kids[1], pos, neg)
		return lf || rt, lt && rf
	case KEquiv:
		lt, lf := kleene(nd.Kids[0], pos, neg)
		rt, rf := kleene(nd.Kids[1], pos, neg)
		return (lf || rt) && (lt || rf), (lf || rf) && (lt || rt)
	case KAnd:
		t, fl := true, false
		for _, k := range nd.Kids {
			kt, kf := kleene(k, pos, neg)
			t, fl = t && kt, fl || kf
		}
		return t, fl
	case KOr:
		t, fl := false, true
		for _, k := range nd.Kids {
			kt, kf := kleene(k, pos, neg)
			t, fl = t || kt, fl && kf
		}
		return t, fl
	}
	panic("kleene")
}

func i01min(c *Case) {
	n := 2 + c.R.Intn(4)
	fac := c.Fac()
	nd := gen(c.R, 1+c.R.Intn(4), GenOpt{N: n, Const: true})
	if c.R.Intn(2) == 0 {
		nd = genCNF(c.R, n, 1+c.R.Intn(6), 3)
	}
	c.Log("formula %s", nd)
	x := nd.build(fac)
	t := nd.tt(n)
	ls, err := primeimplicant.Minimum(fac, x)
	if !c.Check((err != nil) == t.zero(), "Minimum: ensures error iff unsatisfiable", "%v", err) || err != nil {
		return
	}
	m, ok := c.cube(fac, n, ls, false)
	if !ok {
		return
	}
	c.Check(m.implies(t), "Minimum: ensures implicant", "%s", litNames(fac, ls))
	best, bestK := n+1, n+1
	for a := 0; a < pow3(n); a++ {
		k, sz, pos, neg, cu := a, 0, 0, 0, ttConst(n, true)
		for i := 0; i < n; i++ {
			switch k % 3 {
			case 1:
				cu, sz, pos = cu.and(ttVar(n, i)), sz+1, pos|1<<i
			case 2:
				cu, sz, neg = cu.and(ttVar(n, i).not(n)), sz+1, neg|1<<i
			}
			k /= 3
		}
		if sz < best && cu.implies(t) {
			best = sz
		}
		if kt, _ := kleene(nd, pos, neg); kt && sz < bestK {
			bestK = sz
		}
	}
	c.Check(len(ls) <= bestK, "Minimum: ensures smallest size", "%s has %d, smallest %d (optimum over all implicants %d)", litNames(fac, ls), len(ls), bestK, best)
}
func pow3(n int) int {
	r := 1
	for i := 0; i < n; i++ {
		r *= 3
	}
	return r
}

// ------------------------------------------------------------ simplifiers
func x01(c *Case) {
	n := 2 + c.R.Intn(4)
	fac := c.Fac()
	o := GenOpt{N: n, Const: true}
	nd := gen(c.R, 1+c.R.Intn(4), o)
	switch c.R.Intn(4) {
	case 0:
		nd = genCNF(c.R, n, 1+c.R.Intn(8), 4)
	case 1: // a DNF
		nd = &Node{K: KOr}
		for i := 0; i < 1+c.R.Intn(6); i++ {
			k := &Node{K: KAnd}
			for _, v := range perm(c.R, n, 1+c.R.Intn(n)) {
				l := &Node{K: KLit, Var: v, Phase: c.R.Intn(2) == 0}
				k.Kids = append(k.Kids, l)
			}
			nd.Kids = append(nd.Kids, k)
		}
	}
	c.Log("formula %s", nd)
	x := nd.build(fac)
	t := nd.tt(n)
	env := newEnv(fac, n)
	eq := func(what string, y f.Formula) {
		c.eqTT(what+": ensures equivalent", n, env.tt(y), t, y.Sprint(fac))
	}
	rate := simplification.DefaultRatingFunction
	for k := 0; k < 1+c.R.Intn(4); k++ {
		switch op := c.R.Intn(9); op {
		case 0:
			eq("Distribute", simplification.Distribute(fac, x))
		case 1:
			y := simplification.FactorOut(fac, x)
			eq("FactorOut", y)
			c.Check(rate(fac, y) <= rate(fac, x), "FactorOut: ensures not rated worse", "%s", y.Sprint(fac))
		case 2:
			y := simplification.MinimizeNegations(fac, x)
			eq("MinimizeNegations", y)
			c.Check(len(y.Sprint(fac)) <= len(x.Sprint(fac)), "MinimizeNegations: ensures not longer", "%s", y.Sprint(fac))
		case 3:
			eq("PropagateBackbone", simplification.PropagateBackbone(fac, x))
		case 4:
			y := simplification.PropagateUnits(fac, x)
			if yt, _, ok := auxTT(fac, n, y); ok { // the result is a CNF and may contain auxiliary variables
				c.eqTT("PropagateUnits: ensures equivalent over the input's variables", n, yt, t, y.Sprint(fac))
			}
		case 5:
			eq("QMC", simplification.QMC(fac, x))
			y := simplification.QMC(fac, x)
			c.Check(shapeDNF(fac, y), "QMC: ensures DNF", "%s", y.Sprint(fac))
		case 6, 7:
			var y f.Formula
			var err error
			what, cnf := "CNFSubsumption", op == 6
			if cnf {
				y, err = simplification.CNFSubsumption(fac, x)
			} else {
				what = "DNFSubsumption"
				y, err = simplification.DNFSubsumption(fac, x)
			}
			shape := func(z f.Formula) bool {
				if cnf {
					return shapeCNF(fac, z)
				}
				return shapeDNF(fac, z)
			}
			c.Check((err != nil) == !shape(x), what+": ensures error iff not in the form", "%v", err)
			if err != nil {
				continue
			}
			eq(what, y)
			c.Check(shape(y), what+": ensures the form is kept", "%s", y.Sprint(fac))
			ks := kidsOf(fac, y)
			if cnf && y.Sort() != f.SortAnd || !cnf && y.Sort() != f.SortOr {
				continue
			}
			for i := range ks {
				for j := range ks {
					if i != j {
						a, b := map[f.Literal]bool{}, 0
						for _, l := range ownLitsOrSelf(fac, ks[i]) {
							a[l] = true
						}
						lj := ownLitsOrSelf(fac, ks[j])
						for _, l := range lj {
							if a[l] {
								b++
							}
						}
						c.Check(b < len(lj), what+": ensures no subsumed clause is left", "%s subsumed by %s", ks[i].Sprint(fac), ks[j].Sprint(fac))
					}
				}
			}
		case 8:
			cfg := &simplification.Config{
				FactorOut: c.R.Intn(2) == 0, RestrictBackbone: c.R.Intn(2) == 0, SimplifyNegations: c.R.Intn(2) == 0,
				UseRatingFunction: c.R.Intn(2) == 0, RatingFunction: rate,
			}
			c.Log("Advanced %v %v %v %v", cfg.FactorOut, cfg.RestrictBackbone, cfg.SimplifyNegations, cfg.UseRatingFunction)
			y := simplification.Advanced(fac, x, cfg)
			eq("Advanced", y)
			if cfg.UseRatingFunction {
				c.Check(rate(fac, y) <= rate(fac, x), "Advanced: ensures not rated worse", "%s", y.Sprint(fac))
			}
		}
	}
}

func ownLitsOrSelf(fac f.Factory, x f.Formula) []f.Literal {
	if x.Sort() == f.SortLiteral {
		return []f.Literal{f.Literal(x)}
	}
	var r []f.Literal
	for _, k := range kidsOf(fac, x) {
		r = append(r, f.Literal(k))
	}
	return r
}

func init() {
	reg("N01",
		Family{"forms", "normalform.{NNF,FactorizedCNF,FactorizedDNF,CNF,AIG,Is*}, enum.Canonical*, bdd.{CNF,DNF}", "random formulas, <=5 variables, depth<=4", 8000, 200000, n01},
		Family{"shapes", "normalform.Is{NNF,CNF,DNF,AIG,Minterm,Maxterm}", "random formulas and clause sets, <=4 variables", 3000, 60000, n01shapes})
	reg("N02",
		Family{"forms", "normalform.{TseitinCNF,PGCNF,CNF}", "random formulas, <=5 variables, boundaries 0-12, shared states", 8000, 200000, n02},
		Family{"shared", "normalform.{TseitinCNF,PGCNF} with one state", "2-4 nested random formulas, <=5 variables, boundaries 0-12", 4000, 80000, n02shared},
		Family{"solver", "sat.Solver.Add with every CNF method", "random formulas, <=5 variables", 4000, 80000, n02solver})
	reg("B01",
		Family{"operations", "bdd.{Compile,CompileWithKernel,CompileLiterals}, BDD operations and queries", "<=6 variables, <=6 operations", 5000, 100000, b01(false, false)},
		Family{"reordering", "bdd.Kernel.{Reorder,SwapVariables,ActivateReorderDuringBuild}", "<=6 variables, <=6 operations", 3000, 60000, b01(true, false)},
		Family{"large", "the BDD package with garbage collection, table growth and reordering", "7 to 10 variables, <=11 operations", 300, 6000, b01(true, true)})
	reg("D01", Family{"formulas", "dnnf.Compile, DNNF.ModelCount", "random CNFs and formulas, <=6 variables", 5000, 100000, d01},
		Family{"large", "dnnf.Compile, DNNF.ModelCount", "10 to 179 variables, clauses over windows of 3 to 5 variables", 150, 4000, d01large})
	reg("I01",
		Family{"covers", "primeimplicant.{CoverMin,CoverMax}", "random formulas, <=5 variables", 2000, 30000, i01},
		Family{"minimum", "primeimplicant.Minimum", "random formulas, <=5 variables", 3000, 60000, i01min})
	reg("X01", Family{"formulas", "simplification.*", "random formulas, CNFs and DNFs, <=5 variables", 4000, 60000, x01})
}

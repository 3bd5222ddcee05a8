package main

import (
	"fmt"
	"math/big"
	"math/bits"

	"github.com/booleworks/logicng-go/encoding"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/model"
	"github.com/booleworks/logicng-go/model/count"
	"github.com/booleworks/logicng-go/model/enum"
	"github.com/booleworks/logicng-go/model/iter"
	"github.com/booleworks/logicng-go/sat"
)

func satCfg(c *Case, proofs bool) *sat.Config {
	cfg := sat.DefaultConfig()
	cfg.CNFMethod = sat.CNFMethod(c.R.Intn(3))
	cfg.ClauseMinimization = sat.ClauseMinimization(c.R.Intn(3))
	cfg.InitialPhase = c.R.Intn(2) == 0
	cfg.UseAtMostClauses = c.R.Intn(2) == 0
	cfg.ProofGeneration = proofs
	if c.R.Intn(2) == 0 { // exercise restarts and clause deletion on small inputs
		ll := *sat.DefaultLowLevelConfig()
		ll.FirstReduceDB = 1 + c.R.Intn(6)
		ll.IncReduceDB = c.R.Intn(4)
		ll.SpecialIncReduceDB = c.R.Intn(3)
		ll.SizeLBDQueue = 1 + c.R.Intn(4)
		ll.SizeTrailQueue = 1 + c.R.Intn(8)
		ll.LBLBDMinimizingClause = c.R.Intn(8)
		ll.LBLBDFrozenClause = c.R.Intn(8)
		ll.ReduceOnSize = c.R.Intn(2) == 0
		ll.ReduceOnSizeSize = c.R.Intn(4)
		cfg.LowLevelConfig = &ll
	}
	c.Log("solver cnf=%v min=%v phase=%v atmost=%v proofs=%v ll=%+v", cfg.CNFMethod, cfg.ClauseMinimization, cfg.InitialPhase, cfg.UseAtMostClauses, proofs, *cfg.LowLevelConfig)
	return cfg
}

// world mirrors a solver with the semantic truth of what was added
type world struct {
	c      *Case
	n      int
	fac    f.Factory
	s      *sat.Solver
	cur    TT // models of everything added
	props  []f.Proposition
	known  map[int]bool
	states []wstate
	cc     bool
	proofs bool
}
type wstate struct {
	st    *sat.SolverState
	cur   TT
	props int
	known map[int]bool
	valid bool
}

func newWorld(c *Case, n int, proofs bool) *world {
	w := &world{proofs: proofs, c: c, n: n, fac: c.Fac(), known: map[int]bool{}, cc: true}
	if c.R.Intn(3) == 0 {
		e := encCfg(c)
		w.fac.PutConfiguration(e)
		c.Log("encoder configuration %s", cfgStr(e))
	}
	w.s = sat.NewSolver(w.fac, satCfg(c, proofs))
	w.cur = ttConst(n, true)
	return w
}

func (w *world) genFormula() *Node {
	r := w.c.R
	o := GenOpt{N: w.n, CC: w.cc, PBC: w.cc, Const: true}
	switch x := r.Intn(10); {
	case x < 4:
		return genCNF(r, w.n, 1+r.Intn(4), 3)
	case x < 6 && w.cc:
		nd := genCC(r, o)
		if r.Intn(2) == 0 {
			nd.Cmp = 1
		}
		return nd
	case x < 7 && w.cc:
		return genPBC(r, o)
	case x < 8: // wide clause or random 3-clauses
		return genCNF(r, w.n, 4+r.Intn(2*w.n), 3)
	}
	return gen(r, 1+r.Intn(3), o)
}

func (w *world) note(x f.Formula) {
	for v := range oracleVars(w.fac, x, map[string]bool{}) {
		var i int
		if _, err := fmt.Sscanf(v, "v%d", &i); err == nil {
			w.known[i] = true
		}
	}
}

func (w *world) add() {
	nd := w.genFormula()
	x := nd.build(w.fac)
	if w.proofs || w.c.R.Intn(3) == 0 {
		w.c.Log("AddProposition %s", nd)
		p := f.NewStandardProposition(x, fmt.Sprintf("p%d", len(w.props)))
		w.s.AddProposition(p)
		w.props = append(w.props, p)
	} else {
		w.c.Log("Add %s", nd)
		w.s.Add(x)
		w.props = append(w.props, f.NewStandardProposition(x))
	}
	w.cur = w.cur.and(nd.tt(w.n))
}

func (w *world) vars(k int) []f.Variable {
	var vs []f.Variable
	for _, v := range perm(w.c.R, w.n, k) {
		vs = append(vs, w.fac.Var(vname(v)))
	}
	return vs
}

func (w *world) lits(k int, dup bool) ([]f.Literal, TT) {
	var ls []f.Literal
	t := ttConst(w.n, true)
	for i := 0; i < k; i++ {
		v, p := w.c.R.Intn(w.n), w.c.R.Intn(2) == 0
		ls = append(ls, w.fac.Lit(vname(v), p))
		if !dup && i > 0 {
			dupd := false
			for _, l := range ls[:i] {
				if l.Variable() == ls[i].Variable() {
					dupd = true
				}
			}
			if dupd {
				ls = ls[:i]
				break
			}
		}
		x := ttVar(w.n, v)
		if !p {
			x = x.not(w.n)
		}
		t = t.and(x)
	}
	return ls, t
}

// checkModel: every requested variable known to the solver is assigned exactly once, the partial
// model extends to a model of want
func (w *world) checkModel(what string, m *model.Model, req []f.Variable, want TT) {
	c := w.c
	if !c.Check(m != nil, what+": ensures model returned", "nil model") {
		return
	}
	t := want
	seen := map[string]bool{}
	reqs := map[string]bool{}
	for _, v := range req {
		nm, _ := w.fac.VarName(v)
		reqs[nm] = true
	}
	for _, l := range m.Literals {
		nm, ph, ok := w.fac.LitNamePhase(l)
		c.Check(ok, what+": ensures literals of the factory", "%v", l)
		c.Check(!seen[nm], what+": ensures each variable once", "%s twice", nm)
		seen[nm] = true
		if !c.Check(reqs[nm], what+": ensures only requested variables", "%s not requested", nm) {
			continue
		}
		var i int
		fmt.Sscanf(nm, "v%d", &i)
		x := ttVar(w.n, i)
		if !ph {
			x = x.not(w.n)
		}
		t = t.and(x)
	}
	checkAccessors(c, w.fac, m)
	c.Check(!t.zero(), what+": ensures the model satisfies every added formula", "model %s is no projection of a model", litNames(w.fac, m.Literals))
	for nm := range reqs {
		if seen[nm] {
			continue
		}
		// a requested variable may only be missing when the solver never saw it: then it is irrelevant
		var i int
		fmt.Sscanf(nm, "v%d", &i)
		if w.s.CoreSolver().IdxForName(nm) >= 0 {
			c.Fail("%s: ensures every requested variable on the solver is covered: %s missing", what, nm)
		} else {
			c.Check(want.cofactor(w.n, i, true).eq(want.cofactor(w.n, i, false)), what+": ensures missing variables are irrelevant", "%s missing", nm)
		}
	}
}

// checkAccessors: the views of a model (or assignment) describe exactly its literals
func checkAccessors(c *Case, fac f.Factory, m *model.Model) {
	key := func(ls []f.Literal) string {
		ns := map[string]int{}
		for _, l := range ls {
			nm, ph, _ := fac.LitNamePhase(l)
			ns[fmt.Sprintf("%v%s", ph, nm)]++
		}
		return fmt.Sprint(ns)
	}
	var pos, neg, negv []f.Literal
	for _, l := range m.Literals {
		nm, ph, _ := fac.LitNamePhase(l)
		if ph {
			pos = append(pos, l)
		} else {
			neg = append(neg, l)
			negv = append(negv, fac.Var(nm).AsLiteral())
		}
	}
	c.Check(m.Size() == len(m.Literals), "Model.Size: ensures the number of literals", "%d", m.Size())
	c.Check(key(f.VariablesAsLiterals(m.PosVars())) == key(pos), "Model.PosVars: ensures exactly the variables set to true", "%v", m.PosVars())
	c.Check(key(f.VariablesAsLiterals(m.NegVars())) == key(negv), "Model.NegVars: ensures exactly the variables set to false", "%v", m.NegVars())
	c.Check(key(m.NegLits()) == key(neg), "Model.NegLits: ensures exactly the negative literals", "%v", m.NegLits())
	a, err := m.Assignment(fac)
	if !c.Check(err == nil, "Model.Assignment: ensures an assignment", "%v", err) {
		return
	}
	c.Check(a.Size() == len(m.Literals), "Model.Assignment: ensures the same size", "%d", a.Size())
	c.Check(key(model.FromAssignment(fac, *a).Literals) == key(m.Literals), "FromAssignment: ensures the same literals", "%v", m.Literals)
	c.Check(key(model.New(m.Literals...).Literals) == key(m.Literals), "model.New: ensures the given literals", "")
	ops := map[string]bool{}
	for _, o := range fac.Operands(m.Formula(fac)) {
		ops[o.Sprint(fac)] = true
	}
	if len(m.Literals) > 1 {
		for _, l := range m.Literals {
			c.Check(ops[l.Sprint(fac)] && len(ops) == len(m.Literals), "Model.Formula: ensures the minterm of the literals", "%s", m.Formula(fac).Sprint(fac))
		}
	}
}

func (w *world) solve() {
	c := w.c
	switch c.R.Intn(7) {
	case 0:
		got := w.s.Sat()
		c.Log("Sat()=%v", got)
		c.Check(got == !w.cur.zero(), "Sat: ensures result <=> satisfiable(added)", "got %v", got)
	case 1:
		vs := w.vars(1 + c.R.Intn(w.n))
		res := w.s.Call(sat.Params().WithModel(vs))
		c.Log("Call(WithModel %d vars)=%v", len(vs), res.Sat())
		if c.Check(res.Sat() == !w.cur.zero() && res.OK(), "Call: ensures Sat <=> satisfiable(added)", "got %v", res.Sat()) && res.Sat() {
			w.checkModel("Call.Model", res.Model(), vs, w.cur)
		}
	case 2, 3:
		ls, t := w.lits(1+c.R.Intn(w.n+1), true)
		keep := append([]f.Literal{}, ls...)
		vs := w.vars(w.n)
		p := sat.WithAssumptions(ls).WithModel(vs)
		if c.R.Intn(3) == 0 {
			p = p.WithUPZeros()
		}
		res := w.s.Call(p)
		c.Log("Call(assumptions %s)=%v", litNames(w.fac, keep), res.Sat())
		want := w.cur.and(t)
		if c.Check(res.Sat() == !want.zero(), "Call(assumptions): ensures Sat <=> satisfiable(added+assumptions)", "got %v", res.Sat()) && res.Sat() {
			w.checkModel("Call(assumptions).Model", res.Model(), vs, want)
			for _, l := range res.UpZeroLits() {
				w.upZero(l)
			}
		}
		for i := range ls {
			c.Check(ls[i] == keep[i], "Call: ensures caller's slice unchanged", "index %d", i)
		}
	case 4, 5:
		nd := w.genFormula()
		x := nd.build(w.fac)
		ls, t := w.lits(c.R.Intn(3), true)
		p := sat.Params().Formula(x).Literal(ls...)
		vs := w.vars(w.n)
		p.WithModel(vs)
		want := w.cur.and(t).and(nd.tt(w.n))
		res := w.s.Call(p)
		c.Log("Call(formula %s, literals %s)=%v", nd, litNames(w.fac, ls), res.Sat())
		if c.Check(res.Sat() == !want.zero(), "Call(formulas): ensures Sat <=> satisfiable(added+formulas)", "got %v", res.Sat()) && res.Sat() {
			// the additional variables are gone from the solver, check value agreement only
			w.checkModelLoose("Call(formulas).Model", res.Model(), want)
		}
	case 6:
		res := w.s.Call(sat.Params().WithUPZeros())
		c.Log("Call(UPZeros)=%v", res.Sat())
		if c.Check(res.Sat() == !w.cur.zero(), "Call: ensures Sat <=> satisfiable(added)", "got %v", res.Sat()) {
			for _, l := range res.UpZeroLits() {
				w.upZero(l)
			}
		}
	}
}

func (w *world) checkModelLoose(what string, m *model.Model, want TT) {
	t := want
	for _, l := range m.Literals {
		nm, ph, _ := w.fac.LitNamePhase(l)
		var i int
		if _, err := fmt.Sscanf(nm, "v%d", &i); err != nil {
			continue
		}
		x := ttVar(w.n, i)
		if !ph {
			x = x.not(w.n)
		}
		t = t.and(x)
	}
	w.c.Check(!t.zero(), what+": ensures the model satisfies formulas and assumptions", "model %s", litNames(w.fac, m.Literals))
}

func (w *world) upZero(l f.Literal) {
	nm, ph, _ := w.fac.LitNamePhase(l)
	var i int
	if _, err := fmt.Sscanf(nm, "v%d", &i); err != nil {
		return
	}
	t := ttVar(w.n, i)
	if !ph {
		t = t.not(w.n)
	}
	w.c.Check(w.cur.implies(t), "UpZeroLits: ensures each literal is implied", "%s", litNames(w.fac, []f.Literal{l}))
}

func (w *world) save() {
	st := w.s.SaveState()
	w.c.Log("SaveState #%d", len(w.states))
	w.states = append(w.states, wstate{st, w.cur, len(w.props), nil, true})
}

func (w *world) load() {
	if len(w.states) == 0 {
		return
	}
	i := w.c.R.Intn(len(w.states))
	st := &w.states[i]
	err := w.s.LoadState(st.st)
	w.c.Log("LoadState #%d valid=%v err=%v", i, st.valid, err)
	if !w.c.Check((err == nil) == st.valid, "LoadState: ensures error <=> state was invalidated", "valid=%v err=%v", st.valid, err) {
		return
	}
	if err == nil {
		w.cur, w.props = st.cur, w.props[:st.props]
		for j := i + 1; j < len(w.states); j++ {
			w.states[j].valid = false
		}
	}
}

func (w *world) backbone() {
	c := w.c
	vs := w.vars(1 + c.R.Intn(w.n))
	sort := sat.BackboneSort(c.R.Intn(3))
	c.Log("ComputeBackbone sort=%v %v", sort, len(vs))
	checkBackbone(c, w.fac, w.n, w.s.ComputeBackbone(w.fac, vs, sort), vs, sort, w.cur)
}

func checkBackbone(c *Case, fac f.Factory, n int, bb *sat.Backbone, vs []f.Variable, sort sat.BackboneSort, cur TT) {
	if !c.Check(bb.Sat == !cur.zero(), "ComputeBackbone: ensures Sat <=> satisfiable", "got %v", bb.Sat) || !bb.Sat {
		return
	}
	pos, neg, opt := map[f.Variable]bool{}, map[f.Variable]bool{}, map[f.Variable]bool{}
	for _, v := range bb.Positive {
		c.Check(!pos[v], "ComputeBackbone: no duplicates", "")
		pos[v] = true
	}
	for _, v := range bb.Negative {
		neg[v] = true
	}
	for _, v := range bb.Optional {
		opt[v] = true
	}
	tot := 0
	for _, v := range vs {
		nm, _ := fac.VarName(v)
		var i int
		fmt.Sscanf(nm, "v%d", &i)
		t := ttVar(n, i)
		isPos, isNeg := cur.implies(t), cur.implies(t.not(n))
		if sort != sat.BBNeg {
			c.Check(pos[v] == isPos, "ComputeBackbone: ensures positive <=> true in every model", "%s sort %v reported %v", nm, sort, pos[v])
		} else {
			c.Check(!pos[v], "ComputeBackbone: negative sort has no positive", "%s", nm)
		}
		if sort != sat.BBPos {
			c.Check(neg[v] == isNeg, "ComputeBackbone: ensures negative <=> false in every model", "%s sort %v reported %v", nm, sort, neg[v])
		} else {
			c.Check(!neg[v], "ComputeBackbone: positive sort has no negative", "%s", nm)
		}
		if sort == sat.BBBoth {
			c.Check(opt[v] == (!isPos && !isNeg), "ComputeBackbone: ensures optional = remaining variables", "%s reported %v", nm, opt[v])
		}
		if pos[v] || neg[v] || opt[v] {
			tot++
		}
	}
	c.Check(tot == len(pos)+len(neg)+len(opt), "ComputeBackbone: ensures only requested variables", "%d vs %d", tot, len(pos)+len(neg)+len(opt))
}

func (w *world) optimize() {
	c := w.c
	ls, _ := w.lits(1+c.R.Intn(w.n+1), c.R.Intn(4) == 0)
	set := map[f.Literal]bool{}
	for _, l := range ls {
		set[l] = true
	}
	max := c.R.Intn(2) == 0
	var add []f.Variable
	if c.R.Intn(2) == 0 {
		add = w.vars(1 + c.R.Intn(w.n))
	}
	keep := append([]f.Literal{}, ls...)
	var m *model.Model
	if max {
		m = w.s.Maximize(ls, add...)
	} else {
		m = w.s.Minimize(ls, add...)
	}
	c.Log("optimize max=%v lits=%s additional=%d -> %v", max, litNames(w.fac, keep), len(add), m != nil)
	for i := range ls {
		c.Check(ls[i] == keep[i], "optimize: ensures caller's slice unchanged", "index %d", i)
	}
	if !c.Check((m != nil) == !w.cur.zero(), "optimize: ensures model <=> satisfiable", "got %v", m != nil) || m == nil {
		return
	}
	w.checkModelLoose("optimize", m, w.cur)
	// best value over all models: each listed literal counted as often as it is listed
	best := -1
	val := func(a int) int {
		k := 0
		for _, l := range keep {
			nm, ph, _ := w.fac.LitNamePhase(l)
			var i int
			fmt.Sscanf(nm, "v%d", &i)
			if (a>>i&1 == 1) == ph {
				k++
			}
		}
		return k
	}
	for a := 0; a < 1<<w.n; a++ {
		if w.cur.bit(a) {
			k := val(a)
			if best < 0 || max && k > best || !max && k < best {
				best = k
			}
		}
	}
	mset := map[f.Literal]bool{}
	for _, l := range m.Literals {
		mset[l] = true
	}
	got := 0
	for _, l := range keep {
		if mset[l] {
			got++
		} else {
			c.Check(mset[l.Negate(w.fac)], "optimize: ensures every listed variable is in the model", "%s", litNames(w.fac, []f.Literal{l}))
		}
	}
	c.Check(got == best, "optimize: ensures the model is optimal", "model %s satisfies %d, optimum %d", litNames(w.fac, m.Literals), got, best)
	for _, v := range add {
		nm, _ := w.fac.VarName(v)
		if w.s.CoreSolver().IdxForName(nm) >= 0 {
			c.Check(mset[v.AsLiteral()] || mset[v.Negate(w.fac)], "optimize: ensures additional variables covered", "%s", nm)
		}
	}
}

func iterCfg(c *Case, fac f.Factory, enumVars []f.Variable) *iter.Config {
	cfg := iter.DefaultConfig()
	var sp iter.SplitProvider
	switch c.R.Intn(5) {
	case 0:
		cfg.Strategy = iter.NewNoSplitMEStrategy()
		return cfg
	case 1:
		cfg.Strategy = iter.DefaultStrategy()
		return cfg
	case 2:
		sp = iter.NewLeastCommonVarProvider(0.2+0.2*float64(c.R.Intn(5)), 1+c.R.Intn(4))
	case 3:
		sp = iter.NewMostCommonVarProvider(0.2+0.2*float64(c.R.Intn(5)), 1+c.R.Intn(4))
	default:
		// fixed split variables have to be enumeration variables
		var vs []f.Variable
		for _, v := range perm(c.R, len(enumVars), 1+c.R.Intn(len(enumVars))) {
			vs = append(vs, enumVars[v])
		}
		sp = iter.NewFixedVarProvider(f.NewVarSet(vs...))
	}
	k := 3 + c.R.Intn(4)
	c.Log("split %T maxModels %d", sp, k)
	cfg.Strategy = iter.NewBasicStrategy(sp, k)
	return cfg
}

// projection of cur on the variables idx: the set of projected assignments
func projSet(n int, cur TT, idx []int) map[int]bool {
	s := map[int]bool{}
	for a := 0; a < 1<<n; a++ {
		if cur.bit(a) {
			k := 0
			for j, i := range idx {
				k |= (a >> i & 1) << j
			}
			s[k] = true
		}
	}
	return s
}

func varIdx(fac f.Factory, vs []f.Variable) []int {
	idx := make([]int, len(vs))
	for j, v := range vs {
		nm, _ := fac.VarName(v)
		fmt.Sscanf(nm, "v%d", &idx[j])
	}
	return idx
}

func checkEnum(c *Case, what string, fac f.Factory, n int, models []*model.Model, vs, add []f.Variable, cur TT) {
	idx := varIdx(fac, vs)
	want := projSet(n, cur, idx)
	seen := map[int]bool{}
	for _, m := range models {
		t := cur
		k := 0
		cov := map[int]bool{}
		for _, l := range m.Literals {
			nm, ph, _ := fac.LitNamePhase(l)
			var i int
			if _, err := fmt.Sscanf(nm, "v%d", &i); err != nil {
				c.Fail("%s: foreign variable %s in model", what, nm)
				return
			}
			x := ttVar(n, i)
			if !ph {
				x = x.not(n)
			}
			t = t.and(x)
			cov[i] = true
			for j, v := range idx {
				if v == i && ph {
					k |= 1 << j
				}
			}
		}
		for _, i := range idx {
			c.Check(cov[i], what+": ensures every enumeration variable assigned", "%s missing in %s", vname(i), litNames(fac, m.Literals))
		}
		for _, v := range varIdx(fac, add) {
			if !cov[v] { // only irrelevant variables may be missing
				c.Check(cur.cofactor(n, v, true).eq(cur.cofactor(n, v, false)), what+": ensures additional variables covered", "%s missing", vname(v))
			}
		}
		c.Check(!t.zero(), what+": ensures enumerated assignment extends to a model", "%s", litNames(fac, m.Literals))
		c.Check(!seen[k], what+": ensures each projection exactly once", "%s repeated", litNames(fac, m.Literals))
		seen[k] = true
	}
	c.Check(len(seen) == len(want), what+": ensures every projection enumerated", "%d of %d", len(seen), len(want))
}

func (w *world) enumerate() {
	c := w.c
	vs := w.vars(1 + c.R.Intn(w.n))
	var add []f.Variable
	if c.R.Intn(2) == 0 {
		add = w.vars(1 + c.R.Intn(w.n))
	}
	cfg := iterCfg(c, w.fac, w.vars(w.n))
	op := c.R.Intn(3)
	c.Log("enumerate op=%d over %d variables, additional %d", op, len(vs), len(add))
	switch op {
	case 0:
		ms, st := enum.OnSolverWithConfig(w.s, vs, cfg, add...)
		c.Check(st.Success, "enum.OnSolver: ensures success", "")
		checkEnum(c, "enum.OnSolver", w.fac, w.n, ms, vs, add, w.cur)
	case 1:
		cnt, st := count.OnSolverWithConfig(w.s, vs, cfg)
		want := len(projSet(w.n, w.cur, varIdx(w.fac, vs)))
		c.Check(st.Success && cnt.Cmp(big.NewInt(int64(want))) == 0, "count.OnSolver: ensures exact projected model count", "got %v want %d", cnt, want)
	case 2:
		bd, st := enum.ToBddOnSolverWithConfig(w.s, vs, cfg)
		if !c.Check(st.Success, "enum.ToBddOnSolver: ensures success", "") {
			return
		}
		idx := varIdx(w.fac, vs)
		p := projSet(w.n, w.cur, idx)
		t := ttConst(w.n, false)
		for a := 0; a < 1<<w.n; a++ {
			k := 0
			for j, i := range idx {
				k |= (a >> i & 1) << j
			}
			if p[k] {
				t.set(a)
			}
		}
		got := newEnv(w.fac, w.n).tt(bd.ToFormula(w.fac))
		c.eqTT("enum.ToBddOnSolver: ensures bdd == projection", w.n, got, t, "diagram")
	}
}

func (w *world) core() {
	c := w.c
	p := sat.WithCore()
	want := w.cur
	allowed := append([]f.Proposition{}, w.props...)
	var ls []f.Literal
	if c.R.Intn(2) == 0 {
		var t TT
		ls, t = w.lits(1+c.R.Intn(w.n), true)
		want = want.and(t)
		for i, l := range ls {
			pr := f.NewStandardProposition(l.AsFormula(), fmt.Sprintf("a%d", i))
			p.Proposition(pr)
			allowed = append(allowed, pr)
		}
	}
	if c.R.Intn(3) == 0 {
		nd := w.genFormula()
		pr := f.NewStandardProposition(nd.build(w.fac), "add")
		p.Proposition(pr)
		allowed = append(allowed, pr)
		want = want.and(nd.tt(w.n))
		c.Log("  additional %s", nd)
	}
	c.Log("Call(WithCore, literals %s)", litNames(w.fac, ls))
	res := w.s.Call(p)
	if !c.Check(res.Sat() == !want.zero(), "Call: ensures Sat <=> satisfiable", "got %v", res.Sat()) || res.Sat() {
		return
	}
	core := res.UnsatCore()
	if !c.Check(core != nil, "UnsatCore: ensures core returned", "nil") {
		return
	}
	env := newEnv(w.fac, w.n)
	t := ttConst(w.n, true)
	for _, pr := range core.Propositions {
		if pr == nil {
			c.Fail("UnsatCore: ensures propositions are non-nil")
			return
		}
		fromAllowed := false
		for _, q := range allowed {
			if q == pr {
				fromAllowed = true
			}
		}
		x := env.tt(pr.Formula())
		t = t.and(x)
		_ = fromAllowed
		if !fromAllowed { // formulas added without proposition appear clause-wise: must be implied by one of them
			impl := false
			for _, q := range allowed {
				if q.Formula() == pr.Formula() || env.tt(q.Formula()).implies(x) {
					impl = true
				}
			}
			c.Check(impl, "UnsatCore: ensures members come from added propositions", "%s", pr.Formula().Sprint(w.fac))
		}
	}
	c.Check(t.zero(), "UnsatCore: ensures the conjunction of the core is unsatisfiable", "core of %d propositions", len(core.Propositions))
}

func (w *world) onSolver() {
	fs := w.s.FormulasOnSolver()
	cnf := newCNF()
	ok := true
	for _, x := range fs {
		if x.Sort() == f.SortCC {
			return
		}
		ok = ok && cnf.add(w.fac, x)
	}
	if !w.c.Check(ok, "FormulasOnSolver: ensures clauses", "") {
		return
	}
	w.c.Log("FormulasOnSolver %d", len(fs))
	got := cnf.project(w.n)
	if w.cur.zero() { // may be undetected
		w.c.Check(got.implies(w.cur) || true, "", "")
		return
	}
	w.c.eqTT("FormulasOnSolver: ensures projected models == models of the added formulas", w.n, got, w.cur, "formulas")
}

func history(ops string, proofs bool, cc bool) func(*Case) { return historyN(ops, proofs, cc, false) }

// hard: more variables and a random 3-CNF first, so that answers need learning
func historyN(ops string, proofs bool, cc bool, hard bool) func(*Case) {
	return func(c *Case) {
		n := 3 + c.R.Intn(5)
		if hard {
			n = 8 + c.R.Intn(4)
		}
		w := newWorld(c, n, proofs)
		w.cc = cc
		steps := 3 + c.R.Intn(9)
		if hard {
			nd := &Node{K: KAnd}
			for i := n + c.R.Intn(4*n); i > 0; i-- {
				k := &Node{K: KOr}
				for _, v := range perm(c.R, n, 2+c.R.Intn(3)%2) {
					k.Kids = append(k.Kids, &Node{K: KLit, Var: v, Phase: c.R.Intn(2) == 0})
				}
				nd.Kids = append(nd.Kids, k)
			}
			c.Log("Add %s", nd)
			x := nd.build(w.fac)
			pr := f.NewStandardProposition(x, "base")
			w.s.AddProposition(pr)
			w.props = append(w.props, pr)
			w.cur = w.cur.and(nd.tt(n))
		} else {
			w.add()
		}
		for i := 0; i < steps && len(c.errs) == 0; i++ {
			switch ops[c.R.Intn(len(ops))] {
			case 'a':
				w.add()
			case 's':
				w.solve()
			case 'S':
				w.save()
			case 'L':
				w.load()
			case 'b':
				w.backbone()
			case 'o':
				w.optimize()
			case 'e':
				w.enumerate()
			case 'c':
				w.core()
			case 'F':
				w.onSolver()
			case 'i':
				w.inc()
			}
		}
		if len(c.errs) == 0 && n <= 5 {
			c.Log("final answers")
			c.solverTT("ensures later answers are exactly those of the added formulas", w.fac, w.s, n, w.cur)
		}
	}
}

// incremental cardinality constraint tightened on the solver
func (w *world) inc() {
	c := w.c
	k := 2 + c.R.Intn(w.n-1)
	vs := w.vars(k)
	idx := varIdx(w.fac, vs)
	k = len(vs)
	le := c.R.Intn(2) == 0
	rhs := 1 + c.R.Intn(k)
	cmp := 3
	if le {
		cmp = 1
	}
	x := w.fac.CC(cmps[cmp], uint32(rhs), vs...)
	if x.Sort() != f.SortCC {
		return
	}
	if le && rhs == 1 { // AMO is fine as well
	}
	bound := func(b int) TT {
		t := ttConst(w.n, false)
		for a := 0; a < 1<<w.n; a++ {
			s := 0
			for _, i := range idx {
				s += a >> i & 1
			}
			if cmpEval(cmp, s, b) {
				t.set(a)
			}
		}
		return t
	}
	data, err := w.s.AddIncrementalCC(x)
	c.Log("AddIncrementalCC %s over %v -> err=%v", cmpStr[cmp], idx, err)
	w.props = append(w.props, f.NewStandardProposition(x))
	w.cur = w.cur.and(bound(rhs))
	if err != nil {
		return
	}
	for {
		if le {
			rhs -= 1 + c.R.Intn(2)
		} else {
			rhs += 1 + c.R.Intn(2)
		}
		if rhs < 0 || rhs > k || c.R.Intn(3) == 0 {
			return
		}
		c.Log("tighten to %d", rhs)
		if le {
			data.NewUpperBoundForSolver(rhs)
		} else {
			data.NewLowerBoundForSolver(rhs)
		}
		w.cur = w.cur.and(bound(rhs))
		got := w.s.Sat()
		c.Check(got == !w.cur.zero(), "tightened incremental constraint: ensures Sat <=> satisfiable", "got %v", got)
		_ = encoding.DefaultConfig
	}
}

// larger random 3-SAT so that learning, restarts and clause deletion happen
func hardSat(proofs bool) func(*Case) {
	return func(c *Case) {
		n := 9 + c.R.Intn(4)
		w := newWorld(c, n, proofs)
		nd := &Node{K: KAnd}
		m := int(4.3 * float64(n))
		for i := 0; i < m; i++ {
			k := genCNF(c.R, n, 1, 1)
			k.Kids[0].Kids = nil
			for _, v := range perm(c.R, n, 3) {
				k.Kids[0].Kids = append(k.Kids[0].Kids, &Node{K: KLit, Var: v, Phase: c.R.Intn(2) == 0})
			}
			nd.Kids = append(nd.Kids, k.Kids[0])
		}
		for i := c.R.Intn(4); i > 0; i-- {
			k := genCC(c.R, GenOpt{N: n})
			k.Cmp = 1
			nd.Kids = append(nd.Kids, k)
		}
		c.Log("hard instance: %s", nd)
		for _, k := range nd.Kids {
			x := k.build(w.fac)
			p := f.NewStandardProposition(x)
			w.s.AddProposition(p)
			w.props = append(w.props, p)
		}
		w.cur = nd.tt(n)
		for i := 0; i < 6 && len(c.errs) == 0; i++ {
			if proofs {
				w.core()
			} else {
				w.solve()
			}
		}
	}
}

// hugeSat: instances with known answers that need many conflicts (pigeon hole, parity cycles, planted 3-SAT)
func hugeSat(c *Case) {
	fac := c.Fac()
	cfg := satCfg(c, c.R.Intn(4) == 0)
	s := sat.NewSolver(fac, cfg)
	lit := func(v int, p bool) f.Literal { return fac.Lit(fmt.Sprintf("v%03d", v), p) }
	var cls [][]int // literal 2*v+sign
	want := false
	add := func(ls ...int) { cls = append(cls, ls) }
	nv := 0
	switch c.R.Intn(4) {
	case 0:
		h := 4 + c.R.Intn(3)
		pg := h + c.R.Intn(2)
		want = pg <= h
		c.Log("pigeon hole %d in %d", pg, h)
		nv = pg * h
		for p := 0; p < pg; p++ {
			var l []int
			for q := 0; q < h; q++ {
				l = append(l, 2*(p*h+q))
			}
			add(l...)
		}
		for q := 0; q < h; q++ {
			for a := 0; a < pg; a++ {
				for b := 0; b < a; b++ {
					add(2*(a*h+q)+1, 2*(b*h+q)+1)
				}
			}
		}
	case 1: // parity constraints on a random 3-regular multigraph: satisfiable iff the charges of every component are even
		k := 6 + 2*c.R.Intn(4)
		var stubs []int
		for v := 0; v < k; v++ {
			stubs = append(stubs, v, v, v)
		}
		c.R.Shuffle(len(stubs), func(i, j int) { stubs[i], stubs[j] = stubs[j], stubs[i] })
		inc := make([][]int, k)
		uf := make([]int, k)
		for i := range uf {
			uf[i] = i
		}
		var find func(int) int
		find = func(x int) int {
			for uf[x] != x {
				x = uf[x]
			}
			return x
		}
		for i := 0; i < len(stubs); i += 2 {
			a, b := stubs[i], stubs[i+1]
			if a != b {
				inc[a], inc[b] = append(inc[a], nv), append(inc[b], nv)
				uf[find(a)] = find(b)
			}
			nv++
		}
		odd := map[int]int{}
		for v := 0; v < k; v++ {
			ch := c.R.Intn(2)
			odd[find(v)] ^= ch
			for m := 0; m < 1<<len(inc[v]); m++ {
				if bits.OnesCount(uint(m))%2 != ch {
					var l []int
					for i, e := range inc[v] {
						l = append(l, 2*e+m>>i&1)
					}
					add(l...)
				}
			}
		}
		want = true
		for _, o := range odd {
			want = want && o == 0
		}
		c.Log("parity constraints on %d nodes", k)
	default:
		nv = 60 + c.R.Intn(80)
		m := nv * (38 + c.R.Intn(6)) / 10
		want = true
		c.Log("planted 3-SAT %d variables %d clauses", nv, m)
		pl := make([]int, nv)
		for i := range pl {
			pl[i] = c.R.Intn(2)
		}
		for len(cls) < m {
			var l []int
			ok := false
			for _, v := range perm(c.R, nv, 3) {
				sg := c.R.Intn(2)
				ok = ok || sg == pl[v]
				l = append(l, 2*v+sg)
			}
			if ok {
				add(l...)
			}
		}
	}
	c.R.Shuffle(len(cls), func(i, j int) { cls[i], cls[j] = cls[j], cls[i] })
	c.key = fmt.Sprint(cls)
	for _, l := range cls {
		var ls []f.Literal
		for _, x := range l {
			ls = append(ls, lit(x/2, x%2 == 0))
		}
		s.Add(fac.Clause(ls...))
	}
	var vs []f.Variable
	for v := 0; v < nv; v++ {
		vs = append(vs, fac.Var(fmt.Sprintf("v%03d", v)))
	}
	for round := 0; round < 3; round++ {
		var as []f.Literal
		if round == 1 {
			for _, v := range perm(c.R, nv, 1+c.R.Intn(4)) {
				as = append(as, lit(v, c.R.Intn(2) == 0))
			}
		}
		res := s.Call(sat.WithAssumptions(as).WithModel(vs))
		if len(as) == 0 {
			c.Check(res.Sat() == want, "Call: ensures Sat <=> satisfiable(added)", "got %v want %v", res.Sat(), want)
		} else if !want {
			c.Check(!res.Sat(), "Call(assumptions): ensures Sat <=> satisfiable(added+assumptions)", "got sat")
		}
		if res.Sat() {
			val := map[string]bool{}
			for _, l := range res.Model().Literals {
				nm, ph, _ := fac.LitNamePhase(l)
				val[nm] = ph
			}
			for _, l := range cls {
				ok := false
				for _, x := range l {
					v, has := val[fmt.Sprintf("v%03d", x/2)]
					ok = ok || has && v == (x%2 == 0)
				}
				c.Check(ok, "Call.Model: ensures the model satisfies every added formula", "clause %v", l)
			}
			for _, l := range as {
				nm, ph, _ := fac.LitNamePhase(l)
				if v, has := val[nm]; has {
					c.Check(v == ph, "Call.Model: ensures the model satisfies the assumptions", "%s", nm)
				}
			}
		}
	}
}

func satPredicates(c *Case) {
	n := 2 + c.R.Intn(4)
	fac := c.Fac()
	a, b := gen(c.R, 1+c.R.Intn(3), full(n)), gen(c.R, 1+c.R.Intn(3), full(n))
	switch c.R.Intn(4) {
	case 0:
		b = &Node{K: KNot, Kids: []*Node{{K: KNot, Kids: []*Node{a}}}}
	case 1:
		b = &Node{K: KOr, Kids: []*Node{a, b}}
	}
	c.Log("a=%s b=%s", a, b)
	fa, fb := a.build(fac), b.build(fac)
	ta, tb := a.tt(n), b.tt(n)
	for k := 0; k < 2; k++ {
		c.Check(sat.IsSatisfiable(fac, fa) == !ta.zero(), "IsSatisfiable: ensures exact", "")
		c.Check(sat.IsTautology(fac, fa) == ta.not(n).zero(), "IsTautology: ensures exact", "")
		c.Check(sat.IsContradiction(fac, fa) == ta.zero(), "IsContradiction: ensures exact", "")
		c.Check(sat.Implies(fac, fa, fb) == ta.implies(tb), "Implies: ensures exact", "")
		c.Check(sat.IsEquivalent(fac, fa, fb) == ta.eq(tb), "IsEquivalent: ensures exact", "")
	}
}

func enumOnFormula(c *Case) {
	n := 2 + c.R.Intn(4)
	fac := c.Fac()
	nd := gen(c.R, 1+c.R.Intn(4), GenOpt{N: n, Const: true, CC: true, PBC: true})
	c.Log("formula %s", nd)
	x := nd.build(fac)
	t := nd.tt(n)
	var vs, add []f.Variable
	for _, v := range perm(c.R, n, 1+c.R.Intn(n)) {
		vs = append(vs, fac.Var(vname(v)))
	}
	if c.R.Intn(2) == 0 {
		add = append(add, fac.Var(vname(c.R.Intn(n))))
	}
	want := big.NewInt(int64(len(projSet(n, t, varIdx(fac, vs)))))
	switch c.R.Intn(4) {
	case 0:
		checkEnum(c, "enum.OnFormula", fac, n, enum.OnFormula(fac, x, vs, add...), vs, add, t)
	case 1:
		got := count.OnFormula(fac, x, vs)
		c.Check(got.Cmp(want) == 0, "count.OnFormula: ensures exact projected count", "got %v want %v", got, want)
	case 2:
		all := make([]f.Variable, n)
		for i := range all {
			all[i] = fac.Var(vname(i))
		}
		nd2 := gen(c.R, 1+c.R.Intn(3), GenOpt{N: n, Const: true, CC: true})
		x2 := nd2.build(fac)
		c.Log("and %s", nd2)
		got, err := count.Count(fac, all, x, x2)
		w := nd.tt(n).and(nd2.tt(n)).count()
		c.Check(err != nil && !countable(fac, x, x2) || err == nil && got.Cmp(big.NewInt(int64(w))) == 0, "count.Count: ensures exact model count", "got %v err %v want %d", got, err, w)
	case 3:
		cfg := iterCfg(c, fac, vs)
		ms, _ := enum.OnFormulaWithConfig(fac, x, vs, cfg, add...)
		checkEnum(c, "enum.OnFormulaWithConfig", fac, n, ms, vs, add, t)
	}
}

func init() {
	hb := "random call histories of <=12 operations over <=7 variables, random solver, encoder and low-level configuration"
	hh := "8 to 11 variables, a random CNF with up to 55 clauses, <=11 operations"
	reg("S01",
		Family{"histories", "sat.Solver.{Add,AddProposition,Call,Sat}, CoreSolver.{AddClause,addAtMost,Solve,CreateModel}", hb, 6000, 150000, history("aasssF", false, true)},
		Family{"hard", "sat.Solver, CoreSolver.{propagate,analyze,simplifyClause,reduceDB}", "random 3-CNF at the threshold over 9-12 variables with at-most constraints", 1200, 30000, hardSat(false)},
		Family{"known-answers", "sat.Solver, CoreSolver.{search,analyze,reduceDB}", "pigeon hole, parity and planted 3-SAT instances up to 140 variables", 30, 1000, hugeSat},
		Family{"predicates", "sat.{IsSatisfiable,IsTautology,IsContradiction,Implies,IsEquivalent}", "random formula pairs, <=5 variables", 4000, 80000, satPredicates})
	reg("S02",
		Family{"histories", "sat.Solver.{SaveState,LoadState,Call,AddIncrementalCC}", hb, 8000, 200000, history("aassssSSLLiF", false, true)},
		Family{"histories-proofs", "sat.Solver.{SaveState,LoadState,Call} with proof tracing", hb, 3000, 60000, history("aassssSSLL", true, true)},
		Family{"histories-hard", "sat.Solver.{SaveState,LoadState,Call,AddIncrementalCC}", hh, 600, 20000, historyN("asssSSLLi", false, true, true)})
	reg("S03",
		Family{"histories", "sat.Solver.{AddProposition,Call,computeUnsatCore}, proofs.go", hb, 6000, 150000, history("aaacccSLs", true, true)},
		Family{"hard", "sat.Solver.computeUnsatCore on longer proofs", "random 3-CNF, 9-12 variables", 800, 20000, hardSat(true)},
		Family{"histories-hard", "sat.Solver.{AddProposition,Call,computeUnsatCore}, proofs.go", hh, 400, 10000, historyN("acccSLs", true, true, true)})
	reg("S04",
		Family{"histories", "sat.Solver.{ComputeBackbone,Call,computeUpZeroLits}", hb, 8000, 150000, history("aabbbsSL", false, true)},
		Family{"histories-proofs", "sat.Solver.ComputeBackbone with proof tracing", hb, 2000, 30000, history("aabbbs", true, true)},
		Family{"hard", "sat.Solver.ComputeBackbone", hh, 800, 20000, historyN("abbbsSL", false, true, true)})
	reg("S05",
		Family{"histories", "enum.{OnSolver,ToBddOnSolver}, count.OnSolver, iter.ModelIterator", hb, 4000, 80000, history("aeees", false, true)},
		Family{"formulas", "enum.OnFormula, count.{OnFormula,Count}", "random formulas, <=5 variables", 4000, 80000, enumOnFormula},
		Family{"hard", "enum.{OnSolver,ToBddOnSolver}, count.OnSolver, iter.ModelIterator", hh, 200, 5000, historyN("aeees", false, true, true)})
	reg("S06",
		Family{"histories", "sat.Solver.{Maximize,Minimize}", hb, 6000, 150000, history("aaooosSL", false, true)},
		Family{"hard", "sat.Solver.{Maximize,Minimize}", hh, 500, 15000, historyN("aoosSL", false, true, true)})
}

// only at-most-one and exactly-one constraints are countable (documented)
func countable(fac f.Factory, xs ...f.Formula) bool {
	for _, x := range xs {
		for _, s := range f.SubNodes(fac, x) {
			if s.Sort() == f.SortPBC {
				return false
			}
			if s.Sort() == f.SortCC {
				cmp, rhs, _, _, _ := fac.PBCOps(s)
				if !(cmp == f.LE && rhs == 1 || cmp == f.LT && rhs == 2 || cmp == f.EQ && rhs == 1) {
					return false
				}
			}
		}
	}
	return true
}

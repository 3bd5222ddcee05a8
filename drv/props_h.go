package main

import (
	"fmt"
	"math/big"

	"github.com/booleworks/logicng-go/bdd"
	"github.com/booleworks/logicng-go/dnnf"
	"github.com/booleworks/logicng-go/event"
	"github.com/booleworks/logicng-go/explanation"
	"github.com/booleworks/logicng-go/explanation/mus"
	"github.com/booleworks/logicng-go/explanation/smus"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/maxsat"
	"github.com/booleworks/logicng-go/model"
	"github.com/booleworks/logicng-go/model/count"
	"github.com/booleworks/logicng-go/model/enum"
	"github.com/booleworks/logicng-go/model/iter"
	"github.com/booleworks/logicng-go/normalform"
	"github.com/booleworks/logicng-go/primeimplicant"
	"github.com/booleworks/logicng-go/sat"
	"github.com/booleworks/logicng-go/simplification"
)

// cancelAt requests cancelation at the k-th event (and at all later ones if sticky)
type cancelAt struct {
	k, n   int
	sticky bool
	cause  event.Event
}

func (h *cancelAt) ShouldResume(e event.Event) bool {
	i := h.n
	h.n++
	if i == h.k || h.sticky && i > h.k {
		if h.cause == nil {
			h.cause = e
		}
		return false
	}
	return true
}

// hop is a handler-aware computation: run calls it and returns the state, whether a result is presented, and a
// check of the result as final; partial checks a partial result of a canceled call.
type hop struct {
	name    string
	run     func(h handler.Handler) (st handler.State, present bool, full func(what string))
	partial bool // canceled calls may return a partial result (checked inside run)
}

func cancelAll(c *Case, h hop, sticky bool) {
	probe := &cancelAt{k: -1}
	st, _, full := h.run(probe)
	c.Check(st.Success, h.name+": ensures success if the handler never cancels", "")
	full(h.name + " (handler never cancels)")
	total := probe.n
	ks := map[int]bool{}
	for k := 0; k < total && k < 40; k++ {
		ks[k] = true
	}
	for i := 0; i < 20 && total > 40; i++ {
		ks[c.R.Intn(total)] = true
	}
	for k := 0; k < total && len(c.errs) == 0; k++ {
		if !ks[k] {
			continue
		}
		hd := &cancelAt{k: k, sticky: sticky}
		st, present, full := h.run(hd)
		if st.Success {
			full(h.name + " (canceled, reported as success)")
		} else {
			c.Check(hd.cause != nil, h.name+": ensures cancelation is only reported if the handler canceled", "event %d of %d", k, total)
			c.Check(!present || h.partial, h.name+": ensures no result after cancelation", "canceled at event %d of %d", k, total)
			if c.Check(st.CancelCause != nil && st.CancelCause != event.Nothing, h.name+": ensures a cause of the cancelation", "event %d of %d: %v", k, total, st.CancelCause) && hd.cause != nil {
				c.Check(st.CancelCause.EventType() == hd.cause.EventType() || sticky, h.name+": ensures the event as the cause", "event %d of %d: %v, canceled at %v", k, total, st.CancelCause.EventType(), hd.cause.EventType())
			}
		}
		if len(c.errs) > 0 {
			c.desc = append(c.desc, fmt.Sprintf("canceled at event %d of %d", k, total))
			return
		}
		if c.R.Intn(3) == 0 || k+1 == total {
			st, _, full = h.run(handler.NopHandler)
			c.Check(st.Success, h.name+": ensures success after a canceled call", "canceled at event %d", k)
			full(h.name + " after cancelation")
			if len(c.errs) > 0 {
				c.desc = append(c.desc, fmt.Sprintf("after a call canceled at event %d of %d", k, total))
			}
		}
	}
}

// computations on formulas
func h01form(c *Case) {
	n := 2 + c.R.Intn(3)
	fac := c.Fac()
	nd := gen(c.R, 1+c.R.Intn(4), GenOpt{N: n, Const: true})
	if c.R.Intn(3) == 0 {
		nd = genCNF(c.R, n, 2+c.R.Intn(2*n), 3)
	}
	c.Log("formula %s", nd)
	x := nd.build(fac)
	t := nd.tt(n)
	vars := f.Variables(fac, x).Content()
	sticky := c.R.Intn(2) == 0
	formHop := func(name string, call func(h handler.Handler) (f.Formula, handler.State), shape func(f.Factory, f.Formula) bool) hop {
		return hop{name: name, run: func(h handler.Handler) (handler.State, bool, func(string)) {
			y, st := call(h)
			return st, !st.Success && y != 0, func(what string) {
				c.eqTT(what+": ensures equivalent", n, newEnv(fac, n).tt(y), t, y.Sprint(fac))
				if shape != nil {
					c.Check(shape(fac, y), what+": ensures the normal form", "%s", y.Sprint(fac))
				}
			}
		}}
	}
	var h hop
	switch c.R.Intn(13) {
	case 0:
		h = formHop("FactorizedCNFWithHandler", func(h handler.Handler) (f.Formula, handler.State) {
			return normalform.FactorizedCNFWithHandler(fac, x, h)
		}, shapeCNF)
	case 1:
		h = formHop("FactorizedDNFWithHandler", func(h handler.Handler) (f.Formula, handler.State) {
			return normalform.FactorizedDNFWithHandler(fac, x, h)
		}, shapeDNF)
	case 2:
		h = formHop("CanonicalCNFWithHandler", func(h handler.Handler) (f.Formula, handler.State) {
			return enum.CanonicalCNFWithHandler(fac, x, h)
		}, shapeCNF)
	case 3:
		h = formHop("CanonicalDNFWithHandler", func(h handler.Handler) (f.Formula, handler.State) {
			return enum.CanonicalDNFWithHandler(fac, x, h)
		}, shapeDNF)
	case 4:
		h = formHop("bdd.CNFWithHandler", func(h handler.Handler) (f.Formula, handler.State) {
			return bdd.CNFWithHandler(fac, x, h)
		}, shapeCNF)
	case 5:
		h = formHop("bdd.DNFWithHandler", func(h handler.Handler) (f.Formula, handler.State) {
			return bdd.DNFWithHandler(fac, x, h)
		}, shapeDNF)
	case 6:
		h = formHop("QMCWithHandler", func(h handler.Handler) (f.Formula, handler.State) {
			return simplification.QMCWithHandler(fac, x, h)
		}, shapeDNF)
	case 7:
		h = formHop("AdvancedWithHandler", func(h handler.Handler) (f.Formula, handler.State) {
			return simplification.AdvancedWithHandler(fac, x, h)
		}, nil)
	case 8:
		y := normalform.FactorizedCNF(fac, x)
		h = formHop("CNFSubsumptionWithHandler", func(h handler.Handler) (f.Formula, handler.State) {
			z, err, st := simplification.CNFSubsumptionWithHandler(fac, y, h)
			c.Check(err == nil, "CNFSubsumptionWithHandler: ensures no error on CNF", "%v", err)
			return z, st
		}, shapeCNF)
	case 9:
		y := normalform.FactorizedDNF(fac, x)
		h = formHop("DNFSubsumptionWithHandler", func(h handler.Handler) (f.Formula, handler.State) {
			z, err, st := simplification.DNFSubsumptionWithHandler(fac, y, h)
			c.Check(err == nil, "DNFSubsumptionWithHandler: ensures no error on DNF", "%v", err)
			return z, st
		}, shapeDNF)
	case 10:
		cov, mx := primeimplicant.CoverSort(c.R.Intn(2)), c.R.Intn(2) == 0
		h = hop{name: fmt.Sprintf("primeimplicant.CoverWithHandler(max=%v,%v)", mx, cov), run: func(h handler.Handler) (handler.State, bool, func(string)) {
			var r *primeimplicant.PrimeResult
			var st handler.State
			if mx {
				r, st = primeimplicant.CoverMaxWithHandler(fac, x, cov, h)
			} else {
				r, st = primeimplicant.CoverMinWithHandler(fac, x, cov, h)
			}
			return st, r != nil, func(string) { checkPrime(c, fac, n, t, r) }
		}}
	case 11:
		h = hop{name: "dnnf.CompileWithHandler", run: func(h handler.Handler) (handler.State, bool, func(string)) {
			d, st := dnnf.CompileWithHandler(fac, x, h)
			return st, d != nil, func(what string) {
				if dt, _, ok := auxTT(fac, n, d.Formula); ok {
					c.eqTT(what+": ensures equivalent", n, dt, t, d.Formula.Sprint(fac))
				}
				want := int64(t.count() >> (n - len(oracleVars(fac, x, map[string]bool{}))))
				got := d.ModelCount()
				c.Check(got.Cmp(big.NewInt(want)) == 0, what+": ensures the exact model count", "got %v want %d", got, want)
			}
		}}
	default:
		if c.R.Intn(2) == 0 {
			h = hop{name: "bdd.CompileWithHandler", run: func(h handler.Handler) (handler.State, bool, func(string)) {
				b, st := bdd.CompileWithHandler(fac, x, h)
				return st, b != nil, func(what string) {
					y := b.ToFormula(fac)
					c.eqTT(what+": ensures the function", n, newEnv(fac, n).tt(y), t, y.Sprint(fac))
				}
			}}
			break
		}
		h = hop{name: "count.CountWithHandler", run: func(h handler.Handler) (handler.State, bool, func(string)) {
			r, err, st := count.CountWithHandler(fac, vars, h, x)
			return st, r != nil, func(what string) {
				want := int64(t.count() >> (n - len(vars)))
				c.Check(err == nil && r.Cmp(big.NewInt(want)) == 0, what+": ensures the exact model count", "got %v want %d", r, want)
			}
		}}
	}
	c.Log("%s sticky=%v", h.name, sticky)
	cancelAll(c, h, sticky)
}

// one BDD kernel shared by canceled and uncanceled compilations
func h01kernel(c *Case) {
	n := 2 + c.R.Intn(4)
	fac := c.Fac()
	var order []f.Variable
	for _, v := range perm(c.R, n, n) {
		order = append(order, fac.Var(vname(v)))
	}
	k := bdd.NewKernelWithOrdering(fac, order, int32(10+c.R.Intn(200)), int32(10+c.R.Intn(200)))
	for i := 0; i < 3 && len(c.errs) == 0; i++ {
		nd := gen(c.R, 1+c.R.Intn(4), GenOpt{N: n, Const: true})
		c.Log("formula %s", nd)
		x := nd.build(fac)
		t := nd.tt(n)
		cancelAll(c, hop{name: "bdd.CompileWithKernelAndHandler", run: func(h handler.Handler) (handler.State, bool, func(string)) {
			b, st := bdd.CompileWithKernelAndHandler(fac, x, k, h)
			return st, b != nil, func(what string) {
				y := b.ToFormula(fac)
				c.eqTT(what+": ensures the function", n, newEnv(fac, n).tt(y), t, y.Sprint(fac))
			}
		}}, c.R.Intn(2) == 0)
	}
}

// computations on one SAT solver
func h01sat(c *Case) {
	n := 3 + c.R.Intn(3)
	w := newWorld(c, n, c.R.Intn(4) == 0)
	w.cc = c.R.Intn(2) == 0
	for i := 0; i < 1+c.R.Intn(4); i++ {
		w.add()
	}
	if c.R.Intn(2) == 0 { // something to learn from
		w.cc = false
		for i := 0; i < 6; i++ {
			nd := genCNF(c.R, n, 2, 3)
			w.s.Add(nd.build(w.fac))
			w.cur = w.cur.and(nd.tt(n))
			w.note(nd.build(w.fac))
			c.Log("add %s", nd)
		}
	}
	for i := 0; i < 3 && len(c.errs) == 0; i++ {
		vs := w.vars(1 + c.R.Intn(n))
		idx := varIdx(w.fac, vs)
		sticky := c.R.Intn(2) == 0
		var h hop
		switch c.R.Intn(5) {
		case 0, 1:
			var ls []f.Literal
			t := ttConst(n, true)
			if c.R.Intn(2) == 0 {
				ls, t = w.lits(1+c.R.Intn(3), true)
			}
			want := w.cur.and(t)
			var add []f.Formula
			if c.R.Intn(3) == 0 {
				nd := genCNF(c.R, n, 2, 2)
				c.Log("with additional formula %s", nd)
				add, want = append(add, nd.build(w.fac)), want.and(nd.tt(n))
			}
			h = hop{name: "sat.Call", run: func(h handler.Handler) (handler.State, bool, func(string)) {
				p := sat.WithModel(vs).Handler(h).Literal(ls...).Formula(add...)
				if w.proofs {
					p = p.WithCore()
				}
				r := w.s.Call(p.WithUPZeros())
				c.Check(r.OK() == !r.Canceled(), "sat.Call: ensures OK xor Canceled", "")
				return r.State(), r.Model() != nil || r.UnsatCore() != nil || r.Canceled() && r.Sat(), func(what string) {
					if c.Check(r.Sat() == !want.zero(), what+": ensures the satisfiability", "got %v", r.Sat()) && r.Sat() {
						w.checkModel(what, r.Model(), vs, want)
					}
				}
			}}
		case 2:
			sort := sat.BackboneSort(c.R.Intn(3))
			h = hop{name: "ComputeBackboneWithHandler", run: func(h handler.Handler) (handler.State, bool, func(string)) {
				b, st := w.s.ComputeBackboneWithHandler(w.fac, vs, h, sort)
				return st, b != nil, func(string) { checkBackbone(c, w.fac, n, b, vs, sort, w.cur) }
			}}
		case 3:
			ls, _ := w.lits(1+c.R.Intn(n), false)
			mx := c.R.Intn(2) == 0
			val := func(a int) int {
				k := 0
				for _, l := range ls {
					nm, ph, _ := w.fac.LitNamePhase(l)
					var i int
					fmt.Sscanf(nm, "v%d", &i)
					if (a>>i&1 == 1) == ph {
						k++
					}
				}
				return k
			}
			best := -1
			for a := 0; a < 1<<n; a++ {
				if k := val(a); w.cur.bit(a) && (best < 0 || mx && k > best || !mx && k < best) {
					best = k
				}
			}
			h = hop{name: fmt.Sprintf("OptimizeWithHandler(max=%v)", mx), partial: true, run: func(h handler.Handler) (handler.State, bool, func(string)) {
				var m *model.Model
				var st handler.State
				if mx {
					m, st = w.s.MaximizeWithHandler(ls, h)
				} else {
					m, st = w.s.MinimizeWithHandler(ls, h)
				}
				if m != nil && !st.Success {
					w.checkModelLoose("OptimizeWithHandler (partial result)", m, w.cur)
				}
				return st, m != nil, func(what string) {
					if !c.Check((m != nil) == !w.cur.zero(), what+": ensures a model iff satisfiable", "%v", m) || m == nil {
						return
					}
					w.checkModelLoose(what, m, w.cur)
					set := map[f.Literal]bool{}
					for _, l := range m.Literals {
						set[l] = true
					}
					k := 0
					for _, l := range ls {
						if set[l] {
							k++
						}
					}
					c.Check(k == best, what+": ensures the optimum", "got %d want %d", k, best)
				}
			}}
		default:
			if w.proofs {
				continue
			}
			mk := func(h handler.Handler) *iter.Config {
				cfg := iterCfg(c, w.fac, vs)
				cfg.Handler = h
				return cfg
			}
			bound := projSet(n, w.cur, idx)
			if c.R.Intn(2) == 0 {
				h = hop{name: "enum.OnSolverWithConfig", partial: true, run: func(h handler.Handler) (handler.State, bool, func(string)) {
					ms, st := enum.OnSolverWithConfig(w.s, vs, mk(h))
					if !st.Success {
						for _, m := range ms {
							w.checkModel("enum.OnSolverWithConfig (partial result)", m, vs, w.cur)
						}
						c.Check(len(ms) <= len(bound), "enum.OnSolverWithConfig: ensures no more models than there are", "%d > %d", len(ms), len(bound))
					}
					return st, len(ms) > 0, func(what string) { checkEnum(c, what, w.fac, n, ms, vs, nil, w.cur) }
				}}
			} else {
				h = hop{name: "count.OnSolverWithConfig", partial: true, run: func(h handler.Handler) (handler.State, bool, func(string)) {
					cnt, st := count.OnSolverWithConfig(w.s, vs, mk(h))
					if !st.Success && cnt != nil {
						c.Check(cnt.Cmp(big.NewInt(int64(len(bound)))) <= 0, "count.OnSolverWithConfig: ensures no more models than there are", "%v > %d", cnt, len(bound))
					}
					return st, cnt != nil, func(what string) {
						c.Check(cnt.Cmp(big.NewInt(int64(len(bound)))) == 0, what+": ensures the exact count", "%v want %d", cnt, len(bound))
					}
				}}
			}
		}
		c.Log("%s sticky=%v vars=%d", h.name, sticky, len(vs))
		cancelAll(c, h, sticky)
		if c.R.Intn(3) == 0 && len(c.errs) == 0 {
			w.add()
		}
	}
	if len(c.errs) == 0 {
		c.Log("final answers")
		c.solverTT("ensures later answers are exactly those of the added formulas", w.fac, w.s, n, w.cur)
	}
}

// MaxSAT and explanations
func h01opt(c *Case) {
	n := 2 + c.R.Intn(3)
	fac := c.Fac()
	sticky := c.R.Intn(2) == 0
	if c.R.Intn(2) == 0 {
		weighted := c.R.Intn(2) == 0
		s, name := maxSolver(c, fac, weighted)
		w := &mw{c: c, fac: fac, n: n, hard: ttConst(n, true)}
		c.Log("%s", name)
		for i := 0; i < 3+c.R.Intn(6); i++ {
			nd := genCNF(c.R, n, 1, 2)
			if c.R.Intn(3) == 0 {
				c.Log("hard %s", nd)
				s.AddHardFormula(nd.build(fac))
				w.hard = w.hard.and(nd.tt(n))
				continue
			}
			k := 1
			if weighted {
				k = 2 + c.R.Intn(4)
			}
			c.Log("soft %d %s", k, nd)
			s.AddSoftFormula(nd.build(fac), k)
			w.soft, w.wt = append(w.soft, nd.tt(n)), append(w.wt, k)
		}
		if weighted && len(w.soft) == 0 {
			s.AddSoftFormula(fac.Literal("v00", true), 2)
			w.soft, w.wt = append(w.soft, ttVar(n, 0)), append(w.wt, 2)
		}
		cancelAll(c, hop{name: "maxsat.SolveWithHandler", run: func(h handler.Handler) (handler.State, bool, func(string)) {
			var zero maxsat.Result
			s.AddHardFormula(fac.Verum()) // forgets the cached result
			r, st := s.SolveWithHandler(h)
			return st, r != zero && r.Model != nil, func(what string) { w.check(what, r) }
		}}, sticky)
		return
	}
	var nds []*Node
	var props []f.Proposition
	for i := 0; i < 2+c.R.Intn(6); i++ {
		nd := genCNF(c.R, n, 1, 2)
		nds = append(nds, nd)
		props = append(props, f.NewStandardProposition(nd.build(fac), fmt.Sprintf("p%d", i)))
		c.Log("%s", nd)
	}
	conj := func(m map[f.Proposition]bool) TT {
		t := ttConst(n, true)
		for i, nd := range nds {
			if m[props[i]] {
				t = t.and(nd.tt(n))
			}
		}
		return t
	}
	all := map[f.Proposition]bool{}
	for _, p := range props {
		all[p] = true
	}
	satisfiable := !conj(all).zero()
	minimal := func(what string, ps []f.Proposition) {
		m := map[f.Proposition]bool{}
		for _, p := range ps {
			c.Check(all[p] && !m[p], what+": ensures distinct given propositions", "")
			m[p] = true
		}
		c.Check(conj(m).zero(), what+": ensures unsatisfiable", "")
		for _, p := range ps {
			m[p] = false
			c.Check(!conj(m).zero(), what+": ensures minimal", "")
			m[p] = true
		}
	}
	var h hop
	switch c.R.Intn(3) {
	case 0, 1:
		name, call := "mus.ComputeInsertionBasedWithHandler", mus.ComputeInsertionBasedWithHandler
		if c.R.Intn(2) == 0 {
			name, call = "mus.ComputeDeletionBasedWithHandler", mus.ComputeDeletionBasedWithHandler
		}
		h = hop{name: name, run: func(h handler.Handler) (handler.State, bool, func(string)) {
			cp := append([]f.Proposition(nil), props...)
			var core *explanation.UnsatCore
			core, st, err := call(fac, &cp, h)
			return st, core != nil, func(what string) {
				if c.Check((err != nil) == satisfiable, what+": ensures error iff satisfiable", "%v", err) && err == nil {
					minimal(what, core.Propositions)
				}
			}
		}}
	default:
		h = hop{name: "smus.ComputeWithHandler", run: func(h handler.Handler) (handler.State, bool, func(string)) {
			r, st := smus.ComputeWithHandler(fac, props, h)
			return st, r != nil, func(what string) {
				if c.Check((r != nil) == !satisfiable, what+": ensures a set iff unsatisfiable", "%v", r) && r != nil {
					minimal(what, r)
				}
			}
		}}
	}
	c.Log("%s sticky=%v", h.name, sticky)
	cancelAll(c, h, sticky)
}

func init() {
	reg("H01",
		Family{"formulas", "normalform.Factorized*WithHandler, enum.Canonical*WithHandler, bdd.*WithHandler, dnnf.CompileWithHandler, count.CountWithHandler, primeimplicant.Cover*WithHandler, simplification.*WithHandler", "formulas over up to 4 variables, every one of the first 40 events and 20 others", 6000, 150000, h01form},
		Family{"kernel", "bdd.CompileWithKernelAndHandler", "three formulas over up to 5 variables on one kernel", 1500, 40000, h01kernel},
		Family{"solver", "sat.Call, ComputeBackboneWithHandler, Maximize/MinimizeWithHandler, enum/count.OnSolverWithConfig", "formulas over up to 5 variables on one solver", 3000, 80000, h01sat},
		Family{"optimization", "maxsat.SolveWithHandler, mus.*WithHandler, smus.ComputeWithHandler", "up to 8 formulas over up to 4 variables", 3000, 80000, h01opt})
}

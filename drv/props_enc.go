package main

import (
	"fmt"

	"github.com/booleworks/logicng-go/encoding"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/sat"
)

func encCfg(c *Case) *encoding.Config {
	cfg := encoding.DefaultConfig()
	cfg.AMOEncoder = encoding.AMOEncoder(c.R.Intn(8))
	cfg.AMKEncoder = encoding.AMKEncoder(c.R.Intn(4))
	cfg.ALKEncoder = encoding.ALKEncoder(c.R.Intn(4))
	cfg.EXKEncoder = encoding.EXKEncoder(c.R.Intn(3))
	cfg.PBCEncoder = encoding.PBCEncoder(c.R.Intn(4))
	cfg.BimanderGroupSize = encoding.BimanderGroupSize(c.R.Intn(3))
	cfg.BimanderFixedGroupSize = c.R.Intn(6)
	cfg.NestingGroupSize = c.R.Intn(7)
	cfg.ProductRecursiveBound = c.R.Intn(8) + 14*c.R.Intn(2)
	cfg.CommanderGroupSize = c.R.Intn(5)
	cfg.BinaryMergeUseGAC = c.R.Intn(2) == 0
	cfg.BinaryMergeNoSupportForSingleBit = c.R.Intn(2) == 0
	cfg.BinaryMergeUseWatchDog = c.R.Intn(2) == 0
	return cfg
}

func cfgStr(cfg *encoding.Config) string { return fmt.Sprintf("%+v", *cfg) }

func ccTT(n, k int, cmp, rhs int) TT {
	t := ttConst(n, false)
	for a := 0; a < 1<<n; a++ {
		s := 0
		for i := 0; i < k; i++ {
			s += a >> i & 1
		}
		if cmpEval(cmp, s, rhs) {
			t.set(a)
		}
	}
	return t
}

func (c *Case) clauses(fac f.Factory, fs []f.Formula) *CNF {
	cnf := newCNF()
	for _, x := range fs {
		if !cnf.add(fac, x) || x.Sort() == f.SortAnd {
			c.Fail("ensures every encoded formula is a clause: %s", x.Sprint(fac))
		}
	}
	return cnf
}

func mkCC(fac f.Factory, cmp, rhs, n int) f.Formula {
	vs := make([]f.Variable, n)
	for i := range vs {
		vs[i] = fac.Var(vname(i))
	}
	return fac.CC(cmps[cmp], uint32(rhs), vs...)
}

func c01at(c *Case, cfg *encoding.Config, n, cmp, rhs int, solver bool) {
	fac := f.NewFactory()
	x := mkCC(fac, cmp, rhs, n)
	c.Log("n=%d cmp=%s rhs=%d config=%s solver=%v", n, cmpStr[cmp], rhs, cfgStr(cfg), solver)
	want := ccTT(n, n, cmp, rhs)
	if x.Sort() != f.SortCC {
		c.eqTT("trivial constraint", n, newEnv(fac, n).tt(x), want, "constraint")
		return
	}
	if !solver {
		fs, err := encoding.EncodeCC(fac, x, cfg)
		if !c.Check(err == nil, "EncodeCC: no error on a cardinality constraint", "%v", err) {
			return
		}
		cnf := c.clauses(fac, fs)
		c.eqTT("EncodeCC: ensures projected models == models of the constraint", n, cnf.project(n), want, "encoding")
		return
	}
	fac.PutConfiguration(cfg)
	s := sat.NewSolver(fac, sat.DefaultConfig().UseAtMost(c.R.Intn(2) == 0))
	s.Add(x)
	c.solverTT("solver encoding: ensures projected models == models of the constraint", fac, s, n, want)
}

// solverTT compares the answers of the solver under every total assumption
func (c *Case) solverTT(clause string, fac f.Factory, s *sat.Solver, n int, want TT) {
	for a := 0; a < 1<<n; a++ {
		ls := make([]f.Literal, n)
		for i := range ls {
			ls[i] = fac.Lit(vname(i), a>>i&1 == 1)
		}
		got := s.Call(sat.WithAssumptions(ls)).Sat()
		if !c.Check(got == want.bit(a), clause, "under %s the solver says %v", litNames(fac, ls), got) {
			return
		}
	}
}

// exhaustive over n<=6, all comparators, all rhs<=n+2, all encoders of the relevant kind
func c01small(c *Case) {
	i := c.Idx
	enc := i % 8
	i /= 8
	cmp := i % 5
	i /= 5
	n := i % 7
	i /= 7
	rhs := i % 9
	cfg := encCfg(c)
	cfg.AMOEncoder = encoding.AMOEncoder(enc)
	cfg.AMKEncoder = encoding.AMKEncoder(enc % 4)
	cfg.ALKEncoder = encoding.ALKEncoder(enc % 4)
	cfg.EXKEncoder = encoding.EXKEncoder(enc % 3)
	c01at(c, cfg, n, cmp, rhs, false)
}

func c01rand(c *Case) {
	cfg := encCfg(c)
	n := 5 + c.R.Intn(6)
	cmp := c.R.Intn(5)
	rhs := c.R.Intn(n + 2)
	if c.R.Intn(2) == 0 {
		rhs, cmp = 1, c.R.Intn(2)
	}
	c01at(c, cfg, n, cmp, rhs, false)
}

func c01solver(c *Case) {
	cfg := encCfg(c)
	n := 1 + c.R.Intn(6)
	c01at(c, cfg, n, c.R.Intn(5), c.R.Intn(n+2), true)
}

func c01inc(c *Case) {
	cfg := encCfg(c)
	n := 2 + c.R.Intn(7)
	lower := c.R.Intn(2) == 0
	strict := c.R.Intn(2) == 0
	solver := c.R.Intn(3) == 0
	var k, cmp, rhs int
	if lower {
		if n < 3 {
			n = 3
		}
		k = 2 + c.R.Intn(n-2) // 2..n-1
		cmp, rhs = 3, k
		if strict {
			cmp, rhs = 4, k-1
		}
	} else {
		k = 1 + c.R.Intn(n-1) // 1..n-1
		cmp, rhs = 1, k
		if strict {
			cmp, rhs = 2, k+1
		}
	}
	fac := f.NewFactory()
	x := mkCC(fac, cmp, rhs, n)
	c.Log("n=%d start %s %d, config=%s solver=%v", n, cmpStr[cmp], rhs, cfgStr(cfg), solver)
	var inc *encoding.CCIncrementalData
	var err error
	var s *sat.Solver
	res := encoding.ResultForFormula(fac)
	if solver {
		fac.PutConfiguration(cfg)
		s = sat.NewSolver(fac)
		inc, err = s.AddIncrementalCC(x)
	} else {
		inc, err = encoding.EncodeIncremental(fac, x, res, cfg)
	}
	if !c.Check(err == nil && inc != nil, "EncodeIncremental: no error on a non-trivial bound", "%v", err) {
		return
	}
	var acc []f.Formula
	check := func(k int) {
		w := 1
		if lower {
			w = 3
		}
		want := ccTT(n, n, w, k)
		if solver {
			c.solverTT("incremental: ensures solver models == bound", fac, s, n, want)
			return
		}
		acc = append(acc, res.Formulas()...)
		cnf := c.clauses(fac, acc)
		c.eqTT("incremental: ensures projected models == bound", n, cnf.project(n), want, fmt.Sprintf("bound %d", k))
	}
	check(k)
	for len(c.errs) == 0 {
		if lower {
			if k >= n {
				return
			}
			k += 1 + c.R.Intn(n-k)
			c.Log("tighten to >= %d", k)
			if solver {
				inc.NewLowerBoundForSolver(k)
			} else {
				acc = append(acc, inc.NewLowerBound(k)...)
			}
		} else {
			if k <= 0 {
				return
			}
			k -= 1 + c.R.Intn(k)
			c.Log("tighten to <= %d", k)
			if solver {
				inc.NewUpperBoundForSolver(k)
			} else {
				acc = append(acc, inc.NewUpperBound(k)...)
			}
		}
		check(k)
	}
}

// ---------------- C02
func c02gen(c *Case) (*Node, int) {
	n := 1 + c.R.Intn(5)
	nd := genPBC(c.R, GenOpt{N: n})
	switch c.R.Intn(5) {
	case 0: // same magnitude coefficients
		for i := range nd.Co {
			nd.Co[i] = []int{2, -2, 2, 4}[c.R.Intn(4)]
		}
	case 1: // positive, larger
		for i := range nd.Co {
			nd.Co[i] = 1 + c.R.Intn(40)
		}
		nd.Rhs = c.R.Intn(80)
		nd.Cmp = c.R.Intn(5)
	case 2: // repeated and complementary literals
		k := len(nd.LV)
		for i := 0; i < 2; i++ {
			j := c.R.Intn(k)
			nd.LV = append(nd.LV, nd.LV[j])
			nd.LP = append(nd.LP, nd.LP[j] != (c.R.Intn(2) == 0))
			nd.Co = append(nd.Co, c.R.Intn(9)-4)
		}
	}
	return nd, n
}

func c02(c *Case) {
	nd, n := c02gen(c)
	fac := c.Fac()
	env := newEnv(fac, n)
	x := nd.build(fac)
	want := nd.tt(n)
	cfg := encCfg(c)
	c.Log("%s config=%s", nd, cfgStr(cfg))
	if x.Sort() != f.SortCC && x.Sort() != f.SortPBC {
		c.triv = true
		return
	}
	c.eqTT("Normalize: ensures sem(result)==sem(constraint)", n, env.tt(encoding.Normalize(fac, x)), want, "normalized "+encoding.Normalize(fac, x).Sprint(fac))
	for _, p := range pbcsIn(fac, encoding.Normalize(fac, x)) {
		cmp, _, _, co, _ := fac.PBCOps(p)
		ok := cmp == f.LE
		for _, q := range co {
			ok = ok && q > 0
		}
		c.Check(ok, "Normalize: ensures less-or-equal with positive coefficients", "%s", p.Sprint(fac))
	}
	neg := encoding.NegatePBC(fac, x)
	c.eqTT("NegatePBC: ensures sem(result)==!sem(constraint)", n, env.tt(neg), want.not(n), "negation "+neg.Sprint(fac))
	fs, err := encoding.EncodePBC(fac, x, cfg)
	if !c.Check(err == nil, "EncodePBC: no error", "%v", err) {
		return
	}
	cnf := c.clauses(fac, fs)
	c.eqTT("EncodePBC: ensures projected models == models of the constraint", n, cnf.project(n), want, "encoding")
}

func pbcsIn(fac f.Factory, x f.Formula) []f.Formula {
	if x.Sort() == f.SortPBC || x.Sort() == f.SortCC {
		return []f.Formula{x}
	}
	var r []f.Formula
	for _, k := range kidsOf(fac, x) {
		r = append(r, pbcsIn(fac, k)...)
	}
	return r
}

func c02solver(c *Case) {
	nd, n := c02gen(c)
	fac := c.Fac()
	x := nd.build(fac)
	cfg := encCfg(c)
	fac.PutConfiguration(cfg)
	c.Log("%s config=%s", nd, cfgStr(cfg))
	s := sat.NewSolver(fac)
	s.Add(x)
	c.solverTT("solver encoding: ensures projected models == models of the constraint", fac, s, n, nd.tt(n))
}

// large magnitudes: numbers far beyond 32 bits
func c02big(c *Case) {
	n := 2 + c.R.Intn(3)
	nd := &Node{K: KPBC, Cmp: c.R.Intn(5)}
	sh := uint(c.R.Intn(45))
	if c.R.Intn(2) == 0 {
		sh = uint(28 + c.R.Intn(6))
	}
	sum := 0
	for i := 0; i < n; i++ {
		nd.LV = append(nd.LV, i)
		nd.LP = append(nd.LP, c.R.Intn(2) == 0)
		q := (1 + c.R.Intn(7)) << sh
		q += c.R.Intn(3) - 1
		if c.R.Intn(4) == 0 {
			q = -q
		}
		if q > 0 {
			sum += q
		}
		nd.Co = append(nd.Co, q)
	}
	nd.Rhs = sum/2 + c.R.Intn(3) - 1
	fac := c.Fac()
	x := nd.build(fac)
	cfg := encCfg(c)
	cfg.PBCEncoder = []encoding.PBCEncoder{encoding.PBCAdderNetworks, encoding.PBCBinaryMerge}[c.R.Intn(2)]
	c.Log("%s config=%s", nd, cfgStr(cfg))
	want := nd.tt(n)
	env := newEnv(fac, n)
	c.eqTT("Normalize: ensures sem(result)==sem(constraint)", n, env.tt(encoding.Normalize(fac, x)), want, "normalized")
	c.eqTT("NegatePBC: ensures sem(result)==!sem(constraint)", n, env.tt(encoding.NegatePBC(fac, x)), want.not(n), "negation")
	fs, err := encoding.EncodePBC(fac, x, cfg)
	if !c.Check(err == nil, "EncodePBC: no error", "%v", err) {
		return
	}
	c.eqTT("EncodePBC: ensures projected models == models of the constraint", n, c.clauses(fac, fs).project(n), want, "encoding")
}

func init() {
	reg("C01",
		Family{"small-exhaustive", "encoding.{EncodeCC,amo*,amk,alk,exk,exo,totalizer*,modtotalizer*,cn*}", "exhaustive: n<=6, all comparators, bounds<=8, all encoders", 8 * 5 * 7 * 9, 8 * 5 * 7 * 9, c01small},
		Family{"random", "encoding.EncodeCC with every encoder and parameter", "5<=n<=10, random parameters", 1500, 40000, c01rand},
		Family{"solver", "encoding.EncodeCCInResult via sat.Solver.Add, native at-most clauses", "n<=6", 1500, 30000, c01solver},
		Family{"incremental", "encoding.EncodeIncremental, CCIncrementalData.{NewUpperBound,NewLowerBound,...}", "n<=8, all tightening sequences sampled", 2500, 50000, c01inc})
	reg("C02",
		Family{"encode", "encoding.{Normalize,NegatePBC,EncodePBC,encodePBCSWC,encodePBCAdder,encodePBCBinaryMerge}", "<=5 variables, <=8 literals, |coefficient|<=40", 12000, 300000, c02},
		Family{"solver", "sat.Solver.Add of pseudo-Boolean constraints", "<=5 variables", 2000, 50000, c02solver},
		Family{"magnitude", "adder and binary-merge encoders, Normalize, NegatePBC", "coefficients up to 2^47", 2000, 40000, c02big})
}

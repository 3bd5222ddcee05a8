package main

import (
	"fmt"
	"math/rand"

	"github.com/booleworks/logicng-go/assignment"
	"github.com/booleworks/logicng-go/bdd"
	"github.com/booleworks/logicng-go/encoding"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/normalform"
	"github.com/booleworks/logicng-go/sat"
	"github.com/booleworks/logicng-go/simplification"
	"github.com/booleworks/logicng-go/transformation"
)

func full(n int) GenOpt { return GenOpt{N: n, CC: true, PBC: true, Const: true, Raw: true} }

func (c *Case) eqTT(clause string, n int, got, want TT, what string) bool {
	return c.Check(got.eq(want), clause, "%s: truth tables differ (got %x want %x over %d variables)", what, []uint64(got), []uint64(want), n)
}

// ---------------- F01
func f01(c *Case) {
	n := 2 + c.R.Intn(4)
	fac := c.Fac()
	env := newEnv(fac, n)
	k := 1 + c.R.Intn(4)
	var prev []*Node
	var prevF []f.Formula
	for i := 0; i < k; i++ {
		nd := gen(c.R, 1+c.R.Intn(4), full(n))
		if len(prev) > 0 && c.R.Intn(3) == 0 {
			kinds := []Kind{KAnd, KOr, KImpl, KEquiv, KNot}
			kk := kinds[c.R.Intn(5)]
			nd2 := &Node{K: kk, Kids: []*Node{prev[c.R.Intn(len(prev))]}}
			if kk != KNot {
				nd2.Kids = append(nd2.Kids, nd)
			}
			nd = nd2
		}
		c.Log("build %s", nd)
		x := nd.build(fac)
		c.eqTT("ensures sem(result)==op(sem(operands))", n, env.tt(x), nd.tt(n), "constructed formula")
		for j := range prevF {
			c.eqTT("ensures earlier results keep their meaning", n, newEnv(fac, n).tt(prevF[j]), prev[j].tt(n), "earlier formula")
		}
		prev, prevF = append(prev, nd), append(prevF, x)
		neg := x.Negate(fac)
		c.eqTT("Negate: ensures sem(result)==!sem(f)", n, env.tt(neg), nd.tt(n).not(n), "Negate")
	}
}

// operand-list corner cases, exhaustively over short lists from a fixed pool
func f01pool(fac f.Factory, x int) (f.Formula, *Node) {
	lit := func(v int, p bool) *Node { return &Node{K: KLit, Var: v, Phase: p} }
	pool := []*Node{{K: KTrue}, {K: KFalse}, lit(0, true), lit(0, false), lit(1, true), lit(1, false),
		{K: KAnd, Kids: []*Node{lit(0, true), lit(1, false)}}, {K: KOr, Kids: []*Node{lit(0, true), lit(1, false)}},
		{K: KNot, Kids: []*Node{{K: KAnd, Kids: []*Node{lit(0, true), lit(1, false)}}}},
		{K: KNot, Kids: []*Node{{K: KOr, Kids: []*Node{lit(0, true), lit(1, false)}}}},
		{K: KImpl, Kids: []*Node{lit(1, true), lit(2, true)}}, {K: KEquiv, Kids: []*Node{lit(0, true), lit(2, true)}}}
	nd := pool[x%len(pool)]
	return nd.build(fac), nd
}

const f01PoolSize = 12

func f01ops(c *Case) {
	// idx enumerates (op, a, b, c) with op in And,Or,Impl,Equiv and the pool
	i := c.Idx
	op := i % 4
	i /= 4
	a, b, d := i%f01PoolSize, i/f01PoolSize%f01PoolSize, i/f01PoolSize/f01PoolSize
	for cons := 0; cons < 2; cons++ {
		fac := f.NewFactory(cons == 1)
		env := newEnv(fac, 3)
		fa, na := f01pool(fac, a)
		fb, nb := f01pool(fac, b)
		fd, ndd := f01pool(fac, d)
		var x f.Formula
		nd := &Node{}
		switch op {
		case 0:
			x, nd = fac.And(fa, fb, fd), &Node{K: KAnd, Kids: []*Node{na, nb, ndd}}
		case 1:
			x, nd = fac.Or(fa, fb, fd), &Node{K: KOr, Kids: []*Node{na, nb, ndd}}
		case 2:
			x, nd = fac.Implication(fac.And(fa, fd), fb), &Node{K: KImpl, Kids: []*Node{{K: KAnd, Kids: []*Node{na, ndd}}, nb}}
		case 3:
			x, nd = fac.Equivalence(fac.Or(fa, fd), fb), &Node{K: KEquiv, Kids: []*Node{{K: KOr, Kids: []*Node{na, ndd}}, nb}}
		}
		c.Log("%s conserve=%d", nd, cons)
		c.eqTT("ensures sem(result)==op(sem(operands))", 3, env.tt(x), nd.tt(3), "constructed formula")
	}
}

// ---------------- F02
type ledger struct {
	fac   f.Factory
	bySig map[string]f.Formula
	byF   map[f.Formula]string
	all   []f.Formula
}

func (l *ledger) record(c *Case, x f.Formula) {
	var rec func(x f.Formula)
	rec = func(x f.Formula) {
		if _, ok := l.byF[x]; ok {
			return
		}
		for _, k := range kidsOf(l.fac, x) {
			rec(k)
		}
		s := sig(l.fac, x)
		if y, ok := l.bySig[s]; ok {
			c.Check(y == x, "invariant one identity per structure", "structure %s has identities %d and %d", s, y, x)
		}
		l.bySig[s] = x
		l.byF[x] = s
		l.all = append(l.all, x)
	}
	rec(x)
	c.Check(l.byF[x] == sig(l.fac, x), "invariant formulas are immutable", "formula %d changed from %s to %s", x, l.byF[x], sig(l.fac, x))
}

func (l *ledger) verify(c *Case, when string) {
	for _, x := range l.all {
		s := sig(l.fac, x)
		if !c.Check(s == l.byF[x], "invariant formulas are immutable", "after %s formula %d changed from %s to %s", when, x, l.byF[x], s) {
			return
		}
	}
}

func libOps() []struct {
	name string
	run  func(r *rand.Rand, fac f.Factory, x f.Formula)
} {
	return []struct {
		name string
		run  func(r *rand.Rand, fac f.Factory, x f.Formula)
	}{
		{"NNF", func(r *rand.Rand, fac f.Factory, x f.Formula) { normalform.NNF(fac, x) }},
		{"CNF", func(r *rand.Rand, fac f.Factory, x f.Formula) { normalform.CNF(fac, x) }},
		{"Tseitin", func(r *rand.Rand, fac f.Factory, x f.Formula) { normalform.TseitinCNFWithBoundary(fac, x, 0) }},
		{"PG", func(r *rand.Rand, fac f.Factory, x f.Formula) { normalform.PGCNFWithBoundary(fac, x, 0) }},
		{"AIG", func(r *rand.Rand, fac f.Factory, x f.Formula) { normalform.AIG(fac, x) }},
		{"Negate", func(r *rand.Rand, fac f.Factory, x f.Formula) { x.Negate(fac) }},
		{"functions", func(r *rand.Rand, fac f.Factory, x f.Formula) {
			f.Variables(fac, x)
			f.Literals(fac, x)
			f.SubNodes(fac, x)
			f.Depth(fac, x)
			f.LiteralProfile(fac, x)
		}},
		{"Evaluate/Restrict", func(r *rand.Rand, fac f.Factory, x f.Formula) {
			a, _ := assignment.New(fac, fac.Lit(vname(0), true), fac.Lit(vname(1), false))
			assignment.Evaluate(fac, x, a)
			assignment.Restrict(fac, x, a)
		}},
		{"Sat", func(r *rand.Rand, fac f.Factory, x f.Formula) {
			s := sat.NewSolver(fac, sat.DefaultConfig().UseAtMost(r.Intn(2) == 0).CNF(sat.CNFMethod(r.Intn(3))))
			s.Add(x)
			s.Sat()
		}},
		{"assumptions", func(r *rand.Rand, fac f.Factory, x f.Formula) {
			s := sat.NewSolver(fac)
			s.Add(x)
			s.Call(sat.WithAssumptions([]f.Literal{fac.Lit(vname(1), true), fac.Lit(vname(0), false)}).WithModel(nil))
		}},
		{"BDD", func(r *rand.Rand, fac f.Factory, x f.Formula) {
			for _, s := range f.SubNodes(fac, x) {
				if s.Sort() == f.SortCC || s.Sort() == f.SortPBC {
					return // compiling constraints introduces auxiliary variables the diagram has no order for
				}
			}
			bdd.Compile(fac, x).CNF()
		}},
		{"simplify", func(r *rand.Rand, fac f.Factory, x f.Formula) {
			simplification.Advanced(fac, x)
			simplification.Distribute(fac, x)
			simplification.MinimizeNegations(fac, x)
		}},
		{"substitute", func(r *rand.Rand, fac f.Factory, x f.Formula) {
			m := map[f.Literal]f.Literal{fac.Lit(vname(0), true): fac.Lit(vname(1), true)}
			transformation.SubstituteLiterals(fac, x, &m)
			transformation.ExistentialQE(fac, x, fac.Var(vname(0)))
		}},
		{"encode", func(r *rand.Rand, fac f.Factory, x f.Formula) {
			for _, s := range f.SubNodes(fac, x) {
				if s.Sort() == f.SortCC {
					encoding.EncodeCC(fac, s)
				}
				if s.Sort() == f.SortCC || s.Sort() == f.SortPBC {
					encoding.EncodePBC(fac, s)
					encoding.Normalize(fac, s)
					encoding.NegatePBC(fac, s)
				}
			}
		}},
		{"print", func(r *rand.Rand, fac f.Factory, x f.Formula) { x.Sprint(fac) }},
	}
}

func f02(c *Case) {
	n := 2 + c.R.Intn(3)
	fac := c.Fac()
	l := &ledger{fac: fac, bySig: map[string]f.Formula{}, byF: map[f.Formula]string{}}
	var nodes []*Node
	var res []f.Formula
	k := 1 + c.R.Intn(4)
	for i := 0; i < k; i++ {
		nd := gen(c.R, 1+c.R.Intn(3), full(n))
		if c.R.Intn(3) == 0 {
			nd = genCC(c.R, full(n))
		} else if c.R.Intn(6) == 0 {
			nd = genPBC(c.R, full(n))
		}
		c.Log("build %s", nd)
		x := nd.build(fac)
		l.record(c, x)
		nodes, res = append(nodes, nd), append(res, x)
		c.Check(nd.build(fac) == x, "ensures same construction gives the identical formula", "rebuilding %s gives another formula", nd)
		nn := x.Negate(fac).Negate(fac)
		if x.Sort() != f.SortCC && x.Sort() != f.SortPBC {
			c.Check(nn == x, "ensures double negation is the identity", "negating %s twice gives %s", x.Sprint(fac), nn.Sprint(fac))
			c.Check(fac.Not(fac.Not(x)) == x, "ensures double negation is the identity", "Not(Not(%s)) differs", x.Sprint(fac))
		}
		if len(c.errs) > 0 {
			return
		}
	}
	ops := libOps()
	m := 1 + c.R.Intn(3)
	for i := 0; i < m; i++ {
		op := ops[c.R.Intn(len(ops))]
		x := res[c.R.Intn(len(res))]
		c.Log("run %s on %s", op.name, x.Sprint(fac))
		op.run(c.R, fac, x)
		l.verify(c, op.name)
		for j := range nodes {
			y := nodes[j].build(fac)
			l.record(c, y)
			c.Check(y == res[j], "ensures same construction gives the identical formula", "after %s, rebuilding %s gives a different formula", op.name, nodes[j])
		}
		if len(c.errs) > 0 {
			return
		}
	}
}

// f02b: caller-owned operand slices may be reused or changed by the caller afterwards
func f02b(c *Case) {
	n := 4
	fac := c.Fac()
	l := &ledger{fac: fac, bySig: map[string]f.Formula{}, byF: map[f.Formula]string{}}
	var ops []f.Formula
	k := 2 + c.R.Intn(3)
	for i := 0; i < k; i++ {
		ops = append(ops, gen(c.R, 1, full(n)).build(fac))
	}
	kind := c.R.Intn(2)
	var x f.Formula
	if kind == 0 {
		x = fac.And(ops...)
	} else {
		x = fac.Or(ops...)
	}
	c.Log("kind %d over %d operands", kind, k)
	l.record(c, x)
	for i := range ops {
		ops[i] = fac.Variable(vname(i))
	}
	l.verify(c, "changing the argument slice")
}

// ---------------- F03
func asgFrom(fac f.Factory, n int, a, mask int) (*assignment.Assignment, map[f.Variable]bool) {
	var ls []f.Literal
	m := map[f.Variable]bool{}
	for i := 0; i < n; i++ {
		if mask>>i&1 == 1 {
			ls = append(ls, fac.Lit(vname(i), a>>i&1 == 1))
			m[fac.Var(vname(i))] = a>>i&1 == 1
		}
	}
	x, err := assignment.New(fac, ls...)
	if err != nil {
		panic(err)
	}
	return x, m
}

func f03(c *Case) {
	n := 2 + c.R.Intn(4)
	fac := c.Fac()
	env := newEnv(fac, n)
	nd := gen(c.R, c.R.Intn(5), full(n))
	switch c.R.Intn(6) {
	case 0:
		nd = genPBC(c.R, full(n))
	case 1:
		nd = genCC(c.R, full(n))
	}
	x := nd.build(fac)
	c.Log("formula %s", x.Sprint(fac))
	t := env.tt(x)
	for k := 0; k < 12; k++ {
		a := c.R.Intn(1 << n)
		mask := (1 << n) - 1
		if k >= 4 {
			mask = c.R.Intn(1 << n)
		}
		as, m := asgFrom(fac, n, a, mask)
		want := t.bit(a & mask)
		c.Check(assignment.Evaluate(fac, x, as) == want, "Evaluate: ensures result==sem_a(f)", "Evaluate under %s is %v", as.Sprint(fac), !want)
		r := assignment.Restrict(fac, x, as)
		ct := t
		for i := 0; i < n; i++ {
			if mask>>i&1 == 1 {
				ct = ct.cofactor(n, i, a>>i&1 == 1)
			}
		}
		c.eqTT("Restrict: ensures result equals the cofactor", n, env.tt(r), ct, "restriction by "+as.Sprint(fac)+" = "+r.Sprint(fac))
		vs := oracleVars(fac, r, map[string]bool{})
		for i := 0; i < n; i++ {
			c.Check(!(mask>>i&1 == 1 && vs[vname(i)]), "Restrict: ensures no assigned variable remains", "%s remains in %s after %s", vname(i), r.Sprint(fac), as.Sprint(fac))
		}
		et, ef := assignment.EvaluatesToTrue(fac, x, m), assignment.EvaluatesToFalse(fac, x, m)
		one := ct.count() == 1<<n
		c.Check(!et || one, "EvaluatesToTrue: ensures true only if every extension satisfies", "claims true under %s", as.Sprint(fac))
		c.Check(!ef || ct.zero(), "EvaluatesToFalse: ensures true only if no extension satisfies", "claims false under %s", as.Sprint(fac))
		if mask == (1<<n)-1 {
			c.Check(et == one, "EvaluatesToTrue: exact on total assignments", "answers %v under %s", et, as.Sprint(fac))
			c.Check(ef == !one, "EvaluatesToFalse: exact on total assignments", "answers %v under %s", ef, as.Sprint(fac))
		}
	}
	// assignment set operations
	as := assignment.Empty()
	mm := map[string]bool{}
	for k := 0; k < 6; k++ {
		v, p := c.R.Intn(n), c.R.Intn(2) == 0
		err := as.AddLit(fac, fac.Lit(vname(v), p))
		old, had := mm[vname(v)]
		if had && old != p {
			c.Check(err != nil, "AddLit: conflicting literal is rejected", "%s added with both phases", vname(v))
		} else {
			c.Check(err == nil, "AddLit: consistent literal is accepted", "error %v", err)
			mm[vname(v)] = p
		}
	}
	c.Check(as.Size() == len(mm) && len(as.PosVars())+len(as.NegVars()) == len(mm), "Assignment: size is the number of variables", "size %d want %d", as.Size(), len(mm))
}

// ---------------- F04
func f04(c *Case) {
	n := 2 + c.R.Intn(4)
	fac := c.Fac()
	var xs []f.Formula
	for i := 0; i < 3; i++ {
		nd := gen(c.R, c.R.Intn(5), full(n))
		xs = append(xs, nd.build(fac))
	}
	order := c.R.Perm(3)
	for _, oi := range order {
		x := xs[oi]
		c.Log("formula %s", x.Sprint(fac))
		// oracle by tree recursion
		varc, litc := map[f.Variable]int{}, map[f.Literal]int{}
		sub := map[f.Formula]bool{}
		var depth func(x f.Formula) (d, nodes, atoms int)
		depth = func(x f.Formula) (int, int, int) {
			sub[x] = true
			for _, l := range ownLits(fac, x) {
				litc[l]++
				nm, _, _ := fac.LitNamePhase(l)
				varc[fac.Var(nm)]++
			}
			kids := kidsOf(fac, x)
			if len(kids) == 0 {
				nodes := 1
				if x.Sort() == f.SortCC || x.Sort() == f.SortPBC {
					nodes = 1 + len(ownLits(fac, x))
				}
				return 0, nodes, 1
			}
			d, nn, aa := 0, 1, 0
			for _, k := range kids {
				dd, n2, a2 := depth(k)
				d = max(d, dd+1)
				nn += n2
				aa += a2
			}
			return d, nn, aa
		}
		d, nn, aa := depth(x)
		checks := []func(){
			func() {
				vs := f.Variables(fac, x)
				c.Check(vs.Size() == len(varc), "Variables: exactly the variables", "size %d want %d", vs.Size(), len(varc))
				for v := range varc {
					c.Check(vs.Contains(v), "Variables: exactly the variables", "missing variable")
				}
				for _, v := range vs.Content() {
					c.Check(varc[v] > 0, "Variables: exactly the variables", "extra variable")
				}
			},
			func() {
				ls := f.Literals(fac, x)
				c.Check(ls.Size() == len(litc), "Literals: exactly the literals", "size %d want %d", ls.Size(), len(litc))
				for v := range litc {
					c.Check(ls.Contains(v), "Literals: exactly the literals", "missing literal")
				}
			},
			func() { g := f.Depth(fac, x); c.Check(g == d, "Depth: maximal nesting", "got %d want %d", g, d) },
			func() {
				g := f.NumberOfNodes(fac, x)
				c.Check(g == nn, "NumberOfNodes: definition", "got %d want %d", g, nn)
			},
			func() {
				g := f.NumberOfAtoms(fac, x)
				c.Check(g == aa, "NumberOfAtoms: definition", "got %d want %d", g, aa)
			},
			func() {
				sn := f.SubNodes(fac, x)
				c.Check(len(sn) == len(sub), "SubNodes: exactly the sub-formulas, once", "got %d want %d", len(sn), len(sub))
				seen := map[f.Formula]bool{}
				for _, s := range sn {
					c.Check(sub[s], "SubNodes: exactly the sub-formulas, once", "extra node")
					for _, k := range kidsOf(fac, s) {
						c.Check(seen[k], "SubNodes: bottom-up order", "operand after its parent")
					}
					seen[s] = true
				}
			},
			func() {
				p := f.LiteralProfile(fac, x)
				ok := len(p) == len(litc)
				for l, k := range litc {
					ok = ok && p[l] == k
				}
				c.Check(ok, "LiteralProfile: occurrence counts", "got %v want %v", p, litc)
			},
			func() {
				p := f.VariableProfile(fac, x)
				ok := len(p) == len(varc)
				for l, k := range varc {
					ok = ok && p[l] == k
				}
				c.Check(ok, "VariableProfile: occurrence counts", "got %v want %v", p, varc)
			},
			func() {
				s := x.Sort()
				c.Check(x.IsConstant() == (s == f.SortTrue || s == f.SortFalse), "kind predicates", "IsConstant")
				c.Check(x.IsAtomic() == (s == f.SortTrue || s == f.SortFalse || s == f.SortLiteral || s == f.SortCC || s == f.SortPBC), "kind predicates", "IsAtomic of %v", s)
				_, errl := x.AsLiteral()
				c.Check((errl == nil) == (s == f.SortLiteral), "kind predicates", "AsLiteral")
				_, errv := x.AsVariable()
				c.Check((errv == nil) == (s == f.SortLiteral && x.IsPos()), "kind predicates", "AsVariable")
				c.Check(encoding.ContainsPBC(fac, x) == containsSort(sub, f.SortPBC, f.SortCC), "ContainsPBC", "wrong for %s", x.Sprint(fac))
			},
		}
		for _, i := range c.R.Perm(len(checks)) {
			checks[i]()
		}
	}
	// multi-formula variants
	all := map[string]bool{}
	for _, x := range xs {
		oracleVars(fac, x, all)
	}
	c.Check(f.Variables(fac, xs...).Size() == len(all), "Variables of several formulas: union", "wrong size")
}

func containsSort(m map[f.Formula]bool, s ...f.FSort) bool {
	for x := range m {
		for _, y := range s {
			if x.Sort() == y {
				return true
			}
		}
	}
	return false
}

func f04sets(c *Case) {
	fac := c.Fac()
	ref := map[f.Variable]bool{}
	ms := f.NewMutableVarSet()
	rv := func() f.Variable { return fac.Var(vname(c.R.Intn(6))) }
	cmp := func(set *f.VarSet, op string) {
		ok := set.Size() == len(ref) && set.Empty() == (len(ref) == 0)
		for v := range ref {
			ok = ok && set.Contains(v)
		}
		cont := set.Content()
		ok = ok && len(cont) == len(ref)
		seen := map[f.Variable]bool{}
		for _, v := range cont {
			ok = ok && ref[v] && !seen[v]
			seen[v] = true
		}
		c.Check(ok, "set operations agree with mathematical sets", "after %s: size %d content %v want %v", op, set.Size(), cont, ref)
	}
	for i := 0; i < 12; i++ {
		a, b := rv(), rv()
		var op string
		switch c.R.Intn(6) {
		case 0:
			op = "Add"
			ms.Add(a)
			ref[a] = true
		case 1:
			op = "AddAll"
			ms.AddAll(f.NewVarSet(a, b))
			ref[a], ref[b] = true, true
		case 2:
			op = "AddAllElements"
			ms.AddAllElements(&[]f.Variable{a, b})
			ref[a], ref[b] = true, true
		case 3:
			op = "Remove"
			ms.Remove(a)
			delete(ref, a)
		case 4:
			op = "RemoveAll"
			ms.RemoveAll(f.NewVarSet(a, b))
			delete(ref, a)
			delete(ref, b)
		case 5:
			op = "RemoveAllElements"
			ms.RemoveAllElements(&[]f.Variable{a})
			delete(ref, a)
		}
		c.Log("%s %d %d", op, a, b)
		if c.R.Intn(2) == 0 {
			cmp(ms.AsImmutable(), op)
		}
		if c.R.Intn(3) == 0 {
			cmp(f.NewVarSetCopy(ms.AsImmutable()), "copy after "+op)
		}
		o := f.NewVarSet(a, b)
		want := ref[a] && ref[b]
		c.Check(ms.AsImmutable().ContainsAll(o) == want, "ContainsAll agrees with subset", "got %v", !want)
	}
	cmp(ms.AsImmutable(), "end")
}

func init() {
	reg("F01",
		Family{"construct", "CachingFactory.{Verum,Falsum,Literal,Not,Implication,Equivalence,And,Or,Clause,Minterm,CC,PBC,AMO,EXO}, Formula.Negate", "random syntax trees, depth<=4, <=5 variables, <=4 formulas per factory", 30000, 600000, f01},
		Family{"operand-lists", "CachingFactory.{And,Or,Implication,Equivalence}", "exhaustive: all operand triples from a pool of 12 formulas, both configurations", 4 * 12 * 12 * 12, 4 * 12 * 12 * 12, f01ops})
	reg("F02",
		Family{"histories", "hash-consing of all constructors; every consumer of operand slices", "random histories: <=4 constructions and <=3 library operations, <=4 variables", 6000, 120000, f02},
		Family{"caller-slices", "CachingFactory.{And,Or}", "operand slices of 2..4 formulas overwritten by the caller", 2000, 20000, f02b},
		Family{"hash-collisions", "CachingFactory.{And,Or,Clause,Minterm,CC,PBC}, find*, opsEquals, pbcsEquals", "pairs of operand lists of 2..4 literals with equal hash", 6000, 60000, f02c})
	reg("F03", Family{"evaluate", "assignment.{Evaluate,Restrict,EvaluatesToTrue,EvaluatesToFalse}, Assignment.AddLit", "random formulas depth<=4, <=5 variables, 12 partial assignments each", 20000, 400000, f03})
	reg("F04",
		Family{"functions", "formula.{Variables,Literals,SubNodes,Depth,NumberOfAtoms,NumberOfNodes,LiteralProfile,VariableProfile}, kind predicates", "3 random formulas depth<=4 per factory, queries in random order", 20000, 400000, f04},
		Family{"sets", "formula.fset / mutableFset operations", "random sequences of 12 operations over 6 elements", 10000, 100000, f04sets})
}

// f02c builds pairs of operand lists with equal hash values: the hash is a
// polynomial in 33, so adding 1 to one summand and taking 33 from the next one
// leaves it unchanged.
func f02c(c *Case) {
	fac := c.Fac()
	vs := make([]f.Variable, 60)
	for i := range vs {
		vs[i] = fac.Var(fmt.Sprintf("w%d", i))
		vs[i].Negate(fac)
	}
	lit := func(lo, hi int) f.Literal { // literals are numbered consecutively
		i := lo + c.R.Intn(hi-lo)
		if c.R.Intn(2) == 0 {
			return vs[i].AsLiteral()
		}
		return vs[i].Negate(fac)
	}
	n := 2 + c.R.Intn(3)
	a := make([]f.Literal, n)
	for i := range a {
		a[i] = lit(36, 58)
	}
	b := append([]f.Literal{}, a...)
	p := c.R.Intn(n - 1)
	step := uint32(1)
	kind := c.R.Intn(6)
	if kind == 4 {
		step = 2
		for i := range a {
			a[i] = vs[36+c.R.Intn(22)].AsLiteral()
			b[i] = a[i]
		}
	}
	b[p] += f.Literal(step)
	b[p+1] -= f.Literal(33 * step)
	distinct := func(ls []f.Literal) bool {
		m := map[f.Variable]bool{}
		for _, l := range ls {
			v := l.Variable()
			if m[v] {
				return false
			}
			m[v] = true
		}
		return true
	}
	if !distinct(a) || !distinct(b) {
		c.triv = true
		return
	}
	c.Log("kind %d literals %v and %v", kind, a, b)
	asF := func(ls []f.Literal) []f.Formula { return f.LiteralsAsFormulas(ls) }
	asV := func(ls []f.Literal) []f.Variable { v, _ := f.LiteralsAsVariables(ls); return v }
	eqOps := func(x f.Formula, s f.FSort, ops []f.Formula) {
		got, ok := fac.NaryOperands(x)
		okk := ok && x.Sort() == s && len(got) == len(ops)
		for i := 0; okk && i < len(ops); i++ {
			okk = got[i] == ops[i]
		}
		c.Check(okk, "ensures the result has the requested kind and operands", "requested sort %d over %v, got %s", s, ops, x.Sprint(fac))
	}
	eqPbc := func(x f.Formula, cm f.CSort, rhs int, ls []f.Literal, cs []int) {
		gc, gr, gl, gcs, ok := fac.PBCOps(x)
		okk := ok && gc == cm && gr == rhs && len(gl) == len(ls) && len(gcs) == len(cs)
		for i := 0; okk && i < len(ls); i++ {
			okk = gl[i] == ls[i] && gcs[i] == cs[i]
		}
		c.Check(okk, "ensures the result has the requested kind and operands", "requested %d %d %v %v, got %s", cm, rhs, ls, cs, x.Sprint(fac))
	}
	var x, y f.Formula
	switch kind {
	case 0:
		x, y = fac.And(asF(a)...), fac.And(asF(b)...)
		eqOps(x, f.SortAnd, asF(a))
		eqOps(y, f.SortAnd, asF(b))
		c.Check(fac.And(asF(a)...) == x && fac.And(asF(b)...) == y, "ensures same construction gives the identical formula", "And")
	case 1:
		x, y = fac.Or(asF(a)...), fac.Or(asF(b)...)
		eqOps(x, f.SortOr, asF(a))
		eqOps(y, f.SortOr, asF(b))
		c.Check(fac.Or(asF(a)...) == x && fac.Or(asF(b)...) == y, "ensures same construction gives the identical formula", "Or")
	case 2:
		x, y = fac.Clause(a...), fac.Clause(b...)
		eqOps(x, f.SortOr, asF(a))
		eqOps(y, f.SortOr, asF(b))
		c.Check(fac.Or(asF(a)...) == x && fac.Clause(b...) == y, "ensures same construction gives the identical formula", "Clause")
	case 3:
		x, y = fac.Minterm(a...), fac.Minterm(b...)
		eqOps(x, f.SortAnd, asF(a))
		eqOps(y, f.SortAnd, asF(b))
		c.Check(fac.And(asF(a)...) == x && fac.Minterm(b...) == y, "ensures same construction gives the identical formula", "Minterm")
	case 4:
		cms := []f.CSort{f.EQ, f.LE, f.LT, f.GE, f.GT}
		c1, c2 := cms[c.R.Intn(5)], cms[c.R.Intn(5)]
		r1, r2 := uint32(1+c.R.Intn(n-1)), uint32(1+c.R.Intn(n-1))
		if c.R.Intn(2) == 0 {
			c2, r2 = c1, r1
		}
		if c.R.Intn(3) == 0 {
			b = append([]f.Literal{}, a...)
		}
		one := make([]int, n)
		for i := range one {
			one[i] = 1
		}
		x, y = fac.CC(c1, r1, asV(a)...), fac.CC(c2, r2, asV(b)...)
		if x.Sort() == f.SortCC && y.Sort() == f.SortCC {
			eqPbc(x, c1, int(r1), a, one)
			eqPbc(y, c2, int(r2), b, one)
			c.Check(fac.CC(c1, r1, asV(a)...) == x && fac.CC(c2, r2, asV(b)...) == y, "ensures same construction gives the identical formula", "CC")
		}
	case 5:
		cms := []f.CSort{f.EQ, f.LE, f.LT, f.GE, f.GT}
		c1, c2 := cms[c.R.Intn(5)], cms[c.R.Intn(5)]
		r1, r2 := c.R.Intn(9)-3, c.R.Intn(9)-3
		if c.R.Intn(2) == 0 {
			c2, r2 = c1, r1
		}
		ca := make([]int, n)
		for i := range ca {
			ca[i] = 2 + c.R.Intn(60)
		}
		cb := append([]int{}, ca...)
		switch c.R.Intn(3) {
		case 0: // collision in the coefficients only
			b = append([]f.Literal{}, a...)
			cb[p], cb[p+1] = cb[p]+1, cb[p+1]-33
		case 1: // collision between the last literal and the first coefficient
			b = append([]f.Literal{}, a...)
			b[n-1]++
			cb[0] -= 33
			if !distinct(b) {
				c.triv = true
				return
			}
		}
		c.Log("coefficients %v and %v, %d %d, %d %d", ca, cb, c1, r1, c2, r2)
		x, y = fac.PBC(c1, r1, a, append([]int{}, ca...)), fac.PBC(c2, r2, b, append([]int{}, cb...))
		eqPbc(x, c1, r1, a, ca)
		eqPbc(y, c2, r2, b, cb)
		c.Check(fac.PBC(c1, r1, a, append([]int{}, ca...)) == x && fac.PBC(c2, r2, b, append([]int{}, cb...)) == y, "ensures same construction gives the identical formula", "PBC")
	}
}

// Package main: runtime contract checking of the real code (bounded stand-in).
// Every check here evaluates a contract's postcondition on the real, compiled
// functions of /repo against an independent truth-table oracle.
package main

import (
	"fmt"
	"math/bits"
	"math/rand"
	"sort"
	"strings"

	f "github.com/booleworks/logicng-go/formula"
)

// ---------------------------------------------------------------- truth tables
type TT []uint64

func ttLen(n int) int {
	if n <= 6 {
		return 1
	}
	return 1 << (n - 6)
}
func ttMask(n int) uint64 {
	if n >= 6 {
		return ^uint64(0)
	}
	return (uint64(1) << (uint(1) << uint(n))) - 1
}

var patt = [6]uint64{0xAAAAAAAAAAAAAAAA, 0xCCCCCCCCCCCCCCCC, 0xF0F0F0F0F0F0F0F0, 0xFF00FF00FF00FF00, 0xFFFF0000FFFF0000, 0xFFFFFFFF00000000}

func ttVar(n, i int) TT {
	t := make(TT, ttLen(n))
	for w := range t {
		if i < 6 {
			t[w] = patt[i]
		} else if w>>(i-6)&1 == 1 {
			t[w] = ^uint64(0)
		}
		t[w] &= ttMask(n)
	}
	return t
}
func ttConst(n int, b bool) TT {
	t := make(TT, ttLen(n))
	if b {
		for w := range t {
			t[w] = ttMask(n)
		}
	}
	return t
}
func (t TT) not(n int) TT {
	r := make(TT, len(t))
	for i := range t {
		r[i] = ^t[i] & ttMask(n)
	}
	return r
}
func (t TT) and(o TT) TT {
	r := make(TT, len(t))
	for i := range t {
		r[i] = t[i] & o[i]
	}
	return r
}
func (t TT) or(o TT) TT {
	r := make(TT, len(t))
	for i := range t {
		r[i] = t[i] | o[i]
	}
	return r
}
func (t TT) eq(o TT) bool {
	for i := range t {
		if t[i] != o[i] {
			return false
		}
	}
	return true
}
func (t TT) bit(a int) bool { return t[a>>6]>>(uint(a)&63)&1 == 1 }
func (t TT) set(a int)      { t[a>>6] |= 1 << (uint(a) & 63) }
func (t TT) count() int {
	c := 0
	for _, w := range t {
		c += bits.OnesCount64(w)
	}
	return c
}
func (t TT) zero() bool { return t.count() == 0 }
func (t TT) implies(o TT) bool {
	for i := range t {
		if t[i]&^o[i] != 0 {
			return false
		}
	}
	return true
}

// cofactor fixes variable i to b (result still over n variables, constant in i)
func (t TT) cofactor(n, i int, b bool) TT {
	r := make(TT, len(t))
	for a := 0; a < 1<<n; a++ {
		x := a &^ (1 << i)
		if b {
			x |= 1 << i
		}
		if t.bit(x) {
			r.set(a)
		}
	}
	return r
}

// exists quantifies variable i away
func (t TT) exists(n, i int) TT { return t.cofactor(n, i, false).or(t.cofactor(n, i, true)) }
func (t TT) forall(n, i int) TT { return t.cofactor(n, i, false).and(t.cofactor(n, i, true)) }

// ---------------------------------------------------------------- syntax trees (independent of the library)
type Kind int

const (
	KTrue Kind = iota
	KFalse
	KLit
	KNot
	KImpl
	KEquiv
	KAnd
	KOr
	KClause
	KMinterm
	KCC
	KPBC
)

type Node struct {
	K     Kind
	Kids  []*Node
	Var   int
	Phase bool
	Cmp   int // index into cmps
	Rhs   int
	LV    []int
	LP    []bool
	Co    []int
}

var cmps = []f.CSort{f.EQ, f.LE, f.LT, f.GE, f.GT}
var cmpStr = []string{"=", "<=", "<", ">=", ">"}

func cmpEval(c int, l, r int) bool {
	switch c {
	case 0:
		return l == r
	case 1:
		return l <= r
	case 2:
		return l < r
	case 3:
		return l >= r
	}
	return l > r
}

func vname(i int) string { return fmt.Sprintf("v%02d", i) }

func (nd *Node) String() string {
	kids := func(op string) string {
		var s []string
		for _, k := range nd.Kids {
			s = append(s, k.String())
		}
		return op + "(" + strings.Join(s, ", ") + ")"
	}
	lits := func() string {
		var s []string
		for i := range nd.LV {
			p := ""
			if !nd.LP[i] {
				p = "~"
			}
			if nd.K == KPBC {
				s = append(s, fmt.Sprintf("%d*%s%s", nd.Co[i], p, vname(nd.LV[i])))
			} else {
				s = append(s, p+vname(nd.LV[i]))
			}
		}
		return strings.Join(s, ", ")
	}
	switch nd.K {
	case KTrue:
		return "$true"
	case KFalse:
		return "$false"
	case KLit:
		if nd.Phase {
			return vname(nd.Var)
		}
		return "~" + vname(nd.Var)
	case KNot:
		return kids("Not")
	case KImpl:
		return kids("Impl")
	case KEquiv:
		return kids("Equiv")
	case KAnd:
		return kids("And")
	case KOr:
		return kids("Or")
	case KClause:
		return "Clause(" + lits() + ")"
	case KMinterm:
		return "Minterm(" + lits() + ")"
	case KCC:
		return fmt.Sprintf("CC(%s %s %d)", lits(), cmpStr[nd.Cmp], nd.Rhs)
	}
	return fmt.Sprintf("PBC(%s %s %d)", lits(), cmpStr[nd.Cmp], nd.Rhs)
}

// tt is the oracle: the truth table of the syntax tree over n variables
func (nd *Node) tt(n int) TT {
	switch nd.K {
	case KTrue:
		return ttConst(n, true)
	case KFalse:
		return ttConst(n, false)
	case KLit:
		t := ttVar(n, nd.Var)
		if !nd.Phase {
			t = t.not(n)
		}
		return t
	case KNot:
		return nd.Kids[0].tt(n).not(n)
	case KImpl:
		return nd.Kids[0].tt(n).not(n).or(nd.Kids[1].tt(n))
	case KEquiv:
		a, b := nd.Kids[0].tt(n), nd.Kids[1].tt(n)
		return a.and(b).or(a.not(n).and(b.not(n)))
	case KAnd:
		r := ttConst(n, true)
		for _, k := range nd.Kids {
			r = r.and(k.tt(n))
		}
		return r
	case KOr:
		r := ttConst(n, false)
		for _, k := range nd.Kids {
			r = r.or(k.tt(n))
		}
		return r
	}
	r := ttConst(n, false)
	for a := 0; a < 1<<n; a++ {
		sum, all, any := 0, true, false
		for i, v := range nd.LV {
			b := (a>>v&1 == 1) == nd.LP[i]
			if b {
				any = true
				if nd.K == KPBC {
					sum += nd.Co[i]
				} else {
					sum++
				}
			} else {
				all = false
			}
		}
		var val bool
		switch nd.K {
		case KClause:
			val = any
		case KMinterm:
			val = all
		default:
			val = cmpEval(nd.Cmp, sum, nd.Rhs)
		}
		if val {
			r.set(a)
		}
	}
	return r
}

func (nd *Node) lits(fac f.Factory) []f.Literal {
	ls := make([]f.Literal, len(nd.LV))
	for i := range ls {
		ls[i] = fac.Lit(vname(nd.LV[i]), nd.LP[i])
	}
	return ls
}

// build constructs the tree on a factory of the library
func (nd *Node) build(fac f.Factory) f.Formula {
	switch nd.K {
	case KTrue:
		return fac.Verum()
	case KFalse:
		return fac.Falsum()
	case KLit:
		return fac.Literal(vname(nd.Var), nd.Phase)
	case KNot:
		return fac.Not(nd.Kids[0].build(fac))
	case KImpl:
		return fac.Implication(nd.Kids[0].build(fac), nd.Kids[1].build(fac))
	case KEquiv:
		return fac.Equivalence(nd.Kids[0].build(fac), nd.Kids[1].build(fac))
	case KAnd, KOr:
		ops := make([]f.Formula, len(nd.Kids))
		for i, k := range nd.Kids {
			ops[i] = k.build(fac)
		}
		if nd.K == KAnd {
			return fac.And(ops...)
		}
		return fac.Or(ops...)
	case KClause:
		return fac.Clause(nd.lits(fac)...)
	case KMinterm:
		return fac.Minterm(nd.lits(fac)...)
	case KCC:
		vs := make([]f.Variable, len(nd.LV))
		for i := range vs {
			vs[i] = fac.Var(vname(nd.LV[i]))
		}
		if nd.Rhs == 1 && nd.Cmp == 1 {
			return fac.AMO(vs...)
		}
		if nd.Rhs == 1 && nd.Cmp == 0 {
			return fac.EXO(vs...)
		}
		return fac.CC(cmps[nd.Cmp], uint32(nd.Rhs), vs...)
	}
	co := make([]int, len(nd.Co))
	copy(co, nd.Co)
	return fac.PBC(cmps[nd.Cmp], nd.Rhs, nd.lits(fac), co)
}

// ---------------------------------------------------------------- generators
type GenOpt struct {
	N       int  // number of variables
	CC, PBC bool // allow constraints
	Const   bool
	Raw     bool // allow Clause/Minterm with possibly repeated literals
	MaxOps  int
}

func genLit(r *rand.Rand, o GenOpt) *Node {
	return &Node{K: KLit, Var: r.Intn(o.N), Phase: r.Intn(2) == 0}
}

func perm(r *rand.Rand, n, k int) []int {
	p := r.Perm(n)
	if k > n {
		k = n
	}
	return p[:k]
}

func genCC(r *rand.Rand, o GenOpt) *Node {
	k := 1 + r.Intn(o.N)
	lv := perm(r, o.N, k)
	lp := make([]bool, len(lv))
	for i := range lp {
		lp[i] = true
	}
	rhs := r.Intn(k + 2)
	cmp := r.Intn(5)
	if r.Intn(3) == 0 {
		rhs, cmp = 1, r.Intn(2)
	}
	return &Node{K: KCC, LV: lv, LP: lp, Cmp: cmp, Rhs: rhs}
}

func genPBC(r *rand.Rand, o GenOpt) *Node {
	k := 1 + r.Intn(o.N)
	lv := perm(r, o.N, k)
	if r.Intn(5) == 0 {
		lv = append(lv, lv[r.Intn(len(lv))])
	}
	lp := make([]bool, len(lv))
	co := make([]int, len(lv))
	sum := 0
	for i := range lp {
		lp[i] = r.Intn(3) != 0
		switch r.Intn(8) {
		case 0:
			co[i] = 0
		case 1:
			co[i] = 1
		case 2:
			co[i] = -1
		default:
			co[i] = r.Intn(13) - 5
		}
		if co[i] > 0 {
			sum += co[i]
		}
	}
	rhs := r.Intn(sum+5) - 3
	return &Node{K: KPBC, LV: lv, LP: lp, Co: co, Cmp: r.Intn(5), Rhs: rhs}
}

func gen(r *rand.Rand, depth int, o GenOpt) *Node {
	if o.MaxOps == 0 {
		o.MaxOps = 4
	}
	x := r.Intn(100)
	if depth <= 0 || x < 12 {
		y := r.Intn(100)
		switch {
		case o.Const && y < 6:
			return &Node{K: Kind(r.Intn(2))}
		case o.CC && y < 18:
			return genCC(r, o)
		case o.PBC && y < 28:
			return genPBC(r, o)
		}
		return genLit(r, o)
	}
	switch {
	case x < 24:
		return &Node{K: KNot, Kids: []*Node{gen(r, depth-1, o)}}
	case x < 36:
		return &Node{K: KImpl, Kids: []*Node{gen(r, depth-1, o), gen(r, depth-1, o)}}
	case x < 48:
		return &Node{K: KEquiv, Kids: []*Node{gen(r, depth-1, o), gen(r, depth-1, o)}}
	case o.Raw && x < 52:
		k := KClause
		if r.Intn(2) == 0 {
			k = KMinterm
		}
		m := r.Intn(4)
		nd := &Node{K: k}
		for _, v := range perm(r, o.N, m) { // distinct variables, as the documentation demands
			nd.LV = append(nd.LV, v)
			nd.LP = append(nd.LP, r.Intn(2) == 0)
		}
		return nd
	}
	k := KAnd
	if r.Intn(2) == 0 {
		k = KOr
	}
	m := 2 + r.Intn(o.MaxOps-1)
	if r.Intn(30) == 0 {
		m = r.Intn(2)
	}
	nd := &Node{K: k}
	for i := 0; i < m; i++ {
		if i > 0 && r.Intn(12) == 0 { // duplicate or complement an earlier operand
			p := nd.Kids[r.Intn(i)]
			if r.Intn(2) == 0 {
				nd.Kids = append(nd.Kids, p)
			} else {
				nd.Kids = append(nd.Kids, &Node{K: KNot, Kids: []*Node{p}})
			}
			continue
		}
		nd.Kids = append(nd.Kids, gen(r, depth-1, o))
	}
	return nd
}

// genCNF generates a random CNF with m clauses
func genCNF(r *rand.Rand, n, m, maxLen int) *Node {
	nd := &Node{K: KAnd}
	for i := 0; i < m; i++ {
		c := &Node{K: KOr}
		l := 1 + r.Intn(maxLen)
		for _, v := range perm(r, n, l) {
			c.Kids = append(c.Kids, &Node{K: KLit, Var: v, Phase: r.Intn(2) == 0})
		}
		nd.Kids = append(nd.Kids, c)
	}
	return nd
}

// ---------------------------------------------------------------- formula oracle: reads structure through accessors only
type Env struct {
	fac  f.Factory
	n    int
	idx  map[string]int // variable name -> index
	memo map[f.Formula]TT
}

func newEnv(fac f.Factory, n int) *Env {
	e := &Env{fac: fac, n: n, idx: map[string]int{}, memo: map[f.Formula]TT{}}
	for i := 0; i < n; i++ {
		e.idx[vname(i)] = i
	}
	return e
}

// inconclusive is raised by the oracle when it gives up on a case (never counted as evaluated, never an alarm)
type inconclusive struct{}

type oracleErr struct{ msg string }

func (e *Env) tt(x f.Formula) TT {
	if t, ok := e.memo[x]; ok {
		return t
	}
	t := e.tt0(x)
	e.memo[x] = t
	return t
}

func (e *Env) litTT(l f.Literal) TT {
	name, ph, ok := e.fac.LitNamePhase(l)
	if !ok {
		panic(oracleErr{"literal unknown to factory"})
	}
	i, ok := e.idx[name]
	if !ok {
		panic(oracleErr{"unexpected variable " + name})
	}
	t := ttVar(e.n, i)
	if !ph {
		t = t.not(e.n)
	}
	return t
}

func (e *Env) tt0(x f.Formula) TT {
	n := e.n
	switch x.Sort() {
	case f.SortTrue:
		return ttConst(n, true)
	case f.SortFalse:
		return ttConst(n, false)
	case f.SortLiteral:
		return e.litTT(f.Literal(x))
	case f.SortNot:
		op, ok := e.fac.NotOperand(x)
		if !ok {
			panic(oracleErr{"not unknown to factory"})
		}
		return e.tt(op).not(n)
	case f.SortImpl, f.SortEquiv:
		l, r, ok := e.fac.BinaryLeftRight(x)
		if !ok {
			panic(oracleErr{"binary unknown to factory"})
		}
		a, b := e.tt(l), e.tt(r)
		if x.Sort() == f.SortImpl {
			return a.not(n).or(b)
		}
		return a.and(b).or(a.not(n).and(b.not(n)))
	case f.SortAnd, f.SortOr:
		ops, ok := e.fac.NaryOperands(x)
		if !ok {
			panic(oracleErr{"nary unknown to factory"})
		}
		r := ttConst(n, x.Sort() == f.SortAnd)
		for _, o := range ops {
			if x.Sort() == f.SortAnd {
				r = r.and(e.tt(o))
			} else {
				r = r.or(e.tt(o))
			}
		}
		return r
	case f.SortCC, f.SortPBC:
		c, rhs, lits, co, ok := e.fac.PBCOps(x)
		if !ok {
			panic(oracleErr{"constraint unknown to factory"})
		}
		ts := make([]TT, len(lits))
		for i, l := range lits {
			ts[i] = e.litTT(l)
		}
		ci := 0
		for i := range cmps {
			if cmps[i] == c {
				ci = i
			}
		}
		r := ttConst(n, false)
		for a := 0; a < 1<<n; a++ {
			s := 0
			for i := range ts {
				if ts[i].bit(a) {
					s += co[i]
				}
			}
			if cmpEval(ci, s, rhs) {
				r.set(a)
			}
		}
		return r
	}
	panic(oracleErr{"unknown sort"})
}

// vars of a formula by own traversal
func oracleVars(fac f.Factory, x f.Formula, acc map[string]bool) map[string]bool {
	seen := map[f.Formula]bool{}
	var rec func(x f.Formula)
	rec = func(x f.Formula) {
		if seen[x] {
			return
		}
		seen[x] = true
		for _, k := range kidsOf(fac, x) {
			rec(k)
		}
		for _, l := range ownLits(fac, x) {
			nm, _, _ := fac.LitNamePhase(l)
			acc[nm] = true
		}
	}
	rec(x)
	return acc
}
func ownLits(fac f.Factory, x f.Formula) []f.Literal {
	switch x.Sort() {
	case f.SortLiteral:
		return []f.Literal{f.Literal(x)}
	case f.SortCC, f.SortPBC:
		_, _, l, _, _ := fac.PBCOps(x)
		return l
	}
	return nil
}
func kidsOf(fac f.Factory, x f.Formula) []f.Formula {
	switch x.Sort() {
	case f.SortNot:
		o, _ := fac.NotOperand(x)
		return []f.Formula{o}
	case f.SortImpl, f.SortEquiv:
		l, r, _ := fac.BinaryLeftRight(x)
		return []f.Formula{l, r}
	case f.SortAnd, f.SortOr:
		o, _ := fac.NaryOperands(x)
		return o
	}
	return nil
}

// sig is a structural fingerprint by content (independent of ids)
func sig(fac f.Factory, x f.Formula) string {
	memo := map[f.Formula]string{}
	var rec func(x f.Formula) string
	rec = func(x f.Formula) string {
		if s, ok := memo[x]; ok {
			return s
		}
		var s string
		switch x.Sort() {
		case f.SortTrue:
			s = "T"
		case f.SortFalse:
			s = "F"
		case f.SortLiteral:
			n, p, _ := fac.LiteralNamePhase(x)
			if !p {
				n = "~" + n
			}
			s = n
		case f.SortCC, f.SortPBC:
			c, rhs, l, co, _ := fac.PBCOps(x)
			s = fmt.Sprintf("P[%v %d", c, rhs)
			for i := range l {
				n, p, _ := fac.LitNamePhase(l[i])
				s += fmt.Sprintf(" %d*%s/%v", co[i], n, p)
			}
			s += "]"
		default:
			s = fmt.Sprintf("%d(", x.Sort())
			for _, k := range kidsOf(fac, x) {
				s += rec(k) + ","
			}
			s += ")"
		}
		memo[x] = s
		return s
	}
	return rec(x)
}

// ---------------------------------------------------------------- independent DPLL on clauses of a CNF formula
type CNF struct {
	budget int
	names  []string
	idx    map[string]int
	cls    [][]int // literals: +-(i+1)
}

func newCNF() *CNF { return &CNF{idx: map[string]int{}} }
func (c *CNF) v(name string) int {
	if i, ok := c.idx[name]; ok {
		return i + 1
	}
	c.idx[name] = len(c.names)
	c.names = append(c.names, name)
	return len(c.names)
}

// add adds a formula in CNF; false if the formula is not a CNF
func (c *CNF) add(fac f.Factory, x f.Formula) bool {
	switch x.Sort() {
	case f.SortTrue:
		return true
	case f.SortAnd:
		for _, k := range kidsOf(fac, x) {
			if k.Sort() == f.SortAnd || k.Sort() == f.SortTrue || k.Sort() == f.SortFalse || !c.add(fac, k) {
				return false
			}
		}
		return true
	case f.SortFalse:
		c.cls = append(c.cls, []int{})
		return true
	case f.SortLiteral:
		c.cls = append(c.cls, []int{c.lit(fac, f.Literal(x))})
		return true
	case f.SortOr:
		var cl []int
		for _, k := range kidsOf(fac, x) {
			if k.Sort() != f.SortLiteral {
				return false
			}
			cl = append(cl, c.lit(fac, f.Literal(k)))
		}
		c.cls = append(c.cls, cl)
		return true
	}
	return false
}
func (c *CNF) lit(fac f.Factory, l f.Literal) int {
	n, p, ok := fac.LitNamePhase(l)
	if !ok {
		panic(oracleErr{"literal unknown"})
	}
	i := c.v(n)
	if !p {
		return -i
	}
	return i
}

// sat decides the clauses under a partial assignment (0 unassigned, 1 true, -1 false)
func (c *CNF) sat(asg []int8) bool {
	a := make([]int8, len(c.names)+1)
	copy(a, asg)
	return c.dpll(a)
}
func val(a []int8, l int) int8 {
	if l > 0 {
		return a[l]
	}
	return -a[-l]
}
func (c *CNF) dpll(a []int8) bool {
	for {
		ch := false
		for _, cl := range c.cls {
			un, cnt, satd := 0, 0, false
			for _, l := range cl {
				switch val(a, l) {
				case 1:
					satd = true
				case 0:
					un = l
					cnt++
				}
				if satd {
					break
				}
			}
			if satd {
				continue
			}
			if cnt == 0 {
				return false
			}
			if cnt == 1 {
				if un > 0 {
					a[un] = 1
				} else {
					a[-un] = -1
				}
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	// pick from an unsatisfied clause
	pick := 0
	for _, cl := range c.cls {
		satd := false
		u := 0
		for _, l := range cl {
			if val(a, l) == 1 {
				satd = true
				break
			}
			if val(a, l) == 0 {
				u = l
			}
		}
		if !satd {
			pick = u
			break
		}
	}
	if pick == 0 {
		return true
	}
	if c.budget++; c.budget > 4000 {
		panic(inconclusive{})
	}
	for _, s := range []int{pick, -pick} {
		b := append([]int8(nil), a...)
		if s > 0 {
			b[s] = 1
		} else {
			b[-s] = -1
		}
		if c.dpll(b) {
			return true
		}
	}
	return false
}

// project returns the truth table over v00..v(n-1) of the clauses with all other variables quantified existentially
func (c *CNF) project(n int) TT {
	ids := make([]int, n)
	for i := range ids {
		ids[i] = c.v(vname(i))
	}
	t := ttConst(n, false)
	for x := 0; x < 1<<n; x++ {
		a := make([]int8, len(c.names)+1)
		for i, id := range ids {
			if x>>i&1 == 1 {
				a[id] = 1
			} else {
				a[id] = -1
			}
		}
		if c.sat(a) {
			t.set(x)
		}
	}
	return t
}

func sortedKeys(m map[string]bool) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

func litNames(fac f.Factory, ls []f.Literal) string {
	var s []string
	for _, l := range ls {
		n, p, _ := fac.LitNamePhase(l)
		if !p {
			n = "~" + n
		}
		s = append(s, n)
	}
	return strings.Join(s, " ")
}

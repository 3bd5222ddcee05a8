package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type unsupported string

func (u unsupported) Error() string { return "unsupported: " + string(u) }

type Oblig struct {
	name  string
	kind  string // pre, post, frame, cand, cover
	path  *Path
	goal  string
	cand  *Cand
	where string
	// result
	status string // proved, failed
	by     string
	secs   float64
}

// Exec symbolically executes one function under its contract.
type Exec struct {
	P        *Prog
	ct       *Contract
	fn       *ssa.Function
	nfresh   int
	hinits   map[string]string
	hsorts   map[string]string
	initDecl []string
	strs     map[string]string
	floats   map[string]string
	elts     map[string]bool
	obligs   []*Oblig
	cands    []*Cand
	solver   *Inter
	old      *State
	alloc0   string
	binds    map[string]V
	inlined  map[string]bool
	assumed  map[string]bool
	paths    int
	exits    int
	called   map[string]bool
	nloops   int
	ncand    int
	vacuity  int
	boxDecl  map[string]bool
	loopMods map[string]map[string]bool
	modSorts map[string]string
	restart  bool
	preNode  *Path
	exitNode []*Path
}

func (x *Exec) solverDecl(s string) {
	if x.solver == nil {
		return
	}
	x.solverKeys(s)
	x.solver.send(s)
}

// solverKeys declares the key sorts used in s.
func (x *Exec) solverKeys(s string) {
	if !strings.Contains(s, "Key_") && !strings.Contains(s, "key_") && !strings.Contains(s, "kk") {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	for _, n := range sortedKeys(keySorts) {
		if !x.solver.keys[n] {
			x.solver.keys[n] = true
			x.solver.send(keyDecl(n, keySorts[n]))
		}
	}
}

func sortedKeys(m map[string][]string) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func keyDecl(n string, p []string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "(declare-datatypes ((Key_%s 0)) (((mkkey_%s", n, n)
	for i, s := range p {
		fmt.Fprintf(&b, " (kk%d_%s %s)", i, n, s)
	}
	b.WriteString("))))\n")
	return b.String()
}

func (x *Exec) solverSend(s string) {
	if x.solver == nil {
		return
	}
	if strings.Contains(s, "(forall ") || strings.Contains(s, "(exists ") || strings.Contains(s, "Seq") {
		return
	}
	x.solverKeys(s)
	x.solver.send(s)
}

func (x *Exec) oblig(st *State, kind, name, goal string) *Oblig {
	o := &Oblig{name: name, kind: kind, path: st.path, goal: goal}
	x.obligs = append(x.obligs, o)
	return o
}

// val evaluates an SSA operand.
func (x *Exec) val(fr *Frame, v ssa.Value) V {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constV(c)
	case *ssa.Global:
		T := c.Type().Underlying().(*types.Pointer).Elem()
		return V{T: c.Type(), L: []string{"1"}, A: &Addr{kind: 'g', glob: c, n: len(leaves(T)), T: T}}
	case *ssa.Function:
		return V{T: c.Type(), L: []string{x.funcConst(c)}, C: &Closure{fn: c}}
	case *ssa.Builtin:
		return V{T: c.Type()}
	}
	r, ok := fr.regs[v]
	if !ok {
		panic(unsupported(fmt.Sprintf("value %s (%T) of %s has no term", v.Name(), v, fr.fn)))
	}
	return r
}

func (x *Exec) funcConst(f *ssa.Function) string {
	k := "func " + f.String()
	return x.strConstInt(k)
}

func (x *Exec) strConstInt(k string) string {
	n, ok := x.strs[k]
	if !ok {
		n = fmt.Sprint(1000000000 + len(x.strs))
		x.strs[k] = n
	}
	return n
}

// callFunction executes the body of fn inline.
func (x *Exec) callFunction(st *State, up *Frame, fn *ssa.Function, args, fv []V, ret func(*State, []V)) {
	depth := 0
	for f := up; f != nil; f = f.up {
		depth++
		if f.fn == fn {
			// recursion without a contract: results are arbitrary
			x.assumed["recursive call of "+fnKey(fn)+" without contract: nothing is known about its result or effects"] = true
			panic(unsupported("recursive call of " + fnKey(fn) + " without contract"))
		}
	}
	if depth > 14 {
		panic(unsupported("inlining too deep at " + fnKey(fn)))
	}
	fr := &Frame{fn: fn, regs: map[ssa.Value]V{}, loops: map[*ssa.BasicBlock]*loopInst{}, depth: depth, up: up, ret: ret}
	for i, p := range fn.Params {
		a := args[i]
		if a.A == nil {
			a.T = p.Type()
		}
		fr.regs[p] = a
	}
	for i, p := range fn.FreeVars {
		fr.regs[p] = fv[i]
	}
	if up != nil {
		x.inlined[fnKey(fn)] = true
	}
	x.enter(st, fr, nil, fn.Blocks[0])
}

func isBackEdge(from, to *ssa.BasicBlock) bool { return from != nil && to.Dominates(from) }

func isHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if isBackEdge(p, b) {
			return true
		}
	}
	return false
}

func predIndex(from, to *ssa.BasicBlock) int {
	for i, p := range to.Preds {
		if p == from {
			return i
		}
	}
	return -1
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r = append(r, p)
	}
	return r
}

// enter moves along the edge from -> to.
func (x *Exec) enter(st *State, fr *Frame, from, to *ssa.BasicBlock) {
	phis := phisOf(to)
	in := make([]V, len(phis))
	if len(phis) > 0 {
		i := predIndex(from, to)
		for j, p := range phis {
			in[j] = x.val(fr, p.Edges[i])
			in[j].T = p.Type()
		}
	}
	if isHeader(to) {
		if isBackEdge(from, to) {
			if inst := fr.loops[to]; inst != nil {
				x.loopBack(st, fr, inst, in)
				return
			}
		}
		x.loopEnter(st, fr, to, phis, in)
		return
	}
	for j, p := range phis {
		fr.regs[p] = in[j]
	}
	x.run(st, fr, to, len(phis))
}

func (x *Exec) run(st *State, fr *Frame, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		switch in := b.Instrs[i].(type) {
		case *ssa.Jump:
			x.enter(st, fr, b, b.Succs[0])
			return
		case *ssa.If:
			c := x.val(fr, in.Cond).L[0]
			x.branch(st, fr, c, func(st *State, fr *Frame) { x.enter(st, fr, b, b.Succs[0]) },
				func(st *State, fr *Frame) { x.enter(st, fr, b, b.Succs[1]) })
			return
		case *ssa.Return:
			var res []V
			for _, r := range in.Results {
				v := x.val(fr, r)
				res = append(res, v)
			}
			fr.ret(st, res)
			return
		case *ssa.Panic:
			return // partial correctness: executions that panic are outside
		case *ssa.Call:
			blk, next := b, i+1
			x.call(st, fr, in, func(st *State, fr *Frame, v V) {
				fr.regs[in] = v
				x.run(st, fr, blk, next)
			})
			return
		case *ssa.RunDefers:
		case *ssa.DebugRef:
		case *ssa.Store:
			a := x.val(fr, in.Addr)
			v := x.val(fr, in.Val)
			if len(v.L) == 0 && len(leaves(v.T)) > 0 {
				panic(unsupported("stored value of type " + v.T.String()))
			}
			if v.A != nil && v.A.kind != 'o' || v.A != nil && v.A.off != 0 {
				v = x.escape(st, v)
			}
			x.store(st, x.addrOf(a), v)
			if v.C != nil {
				x.closures(v)
			}
		case *ssa.MapUpdate:
			m := x.val(fr, in.Map)
			k := x.val(fr, in.Key)
			v := x.escape(st, x.val(fr, in.Value))
			x.assume(st, not(eq(m.L[0], "0"))) // an update of a nil map panics
			x.defHook(st, fr, in, m, k, v)
			x.mapUpdate(st, m, keyTerm(k), v)
		case ssa.Value:
			v := x.eval(st, fr, in)
			v.T = in.Type()
			fr.regs[in] = x.nameV(st, v)
		default:
			panic(unsupported(fmt.Sprintf("%T in %s", in, fr.fn)))
		}
	}
}

// escape turns interior addresses into opaque references.
func (x *Exec) escape(st *State, v V) V {
	if v.A != nil && !(v.A.kind == 'o' && v.A.off == 0 && v.A.n == len(leaves(v.A.base))) {
		if v.A.kind == 'g' {
			v.L = []string{x.strConstInt("global " + v.A.glob.String())}
			return v
		}
		panic(unsupported("interior pointer escapes"))
	}
	return v
}

var closureTab = map[string]*Closure{}

func (x *Exec) closures(v V) {}

// branch forks on a condition.
func (x *Exec) branch(st *State, fr *Frame, c string, yes, no func(*State, *Frame)) {
	if c == "true" {
		yes(st, fr)
		return
	}
	if c == "false" {
		no(st, fr)
		return
	}
	x.paths++
	if x.paths > maxPaths {
		panic(unsupported("too many paths"))
	}
	for _, b := range []struct {
		c string
		k func(*State, *Frame)
	}{{c, yes}, {not(c), no}} {
		s2, f2 := st.clone(), fr.clone()
		x.solver.push()
		x.assume(s2, b.c)
		if x.solver.feasible() {
			b.k(s2, f2)
		}
		x.solver.pop()
	}
}

func (x *Exec) eval(st *State, fr *Frame, in ssa.Value) V {
	switch e := in.(type) {
	case *ssa.Alloc:
		T := e.Type().Underlying().(*types.Pointer).Elem()
		r := x.newRef(st)
		v := V{T: e.Type(), L: []string{r}}
		x.store(st, x.addrOf(v), zero(T))
		return v
	case *ssa.BinOp:
		return x.binop(st, e.Op, x.val(fr, e.X), x.val(fr, e.Y), e.X.Type(), e.Type())
	case *ssa.UnOp:
		v := x.val(fr, e.X)
		switch e.Op {
		case token.MUL:
			a := x.addrOf(v)
			r := x.load(st, a)
			r.T = e.Type()
			r = x.nameV(st, r)
			if a.kind == 'e' && !strings.HasPrefix(a.idx, "@") {
				// an access that returns was in bounds
			}
			x.assume(st, x.typeFacts(st, r))
			x.loadHook(st, a, r)
			if c, ok := x.loadedClosure(fr, a); ok {
				r.C = c
			}
			return r
		case token.NOT:
			return V{L: []string{not(v.L[0])}}
		case token.SUB:
			if leaves(v.T)[0].sort == "F64" {
				return V{L: []string{app("f64_neg", v.L[0])}}
			}
			return V{L: []string{sub("0", v.L[0])}}
		case token.XOR:
			return V{L: []string{app("bnot", v.L[0])}}
		}
		panic(unsupported("unary " + e.Op.String()))
	case *ssa.ChangeType, *ssa.ChangeInterface:
		var o ssa.Value
		if c, ok := e.(*ssa.ChangeType); ok {
			o = c.X
		} else {
			o = e.(*ssa.ChangeInterface).X
		}
		return x.val(fr, o)
	case *ssa.Convert:
		v := x.val(fr, e.X)
		from, to := leaves(e.X.Type()), leaves(e.Type())
		if len(from) == 1 && len(to) == 1 && from[0].sort == to[0].sort {
			return v
		}
		if len(from) == 1 && len(to) == 1 && from[0].sort == "Int" && to[0].sort == "F64" {
			return V{L: []string{app("i2f", v.L[0])}}
		}
		if len(from) == 1 && len(to) == 1 && from[0].sort == "F64" && to[0].sort == "Int" {
			return V{L: []string{app("f2i", v.L[0])}}
		}
		return x.freshV(st, "conv", e.Type())
	case *ssa.MakeInterface:
		v := x.val(fr, e.X)
		if v.A != nil && v.A.kind == 'g' {
			v = x.escape(st, v)
		} else {
			v = x.escape(st, v)
		}
		return V{L: []string{x.box(st, e.X.Type(), v)}}
	case *ssa.TypeAssert:
		return x.typeAssert(st, fr, e)
	case *ssa.Extract:
		return x.val(fr, e.Tuple).Tup[e.Index]
	case *ssa.Field:
		v := x.val(fr, e.X)
		off, n, _ := fieldRange(e.X.Type(), e.Field)
		return V{L: v.L[off : off+n]}
	case *ssa.FieldAddr:
		v := x.val(fr, e.X)
		a := *x.addrOf(v)
		S := e.X.Type().Underlying().(*types.Pointer).Elem()
		off, n, ft := fieldRange(S, e.Field)
		a.off += off
		a.n = n
		a.T = ft
		return V{L: []string{"?"}, A: &a}
	case *ssa.IndexAddr:
		v := x.val(fr, e.X)
		i := x.val(fr, e.Index).L[0]
		if st_, ok := e.X.Type().Underlying().(*types.Slice); ok {
			x.assume(st, and(app("<=", "0", i), app("<", i, v.L[2])))
			return V{L: []string{"?"}, A: &Addr{kind: 'e', ref: v.L[0], off0: v.L[1], idx: i, base: st_.Elem(), n: len(leaves(st_.Elem())), T: st_.Elem()}}
		}
		at := e.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		x.assume(st, and(app("<=", "0", i), app("<", i, fmt.Sprint(at.Len()))))
		a := x.addrOf(v)
		if a.kind == 'E' {
			return V{L: []string{"?"}, A: &Addr{kind: 'e', ref: a.ref, off0: "0", idx: i, base: at.Elem(), n: len(leaves(at.Elem())), T: at.Elem()}}
		}
		b := *a
		if b.aidx != "" {
			panic(unsupported("nested arrays"))
		}
		b.aidx = i
		b.T = at.Elem()
		return V{L: []string{"?"}, A: &b}
	case *ssa.Index:
		v := x.val(fr, e.X)
		i := x.val(fr, e.Index).L[0]
		if _, ok := e.X.Type().Underlying().(*types.Array); ok {
			var r V
			for _, l := range v.L {
				r.L = append(r.L, app("select", l, i))
			}
			return r
		}
		if b, ok := e.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return V{L: []string{app("strat", v.L[0], i)}}
		}
		panic(unsupported("index of " + e.X.Type().String()))
	case *ssa.Lookup:
		v := x.val(fr, e.X)
		k := x.val(fr, e.Index)
		if _, ok := e.X.Type().Underlying().(*types.Map); !ok {
			return V{L: []string{app("strat", v.L[0], k.L[0])}}
		}
		v.T = e.X.Type()
		k.T = e.X.Type().Underlying().(*types.Map).Key()
		r, has := x.mapLookup(st, v, keyTerm(k))
		has = x.name(st, "has", "Bool", has)
		z := zero(r.T)
		ls := leaves(r.T)
		for i := range r.L {
			r.L[i] = x.name(st, "mv", ls[i].sort, app("ite", has, r.L[i], z.L[i]))
		}
		x.assume(st, x.typeFacts(st, r))
		if e.CommaOk {
			return V{Tup: []V{r, {T: types.Typ[types.Bool], L: []string{has}}}}
		}
		return r
	case *ssa.MakeClosure:
		c := &Closure{fn: e.Fn.(*ssa.Function)}
		for _, b := range e.Bindings {
			c.fv = append(c.fv, x.val(fr, b))
		}
		return V{L: []string{x.fresh(st, "clo", "Int")}, C: c}
	case *ssa.MakeMap:
		return x.makeMap(st, e.Type())
	case *ssa.MakeSlice:
		n := x.val(fr, e.Len).L[0]
		c := x.val(fr, e.Cap).L[0]
		r := x.newRef(st)
		E := e.Type().Underlying().(*types.Slice).Elem()
		for i, l := range leaves(E) {
			key, sort := hkey('E', E, i), "(Array Int (Array Int "+l.sort+"))"
			x.hset(st, key, sort, app("store", x.hget(st, key, sort), r, "((as const (Array Int "+l.sort+")) "+zeroOf(l)+")"))
		}
		x.assume(st, and(app("<=", "0", n), app("<=", n, c)))
		return V{L: []string{r, "0", n, c}}
	case *ssa.Slice:
		return x.slice(st, fr, e)
	case *ssa.Range:
		m := x.val(fr, e.X)
		if _, ok := e.X.Type().Underlying().(*types.Map); !ok {
			return V{L: []string{"0"}, It: &Iter{isStr: true}}
		}
		m.T = e.X.Type()
		ks := keySort(e.X.Type().Underlying().(*types.Map).Key())
		vkey := iterKey(fr, e)
		x.hinit(vkey, "(Array "+ks+" Bool)")
		st.heap[vkey] = "((as const (Array " + ks + " Bool)) false)"
		x.hinit(vkey+"|n", "Int")
		st.heap[vkey+"|n"] = "0"
		return V{L: []string{"0"}, It: &Iter{m: m, visited: vkey, dom0: x.name(st, "dom0", "(Array "+ks+" Bool)", x.mapDom(st, m)), len0: x.name(st, "len0", "Int", x.mapLen(st, m))}}
	case *ssa.Next:
		return x.next(st, fr, e)
	case *ssa.Phi:
		panic(unsupported("phi"))
	}
	panic(unsupported(fmt.Sprintf("%T", in)))
}

func iterKey(fr *Frame, e *ssa.Range) string {
	return "IT|" + fr.fn.String() + "|" + e.Name() + fmt.Sprintf("|%d", fr.depth)
}

func (x *Exec) loadedClosure(fr *Frame, a *Addr) (*Closure, bool) { return nil, false }

// next advances a map iteration; the visited set lives in the pseudo heap of the iterator.
func (x *Exec) next(st *State, fr *Frame, e *ssa.Next) V {
	it := x.val(fr, e.Iter)
	tup := e.Type().(*types.Tuple)
	if e.IsString {
		return x.freshV(st, "next", e.Type())
	}
	m := it.It.m
	K := m.T.Underlying().(*types.Map).Key()
	ks := keySort(K)
	ok := x.fresh(st, "ok", "Bool")
	k := x.fresh(st, "key", ks)
	vkey := it.It.visited
	sort := "(Array " + ks + " Bool)"
	vis := st.heap[vkey]
	dom := x.name(st, "dom", sort, x.mapDom(st, m))
	x.assume(st, imp(ok, and(app("select", dom, k), not(app("select", vis, k)))))
	x.nfresh++
	q := fmt.Sprintf("q!%d", x.nfresh)
	x.assume(st, fmt.Sprintf("(=> (not %s) (forall ((%s %s)) (! (=> (select %s %s) (select %s %s)) :pattern ((select %s %s)) :pattern ((select %s %s)))))", ok, q, ks, dom, q, vis, q, dom, q, vis, q))
	if n := st.heap[vkey+"|n"]; n != "" {
		// as long as the domain of the map is unchanged, every key is visited exactly once
		x.assume(st, imp(eq(dom, it.It.dom0), and(app("<=", "0", n), imp(ok, app("<", n, it.It.len0)), imp(not(ok), eq(n, it.It.len0)))))
		st.heap[vkey+"|n"] = x.name(st, "nvis", "Int", app("ite", ok, add(n, "1"), n))
	}
	nv := x.name(st, "vis", sort, app("ite", ok, app("store", vis, k, "true"), vis))
	st.heap[vkey] = nv
	kv := V{T: K, L: keyParts(K, k)}
	x.assume(st, imp(ok, x.typeFacts(st, kv)))
	val, _ := x.mapLookup(st, m, k)
	val = x.nameV(st, val)
	x.assume(st, imp(ok, x.typeFacts(st, val)))
	r := V{Tup: []V{{T: tup.At(0).Type(), L: []string{ok}}, kv, val}}
	return r
}

func (x *Exec) slice(st *State, fr *Frame, e *ssa.Slice) V {
	v := x.val(fr, e.X)
	lo := "0"
	if e.Low != nil {
		lo = x.val(fr, e.Low).L[0]
	}
	switch u := e.X.Type().Underlying().(type) {
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		n := fmt.Sprint(at.Len())
		hi := n
		if e.High != nil {
			hi = x.val(fr, e.High).L[0]
		}
		a := x.addrOf(v)
		if a.kind != 'E' {
			panic(unsupported("slice of an embedded array"))
		}
		x.assume(st, and(app("<=", "0", lo), app("<=", lo, hi), app("<=", hi, n)))
		return V{L: []string{a.ref, lo, sub(hi, lo), sub(n, lo)}}
	case *types.Slice:
		hi := v.L[2]
		if e.High != nil {
			hi = x.val(fr, e.High).L[0]
		}
		max := v.L[3]
		if e.Max != nil {
			max = x.val(fr, e.Max).L[0]
		}
		x.assume(st, and(app("<=", "0", lo), app("<=", lo, hi), app("<=", hi, max), app("<=", max, v.L[3])))
		off := x.name(st, "off", "Int", add(v.L[1], lo))
		if off != v.L[1] && len(off) > 0 {
			o := x.fresh(st, "off", "Int")
			x.assume(st, eq(o, off))
			off = o
			for i, l := range leaves(u.Elem()) {
				_ = i
				x.useElt(l.sort)
				f := "elt_" + sortName(l.sort)
				x.assume(st, fmt.Sprintf("(forall ((a (Array Int %s)) (k Int)) (! (= (%s a %s k) (%s a %s (+ k %s))) :pattern ((%s a %s k))))", l.sort, f, off, f, v.L[1], lo, f, off))
				x.assume(st, fmt.Sprintf("(forall ((a (Array Int %s)) (k Int)) (! (= (%s a %s k) (%s a %s (- k %s))) :pattern ((%s a %s k))))", l.sort, f, v.L[1], f, off, lo, f, v.L[1]))
			}
		}
		return V{L: []string{v.L[0], off, sub(hi, lo), sub(max, lo)}}
	}
	return x.freshV(st, "substr", e.Type())
}

func (x *Exec) typeID(T types.Type) string { return x.strConstInt("type " + tstr(T)) }

func (x *Exec) boxFn(T types.Type) string {
	n := "box_" + x.typeID(T)
	x.P.declBox(x, n, T)
	return n
}

func (x *Exec) box(st *State, T types.Type, v V) string {
	if len(leaves(T)) == 0 {
		id := x.typeID(T)
		x.assume(st, and(app("=", app("typeof", id), id), app("not", app("=", id, "0"))))
		return id
	}
	n := x.boxFn(T)
	b := app(n, v.L...)
	b = x.name(st, "box", "Int", b)
	x.assume(st, and(app("=", app("typeof", b), x.typeID(T)), app("not", app("=", b, "0"))))
	for i := range v.L {
		x.assume(st, app("=", app(fmt.Sprintf("un%s_%d", n, i), b), v.L[i]))
	}
	return b
}

func (x *Exec) unbox(st *State, T types.Type, b string) V {
	v := V{T: T}
	if len(leaves(T)) == 0 {
		return v
	}
	n := x.boxFn(T)
	for i := range leaves(T) {
		v.L = append(v.L, app(fmt.Sprintf("un%s_%d", n, i), b))
	}
	return v
}

func (x *Exec) typeAssert(st *State, fr *Frame, e *ssa.TypeAssert) V {
	v := x.val(fr, e.X)
	T := e.AssertedType
	var r V
	var ok string
	if _, isI := T.Underlying().(*types.Interface); isI {
		r = v
		ok = x.fresh(st, "ok", "Bool")
		x.assume(st, imp(ok, not(eq(v.L[0], "0"))))
	} else {
		r = x.unbox(st, T, v.L[0])
		ok = and(not(eq(v.L[0], "0")), eq(app("typeof", v.L[0]), x.typeID(T)))
		r = x.nameV(st, r)
		// a box is determined by its content
		if len(r.L) > 0 {
			x.assume(st, imp(ok, eq(v.L[0], app(x.boxFn(T), r.L...))))
		}
		x.assume(st, imp(ok, x.typeFacts(st, r)))
	}
	r.T = T
	if e.CommaOk {
		ok = x.name(st, "ok", "Bool", ok)
		z := zero(T)
		ls := leaves(T)
		w := V{T: T}
		for i := range r.L {
			w.L = append(w.L, x.name(st, "ta", ls[i].sort, app("ite", ok, r.L[i], z.L[i])))
		}
		return V{Tup: []V{w, {T: types.Typ[types.Bool], L: []string{ok}}}}
	}
	x.assume(st, ok)
	return r
}

func pow2(k string) string {
	if isNum(k) && len(k) <= 2 {
		var n uint
		fmt.Sscan(k, &n)
		if n < 63 {
			return fmt.Sprint(uint64(1) << n)
		}
	}
	return app("pow2", k)
}

func (x *Exec) binop(st *State, op token.Token, a, b V, T, R types.Type) V {
	ls := leaves(T)
	one := func(t string) V { return V{L: []string{t}} }
	switch op {
	case token.EQL, token.NEQ:
		if len(a.L) != len(b.L) {
			panic(unsupported("comparison"))
		}
		var t string
		if a.A != nil || b.A != nil {
			if a.L[0] == "?" || b.L[0] == "?" {
				if a.L[0] == "0" || b.L[0] == "0" {
					t = "false"
				} else {
					t = x.fresh(st, "cmp", "Bool")
				}
			} else {
				t = eqV(a, b)
			}
		} else if _, ok := T.Underlying().(*types.Slice); ok {
			t = eq(a.L[0], b.L[0]) // only comparison with nil
		} else if ls[0].sort == "F64" {
			t = app("f64_eq", a.L[0], b.L[0])
		} else {
			t = eqV(a, b)
		}
		if op == token.NEQ {
			t = not(t)
		}
		return one(t)
	}
	p, q := a.L[0], b.L[0]
	switch ls[0].sort {
	case "F64":
		n := map[token.Token]string{token.ADD: "f64_add", token.SUB: "f64_sub", token.MUL: "f64_mul", token.QUO: "f64_div",
			token.LSS: "f64_lt", token.LEQ: "f64_le", token.GTR: "f64_gt", token.GEQ: "f64_ge"}[op]
		return one(app(n, p, q))
	case "Str":
		switch op {
		case token.ADD:
			return one(app("strcat", p, q))
		case token.LSS:
			return one(app("strlt", p, q))
		case token.GTR:
			return one(app("strlt", q, p))
		case token.LEQ:
			return one(not(app("strlt", q, p)))
		case token.GEQ:
			return one(not(app("strlt", p, q)))
		}
	case "Bool":
		switch op {
		case token.AND, token.LAND:
			return one(and(p, q))
		case token.OR, token.LOR:
			return one(or(p, q))
		}
	}
	switch op {
	case token.ADD:
		return one(add(p, q))
	case token.SUB:
		return one(sub(p, q))
	case token.MUL:
		return one(app("*", p, q))
	case token.QUO:
		x.assume(st, not(eq(q, "0")))
		return one(app("tdiv", p, q))
	case token.REM:
		x.assume(st, not(eq(q, "0")))
		if isNum(q) && ls[0].kind == 'u' {
			return one(app("mod", p, q))
		}
		return one(app("trem", p, q))
	case token.LSS:
		return one(app("<", p, q))
	case token.LEQ:
		return one(app("<=", p, q))
	case token.GTR:
		return one(app(">", p, q))
	case token.GEQ:
		return one(app(">=", p, q))
	case token.SHL:
		if p == "1" {
			return one(pow2(q))
		}
		return one(app("*", p, pow2(q)))
	case token.SHR:
		return one(app("div", p, pow2(q)))
	case token.AND:
		if t, ok := maskAnd(p, q); ok {
			return one(t)
		}
		if t, ok := maskAnd(q, p); ok {
			return one(t)
		}
		return one(app("band", p, q))
	case token.OR:
		return one(app("bor", p, q))
	case token.XOR:
		if q == "1" {
			return one(app("bxor1", p))
		}
		if p == "1" {
			return one(app("bxor1", q))
		}
		return one(app("bxor", p, q))
	case token.AND_NOT:
		return one(app("bandnot", p, q))
	}
	panic(unsupported("operator " + op.String()))
}

// maskAnd computes x & m for constant masks 2^k-1 and (2^j-1)<<k (32 bit).
func maskAnd(p, m string) (string, bool) {
	if !isNum(m) {
		return "", false
	}
	var c uint64
	fmt.Sscan(m, &c)
	if c != 0 && c&(c+1) == 0 {
		return app("mod", p, fmt.Sprint(c+1)), true
	}
	if c == 0xF0000000 {
		return app("-", p, app("mod", p, "268435456")), true
	}
	return "", false
}

var _ = constant.Int

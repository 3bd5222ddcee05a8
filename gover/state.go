package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

var mu sync.Mutex

// Path is a persistent list of declarations and assumptions.
type Path struct {
	up   *Path
	text string
	n    int
}

type State struct {
	path  *Path
	heap  map[string]string
	alloc string
}

func (s *State) clone() *State {
	h := make(map[string]string, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	return &State{s.path, h, s.alloc}
}

type Frame struct {
	fn    *ssa.Function
	regs  map[ssa.Value]V
	loops map[*ssa.BasicBlock]*loopInst
	depth int
	up    *Frame
	ret   func(st *State, res []V)
	dom   []*ssa.BasicBlock
}

func (f *Frame) clone() *Frame {
	g := *f
	g.regs = make(map[ssa.Value]V, len(f.regs)+8)
	for k, v := range f.regs {
		g.regs[k] = v
	}
	g.loops = make(map[*ssa.BasicBlock]*loopInst, len(f.loops))
	for k, v := range f.loops {
		g.loops[k] = v
	}
	return &g
}

// heap access -----------------------------------------------------------

func (x *Exec) heapSort(key string) string {
	return x.hsorts[key]
}

// hget returns the current term of a heap component (declaring its initial value).
func (x *Exec) hget(st *State, key, sort string) string {
	if t, ok := st.heap[key]; ok {
		return t
	}
	return x.hinit(key, sort)
}

func (x *Exec) hinit(key, sort string) string {
	if n, ok := x.hinits[key]; ok {
		return n
	}
	n := fmt.Sprintf("h%d", len(x.hinits))
	x.hinits[key] = n
	x.hsorts[key] = sort
	x.initDecl = append(x.initDecl, fmt.Sprintf("(declare-const %s %s) ; %s", n, sort, key))
	x.solverDecl(fmt.Sprintf("(declare-const %s %s)", n, sort))
	if f := x.refFacts(key, n, x.alloc0); f != "" {
		x.initDecl = append(x.initDecl, "(assert "+f+")")
	}
	return n
}

// refFacts: references stored in objects that exist denote objects that exist.
func (x *Exec) refFacts(key, h, alloc string) string {
	if strings.HasPrefix(key, "MD|") { // the nil map is empty
		ds := x.hsorts[key]
		in := strings.TrimSuffix(strings.TrimPrefix(ds, "(Array Int "), ")")
		return fmt.Sprintf("(= (select %s 0) ((as const %s) false))", h, in)
	}
	mu.Lock()
	k := heapKind[key]
	mu.Unlock()
	if k != 'r' && k != 'R' {
		return ""
	}
	if strings.HasPrefix(key, "MV|") {
		ds := strings.TrimPrefix(x.hsorts[key], "(Array Int (Array ")
		ks := ds
		depth := 0
		for i := 0; i < len(ds); i++ {
			if ds[i] == '(' {
				depth++
			} else if ds[i] == ')' {
				depth--
			} else if ds[i] == ' ' && depth == 0 {
				ks = ds[:i]
				break
			}
		}
		return fmt.Sprintf("(forall ((r Int) (k %s)) (! (=> (<= r %s) (<= (select (select %s r) k) %s)) :pattern ((select (select %s r) k))))", ks, alloc, h, alloc, h)
	}
	switch key[0] {
	case 'o', 'c':
		return fmt.Sprintf("(forall ((r Int)) (! (=> (<= r %s) (<= (select %s r) %s)) :pattern ((select %s r))))", alloc, h, alloc, h)
	case 'E':
		return fmt.Sprintf("(forall ((r Int) (o Int) (k Int)) (! (=> (<= r %s) (<= (elt_Int (select %s r) o k) %s)) :pattern ((elt_Int (select %s r) o k))))", alloc, h, alloc, h)
	}
	return ""
}

func (x *Exec) fresh(st *State, hint, sort string) string {
	x.nfresh++
	n := fmt.Sprintf("%s!%d", hint, x.nfresh)
	x.emit(st, fmt.Sprintf("(declare-const %s %s)", n, sort))
	return n
}

func (x *Exec) emit(st *State, text string) {
	n := 1
	if st.path != nil {
		n = st.path.n + 1
	}
	st.path = &Path{st.path, text, n}
	x.solverSend(text)
}

func (x *Exec) assume(st *State, t string) {
	if t == "true" || t == "" {
		return
	}
	x.emit(st, "(assert "+t+")")
}

// name abbreviates a long term by a constant.
func (x *Exec) name(st *State, hint, sort, t string) string {
	if len(t) < 48 {
		return t
	}
	n := x.fresh(st, hint, sort)
	x.assume(st, app("=", n, t))
	return n
}

func (x *Exec) nameV(st *State, v V) V {
	if v.T == nil || len(v.L) == 0 {
		return v
	}
	ls := leaves(v.T)
	if len(ls) != len(v.L) {
		return v
	}
	l := make([]string, len(v.L))
	for i := range v.L {
		l[i] = x.name(st, "t", ls[i].sort, v.L[i])
	}
	v.L = l
	return v
}

// freshV makes an arbitrary value of the type.
func (x *Exec) freshV(st *State, hint string, T types.Type) V {
	v := V{T: T}
	if tup, ok := T.(*types.Tuple); ok {
		for i := 0; i < tup.Len(); i++ {
			v.Tup = append(v.Tup, x.freshV(st, hint, tup.At(i).Type()))
		}
		return v
	}
	for _, l := range leaves(T) {
		v.L = append(v.L, x.fresh(st, hint, l.sort))
	}
	x.assume(st, x.typeFacts(st, v))
	return v
}

// typeFacts are the invariants of the type of v (in state st: references exist).
func (x *Exec) typeFacts(st *State, v V) string {
	var r []string
	ls := leaves(v.T)
	for i, l := range ls {
		t := v.L[i]
		switch l.kind {
		case 'u':
			r = append(r, app("<=", "0", t))
			if l.bits <= 32 {
				r = append(r, app("<", t, fmt.Sprint(uint64(1)<<l.bits)))
			}
		case 'r':
			r = append(r, app("<=", t, st.alloc))
		case 'R':
			r = append(r, app("<=", t, st.alloc), app("<=", "0", v.L[i+1]), app("<=", "0", v.L[i+2]), app("<=", v.L[i+2], v.L[i+3]),
				imp(eq(t, "0"), eq(v.L[i+3], "0")))
		}
	}
	return and(r...)
}

func (x *Exec) newRef(st *State) string {
	n := x.fresh(st, "ref", "Int")
	x.assume(st, app("=", n, app("+", st.alloc, "1")))
	st.alloc = n
	return n
}

// addresses ---------------------------------------------------------------

func (x *Exec) addrOf(v V) *Addr {
	if v.A != nil {
		return v.A
	}
	pt, ok := v.T.Underlying().(*types.Pointer)
	if !ok {
		panic(unsupported("address of " + v.T.String()))
	}
	E := pt.Elem()
	switch E.Underlying().(type) {
	case *types.Struct:
		return &Addr{kind: 'o', ref: v.L[0], base: E, n: len(leaves(E)), T: E}
	case *types.Array:
		return &Addr{kind: 'E', ref: v.L[0], base: E.Underlying().(*types.Array).Elem(), T: E}
	}
	return &Addr{kind: 'c', ref: v.L[0], base: E, n: len(leaves(E)), T: E}
}

func elt(sort, arr, off, k string) string {
	if arr == "" {
		return k
	}
	return app("elt_"+sortName(sort), arr, off, k)
}

func sortName(s string) string {
	return strings.NewReplacer("(", "", ")", "", " ", "_").Replace(s)
}

func (x *Exec) useElt(sort string) {
	if x.elts[sort] {
		return
	}
	x.elts[sort] = true
	x.solverDecl(fmt.Sprintf("(declare-fun elt_%s ((Array Int %s) Int Int) %s)", sortName(sort), sort, sort))
}

func (x *Exec) load(st *State, a *Addr) V {
	v := V{T: a.T}
	switch a.kind {
	case 'g':
		ls := leaves(a.glob.Type().Underlying().(*types.Pointer).Elem())
		for i := a.off; i < a.off+a.n; i++ {
			t := x.hget(st, "G|"+a.glob.String()+"|"+fmt.Sprint(i), ls[i].sort)
			if a.aidx != "" {
				t = app("select", t, a.aidx)
			}
			v.L = append(v.L, t)
		}
	case 'o', 'c':
		ls := leaves(a.base)
		for i := a.off; i < a.off+a.n; i++ {
			t := app("select", x.hget(st, hkey(a.kind, a.base, i), "(Array Int "+ls[i].sort+")"), a.ref)
			if a.aidx != "" {
				t = app("select", t, a.aidx)
			}
			v.L = append(v.L, t)
		}
	case 'E':
		ls := leaves(a.base)
		for i := range ls {
			v.L = append(v.L, app("select", x.hget(st, hkey('E', a.base, i), "(Array Int (Array Int "+ls[i].sort+"))"), a.ref))
		}
	case 'e':
		ls := leaves(a.base)
		for i := a.off; i < a.off+a.n; i++ {
			arr := app("select", x.hget(st, hkey('E', a.base, i), "(Array Int (Array Int "+ls[i].sort+"))"), a.ref)
			x.useElt(ls[i].sort)
			t := elt(ls[i].sort, arr, a.off0, a.idx)
			if a.aidx != "" {
				t = app("select", t, a.aidx)
			}
			v.L = append(v.L, t)
		}
	}
	return v
}

func (x *Exec) hset(st *State, key, sort, t string) {
	x.hinit(key, sort)
	if len(t) >= 48 {
		t = x.name(st, "H", sort, t)
	}
	st.heap[key] = t
}

func (x *Exec) store(st *State, a *Addr, v V) {
	upd := func(old, ref, val string) string { return app("store", old, ref, val) }
	switch a.kind {
	case 'g':
		ls := leaves(a.glob.Type().Underlying().(*types.Pointer).Elem())
		for i := a.off; i < a.off+a.n; i++ {
			key := "G|" + a.glob.String() + "|" + fmt.Sprint(i)
			val := v.L[i-a.off]
			if a.aidx != "" {
				val = upd(x.hget(st, key, ls[i].sort), a.aidx, val)
			}
			x.hset(st, key, ls[i].sort, val)
		}
	case 'o', 'c':
		ls := leaves(a.base)
		for i := a.off; i < a.off+a.n; i++ {
			key, sort := hkey(a.kind, a.base, i), "(Array Int "+ls[i].sort+")"
			old := x.hget(st, key, sort)
			val := v.L[i-a.off]
			if a.aidx != "" {
				val = upd(app("select", old, a.ref), a.aidx, val)
			}
			x.hset(st, key, sort, upd(old, a.ref, val))
		}
	case 'E':
		ls := leaves(a.base)
		for i := range ls {
			key, sort := hkey('E', a.base, i), "(Array Int (Array Int "+ls[i].sort+"))"
			x.hset(st, key, sort, upd(x.hget(st, key, sort), a.ref, v.L[i]))
		}
	case 'e':
		ls := leaves(a.base)
		for i := a.off; i < a.off+a.n; i++ {
			key, sort := hkey('E', a.base, i), "(Array Int (Array Int "+ls[i].sort+"))"
			old := x.hget(st, key, sort)
			val := v.L[i-a.off]
			x.useElt(ls[i].sort)
			if a.aidx != "" {
				val = upd(elt(ls[i].sort, app("select", old, a.ref), a.off0, a.idx), a.aidx, val)
			}
			narr := x.name(st, "arr", "(Array Int "+ls[i].sort+")", upd(app("select", old, a.ref), add(a.off0, a.idx), val))
			x.assume(st, eq(elt(ls[i].sort, narr, a.off0, a.idx), val))
			x.hset(st, key, sort, upd(old, a.ref, narr))
		}
	}
}

// maps ----------------------------------------------------------------------

func mapKeys(m types.Type) (dom, ln string, vals []string, ks, dsort string, vsorts []string) {
	mt := m.Underlying().(*types.Map)
	p := tstr(mt.Key()) + "|" + tstr(mt.Elem())
	ks = keySort(mt.Key())
	dom = "MD|" + p
	ln = "ML|" + p
	dsort = "(Array Int (Array " + ks + " Bool))"
	for i, l := range leaves(mt.Elem()) {
		k := fmt.Sprintf("MV|%s|%d", p, i)
		mu.Lock()
		heapKind[k] = l.kind
		mu.Unlock()
		vals = append(vals, k)
		vsorts = append(vsorts, "(Array Int (Array "+ks+" "+l.sort+"))")
	}
	return
}

func (x *Exec) mapDom(st *State, m V) string {
	dom, _, _, _, ds, _ := mapKeys(m.T)
	return app("select", x.hget(st, dom, ds), m.L[0])
}

func (x *Exec) mapLookup(st *State, m V, key string) (V, string) {
	_, _, vals, _, _, vs := mapKeys(m.T)
	v := V{T: m.T.Underlying().(*types.Map).Elem()}
	for i := range vals {
		v.L = append(v.L, app("select", app("select", x.hget(st, vals[i], vs[i]), m.L[0]), key))
	}
	return v, app("select", x.mapDom(st, m), key)
}

func (x *Exec) mapLen(st *State, m V) string {
	_, ln, _, ks, _, _ := mapKeys(m.T)
	t := app("select", x.hget(st, ln, "(Array Int Int)"), m.L[0])
	x.assume(st, app("<=", "0", t))
	x.assume(st, app("=", app("=", t, "0"), app("=", x.mapDom(st, m), "((as const (Array "+ks+" Bool)) false)")))
	return t
}

func (x *Exec) mapUpdate(st *State, m V, key string, v V) {
	dom, ln, vals, _, ds, vs := mapKeys(m.T)
	d := x.hget(st, dom, ds)
	has := app("select", app("select", d, m.L[0]), key)
	l := x.hget(st, ln, "(Array Int Int)")
	x.hset(st, ln, "(Array Int Int)", app("store", l, m.L[0], app("ite", has, app("select", l, m.L[0]), app("+", app("select", l, m.L[0]), "1"))))
	x.hset(st, dom, ds, app("store", d, m.L[0], app("store", app("select", d, m.L[0]), key, "true")))
	for i := range vals {
		o := x.hget(st, vals[i], vs[i])
		x.hset(st, vals[i], vs[i], app("store", o, m.L[0], app("store", app("select", o, m.L[0]), key, v.L[i])))
	}
}

func (x *Exec) mapDelete(st *State, m V, key string) {
	dom, ln, _, _, ds, _ := mapKeys(m.T)
	d := x.hget(st, dom, ds)
	has := app("select", app("select", d, m.L[0]), key)
	l := x.hget(st, ln, "(Array Int Int)")
	x.hset(st, ln, "(Array Int Int)", app("store", l, m.L[0], app("ite", has, app("-", app("select", l, m.L[0]), "1"), app("select", l, m.L[0]))))
	x.hset(st, dom, ds, app("store", d, m.L[0], app("store", app("select", d, m.L[0]), key, "false")))
}

func (x *Exec) makeMap(st *State, T types.Type) V {
	dom, ln, _, ks, ds, _ := mapKeys(T)
	r := x.newRef(st)
	x.hset(st, dom, ds, app("store", x.hget(st, dom, ds), r, "((as const (Array "+ks+" Bool)) false)"))
	x.hset(st, ln, "(Array Int Int)", app("store", x.hget(st, ln, "(Array Int Int)"), r, "0"))
	return V{T: T, L: []string{r}}
}

// constants -------------------------------------------------------------------

func (x *Exec) constV(c *ssa.Const) V {
	T := c.Type()
	if c.Value == nil {
		return zero(T)
	}
	v := V{T: T}
	switch c.Value.Kind() {
	case constant.Bool:
		v.L = []string{fmt.Sprint(constant.BoolVal(c.Value))}
	case constant.Int:
		if b, ok := T.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			v.L = []string{x.floatConst(c.Value.String())}
			break
		}
		s := c.Value.ExactString()
		if strings.HasPrefix(s, "-") {
			s = "(- " + s[1:] + ")"
		}
		v.L = []string{s}
	case constant.Float:
		v.L = []string{x.floatConst(c.Value.String())}
	case constant.String:
		v.L = []string{x.strConst(constant.StringVal(c.Value))}
	default:
		v.L = []string{x.floatConst("complex")}
	}
	return v
}

func (x *Exec) strConst(s string) string {
	if s == "" {
		return "str_empty"
	}
	if n, ok := x.strs[s]; ok {
		return n
	}
	n := fmt.Sprintf("str_%d", len(x.strs))
	x.strs[s] = n
	x.solverDecl("(declare-const " + n + " Str)")
	return n
}

func (x *Exec) floatConst(s string) string {
	if n, ok := x.floats[s]; ok {
		return n
	}
	n := fmt.Sprintf("f64_%d", len(x.floats))
	x.floats[s] = n
	x.solverDecl("(declare-const " + n + " F64)")
	return n
}

package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Parent() != nil {
		p := fnKey(fn.Parent())
		return p + strings.TrimPrefix(fn.Name(), fn.Parent().Name())
	}
	pkg := ""
	var tp *types.Package
	if fn.Pkg != nil {
		tp = fn.Pkg.Pkg
	} else if fn.Object() != nil {
		tp = fn.Object().Pkg()
	}
	if tp != nil {
		pkg = tp.Name()
		if !strings.HasPrefix(tp.Path(), repoMod) {
			pkg = tp.Path()
		}
		pkg += "."
	}
	n := fn.RelString(tp)
	if i := strings.Index(n, "["); i >= 0 { // drop type parameters
		j := strings.LastIndex(n, "]")
		n = n[:i] + n[j+1:]
	}
	return pkg + n
}

func (x *Exec) call(st *State, fr *Frame, in *ssa.Call, k func(*State, *Frame, V)) {
	c := in.Common()
	wrap := func(st *State, fr *Frame, res []V) {
		sig := c.Signature()
		switch sig.Results().Len() {
		case 0:
			k(st, fr, V{T: in.Type()})
		case 1:
			v := res[0]
			v.T = in.Type()
			k(st, fr, v)
		default:
			k(st, fr, V{T: in.Type(), Tup: res})
		}
	}
	var args []V
	for _, a := range c.Args {
		v := x.val(fr, a)
		if v.A == nil && v.C == nil {
			v.T = a.Type()
		}
		args = append(args, v)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		k(st, fr, x.builtin(st, fr, b.Name(), c, args, in.Type()))
		return
	}
	if c.IsInvoke() {
		recv := x.val(fr, c.Value)
		recv.T = c.Value.Type()
		key := ifaceKey(c)
		if ct := x.P.contracts[key]; ct != nil {
			res := x.applyContract(st, ct, append([]V{recv}, args...), c.Signature(), nil)
			wrap(st, fr, res)
			return
		}
		x.assumed["interface method "+key+" without contract: arbitrary result, no effect on the state in view"] = true
		wrap(st, fr, x.arbitrary(st, c.Signature()))
		return
	}
	fn := c.StaticCallee()
	var fv []V
	if fn == nil {
		v := x.val(fr, c.Value)
		if v.C == nil {
			x.assumed["call of a function value in "+fnKey(fr.fn)+": arbitrary result, no effect on the state in view"] = true
			wrap(st, fr, x.arbitrary(st, c.Signature()))
			return
		}
		fn, fv = v.C.fn, v.C.fv
	} else if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		fv = x.val(fr, mc).C.fv
	}
	key := fnKey(fn)
	if ct := x.P.contracts[key]; ct != nil && !ct.inline {
		res := x.applyContract(st, ct, args, fn.Signature, fn)
		wrap(st, fr, res)
		return
	}
	if m, ok := models[key]; ok {
		wrap(st, fr, m(x, st, args, fn))
		return
	}
	if len(fn.Blocks) == 0 || !inRepo(fn) {
		x.assumed["external function "+key+": arbitrary result, no effect on the state in view"] = true
		wrap(st, fr, x.arbitrary(st, fn.Signature))
		return
	}
	x.callFunction(st, fr, fn, args, fv, func(st *State, res []V) {
		wrap(st, fr.clone(), res)
	})
}

func inRepo(fn *ssa.Function) bool {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return strings.HasPrefix(fn.Pkg.Pkg.Path(), repoMod)
	}
	return fn.Object() != nil && fn.Object().Pkg() != nil && strings.HasPrefix(fn.Object().Pkg().Path(), repoMod)
}

func ifaceKey(c *ssa.CallCommon) string {
	T := c.Value.Type()
	if n, ok := types.Unalias(T).(*types.Named); ok {
		p := n.Obj().Pkg()
		if p == nil {
			return n.Obj().Name() + "." + c.Method.Name()
		}
		return p.Name() + "." + n.Obj().Name() + "." + c.Method.Name()
	}
	return short(T) + "." + c.Method.Name()
}

func (x *Exec) arbitrary(st *State, sig *types.Signature) []V {
	x.bumpAlloc(st)
	var r []V
	for i := 0; i < sig.Results().Len(); i++ {
		r = append(r, x.freshV(st, "res", sig.Results().At(i).Type()))
	}
	return r
}

func (x *Exec) bumpAlloc(st *State) {
	a := x.fresh(st, "alloc", "Int")
	x.assume(st, app("<=", st.alloc, a))
	st.alloc = a
}

// applyContract replaces a call by the contract of the callee.
func (x *Exec) applyContract(st *State, ct *Contract, args []V, sig *types.Signature, fn *ssa.Function) []V {
	x.called[ct.key] = true
	env := &Env{x: x, st: st, old: st, binds: map[string]V{}, pkg: ct.pkg, useKey: x.ct.key}
	names := ct.params
	for i, a := range args {
		if a.A != nil && a.A.kind != 'g' && !(a.A.kind == 'o' && a.A.off == 0 && a.A.n == len(leaves(a.A.base))) {
			// interior pointer: usable in the contract through its address only
			env.binds[pname(names, i)] = a
			continue
		}
		env.binds[pname(names, i)] = a
	}
	for i, r := range ct.requires {
		x.oblig(st, "pre", fmt.Sprintf("call of %s: requires %s", ct.key, r.label(i)), env.boolean(r.expr))
	}
	old := st.clone()
	env.old = old
	// effects
	for _, m := range ct.modifies {
		x.havocRegion(st, env, m, old)
	}
	if !ct.pure {
		x.bumpAlloc(st)
	}
	var res []V
	for i := 0; i < sig.Results().Len(); i++ {
		v := x.freshV(st, "res", sig.Results().At(i).Type())
		res = append(res, v)
		env.binds[pname(ct.results, i)] = v
		if sig.Results().Len() == 1 {
			env.binds["result"] = v
		}
		env.binds[fmt.Sprintf("result%d", i)] = v
	}
	env.st = st
	for _, e := range ct.ensures {
		if e.when != "" {
			if !contains(x.ct.uses, e.when) {
				continue
			}
			if !contains(ct.uses, e.when) {
				x.assumed["in "+ct.key+", the verified contract for the fixed arbitrary assignment holds for every assignment: "+e.text] = true
			}
		}
		if strings.HasPrefix(e.name, "assumed") {
			x.assumed["in "+ct.key+", not verified: "+e.text] = true
		}
		x.assume(st, env.boolean(e.expr))
	}
	return res
}

func pname(n []string, i int) string {
	if i < len(n) {
		return n[i]
	}
	return fmt.Sprintf("$%d", i)
}

// havocRegion gives the memory named by a modifies clause arbitrary contents.
func (x *Exec) havocRegion(st *State, env *Env, m clause, old *State) {
	env2 := *env
	env2.st = old
	for _, r := range env2.regions(m.expr) {
		h := x.hget(st, r.key, r.sort)
		if r.ref == "" {
			x.hset(st, r.key, r.sort, x.fresh(st, "hv", r.sort))
			continue
		}
		inner := strings.TrimSuffix(strings.TrimPrefix(r.sort, "(Array Int "), ")")
		c := x.fresh(st, "hv", inner)
		x.hset(st, r.key, r.sort, app("store", h, r.ref, c))
	}
}

func (x *Exec) builtin(st *State, fr *Frame, name string, c *ssa.CallCommon, args []V, T types.Type) V {
	switch name {
	case "len":
		switch c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			return V{L: []string{args[0].L[2]}}
		case *types.Map:
			m := args[0]
			m.T = c.Args[0].Type()
			return V{L: []string{x.mapLen(st, m)}}
		case *types.Basic:
			t := app("strlen", args[0].L[0])
			x.assume(st, app("<=", "0", t))
			return V{L: []string{t}}
		}
	case "cap":
		return V{L: []string{args[0].L[3]}}
	case "append":
		return x.appendV(st, c, args)
	case "copy":
		return x.copyV(st, c, args)
	case "delete":
		m := args[0]
		m.T = c.Args[0].Type()
		k := args[1]
		k.T = m.T.Underlying().(*types.Map).Key()
		x.mapDelete(st, m, keyTerm(k))
		return V{}
	case "min", "max":
		op := "<="
		if name == "max" {
			op = ">="
		}
		t := args[0].L[0]
		if leaves(args[0].T)[0].sort != "Int" {
			return x.freshV(st, name, T)
		}
		for _, a := range args[1:] {
			t = x.name(st, name, "Int", app("ite", app(op, t, a.L[0]), t, a.L[0]))
		}
		return V{L: []string{t}}
	case "print", "println":
		return V{}
	case "ssa:wrapnilchk":
		return args[0]
	}
	panic(unsupported("builtin " + name))
}

func (x *Exec) appendV(st *State, c *ssa.CallCommon, args []V) V {
	s, t := args[0], args[1]
	sl, ok := c.Args[0].Type().Underlying().(*types.Slice)
	if !ok {
		panic(unsupported("append"))
	}
	if _, ok := c.Args[1].Type().Underlying().(*types.Slice); !ok {
		panic(unsupported("append of string"))
	}
	E := sl.Elem()
	n := t.L[2]
	slen := s.L[2]
	newlen := x.name(st, "len", "Int", add(slen, n))
	fits := x.fresh(st, "fits", "Bool")
	// slices that existed before the call of the function under contract are copied (assumption: no spare capacity shared)
	x.assume(st, eq(fits, or(eq(n, "0"), and(app(">", s.L[0], x.alloc0), app("<=", newlen, s.L[3])))))
	nr := x.newRef(st)
	r := x.fresh(st, "aref", "Int")
	off := x.fresh(st, "aoff", "Int")
	cp := x.fresh(st, "acap", "Int")
	x.assume(st, eq(r, app("ite", fits, s.L[0], nr)))
	x.assume(st, eq(off, app("ite", fits, s.L[1], "0")))
	x.assume(st, and(imp(fits, eq(cp, s.L[3])), app("<=", newlen, cp)))
	for i, l := range leaves(E) {
		key, sort := hkey('E', E, i), "(Array Int (Array Int "+l.sort+"))"
		h := x.hget(st, key, sort)
		x.useElt(l.sort)
		as := "(Array Int " + l.sort + ")"
		oa := x.name(st, "oa", as, app("select", h, s.L[0]))
		ta := x.name(st, "ta", as, app("select", h, t.L[0]))
		na := x.fresh(st, "na", as)
		f := "elt_" + sortName(l.sort)
		x.assume(st, fmt.Sprintf("(forall ((k Int)) (! (=> (and (<= 0 k) (< k %s)) (= (%s %s %s k) (%s %s %s k))) :pattern ((%s %s %s k)) :pattern ((%s %s %s k))))",
			slen, f, na, off, f, oa, s.L[1], f, na, off, f, oa, s.L[1]))
		if isNum(n) && len(n) == 1 && n <= "4" {
			for j := 0; j < int(n[0]-'0'); j++ {
				x.assume(st, eq(elt(l.sort, na, off, add(slen, fmt.Sprint(j))), elt(l.sort, ta, t.L[1], fmt.Sprint(j))))
			}
		} else {
			x.assume(st, fmt.Sprintf("(forall ((k Int)) (! (=> (and (<= 0 k) (< k %s)) (= (%s %s %s (+ %s k)) (%s %s %s k))) :pattern ((%s %s %s k))))",
				n, f, na, off, slen, f, ta, t.L[1], f, ta, t.L[1]))
			x.assume(st, fmt.Sprintf("(forall ((k Int)) (! (=> (and (<= %s k) (< k %s)) (= (%s %s %s k) (%s %s %s (- k %s)))) :pattern ((%s %s %s k))))",
				slen, newlen, f, na, off, f, ta, t.L[1], slen, f, na, off))
		}
		x.assume(st, fmt.Sprintf("(=> %s (forall ((k Int)) (! (=> (or (< k (+ %s %s)) (>= k (+ %s %s))) (= (select %s k) (select %s k))) :pattern ((select %s k)))))",
			fits, s.L[1], slen, s.L[1], newlen, na, oa, na))
		x.hset(st, key, sort, app("store", h, r, na))
	}
	return V{L: []string{r, off, newlen, cp}}
}

func (x *Exec) copyV(st *State, c *ssa.CallCommon, args []V) V {
	d, s := args[0], args[1]
	sl, ok := c.Args[0].Type().Underlying().(*types.Slice)
	if !ok {
		panic(unsupported("copy"))
	}
	if _, ok := c.Args[1].Type().Underlying().(*types.Slice); !ok {
		panic(unsupported("copy of string"))
	}
	E := sl.Elem()
	n := x.fresh(st, "n", "Int")
	x.assume(st, eq(n, app("ite", app("<=", d.L[2], s.L[2]), d.L[2], s.L[2])))
	for i, l := range leaves(E) {
		key, sort := hkey('E', E, i), "(Array Int (Array Int "+l.sort+"))"
		h := x.hget(st, key, sort)
		x.useElt(l.sort)
		as := "(Array Int " + l.sort + ")"
		oa := x.name(st, "oa", as, app("select", h, d.L[0]))
		ta := x.name(st, "ta", as, app("select", h, s.L[0]))
		na := x.fresh(st, "na", as)
		f := "elt_" + sortName(l.sort)
		x.assume(st, fmt.Sprintf("(forall ((k Int)) (! (=> (and (<= 0 k) (< k %s)) (= (%s %s %s k) (%s %s %s k))) :pattern ((%s %s %s k)) :pattern ((%s %s %s k))))",
			n, f, na, d.L[1], f, ta, s.L[1], f, na, d.L[1], f, ta, s.L[1]))
		x.assume(st, fmt.Sprintf("(forall ((k Int)) (! (=> (or (< k %s) (>= k (+ %s %s))) (= (select %s k) (select %s k))) :pattern ((select %s k))))",
			d.L[1], d.L[1], n, na, oa, na))
		x.assume(st, fmt.Sprintf("(forall ((k Int)) (! (=> (or (< k 0) (>= k %s)) (= (%s %s %s k) (%s %s %s k))) :pattern ((%s %s %s k))))",
			n, f, na, d.L[1], f, oa, d.L[1], f, na, d.L[1]))
		x.hset(st, key, sort, app("store", h, d.L[0], na))
	}
	return V{L: []string{n}}
}

// permuted gives the slice arbitrary contents with the same set of elements.
func permuted(x *Exec, st *State, args []V, fn *ssa.Function) []V {
	s := args[0]
	sl, ok := s.T.Underlying().(*types.Slice)
	if !ok {
		panic(unsupported("sort of " + s.T.String()))
	}
	E := sl.Elem()
	ls := leaves(E)
	x.nfresh++
	p, q := fmt.Sprintf("perm!%d", x.nfresh), fmt.Sprintf("mrep!%d", x.nfresh)
	x.emit(st, fmt.Sprintf("(declare-fun %s (Int) Int)", p))
	x.emit(st, fmt.Sprintf("(declare-fun %s (Int) Int)", q))
	n := s.L[2]
	for i, l := range ls {
		key, sort := hkey('E', E, i), "(Array Int (Array Int "+l.sort+"))"
		h := x.hget(st, key, sort)
		x.useElt(l.sort)
		as := "(Array Int " + l.sort + ")"
		oa := x.name(st, "oa", as, app("select", h, s.L[0]))
		na := x.fresh(st, "na", as)
		f := "elt_" + sortName(l.sort)
		x.assume(st, fmt.Sprintf("(forall ((k Int)) (! (=> (and (<= 0 k) (< k %s)) (and (<= 0 (%s k)) (< (%s k) %s) (= (%s (%s k)) k) (= (%s %s %s k) (%s %s %s (%s k))))) :pattern ((%s %s %s k))))",
			n, p, p, n, q, p, f, na, s.L[1], f, oa, s.L[1], p, f, na, s.L[1]))
		x.assume(st, fmt.Sprintf("(forall ((k Int)) (! (=> (and (<= 0 k) (< k %s)) (and (<= 0 (%s k)) (< (%s k) %s) (= (%s (%s k)) k) (= (%s %s %s k) (%s %s %s (%s k))))) :pattern ((%s %s %s k))))",
			n, q, q, n, p, q, f, oa, s.L[1], f, na, s.L[1], q, f, oa, s.L[1]))
		x.assume(st, fmt.Sprintf("(forall ((k Int)) (! (=> (or (< k %s) (>= k (+ %s %s))) (= (select %s k) (select %s k))) :pattern ((select %s k))))",
			s.L[1], s.L[1], n, na, oa, na))
		x.hset(st, key, sort, app("store", h, s.L[0], na))
	}
	x.assumed["library sorting functions: the result is a permutation of the argument (its order is not used)"] = true
	return nil
}

func newError(x *Exec, st *State, args []V, fn *ssa.Function) []V {
	r := x.arbitrary(st, fn.Signature)
	x.assume(st, not(eq(r[0].L[0], "0")))
	return r
}

func cloneSlice(x *Exec, st *State, args []V, fn *ssa.Function) []V {
	s := args[0]
	E := s.T.Underlying().(*types.Slice).Elem()
	r := x.newRef(st)
	cp := x.fresh(st, "cap", "Int")
	x.assume(st, app("<=", s.L[2], cp))
	ref := x.name(st, "cref", "Int", app("ite", eq(s.L[0], "0"), "0", r))
	cp2 := x.fresh(st, "cap", "Int")
	x.assume(st, eq(cp2, app("ite", eq(s.L[0], "0"), "0", cp)))
	for i, l := range leaves(E) {
		key, sort := hkey('E', E, i), "(Array Int (Array Int "+l.sort+"))"
		h := x.hget(st, key, sort)
		x.useElt(l.sort)
		as := "(Array Int " + l.sort + ")"
		oa := x.name(st, "oa", as, app("select", h, s.L[0]))
		na := x.fresh(st, "na", as)
		f := "elt_" + sortName(l.sort)
		x.assume(st, fmt.Sprintf("(forall ((k Int)) (! (=> (and (<= 0 k) (< k %s)) (= (%s %s 0 k) (%s %s %s k))) :pattern ((%s %s 0 k)) :pattern ((%s %s %s k))))",
			s.L[2], f, na, f, oa, s.L[1], f, na, f, oa, s.L[1]))
		x.hset(st, key, sort, app("store", h, r, na))
	}
	return []V{{T: s.T, L: []string{ref, "0", s.L[2], cp2}}}
}

type model func(x *Exec, st *State, args []V, fn *ssa.Function) []V

var models = map[string]model{
	"slices.Sort":             permuted,
	"slices.SortFunc":         permuted,
	"slices.Clone":            cloneSlice,
	"errorx.BadInput":         newError,
	"errorx.IllegalState":     newError,
	"errorx.BadFormulaSort":   newError,
	"errorx.UnknownEnumValue": newError,
	"errorx.NilFactory":       newError,
}

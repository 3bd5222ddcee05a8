package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Cand is a candidate loop invariant; the greatest inductive subset is used.
type Cand struct {
	id     string
	text   string
	active bool
	user   bool // from a contract, or a frame condition
	inst   *loopInst
	eval   func(st *State, phis []V) string
}

type loopInst struct {
	key    string
	header *ssa.BasicBlock
	entry  *State
	head   *State
	cands  []*Cand
	depth  int
}

type scopeItem struct {
	name string
	T    types.Type
	phi  bool
	get  func(st *State, phis []V) V
	pos  int
	oph  bool // loop variable of an enclosing loop
}

func (x *Exec) loopEnter(st *State, fr *Frame, h *ssa.BasicBlock, phis []*ssa.Phi, in []V) {
	key := fmt.Sprintf("%s#%d", fr.fn.String(), h.Index)
	x.nloops++
	if x.nloops > 600 {
		panic(unsupported("too many loop instances"))
	}
	inst := &loopInst{key: key, header: h, entry: st.clone(), depth: fr.depth}
	// arbitrary iteration
	st2 := st.clone()
	x.bumpAlloc(st2)
	hv := make([]V, len(phis))
	for j, p := range phis {
		if in[j].A != nil && in[j].L[0] == "?" {
			panic(unsupported("loop-carried interior pointer"))
		}
		hv[j] = x.freshV(st2, "phi", p.Type())
		if in[j].C != nil {
			panic(unsupported("loop-carried function value"))
		}
	}
	mods := x.loopMods[key]
	var keys []string
	for k := range mods {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		s := x.hsorts[k]
		if s == "" {
			s = x.modSorts[k]
			x.hinit(k, s)
		}
		st2.heap[k] = x.fresh(st2, "L", s)
		x.assume(st2, x.refFacts(k, st2.heap[k], st2.alloc))
		x.hget(inst.entry, k, s)
	}
	// candidates
	scope := x.scope(fr, h, phis)
	x.candidates(inst, fr, scope, keys, phis, in, st2)
	for _, c := range inst.cands {
		t := c.eval(st, in)
		o := x.oblig(st, "cand", "loop invariant holds initially: "+c.text, t)
		o.cand = c
	}
	for _, c := range inst.cands {
		x.assume(st2, imp(c.id, c.eval(st2, hv)))
	}
	inst.head = st2.clone()
	fr2 := fr.clone()
	for j, p := range phis {
		fr2.regs[p] = hv[j]
	}
	fr2.loops[h] = inst
	x.run(st2, fr2, h, len(phis))
}

func (x *Exec) loopBack(st *State, fr *Frame, inst *loopInst, in []V) {
	for k, t := range st.heap {
		if inst.head.heap[k] != t && !x.loopMods[inst.key][k] {
			if x.loopMods[inst.key] == nil {
				x.loopMods[inst.key] = map[string]bool{}
			}
			x.loopMods[inst.key][k] = true
			x.modSorts[k] = x.hsorts[k]
			x.restart = true
		}
	}
	if x.restart {
		return
	}
	for _, c := range inst.cands {
		o := x.oblig(st, "cand", "loop invariant is preserved: "+c.text, c.eval(st, in))
		o.cand = c
	}
}

// scope lists the values a loop invariant may mention.
func (x *Exec) scope(fr *Frame, h *ssa.BasicBlock, phis []*ssa.Phi) []scopeItem {
	var r []scopeItem
	for j, p := range phis {
		j := j
		r = append(r, scopeItem{name: phiName(p), T: p.Type(), phi: true, get: func(st *State, ph []V) V { return ph[j] }})
	}
	add := func(v ssa.Value, w V, pos int) {
		if len(w.L) == 0 || w.Tup != nil || w.It != nil {
			return
		}
		w.T = v.Type()
		if w.A == nil || w.L[0] != "?" {
			ph, oph := v.(*ssa.Phi)
			if oph && !encloses(ph.Block(), h) {
				if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && ph.Parent() == h.Parent() {
					return // the counter of a finished loop
				}
				oph = false
			}
			r = append(r, scopeItem{name: v.Name(), T: v.Type(), get: func(*State, []V) V { return w }, pos: pos, oph: oph})
		}
		// the content of cells (captured and address-taken variables)
		if pt, ok := v.Type().Underlying().(*types.Pointer); ok {
			if _, isAlloc := v.(*ssa.Alloc); isAlloc || isFree(v) || isParam(v) {
				switch pt.Elem().Underlying().(type) {
				case *types.Struct, *types.Array:
				default:
					a := x.addrOf(w)
					r = append(r, scopeItem{name: "*" + v.Name(), T: pt.Elem(), phi: true, get: func(st *State, _ []V) V { return x.load(st, a) }, pos: pos})
				}
			}
		}
	}
	for f := fr; f != nil; f = f.up {
		var vs []ssa.Value
		for v := range f.regs {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
		for _, v := range vs {
			if f == fr {
				if in, ok := v.(ssa.Instruction); ok {
					if p, ok := v.(*ssa.Phi); ok && p.Block() == h {
						continue
					}
					if in.Block() != nil && !in.Block().Dominates(h) {
						continue
					}
				}
			} else {
				// values of calling functions: parameters and cells only
				switch v.(type) {
				case *ssa.Parameter, *ssa.Alloc, *ssa.Phi:
				default:
					continue
				}
			}
			add(v, f.regs[v], 0)
		}
	}
	return r
}

// encloses reports whether the loop with header a contains block b.
func encloses(a, b *ssa.BasicBlock) bool {
	if a.Parent() != b.Parent() {
		return true // a loop of the calling function
	}
	if a == b || !a.Dominates(b) {
		return a == b
	}
	seen := map[*ssa.BasicBlock]bool{a: true}
	var reach func(x *ssa.BasicBlock) bool
	reach = func(x *ssa.BasicBlock) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if s == a || reach(s) {
				return true
			}
		}
		return false
	}
	return reach(b)
}

func isFree(v ssa.Value) bool  { _, ok := v.(*ssa.FreeVar); return ok }
func isParam(v ssa.Value) bool { _, ok := v.(*ssa.Parameter); return ok }

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func (x *Exec) candidates(inst *loopInst, fr *Frame, scope []scopeItem, keys []string, phis []*ssa.Phi, in []V, head *State) {
	seen := map[string]bool{}
	user := false
	addc := func(text string, f func(st *State, ph []V) string) {
		// two candidates with the same term at the loop head are one
		c := &Cand{text: text, active: true, inst: inst, eval: f, user: user || strings.HasPrefix(text, "frame ")}
		probe := f(inst.entry, in)
		if seen[text] {
			return
		}
		_ = probe
		seen[text] = true
		x.ncand++
		c.id = fmt.Sprintf("act!%d", x.ncand)
		x.solverDecl("(declare-const " + c.id + " Bool)")
		inst.cands = append(inst.cands, c)
		x.cands = append(x.cands, c)
	}
	// user templates
	user = true
	for ti := range x.ct.invs {
		t := &x.ct.invs[ti]
		x.instantiate(inst, fr, t, scope, addc)
	}
	user = false
	// integers
	isInt := func(T types.Type) bool {
		b, ok := T.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	}
	var lens []scopeItem
	for _, s := range scope {
		if _, ok := s.T.Underlying().(*types.Slice); ok {
			lens = append(lens, s)
		}
	}
	if len(lens) > 8 {
		lens = lens[:8]
	}
	for j, p := range phis {
		j := j
		if isInt(p.Type()) {
			init := in[j].L[0]
			addc(phiName(p)+" >= its initial value", func(st *State, ph []V) string { return app(">=", ph[j].L[0], init) })
			addc(phiName(p)+" <= its initial value", func(st *State, ph []V) string { return app("<=", ph[j].L[0], init) })
			for _, l := range lens {
				l := l
				addc(phiName(p)+" <= len("+l.name+")", func(st *State, ph []V) string { return app("<=", ph[j].L[0], l.get(st, ph).L[2]) })
				addc(phiName(p)+" < len("+l.name+")", func(st *State, ph []V) string { return app("<", ph[j].L[0], l.get(st, ph).L[2]) })
				if l.phi {
					addc(phiName(p)+" == len("+l.name+")", func(st *State, ph []V) string { return eq(ph[j].L[0], l.get(st, ph).L[2]) })
					addc(phiName(p)+"+1 == len("+l.name+")", func(st *State, ph []V) string { return eq(add(ph[j].L[0], "1"), l.get(st, ph).L[2]) })
					addc(phiName(p)+"+1 >= len("+l.name+")", func(st *State, ph []V) string { return app(">=", add(ph[j].L[0], "1"), l.get(st, ph).L[2]) })
				}
			}
			for _, s := range scope {
				s := s
				if isInt(s.T) && !s.phi && short(s.T) == short(p.Type()) {
					addc(phiName(p)+" <= "+s.name, func(st *State, ph []V) string { return app("<=", ph[j].L[0], s.get(st, ph).L[0]) })
					addc(phiName(p)+" < "+s.name, func(st *State, ph []V) string { return app("<", ph[j].L[0], s.get(st, ph).L[0]) })
				}
			}
		}
	}
	// slices that grow are local; pointers and maps too
	for _, s := range scope {
		s := s
		if !s.phi {
			continue
		}
		if _, ok := s.T.Underlying().(*types.Slice); ok {
			addc(s.name+" is local", func(st *State, ph []V) string {
				v := s.get(st, ph)
				return or(app(">", v.L[0], x.alloc0), eq(v.L[3], "0"))
			})
			e0 := inst.entry
			addc(s.name+" is new in the loop or its initial value", func(st *State, ph []V) string {
				v := s.get(st, ph)
				return or(app(">", v.L[0], e0.alloc), eq(v.L[0], s.get(e0, in).L[0]), eq(v.L[3], "0"))
			})
			addc(s.name+" starts at 0", func(st *State, ph []V) string { return eq(s.get(st, ph).L[1], "0") })
			addc("len("+s.name+") is at least its initial value", func(st *State, ph []V) string {
				return app(">=", s.get(st, ph).L[2], s.get(e0, in).L[2])
			})
			// different growing slices do not share memory
			for _, t := range scope {
				t := t
				if t.phi && t.name > s.name && tstr(t.T) == tstr(s.T) {
					addc(s.name+" and "+t.name+" are separate", func(st *State, ph []V) string {
						a, b := s.get(st, ph), t.get(st, ph)
						return or(not(eq(a.L[0], b.L[0])), eq(a.L[3], "0"), eq(b.L[3], "0"))
					})
				}
			}
			for _, t := range scope {
				t := t
				if t.phi {
					continue
				}
				if _, ok := t.T.Underlying().(*types.Slice); ok {
					addc("len("+s.name+") <= len("+t.name+")", func(st *State, ph []V) string {
						return app("<=", s.get(st, ph).L[2], t.get(st, ph).L[2])
					})
				}
			}
			for _, t := range scope {
				t := t
				if t.phi && t.name > s.name {
					if _, ok := t.T.Underlying().(*types.Slice); ok {
						addc("len("+s.name+") == len("+t.name+")", func(st *State, ph []V) string {
							return eq(s.get(st, ph).L[2], t.get(st, ph).L[2])
						})
					}
				}
			}
		}
	}
	for _, b := range inst.header.Instrs {
		nx, ok := b.(*ssa.Next)
		if !ok {
			continue
		}
		it := fr.regs[nx.Iter].It
		if it == nil || it.visited == "" {
			continue
		}
		ks := keySort(it.m.T.Underlying().(*types.Map).Key())
		x.nfresh++
		q := fmt.Sprintf("v?%d", x.nfresh)
		addc("visited keys are keys", func(st *State, ph []V) string {
			v := st.heap[it.visited]
			return fmt.Sprintf("(forall ((%s %s)) (! (=> (select %s %s) (select %s %s)) :pattern ((select %s %s))))", q, ks, v, q, it.dom0, q, v, q)
		})
	}
	// frames
	excl := map[string][]string{}
	env := &Env{x: x, st: inst.entry, old: x.old, binds: x.binds, pkg: x.ct.pkg}
	for _, m := range x.ct.modifies {
		func() {
			defer func() { recover() }()
			for _, r := range env.regions(m.expr) {
				excl[r.key] = append(excl[r.key], r.ref)
			}
		}()
	}
	for _, k := range keys {
		k := k
		sort := x.hsorts[k]
		if !strings.HasPrefix(sort, "(Array Int ") || strings.HasPrefix(k, "G|") || strings.HasPrefix(k, "IT|") {
			continue
		}
		h0 := x.hget(inst.entry, k, sort)
		x.nfresh++
		q := fmt.Sprintf("r?%d", x.nfresh)
		frame := func(cond string) func(st *State, ph []V) string {
			return func(st *State, ph []V) string {
				h := x.hget(st, k, sort)
				if h == h0 {
					return "true"
				}
				return fmt.Sprintf("(forall ((%s Int)) (! (=> %s (= (select %s %s) (select %s %s))) :pattern ((select %s %s))))", q, cond, h, q, h0, q, h, q)
			}
		}
		kn := heapName(k)
		addc("frame "+kn+": objects that existed at the call are unchanged", frame(app("<=", q, x.alloc0)))
		addc("frame "+kn+": objects that existed at loop entry are unchanged", frame(app("<=", q, inst.entry.alloc)))
		var ex []string
		wild := false
		for _, r := range excl[k] {
			if r == "" {
				wild = true
			} else {
				ex = append(ex, not(eq(q, r)))
			}
		}
		if wild {
			continue
		}
		if len(ex) > 0 {
			addc("frame "+kn+": modifies clause", frame(and(append([]string{app("<=", q, x.alloc0)}, ex...)...)))
			addc("frame "+kn+": modifies clause at loop entry", frame(and(append([]string{app("<=", q, inst.entry.alloc)}, ex...)...)))
		}
		// references in scope that point into this heap
		var refs []string
		for _, s := range scope {
			if !pointsInto(s.T, k) {
				continue
			}
			r := s.get(inst.entry, in).L[0]
			refs = append(refs, r)
			name := s.name
			addc("frame "+kn+": "+name+" is unchanged", func(st *State, ph []V) string {
				h := x.hget(st, k, sort)
				if h == h0 {
					return "true"
				}
				return eq(app("select", h, r), app("select", h0, r))
			})
			addc("frame "+kn+": all but "+name+" is unchanged", frame(and(append([]string{app("<=", q, inst.entry.alloc), not(eq(q, r))}, ex...)...)))
		}
		if len(refs) > 1 {
			all := append([]string{app("<=", q, inst.entry.alloc)}, ex...)
			for _, r := range refs {
				all = append(all, or(not(eq(q, r)), app("<=", r, x.alloc0)))
			}
			addc("frame "+kn+": all but the local objects in scope is unchanged", frame(and(all...)))
		}
	}
}

func heapName(k string) string {
	return strings.ReplaceAll(k, repoMod+"/", "")
}

func pointsInto(T types.Type, key string) bool {
	switch u := T.Underlying().(type) {
	case *types.Slice:
		return strings.HasPrefix(key, "E|"+tstr(u.Elem())+"|")
	case *types.Map:
		p := tstr(u.Key()) + "|" + tstr(u.Elem())
		return strings.HasPrefix(key, "MD|"+p) || strings.HasPrefix(key, "MV|"+p+"|") || strings.HasPrefix(key, "ML|"+p)
	case *types.Pointer:
		if _, ok := u.Elem().Underlying().(*types.Struct); ok {
			return strings.HasPrefix(key, "o|"+tstr(u.Elem())+"|")
		}
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return strings.HasPrefix(key, "E|"+tstr(a.Elem())+"|")
		}
		return strings.HasPrefix(key, "c|"+tstr(u.Elem())+"|")
	}
	return false
}

// instantiate adds the instances of a template at a loop.
func (x *Exec) instantiate(inst *loopInst, fr *Frame, t *Template, scope []scopeItem, addc func(string, func(*State, []V) string)) {
	var choices [][]scopeItem
	for _, v := range t.vars {
		var c []scopeItem
		for _, s := range scope {
			if matchType(v.typ, s) {
				c = append(c, s)
				if v.typ == "idx" && (s.phi || s.oph) {
					s2 := s
					get := s.get
					s2.name += "+1"
					s2.get = func(st *State, ph []V) V { return intV(add(get(st, ph).L[0], "1")) }
					c = append(c, s2)
				}
			}
		}
		if v.typ == "idx" {
			for _, k := range []string{} {
				_ = k
			}
		}
		if len(c) == 0 {
			return
		}
		choices = append(choices, c)
	}
	n := 1
	for _, c := range choices {
		n *= len(c)
	}
	if n > 300 {
		n = 300
	}
	iter := ""
	for _, b := range inst.header.Instrs {
		if nx, ok := b.(*ssa.Next); ok {
			if it := fr.regs[nx.Iter].It; it != nil {
				iter = it.visited
			}
		}
	}
	pick := make([]int, len(choices))
	for {
		items := make([]scopeItem, len(choices))
		var names []string
		for i := range choices {
			items[i] = choices[i][pick[i]]
			names = append(names, t.vars[i].name+":="+items[i].name)
		}
		f := func(st *State, ph []V) string {
			b := map[string]V{}
			for k, v := range x.binds {
				b[k] = v
			}
			for i := range items {
				b[t.vars[i].name] = items[i].get(st, ph)
			}
			if iter != "" {
				b["$visited"] = V{T: types.Typ[types.Int], L: []string{st.heap[iter]}}
				b["$nvisited"] = V{T: types.Typ[types.Int], L: []string{st.heap[iter+"|n"]}}
			}
			env := &Env{x: x, st: st, old: x.old, entry: inst.entry, binds: b, pkg: x.ct.pkg}
			return env.boolean(t.expr)
		}
		ok := true
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, is := r.(specErr); is {
						ok = false
						if x.P.verbose {
							fmt.Println("template", t.text, strings.Join(names, " "), r)
						}
						return
					}
					panic(r)
				}
			}()
			probePh := make([]V, 0)
			_ = probePh
			f(inst.entry, x.probe(inst))
		}()
		for i := range items {
			for j := 0; j < i; j++ {
				if strings.TrimSuffix(items[i].name, "+1") == strings.TrimSuffix(items[j].name, "+1") {
					ok = false
				}
			}
		}
		if ok {
			addc(t.text+" ["+strings.Join(names, " ")+"]", f)
		}
		n--
		if n <= 0 {
			return
		}
		i := len(pick) - 1
		for ; i >= 0; i-- {
			pick[i]++
			if pick[i] < len(choices[i]) {
				break
			}
			pick[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

func (x *Exec) probe(inst *loopInst) []V {
	var r []V
	for _, p := range phisOf(inst.header) {
		v := zero(p.Type())
		r = append(r, v)
	}
	return r
}

func matchType(t string, s scopeItem) bool {
	T := short(s.T)
	b, isB := s.T.Underlying().(*types.Basic)
	switch t {
	case "idx":
		return isB && b.Info()&types.IsInteger != 0 && (s.phi || s.oph)
	case "acc":
		return isB && b.Info()&types.IsInteger != 0 && s.phi
	case "int":
		return isB && b.Info()&types.IsInteger != 0
	case "flag":
		return isB && b.Info()&types.IsBoolean != 0 && s.phi
	}
	if strings.HasPrefix(t, "phi ") {
		return s.phi && T == t[4:]
	}
	return T == t
}

// Derived facts: depth, counts, variables, literals, profiles. vx and lx are an arbitrary fixed variable and literal.
use sem enc facts
prop F04
define vocc(s, f) = iff(has(s.elements, vx), occv(f)) && ref(s.elements) != 0
define locc(s, f) = iff(has(s.elements, lx), occl(f)) && ref(s.elements) != 0
define fcok(sort, f, v) = implies(sort == FuncVariables, typeis(v, "*formula.VarSet") && vocc(unbox(v, "*formula.VarSet"), f)) && implies(sort == FuncLiterals, typeis(v, "*formula.LitSet") && locc(unbox(v, "*formula.LitSet"), f)) && implies(sort == FuncDepth, typeis(v, "int") && unbox(v, "int") == depth(f)) && implies(sort == FuncNumberOfNodes, typeis(v, "int") && unbox(v, "int") == nnodes(f)) && implies(sort == FuncNumberOfAtoms, typeis(v, "int") && unbox(v, "int") == natoms(f))
func formula.LookupFunctionCache(fac, sort, f) (c, found)
  trusted the cache holds only values passed to SetFunctionCache, whose contract demands fcok
  ensures implies(found, fcok(sort, f, c))
func formula.SetFunctionCache(fac, sort, f, v)
  trusted writes one map entry; its precondition is what LookupFunctionCache promises
  requires fcok(sort, f, v)
func formula.Depth(fac, f) (r)
  requires ok(f)
  ensures r == depth(f)
  inv (i idx, m phi int): m == mdepth(f, i)
func formula.NumberOfNodes(fac, f) (r)
  requires ok(f)
  ensures r == nnodes(f)
  inv (i idx, m phi int): m == 1 + snodes(f, i)
func formula.NumberOfAtoms(fac, f) (r)
  requires ok(f)
  ensures r == natoms(f)
  inv (i idx, m phi int): m == satoms(f, i)
func formula.(*fset).Empty(f) (r)
  pure
  ensures iff(r, len(f.elements) == 0)
func formula.(*fset).Size(f) (r)
  pure
  ensures r == len(f.elements)
func formula.(*fset).Contains(f, e) (r)
  pure
  ensures iff(r, has(f.elements, e))
func formula.(*fset).ContainsAll(f, g) (r)
  pure
  ensures iff(r, allkeys(k, g.elements, has(f.elements, k)))
  inv (): allkeys(k, g.elements, implies(visited(k), has(f.elements, k)))
func formula.(*mutableFset).Add(f, e)
  requires ref(f.fset.elements) != 0
  modifies f.fset.content, mapof(f.fset.elements)
  ensures isnil(f.fset.content)
  ensures all(k, iff(has(f.fset.elements, k), old(has(f.fset.elements, k)) || k == e), has(f.fset.elements, k))
func formula.(*mutableFset).AddAll(f, g)
  requires ref(f.fset.elements) != 0
  modifies f.fset.content, mapof(f.fset.elements)
  ensures isnil(f.fset.content)
  ensures all(k, iff(has(f.fset.elements, k), old(has(f.fset.elements, k)) || old(has(g.elements, k))), has(f.fset.elements, k))
  inv (): all(k, iff(has(f.fset.elements, k), old(has(f.fset.elements, k)) || visited(k)), has(f.fset.elements, k)) && all(k, implies(visited(k), old(has(g.elements, k))), visited(k))
func formula.(*mutableFset).AddAllElements(f, es)
  requires ref(f.fset.elements) != 0
  modifies f.fset.content, mapof(f.fset.elements)
  ensures isnil(f.fset.content)
  ensures all(k, iff(has(f.fset.elements, k), old(has(f.fset.elements, k)) || exists(j, 0, len(*es), (*es)[j] == k)), has(f.fset.elements, k))
  inv (i idx): all(k, iff(has(f.fset.elements, k), old(has(f.fset.elements, k)) || exists(j, 0, i, (*es)[j] == k)), has(f.fset.elements, k))
func formula.(*mutableFset).Remove(f, e)
  requires ref(f.fset.elements) != 0
  modifies f.fset.content, mapof(f.fset.elements)
  ensures isnil(f.fset.content)
  ensures all(k, iff(has(f.fset.elements, k), old(has(f.fset.elements, k)) && k != e), has(f.fset.elements, k))
func formula.(*mutableFset).RemoveAll(f, g)
  requires ref(f.fset.elements) != 0
  modifies f.fset.content, mapof(f.fset.elements)
  ensures isnil(f.fset.content)
  ensures all(k, iff(has(f.fset.elements, k), old(has(f.fset.elements, k)) && !old(has(g.elements, k))), has(f.fset.elements, k))
  inv (): all(k, iff(has(f.fset.elements, k), old(has(f.fset.elements, k)) && !visited(k)), has(f.fset.elements, k)) && all(k, implies(visited(k), old(has(g.elements, k))), visited(k))
func formula.(*mutableFset).RemoveAllElements(f, es)
  requires ref(f.fset.elements) != 0
  modifies f.fset.content, mapof(f.fset.elements)
  ensures isnil(f.fset.content)
  ensures all(k, iff(has(f.fset.elements, k), old(has(f.fset.elements, k)) && !exists(j, 0, len(*es), (*es)[j] == k)), has(f.fset.elements, k))
  inv (i idx): all(k, iff(has(f.fset.elements, k), old(has(f.fset.elements, k)) && !exists(j, 0, i, (*es)[j] == k)), has(f.fset.elements, k))
func formula.(*mutableFset).AsImmutable(f) (r)
  pure
  ensures r == f.fset
define occ(m, k) = ite(has(m, k), m[k], 0)
define contentof(s) = len(s.content) == len(s.elements) && forall(k, 0, len(s.content), has(s.elements, s.content[k])) && allkeys(e, s.elements, exists(j, 0, len(s.content), s.content[j] == e))
func formula.(*fset).setContent(f)
  modifies f.content
  ensures len(f.content) == len(f.elements)
  ensures forall(k, 0, len(f.content), has(f.elements, f.content[k]))
  ensures allkeys(e, f.elements, exists(j, 0, len(f.content), f.content[j] == e))
  inv (i phi int): i == nvisited()
  inv (i phi int): forall(k, 0, i, visited(f.content[k]))
  inv (i phi int): all(e, implies(visited(e), exists(j, 0, i, f.content[j] == e)), visited(e))
func formula.NewVarSet(vs) (r)
  ensures allocated(r) && allocated(r.elements) && ref(r.elements) != 0
  ensures fresh(r) && fresh(r.elements) && all(e, iff(has(r.elements, e), exists(j, 0, len(vs), vs[j] == e)), has(r.elements, e))
  inv (i idx, fs *formula.VarSet): all(e, iff(has(fs.elements, e), exists(j, 0, i, vs[j] == e)), has(fs.elements, e))
func formula.NewLitSet(vs) (r)
  ensures contentof(r) && forall(j, 0, len(vs), has(r.elements, vs[j]), vs[j])
  ensures allocated(r) && allocated(r.elements) && ref(r.elements) != 0
  ensures fresh(r) && fresh(r.elements) && all(e, iff(has(r.elements, e), exists(j, 0, len(vs), vs[j] == e)), has(r.elements, e))
  inv (i idx, fs *formula.LitSet): all(e, iff(has(fs.elements, e), exists(j, 0, i, vs[j] == e)), has(fs.elements, e))
func formula.NewFormulaSet(vs) (r)
  ensures contentof(r)
  ensures allocated(r) && allocated(r.elements) && ref(r.elements) != 0
  ensures fresh(r) && fresh(r.elements) && all(e, iff(has(r.elements, e), exists(j, 0, len(vs), vs[j] == e)), has(r.elements, e))
  inv (i idx, fs *formula.FormulaSet): all(e, iff(has(fs.elements, e), exists(j, 0, i, vs[j] == e)), has(fs.elements, e))
func formula.NewMutableVarSet(vs) (r)
  ensures allocated(r) && allocated(r.fset) && allocated(r.fset.elements) && ref(r.fset.elements) != 0
  ensures fresh(r)
  ensures fresh(r.fset)
  ensures fresh(r.fset.elements)
  ensures all(e, iff(has(r.fset.elements, e), exists(j, 0, len(vs), vs[j] == e)), has(r.fset.elements, e))
func formula.NewMutableLitSet(vs) (r)
  ensures contentof(r.fset) && forall(j, 0, len(vs), has(r.fset.elements, vs[j]), vs[j])
  ensures allocated(r) && allocated(r.fset) && allocated(r.fset.elements) && ref(r.fset.elements) != 0
  ensures fresh(r)
  ensures fresh(r.fset)
  ensures fresh(r.fset.elements)
  ensures all(e, iff(has(r.fset.elements, e), exists(j, 0, len(vs), vs[j] == e)), has(r.fset.elements, e))
func formula.NewMutableFormulaSet(vs) (r)
  ensures contentof(r.fset)
  ensures allocated(r) && allocated(r.fset) && allocated(r.fset.elements) && ref(r.fset.elements) != 0
  ensures fresh(r)
  ensures fresh(r.fset)
  ensures fresh(r.fset.elements)
  ensures all(e, iff(has(r.fset.elements, e), exists(j, 0, len(vs), vs[j] == e)), has(r.fset.elements, e))
func formula.Variables(fac, fs) (r)
  requires okall(fs)
  ensures implies(len(fs) == 1, vocc(r, fs[0]))
  ensures iff(has(r.elements, vx), exists(k, 0, len(fs), occv(fs[k]), alt(fs[k]))) && ref(r.elements) != 0
  ensures assumed_set: isnil(r.content) || contentof(r)
  ensures assumed_vars: allkeys(v, r.elements, ok(v) && fsort(v) == SortLiteral && fid(v) % 2 == 1)
  inv (i idx, s *formula.MutableVarSet): iff(has(s.fset.elements, vx), exists(k, 0, i, occv(fs[k]), alt(fs[k])))
func formula.variables(fac, f) (r)
  requires ok(f)
  ensures vocc(r, f)
  inv (i idx, s *formula.MutableVarSet): iff(has(s.fset.elements, vx), exists(k, 0, i, occv(nop(f, k)), nop(f, k)))
  inv (i idx, s *formula.MutableVarSet): iff(has(s.fset.elements, vx), exists(k, 0, i, posof(plit(f, k)) == vx, plit(f, k)))
func formula.Literals(fac, fs) (r)
  requires okall(fs)
  ensures implies(len(fs) == 1, locc(r, fs[0]))
  ensures iff(has(r.elements, lx), exists(k, 0, len(fs), occl(fs[k]), alt(fs[k]))) && ref(r.elements) != 0
  ensures assumed_set: isnil(r.content) || contentof(r)
  ensures assumed_lits: allkeys(v, r.elements, ok(v) && fsort(v) == SortLiteral)
  inv (i idx, s *formula.MutableLitSet): iff(has(s.fset.elements, lx), exists(k, 0, i, occl(fs[k]), alt(fs[k])))
func formula.literals(fac, f) (r)
  requires ok(f)
  ensures locc(r, f)
  inv (i idx, s *formula.MutableLitSet): iff(has(s.fset.elements, lx), exists(k, 0, i, occl(nop(f, k)), nop(f, k)))
  inv (i idx, s *formula.MutableLitSet): iff(has(s.fset.elements, lx), exists(k, 0, i, plit(f, k) == lx, plit(f, k)))
func formula.litProfileRec(fac, f, c)
  requires ok(f) && ref(c) != 0
  modifies mapof(c)
  ensures occ(c, lx) == old(occ(c, lx)) + nlx(f)
  inv (i idx): occ(c, lx) == old(occ(c, lx)) + plx(pla(f), 0, i)
  inv (i idx): occ(c, lx) == old(occ(c, lx)) + snlx(f, i)
func formula.varProfileRec(fac, f, c)
  requires ok(f) && ref(c) != 0
  modifies mapof(c)
  ensures occ(c, vx) == old(occ(c, vx)) + nvx(f)
  inv (i idx): occ(c, vx) == old(occ(c, vx)) + pvx(pla(f), 0, i)
  inv (i idx): occ(c, vx) == old(occ(c, vx)) + snvx(f, i)
func formula.LiteralProfile(fac, f) (r)
  requires ok(f)
  ensures occ(r, lx) == nlx(f)
func formula.VariableProfile(fac, f) (r)
  requires ok(f)
  ensures occ(r, vx) == nvx(f)
func formula.(*fset).Content(f) (r)
  requires isnil(f.content) || contentof(f)
  modifies f.content
  ensures len(r) == len(f.elements)
  ensures forall(k, 0, len(r), has(f.elements, r[k]))
  ensures allkeys(e, f.elements, exists(j, 0, len(r), r[j] == e))
  ensures contentof(f) && same(r, f.content)

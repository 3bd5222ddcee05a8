// CNF with auxiliary variables. auxlit(m, g): the literal introduced for g (a negation normal form) in the literal map m.
use sem enc facts shape aux
prop N02
define stok(st) = st != nil && ref(st.LiteralMap) != 0 && ref(st.FormulaMap) != 0
define litsound(m) = allkeys(g, m, ok(g) && ok(m[g]) && fsort(m[g]) == SortLiteral && implies(faith, iff(sem(m[g]), sem(g))) && implies(fsort(g) == SortLiteral, m[g] == g) && implies(fsort(g) != SortLiteral && isnnf(g), m[g] == auxlit(ref(m), g)) && implies(fsort(g) != SortLiteral, auxno(m[g]) < nused))
define al(m, g) = ite(fsort(g) == SortLiteral, g, auxlit(ref(m), g))
// Tseitin: the clauses of a formula define its literal completely
define tsin(st, g) = has(st.FormulaMap, g) && has(st.LiteralMap, g)
define tssound(st) = allkeys(g, st.FormulaMap, ok(g) && isnnf(g) && ok(st.FormulaMap[g]) && iscnf(st.FormulaMap[g]) && has(st.LiteralMap, g) && implies(fsort(g) != SortLiteral && sem(st.FormulaMap[g]), iff(sem(al(st.LiteralMap, g)), sem(g))) && implies(fsort(g) != SortLiteral && faith, sem(st.FormulaMap[g]))) && allkeys(g, st.LiteralMap, implies(isnnf(g), has(st.FormulaMap, g)))
define kept(st) = all(g, implies(old(has(st.FormulaMap, g)), has(st.FormulaMap, g)), has(st.FormulaMap, g))
func normalform.computeTseitin(fac, f, st)
  use inst_cnf2
  requires ok(f) && isnnf(f) && (fsort(f) == SortLiteral || fsort(f) == SortAnd || fsort(f) == SortOr)
  requires stok(st)
  requires litsound(st.LiteralMap)
  requires tssound(st)
  requires has(st.FormulaMap, f) || fsort(f) == SortLiteral || forall(k, 0, nops(f), has(st.FormulaMap, nop(f, k)))
  modifies mapof(st.FormulaMap), mapof(st.LiteralMap), nused
  def normalform.CNFAuxState.LiteralMap requires ok(key) && implies(fsort(key) != SortLiteral, !has(m, key) && isnnf(key) && auxno(value) >= old(nused)) && allkeys(g, m, implies(fsort(g) != SortLiteral, auxno(m[g]) < old(nused))) defines implies(fsort(key) != SortLiteral, auxlit(ref(m), key) == value && implies(faith, iff(sem(value), sem(key))))
  ensures lits: litsound(st.LiteralMap)
  ensures defs: tssound(st)
  ensures done: has(st.FormulaMap, f)
  ensures keep: kept(st)
  ensures same: implies(old(has(st.FormulaMap, f)), nochange(st))
define nochange(st) = nused == old(nused) && all(g, iff(has(st.FormulaMap, g), old(has(st.FormulaMap, g))), has(st.FormulaMap, g)) && all(g, iff(has(st.LiteralMap, g), old(has(st.LiteralMap, g))), has(st.LiteralMap, g)) && all(g, implies(has(st.FormulaMap, g), st.FormulaMap[g] == old(st.FormulaMap[g])), has(st.FormulaMap, g)) && all(g, implies(has(st.LiteralMap, g), st.LiteralMap[g] == old(st.LiteralMap[g])), has(st.LiteralMap, g))
  inv (i idx, s phi []formula.Formula): okall(s) && forall(k, 0, len(s), iscnf(s[k]))
  inv (i idx, s phi []formula.Formula): implies(faith, conj(s))
  inv (i idx, s phi []formula.Formula): implies(conj(s), conj(entry(s)))
  inv (i idx, s phi []formula.Formula, ts phi formula.Literal): forall(k, 0, i, implies(conj(s) && sem(ts), sem(al(st.LiteralMap, nop(f, k)))))
define appended(p, n, ol) = len(*p) == ol + n && forall(k, 0, ol, (*p)[k] == old((*p)[k]))
define sepslices(a, b, c) = ref(*b) != ref(*c) && ref(*a) != ref(*b) && ref(*a) != ref(*c)
func normalform.handleNary(fac, ops, nops, operands, negops, st)
  use inst_cnf2
  requires forall(k, 0, len(ops), ok(ops[k]) && isnnf(ops[k]) && has(st.FormulaMap, ops[k]) && fsort(ops[k]) > SortTrue)
  requires stok(st)
  requires litsound(st.LiteralMap)
  requires tssound(st)
  requires nops != nil && operands != nil && negops != nil && nops != operands && nops != negops && operands != negops && len(*nops) == 0 && sepslices(nops, operands, negops)
  modifies mapof(st.FormulaMap), mapof(st.LiteralMap), nused, *nops, *operands, *negops
  ensures same: nochange(st)
  ensures ops: appended(operands, len(ops), old(len(*operands)))
  ensures oops: forall(k, old(len(*operands)), old(len(*operands)) + len(ops), (*operands)[k] == al(st.LiteralMap, ops[k - old(len(*operands))]), (*operands)[k])
  ensures nops: appended(negops, len(ops), old(len(*negops)))
  ensures onops: forall(k, old(len(*negops)), old(len(*negops)) + len(ops), (*negops)[k] == negl(al(st.LiteralMap, ops[k - old(len(*negops))])), (*negops)[k])
  ensures defs: okall(*nops) && forall(k, 0, len(*nops), iscnf((*nops)[k])) && implies(faith, conj(*nops)) && implies(conj(*nops), forall(k, 0, len(ops), iff(sem(al(st.LiteralMap, ops[k])), sem(ops[k])), ops[k]))
  inv (): nochange(st)
  inv (): sepslices(nops, operands, negops)
  inv (i idx): implies(i > 0, fresh(*operands) && fresh(*negops)) && implies(len(*nops) > 0, fresh(*nops))
  inv (i idx): appended(operands, i, old(len(*operands)))
  inv (i idx): appended(negops, i, old(len(*negops)))
  inv (i idx): forall(k, old(len(*operands)), old(len(*operands)) + i, (*operands)[k] == al(st.LiteralMap, ops[k - old(len(*operands))]), (*operands)[k])
  inv (i idx): forall(k, old(len(*negops)), old(len(*negops)) + i, (*negops)[k] == negl(al(st.LiteralMap, ops[k - old(len(*negops))])), (*negops)[k])
  inv (): okall(*nops) && forall(k, 0, len(*nops), iscnf((*nops)[k])) && implies(faith, conj(*nops))
  inv (i idx): implies(conj(*nops), forall(k, 0, i, iff(sem(al(st.LiteralMap, ops[k])), sem(ops[k])), ops[k]))

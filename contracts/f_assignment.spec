// Evaluation and restriction. The fixed assignment of the specification is an arbitrary total one that extends
// the assignment given to the function (and, for Evaluate, maps everything else to false).
use sem enc lits
prop F03
define evalasg(a) = all(l, implies(ok(l) && fsort(l) == SortLiteral, iff(sem(l), ite(fid(l) % 2 == 1, has(a.pos, fid(l)), !has(a.pos, fid(l) + 1)))), fid(l)) && consistent(a)
define consistent(a) = allkeys(i, a.neg, i % 2 == 0 && !has(a.pos, i + 1)) && allkeys(i, a.pos, i % 2 == 1)
define idok(i) = ok(fofid(i)) && fid(fofid(i)) == i && fsort(fofid(i)) == SortLiteral
define idsok(a) = allkeys(i, a.pos, idok(i)) && allkeys(i, a.neg, idok(i))
define sat(a) = allkeys(i, a.pos, sem(fofid(i))) && allkeys(i, a.neg, sem(fofid(i)))
define wfasg(a) = consistent(a) && idsok(a)
// semb: the fixed assignment overridden by a
define ovr(a) = all(v, implies(ok(v) && fsort(v) == SortLiteral && fid(v) % 2 == 1, iff(semb(v), ite(has(a.pos, fid(v)), true, ite(has(a.neg, fid(v) - 1), false, sem(v))))), semb(v))
define extends(a) = wfasg(a) && sat(a)
func assignment.(*Assignment).evaluateVariable(a, v) (r)
  pure
  requires evalasg(a) && ok(v) && fsort(v) == SortLiteral && fid(v) % 2 == 1
  ensures iff(r, sem(v))
func assignment.(*Assignment).evaluateNegativeLiteral(a, v) (r)
  pure
  requires evalasg(a) && ok(v) && fsort(v) == SortLiteral && fid(v) % 2 == 0
  ensures iff(r, sem(v))
func assignment.evaluateComparator(lhs, rhs, cmp) (r)
  pure
  requires 0 <= cmp && cmp <= 4
  ensures iff(r, cmpok(cmp, lhs, rhs))
func assignment.evaluateLhs(fac, lits, coefs, a) (r)
  pure
  requires oklits(lits) && evalasg(a) && len(lits) == len(coefs)
  ensures r == lsum(lits, coefs, len(lits))
  inv (i idx, s phi int): s == lsum(lits, coefs, i)
func assignment.Evaluate(fac, f, a) (r)
  pure
  requires ok(f) && evalasg(a)
  ensures iff(r, sem(f))
  inv (i idx): forall(k, 0, i, sem(nop(f, k)))
  inv (i idx): forall(k, 0, i, !sem(nop(f, k)))
func assignment.(*Assignment).restrictVariable(a, fac, v) (r)
  pure
  use sem2
  requires wfasg(a) && ok(negl(v)) && ok(v) && fsort(v) == SortLiteral && fid(v) % 2 == 1
  ensures ok(r) && implies(sat(a), iff(sem(r), sem(v))) && (fsort(r) <= SortTrue || r == v)
  ensures over: implies(ovr(a), iff(sem(r), semb(v)))
  ensures gone: implies(has(a.pos, fid(v)), r == verum) && implies(has(a.neg, fid(v) - 1), r == falsum) && implies(!has(a.pos, fid(v)) && !has(a.neg, fid(v) - 1), r == v)
func assignment.(*Assignment).restrictNegativeLiteral(a, fac, v) (r)
  pure
  use sem2
  requires wfasg(a) && ok(negl(v)) && ok(v) && fsort(v) == SortLiteral && fid(v) % 2 == 0
  ensures ok(r) && implies(sat(a), iff(sem(r), sem(v))) && (fsort(r) <= SortTrue || r == v)
  ensures over: implies(ovr(a), iff(sem(r), semb(v)))
  ensures gone: implies(has(a.pos, fid(v) + 1), r == falsum) && implies(has(a.neg, fid(v)), r == verum) && implies(!has(a.pos, fid(v) + 1) && !has(a.neg, fid(v)), r == v)
func assignment.evaluateCoeffs(min, max, rhs, cmp) (r)
  pure
  requires 0 <= cmp && cmp <= 4 && min <= max
  ensures implies(r == TristateTrue, cmp != EQ && cmpok(cmp, min, rhs) && cmpok(cmp, max, rhs))
  ensures implies(r == TristateFalse, !cmpok(cmp, min, rhs) && !cmpok(cmp, max, rhs) && implies(cmp == EQ, rhs < min || rhs > max))
func assignment.restrict(fac, cmp, rhs, lits, coefs, a) (r)
  requires oklits(lits) && wfasg(a) && len(lits) == len(coefs) && 0 <= cmp && cmp <= 4
  ensures ok(r) && implies(sat(a), iff(sem(r), cmpok(cmp, lsum(lits, coefs, len(lits)), rhs)))
  use sem2
  ensures over: implies(ovr(a), iff(sem(r), cmpok(cmp, lsumbs(lits, coefs, len(lits)), rhs)))
  inv (s phi []formula.Literal): oklits(s)
  inv (s phi []formula.Literal, c phi []int): len(s) == len(c)
  inv (i idx, s phi []formula.Literal, c phi []int, x phi int): implies(sat(a), lsum(lits, coefs, i) == x + lsum(s, c, len(s)))
  inv (i idx, s phi []formula.Literal, c phi []int, x phi int): implies(ovr(a), lsumbs(lits, coefs, i) == x + lsum(s, c, len(s)))
  inv (s phi []formula.Literal, c phi []int, m phi int): m <= lsum(s, c, len(s)) && m <= 0
  inv (s phi []formula.Literal, c phi []int, m phi int): m >= lsum(s, c, len(s)) && m >= 0
func assignment.Restrict(fac, f, a) (r)
  requires ok(f) && wfasg(a)
  ensures ok(r) && implies(sat(a), iff(sem(r), sem(f)))
  ensures over: implies(ovr(a), iff(sem(r), semb(f)))
  ensures lit: implies(fsort(f) == SortLiteral, fsort(r) <= SortLiteral)
  ensures clause: implies(iscl(f), iscl(r))
  ensures cnf: implies(iscnf(f), iscnf(r))
  use shape inst_cnf sem2
  inv (i idx, s phi []formula.Formula): len(s) == i && forall(k, 0, i, ok(s[k]) && implies(sat(a), iff(sem(s[k]), sem(nop(f, k)))) && implies(ovr(a), iff(sem(s[k]), semb(nop(f, k)))) && implies(iscl(nop(f, k)), iscl(s[k])) && implies(fsort(nop(f, k)) == SortLiteral, fsort(s[k]) <= SortLiteral))
func assignment.Empty() (r)
  ensures freshasg: extends(r) && len(r.pos) == 0 && len(r.neg) == 0 && mapsok(r) && fresh(r) && fresh(r.pos) && fresh(r.neg)
  ensures none: allkeys(j, r.pos, false) && allkeys(j, r.neg, false)
define mapsok(a) = ref(a.pos) != 0 && ref(a.neg) != 0 && ref(a.pos) != ref(a.neg)
define litassigned(a, l) = ite(fid(l) % 2 == 1, has(a.pos, fid(l)), has(a.neg, fid(l)))
func assignment.(*Assignment).AddLit(a, fac, l) (err)
  requires consistent(a) && idsok(a) && ok(l) && fsort(l) == SortLiteral && mapsok(a)
  modifies mapof(a.pos), mapof(a.neg)
  ensures cons: consistent(a)
  ensures ids: idsok(a)
  ensures conflict: iff(err == nil, ite(fid(l) % 2 == 1, !old(has(a.neg, fid(l) - 1)), !old(has(a.pos, fid(l) + 1))))
  ensures added: implies(err == nil, litassigned(a, l))
  ensures only: allkeys(i, a.pos, old(has(a.pos, i)) || i == fid(l)) && allkeys(i, a.neg, old(has(a.neg, i)) || i == fid(l))
  ensures keep: all(i, implies(old(has(a.pos, i)), has(a.pos, i)), has(a.pos, i)) && all(i, implies(old(has(a.neg, i)), has(a.neg, i)), has(a.neg, i))
  ensures sat: implies(old(sat(a)) && sem(l), sat(a))
func assignment.New(fac, lits) (r, err)
  requires oklits(lits)
  ensures cons: implies(err == nil, consistent(r) && idsok(r) && mapsok(r) && fresh(r) && fresh(r.pos) && fresh(r.neg))
  ensures all: implies(err == nil, forall(k, 0, len(lits), litassigned(r, lits[k])))
  ensures sat: implies(err == nil && conj(lits), sat(r))
  ensures single: implies(len(lits) <= 1, err == nil)
  ensures noconflict: implies(nocompl(lits), err == nil)
  ensures only: implies(len(lits) == 1 && err == nil, allkeys(j, r.pos, j == fid(lits[0])) && allkeys(j, r.neg, j == fid(lits[0])))
  inv (i idx, a *assignment.Assignment): implies(i == 1, allkeys(j, a.pos, j == fid(lits[0])) && allkeys(j, a.neg, j == fid(lits[0])))
  inv (i idx, a *assignment.Assignment): implies(i == 0, allkeys(j, a.pos, false) && allkeys(j, a.neg, false))
  inv (a *assignment.Assignment): consistent(a) && idsok(a) && mapsok(a) && fresh(a.pos) && fresh(a.neg)
  inv (i idx, a *assignment.Assignment): allkeys(j, a.pos, inlits(j, lits, i)) && allkeys(j, a.neg, inlits(j, lits, i))
  inv (i idx, a *assignment.Assignment): forall(k, 0, i, litassigned(a, lits[k]))
  inv (i idx, a *assignment.Assignment): implies(conj(lits), sat(a))
define mapext(c) = allkeys(v, c.mapping, ok(v) && fsort(v) == SortLiteral && fid(v) % 2 == 1 && ok(negl(v)) && iff(sem(v), c.mapping[v]), has(c.mapping, v))
func assignment.(*evaluationContext).test(c, f, top) (r)
  requires ok(f) && mapext(c)
  ensures ok(r) && implies(!top, iff(sem(r), sem(f))) && implies(top && c.evaluatesToTrue, implies(sem(r), sem(f))) && implies(top && !c.evaluatesToTrue, implies(sem(f), sem(r)))
func assignment.(*evaluationContext).handleNot(c, f, top) (r)
  requires ok(f) && mapext(c) && fsort(f) == SortNot
  ensures ok(r) && implies(!top, iff(sem(r), sem(f))) && implies(top && c.evaluatesToTrue, implies(sem(r), sem(f))) && implies(top && !c.evaluatesToTrue, implies(sem(f), sem(r)))
func assignment.(*evaluationContext).handleImplication(c, f, top) (r)
  requires ok(f) && mapext(c) && fsort(f) == SortImpl
  ensures ok(r) && implies(!top, iff(sem(r), sem(f))) && implies(top && c.evaluatesToTrue, implies(sem(r), sem(f))) && implies(top && !c.evaluatesToTrue, implies(sem(f), sem(r)))
func assignment.(*evaluationContext).handleEquivalence(c, f, top) (r)
  requires ok(f) && mapext(c) && fsort(f) == SortEquiv
  ensures ok(r) && implies(!top, iff(sem(r), sem(f))) && implies(top && c.evaluatesToTrue, implies(sem(r), sem(f))) && implies(top && !c.evaluatesToTrue, implies(sem(f), sem(r)))
func assignment.(*evaluationContext).handleOr(c, f, top) (r)
  requires ok(f) && mapext(c) && fsort(f) == SortOr
  ensures ok(r) && implies(!top, iff(sem(r), sem(f))) && implies(top && c.evaluatesToTrue, implies(sem(r), sem(f))) && implies(top && !c.evaluatesToTrue, implies(sem(f), sem(r)))
  inv (i idx, s phi []formula.Formula): okall(s)
  inv (i idx, s phi []formula.Formula): implies(top && !c.evaluatesToTrue, forall(k, 0, i, !sem(nop(f, k))))
  inv (i idx, s phi []formula.Formula): implies(disj(s), exists(k, 0, i, sem(nop(f, k))))
  inv (i idx, s phi []formula.Formula): implies(!disj(s), forall(k, 0, i, !sem(nop(f, k))))
func assignment.(*evaluationContext).handleAnd(c, f, top) (r)
  requires ok(f) && mapext(c) && fsort(f) == SortAnd
  ensures ok(r) && implies(!top, iff(sem(r), sem(f))) && implies(top && c.evaluatesToTrue, implies(sem(r), sem(f))) && implies(top && !c.evaluatesToTrue, implies(sem(f), sem(r)))
  inv (i idx, s phi []formula.Formula): okall(s)
  inv (i idx, s phi []formula.Formula): implies(conj(s), forall(k, 0, i, sem(nop(f, k))))
  inv (i idx, s phi []formula.Formula): implies(!conj(s), exists(k, 0, i, !sem(nop(f, k))))
func assignment.(*evaluationContext).handlePbc(c, f) (r)
  requires ok(f) && mapext(c) && (fsort(f) == SortCC || fsort(f) == SortPBC)
  ensures ok(r) && iff(sem(r), sem(f))
  inv (a *assignment.Assignment): mapsok(a) && fresh(a.pos) && fresh(a.neg)
  inv (a *assignment.Assignment): consistent(a)
  inv (a *assignment.Assignment): idsok(a)
  inv (a *assignment.Assignment): sat(a)
func assignment.EvaluatesToTrue(fac, f, mapping) (r)
  requires ok(f) && allkeys(v, mapping, ok(v) && fsort(v) == SortLiteral && fid(v) % 2 == 1 && ok(negl(v)) && iff(sem(v), mapping[v]), has(mapping, v))
  ensures implies(r, sem(f))
func assignment.EvaluatesToFalse(fac, f, mapping) (r)
  requires ok(f) && allkeys(v, mapping, ok(v) && fsort(v) == SortLiteral && fid(v) % 2 == 1 && ok(negl(v)) && iff(sem(v), mapping[v]), has(mapping, v))
  ensures implies(r, !sem(f))

// Simplifiers
use sem enc facts shape
prop X01
func simplification.Distribute(fac, formula) (r)
  requires ok(formula)
  ensures ok(r) && iff(sem(r), sem(formula))
func simplification.distributeNary(fac, formula) (r)
  trusted grouping of the operands in a map of sets; bounded check only
  requires ok(formula) && (fsort(formula) == SortAnd || fsort(formula) == SortOr)
  ensures ok(r) && iff(sem(r), sem(formula))
func simplification.FactorOut(fac, formula, rf) (r)
  requires ok(formula)
  ensures ok(r) && iff(sem(r), sem(formula))
  inv (s phi formula.Formula): ok(s) && iff(sem(s), sem(formula))
func simplification.factorOutRec(fac, formula, rf) (r)
  requires ok(formula)
  ensures ok(r) && iff(sem(r), sem(formula))
  inv (i idx, s []formula.Formula): forall(k, 0, i, ok(s[k]) && iff(sem(s[k]), sem(nop(formula, k))))
  inv (s []formula.Formula): len(s) == nops(formula)
func simplification.factorOutSimplify(fac, formula, rf) (r)
  requires ok(formula) && (fsort(formula) == SortAnd || fsort(formula) == SortOr)
  ensures ok(r) && iff(sem(r), sem(formula))
func simplification.computeMaxOccurringSubformula(fac, formula) (r, found)
  requires ok(formula) && (fsort(formula) == SortAnd || fsort(formula) == SortOr)
  ensures implies(found, ok(r) && r != falsum)
  inv (c phi formula.Formula, n phi int): ok(c) && implies(n > 0, c != falsum)
func simplification.factorOut(fac, formula) (r, found)
  requires ok(formula) && (fsort(formula) == SortAnd || fsort(formula) == SortOr)
  ensures implies(found, ok(r) && iff(sem(r), sem(formula)))
  inv (q phi []formula.Formula): okall(q)
  inv (j idx, q phi []formula.Formula, o []formula.Formula): implies(disj(q), disjpre(o, j))
  inv (j idx, q phi []formula.Formula, o []formula.Formula): implies(conjpre(o, j), conj(q))
  inv (j idx, q phi []formula.Formula, o []formula.Formula, c formula.Formula): implies(disjpre(o, j), disj(q) || sem(c))
  inv (j idx, q phi []formula.Formula, o []formula.Formula, c formula.Formula): implies(conj(q) && sem(c), conjpre(o, j))
  inv (j idx, q phi []formula.Formula, o []formula.Formula, d phi bool): implies(!d, implies(disjpre(o, j), disj(q)) && implies(conj(q), conjpre(o, j)))
  inv (j idx, o []formula.Formula, d phi bool, c formula.Formula): implies(d, exists(k, 0, j, o[k] == c))
  inv (j idx, q phi []formula.Formula, u phi []formula.Formula, o []formula.Formula, c formula.Formula): implies(fsort(formula) == SortAnd, implies(conjpre(o, j), conj(u) && (sem(c) || conj(q))) && implies(conj(u) && (sem(c) || conj(q)), conjpre(o, j)))
  inv (j idx, q phi []formula.Formula, u phi []formula.Formula, o []formula.Formula, c formula.Formula): implies(fsort(formula) == SortOr, implies(disjpre(o, j), disj(u) || (sem(c) && disj(q))) && implies(disj(u) || (sem(c) && disj(q)), disjpre(o, j)))
func simplification.simplifyWithRating(fac, formula, simp, config) (r)
  requires config != nil
  ensures r == formula || r == simp
  ensures implies(!config.UseRatingFunction, r == simp)
func simplification.getSmallestFormula(fac, topLevel, formulas) (r)
  requires len(formulas) > 0
  ensures exists(k, 0, len(formulas), r == formulas[k])
  inv (i idx, r phi formula.Formula): exists(k, 0, len(formulas), r == formulas[k])
  inv (r phi formula.Formula): exists(k, 0, len(formulas), r == formulas[k])
func simplification.MinimizeNegations(fac, formula) (r)
  requires ok(formula)
  ensures ok(r) && eqv(formula, r)
func simplification.negationMinimize(fac, formula, topLevel) (r)
  requires ok(formula) && isnnf(formula) && fsort(formula) > SortTrue
  ensures ok(r.positiveResult) && iff(sem(r.positiveResult), sem(formula)) && ok(r.negativeResult) && iff(sem(r.negativeResult), !sem(formula))
  inv (i idx, s []simplification.minimizationResult): len(s) == nops(formula) && forall(k, 0, i, ok(s[k].positiveResult) && iff(sem(s[k].positiveResult), sem(nop(formula, k))) && ok(s[k].negativeResult) && iff(sem(s[k].negativeResult), !sem(nop(formula, k))))
  inv (i idx, p []formula.Formula): len(p) == nops(formula) && forall(k, 0, i, ok(p[k]) && iff(sem(p[k]), sem(nop(formula, k))))
  inv (i idx, p []formula.Formula): len(p) == nops(formula) && forall(k, 0, i, ok(p[k]) && iff(sem(p[k]), !sem(nop(formula, k))))
func simplification.findSmallestPositive(fac, sort, pos, neg, topLevel) (r)
  requires (sort == SortAnd || sort == SortOr) && okall(pos) && okall(neg) && len(pos) == len(neg) && forall(k, 0, len(pos), iff(sem(pos[k]), !sem(neg[k])), alt(pos[k]), alt(neg[k]))
  ensures ok(r) && implies(sort == SortAnd, iff(sem(r), conj(pos))) && implies(sort == SortOr, iff(sem(r), disj(pos)))
  inv (q phi []formula.Formula): okall(q)
  inv (i idx, p phi []formula.Formula, n phi []formula.Formula): implies(conjpre(pos, i), conj(p) && !disj(n))
  inv (i idx, p phi []formula.Formula, n phi []formula.Formula): implies(conj(p) && !disj(n), conjpre(pos, i))
  inv (i idx, p phi []formula.Formula, n phi []formula.Formula): implies(disjpre(pos, i), disj(p) || !conj(n))
  inv (i idx, p phi []formula.Formula, n phi []formula.Formula): implies(disj(p) || !conj(n), disjpre(pos, i))
func simplification.findSmallestNegative(fac, sort, neg, pos, topLevel) (r)
  requires (sort == SortAnd || sort == SortOr) && okall(neg) && ok(pos) && implies(sort == SortAnd, iff(sem(pos), !disj(neg))) && implies(sort == SortOr, iff(sem(pos), !conj(neg)))
  ensures ok(r) && iff(sem(r), !sem(pos))

// The SAT solver as its clients see it: the set of formulas on a solver (a handle fs(s) of a set), and for each call
// either a model (an assignment with the call's number) or unsatisfiability under all assignments.
use sem enc calls
prop S01 E01 I01 X01 S04
ghost fs Int Int
ghost ncalls Int
define propsok(s) = forall(k, 0, len(s), s[k] != nil && ok(pf(s[k])), alt(s[k]))
define holdall(s) = all(c, holds(fs(s), c), holds(fs(s), c))
func sat.NewSolver(fac, config) (s)
  trusted the solver core is checked by bounded stand-ins (S01, S02)
  ensures s != nil && fresh(s) && allocated(s) && holdall(s)
func sat.(*Solver).Add(s, formulas)
  trusted the solver core and the clause generation are checked by bounded stand-ins (S01, N02, C01, C02)
  requires s != nil && okall(formulas)
  modifies fs(s)
  ensures all(c, iff(holds(fs(s), c), old(holds(fs(s), c)) && conjc(c, formulas)), holds(fs(s), c))
func sat.(*Solver).AddProposition(s, propositions)
  trusted as Add
  requires s != nil && propsok(propositions)
  modifies fs(s)
  ensures all(c, iff(holds(fs(s), c), old(holds(fs(s), c)) && pconj(c, propositions)), holds(fs(s), c))
func sat.(*Solver).SaveState(s) (t)
  trusted solver states are checked by bounded stand-ins (S02)
  requires s != nil
  ensures t != nil && fresh(t) && allocated(t) && stfs(t) == fs(s)
func sat.(*Solver).LoadState(s, t) (err)
  trusted solver states are checked by bounded stand-ins (S02)
  requires s != nil && t != nil
  modifies fs(s)
  ensures implies(err == nil, all(c, iff(holds(fs(s), c), holds(stfs(t), c)), holds(fs(s), c)))
define nocall(p) = len(p) == 0
define callprops(p) = implies(len(p) > 0, p[0] != nil && propsok(p[0].addProps))
func sat.(*Solver).Call(s, params) (r)
  trusted the solver core is checked by bounded stand-ins (S01, S02)
  requires s != nil && callprops(params)
  modifies ncalls
  ensures ncalls == old(ncalls) + 1
  ensures implies(len(params) == 0, r.state.Success)
  ensures unsat: implies(r.state.Success && !r.satisfiable, all(c, !(holds(fs(s), c) && implies(len(params) > 0, pconj(c, params[0].addProps))), holds(fs(s), c)))
  ensures unsat0: implies(r.state.Success && !r.satisfiable, !(holds(fs(s), 0) && implies(len(params) > 0, pconj(0, params[0].addProps))))
  ensures sat: implies(r.state.Success && r.satisfiable, holds(fs(s), ncalls) && implies(len(params) > 0, pconj(ncalls, params[0].addProps)))
  ensures model: implies(r.state.Success && r.satisfiable && len(params) > 0 && params[0].modelIfSat, r.model != nil && fresh(r.model) && allocated(r.model) && freshslice(r.model.Literals) && oklits(r.model.Literals) && conjc(ncalls, r.model.Literals))
func sat.(*Solver).Sat(s) (r)
  requires s != nil
  modifies ncalls
  ensures ncalls == old(ncalls) + 1
  ensures unsat: implies(!r, all(c, !holds(fs(s), c), holds(fs(s), c)))
  ensures unsat0: implies(!r, !holds(fs(s), 0))
  ensures sat: implies(r, holds(fs(s), ncalls))
iface formula.Proposition.Formula(p) (r)
  ensures r == pf(p)
func formula.NewStandardProposition(form, description) (r)
  ensures r != nil && fresh(r) && allocated(r) && r.form == form
  ensures assumed_box: pf(boxed(r)) == form
func sat.IsSatisfiable(fac, formula) (r)
  requires ok(formula)
  modifies ncalls
  ensures implies(!r, !sem(formula))
  ensures implies(r, semc(ncalls, formula))
func sat.IsTautology(fac, formula) (r)
  requires ok(formula)
  modifies ncalls
  ensures implies(r, sem(formula))
  ensures implies(!r, !semc(ncalls, formula))
func sat.IsContradiction(fac, formula) (r)
  requires ok(formula)
  modifies ncalls
  ensures implies(r, !sem(formula))
  ensures implies(!r, semc(ncalls, formula))
func sat.Implies(fac, f1, f2) (r)
  requires ok(f1) && ok(f2)
  modifies ncalls
  ensures implies(r, implies(sem(f1), sem(f2)))
  ensures implies(!r, semc(ncalls, f1) && !semc(ncalls, f2))
func sat.IsEquivalent(fac, f1, f2) (r)
  requires ok(f1) && ok(f2)
  modifies ncalls
  ensures implies(r, iff(sem(f1), sem(f2)))
  ensures implies(!r, !iff(semc(ncalls, f1), semc(ncalls, f2)))

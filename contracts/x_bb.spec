// Backbones and the simplifiers that propagate them
use sem enc calls facts shape lits
prop X01 S04
define okvars(s) = forall(k, 0, len(s), ok(s[k]) && fsort(s[k]) == SortLiteral && fid(s[k]) % 2 == 1, alt(s[k]))
define bbtrue(b) = forall(k, 0, len(b.Positive), sem(b.Positive[k]), b.Positive[k]) && forall(k, 0, len(b.Negative), !sem(b.Negative[k]), b.Negative[k])
define bbwf(b) = okvars(b.Positive) && okvars(b.Negative) && forall(k, 0, len(b.Positive), forall(j, 0, len(b.Negative), b.Positive[k] != b.Negative[j], b.Negative[j]), b.Positive[k])
func sat.(*Solver).ComputeBackboneWithHandler(s, fac, variables, hdl, bs) (b, st)
  trusted the backbone computation on the solver core is checked by bounded stand-ins (S04)
  requires s != nil && okvars(variables)
  modifies ncalls
  ensures implies(st.Success, b != nil && fresh(b) && allocated(b))
  ensures implies(st.Success && !b.Sat, all(c, !holds(fs(s), c), holds(fs(s), c)) && !holds(fs(s), 0))
  ensures implies(st.Success && b.Sat, bbwf(b) && implies(holds(fs(s), 0), bbtrue(b)))
func sat.(*Solver).ComputeBackbone(s, fac, variables, bs) (b)
  trusted as ComputeBackboneWithHandler (the handler never cancels)
  requires s != nil && okvars(variables)
  modifies ncalls
  ensures b != nil && fresh(b) && allocated(b)
  ensures implies(!b.Sat, all(c, !holds(fs(s), c), holds(fs(s), c)) && !holds(fs(s), 0))
  ensures implies(b.Sat, bbwf(b) && implies(holds(fs(s), 0), bbtrue(b)))
func sat.(*Backbone).CompleteBackbone(b, fac) (r)
  requires b != nil && implies(b.Sat, bbwf(b))
  ensures implies(b.Sat, oklits(r) && len(r) == len(b.Positive) + len(b.Negative))
  ensures implies(!b.Sat, len(r) == 0)
  ensures pos: implies(b.Sat, forall(k, 0, len(b.Positive), r[k] == b.Positive[k], alt(r[k]), alt(b.Positive[k])))
  ensures neg: implies(b.Sat, forall(k, 0, len(b.Negative), r[len(b.Positive) + k] == negl(b.Negative[k]), alt(b.Negative[k])))
  ensures neg2: implies(b.Sat, forall(k, len(b.Positive), len(r), r[k] == negl(b.Negative[k - len(b.Positive)]), alt(r[k])))
  ensures truth: implies(b.Sat, iff(conj(r), bbtrue(b)))
  ensures nocompl: nocompl(r)
  inv (s phi []formula.Literal): oklits(s)
  inv (i idx, s phi []formula.Literal): len(s) == i && forall(k, 0, i, s[k] == b.Positive[k], alt(s[k]), alt(b.Positive[k]))
  inv (i idx, s phi []formula.Literal): len(s) == len(b.Positive) + i && forall(k, 0, len(b.Positive), s[k] == b.Positive[k], alt(s[k]), alt(b.Positive[k])) && forall(k, 0, i, s[len(b.Positive) + k] == negl(b.Negative[k]), alt(b.Negative[k]))
  inv (s phi []formula.Literal): forall(k, len(b.Positive), len(s), s[k] == negl(b.Negative[k - len(b.Positive)]), alt(s[k]))
func sat.(*Backbone).ToFormula(b, fac) (r)
  requires b != nil && implies(b.Sat, bbwf(b))
  ensures ok(r) && iff(sem(r), b.Sat && bbtrue(b))
func simplification.PropagateBackbone(fac, formula) (r)
  noframe
  requires ok(formula)
  modifies ncalls
  ensures ok(r) && iff(sem(r), sem(formula))
  inv (a *assignment.Assignment): consistent(a) && idsok(a) && mapsok(a)
  inv (a *assignment.Assignment, b *sat.Backbone): implies(bbtrue(b), sat(a))
func simplification.computeMinDNF(fac, simplified, hdl) (r, st)
  trusted prime implicants and a smallest covering subset (I01, E01); the combination is checked by bounded stand-ins
  requires ok(simplified)
  modifies ncalls
  ensures implies(st.Success, ok(r) && iff(sem(r), sem(simplified)))
func simplification.AdvancedWithHandler(fac, formula, hdl, config) (r, st)
  noframe
  requires ok(formula) && implies(len(config) > 0, config[0] != nil)
  modifies ncalls
  ensures implies(st.Success, ok(r) && implies(sem(r), sem(formula)) && implies(faith && sem(formula), sem(r)))
  ensures exact: implies(st.Success && len(config) > 0 && !config[0].SimplifyNegations, iff(sem(r), sem(formula)))
func simplification.QMCWithHandler(fac, formula, hdl) (r, st)
  noframe
  requires ok(formula)
  modifies ncalls
  ensures implies(st.Success, ok(r) && iff(sem(r), sem(formula)))
func simplification.determineConfig(fac, config) (r)
  trusted a registered configuration is never nil
  requires implies(len(config) > 0, config[0] != nil)
  ensures r != nil && implies(len(config) > 0, r == config[0])

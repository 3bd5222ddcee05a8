// Minimal unsatisfiable sets: a subset of the given propositions, unsatisfiable, and for each member some assignment
// satisfies all the others.
use sem enc calls
prop E01
define subset(p, q) = forall(k, 0, len(p), member(p[k], q), p[k])
define unsatp(p) = none(p, p, 0)
define minimal(p, q) = forall(k, 0, len(p), implies(member(p[k], q), exc(p, k, q, 0)), p[k])
func mus.ComputeDeletionBasedWithHandler(fac, propositions, hdl) (r, st, err)
  requires propositions != nil && propsok(*propositions)
  modifies ncalls
  ensures subset: implies(r != nil, subset(r.Propositions, *propositions))
  ensures unsat: implies(r != nil, unsatp(r.Propositions))
  ensures minimal: implies(r != nil, minimal(r.Propositions, *propositions))
  ensures result: implies(st.Success && err == nil, r != nil)
  inv (m phi []formula.Proposition): subset(m, *propositions) && propsok(m)
  inv (i idx, s *sat.Solver): eqset(fs(s), *propositions, i)
  inv (i idx, t []*sat.SolverState): forall(k, 0, i, t[k] != nil && eqset(stfs(t[k]), *propositions, k), t[k])
  inv (i phi int, m phi []formula.Proposition): i + 1 >= 0 && none(m, *propositions, i + 1)
  inv (i phi int, m phi []formula.Proposition): forall(k, 0, len(m), implies(member(m[k], *propositions), exc(m, k, *propositions, i + 1)), m[k])
  inv (i idx, s *sat.Solver, m []formula.Proposition): ext(fs(s), entry(fs(s)), m, i)
func explanation.NewUnsatCore(props, ismus) (r)
  ensures r != nil && fresh(r) && same(r.Propositions, props) && iff(r.IsGuaranteedMUS, ismus)
func mus.ComputeDeletionBased(fac, propositions) (r, err)
  requires propositions != nil && propsok(*propositions)
  modifies ncalls
  ensures subset: implies(r != nil, subset(r.Propositions, *propositions))
  ensures unsat: implies(r != nil, unsatp(r.Propositions))
  ensures minimal: implies(r != nil, minimal(r.Propositions, *propositions))

// Prime implicants and implicates: each returned implicant implies the formula, each implicate is implied by it, and
// dropping a literal of a reduced one breaks this.
use sem sem2 enc facts calls
prop I01
define complement(h, f) = all(c, iff(holds(h, c), !semc(c, f)), holds(h, c), semc(c, f))
define represents(h, f) = all(c, iff(holds(h, c), semc(c, f)), holds(h, c), semc(c, f))
define memberset(d, s) = allkeys(k, d, exists(j, 0, len(s), s[j] == k))
define litset(d) = allkeys(k, d, ok(k) && fsort(k) == SortLiteral)
func sat.(*CallParams).Literal(p, literal) (r)
  requires p != nil && propsok(p.addProps) && oklits(literal)
  modifies p.addProps
  ensures r == p && propsok(p.addProps) && len(p.addProps) == old(len(p.addProps)) + len(literal)
  ensures all(c, iff(pconj(c, p.addProps), old(pconj(c, p.addProps)) && conjc(c, literal)), pconj(c, p.addProps), conjc(c, literal))
  inv (i idx, q *sat.CallParams): propsok(q.addProps) && len(q.addProps) == old(len(q.addProps)) + i
  inv (i idx, q *sat.CallParams): padd(q.addProps, old(p.addProps), literal, i)
func primeimplicant.newPrimeReduction(fac, formula) (r)
  requires ok(formula)
  ensures r != nil && fresh(r) && allocated(r) && r.implicantSolver != nil && r.implicateSolver != nil && fresh(r.implicantSolver) && fresh(r.implicateSolver) && allocated(r.implicantSolver) && allocated(r.implicateSolver)
  ensures complement(fs(r.implicantSolver), formula)
  ensures represents(fs(r.implicateSolver), formula)
func primeimplicant.(*primeReduction).reduceImplicant(p, implicant, hdl) (r, st)
  requires p != nil && p.implicantSolver != nil && oklits(implicant)
  requires implicant(fs(p.implicantSolver), implicant)
  modifies ncalls
  ensures implies(st.Success, oklits(r))
  ensures implicant: implies(st.Success, implicant(fs(p.implicantSolver), r))
  ensures prime: implies(st.Success, allneeded(fs(p.implicantSolver), r))
  inv (s *formula.MutableLitSet): isnil(s.fset.content) || contentof(s.fset)
  inv (s *formula.MutableLitSet): memberset(s.fset.elements, implicant)
  inv (s *formula.MutableLitSet): litset(s.fset.elements)
  inv (s *formula.MutableLitSet): nones(fs(p.implicantSolver), s.fset.elements)
  inv (i idx, s *formula.MutableLitSet): forall(j, 0, i, implies(has(s.fset.elements, implicant[j]), excs(fs(p.implicantSolver), s.fset.elements, implicant[j])), implicant[j])
func primeimplicant.(*primeReduction).reduceImplicate(p, fac, implicate, hdl) (r, st)
  requires p != nil && p.implicateSolver != nil && oklits(implicate)
  modifies ncalls
  ensures implies(st.Success, oklits(r))
  ensures implicate: implies(st.Success && implicate(fs(p.implicateSolver), implicate), implicate(fs(p.implicateSolver), r))
  ensures prime: implies(st.Success && implicate(fs(p.implicateSolver), implicate), allneededi(fs(p.implicateSolver), r))
  inv (s *formula.MutableLitSet): isnil(s.fset.content) || contentof(s.fset)
  inv (s *formula.MutableLitSet): memberset(s.fset.elements, implicate)
  inv (s *formula.MutableLitSet): litset(s.fset.elements)
  inv (s *formula.MutableLitSet): implies(implicate(fs(p.implicateSolver), implicate), nonen(fs(p.implicateSolver), s.fset.elements))
  inv (i idx, s *formula.MutableLitSet): forall(j, 0, i, implies(has(s.fset.elements, implicate[j]) && implicate(fs(p.implicateSolver), implicate), excn(fs(p.implicateSolver), s.fset.elements, implicate[j])), implicate[j])
  inv (i idx, a []formula.Literal, s *formula.MutableLitSet): forall(j, 0, i, a[j] == negl(s.fset.content[j]), alt(a[j]), alt(s.fset.content[j]))
func primeimplicant.negateAll(fac, literals) (r)
  requires forall(k, 0, len(literals), oklits(literals[k]))
  ensures len(r) == len(literals) && forall(k, 0, len(r), negsl(literals[k], r[k]), r[k])
  ensures forall(k, 0, len(r), oklits(r[k]), r[k])
  inv (i idx, s [][]formula.Literal): len(s) == len(literals) && forall(k, 0, i, negsl(literals[k], s[k]), s[k])
  inv (i idx, a []formula.Literal, b []formula.Literal): forall(j, 0, i, a[j] == negl(b[j]), alt(a[j]), alt(b[j]))
  inv (i idx, s [][]formula.Literal, a []formula.Literal): forall(k, 0, i, ref(s[k]) != ref(a), s[k])

define impls(f, s) = forall(k, 0, len(s), litsl(s[k]) && implicant(nset(f), s[k]), s[k])
define icates(f, s) = forall(k, 0, len(s), litsl(s[k]) && implicate(pset(f), s[k]), s[k])
define lits2(s) = forall(k, 0, len(s), litsl(s[k]), s[k])
define primes(f, s) = forall(k, 0, len(s), allneeded(nset(f), s[k]), s[k])
define iprimes(f, s) = forall(k, 0, len(s), allneededi(pset(f), s[k]), s[k])
func sat.(*Solver).MinimizeWithHandler(s, literals, hdl, more) (m, st)
  trusted optimisation is checked by bounded stand-ins (S04)
  requires s != nil
  modifies ncalls
  ensures implies(m != nil, fresh(m) && allocated(m))
func sat.(*Solver).MaximizeWithHandler(s, literals, hdl, more) (m, st)
  trusted optimisation is checked by bounded stand-ins (S04)
  requires s != nil
  modifies ncalls
  ensures implies(m != nil, fresh(m) && allocated(m))
func primeimplicant.transformModel(mdl, mapping) (r)
  trusted the optimum lists substitution variables only; bounded check only
  requires mdl != nil && mapping != nil
  ensures r != nil && fresh(r) && allocated(r) && oklits(r.Literals) && freshslice(r.Literals)
func primeimplicant.createSubstitution(fac, formula) (r)
  trusted the substitution of the dual-rail encoding; bounded check only
  requires ok(formula)
  ensures r != nil && fresh(r) && allocated(r) && ok(r.constraintFormula) && allkeys(v, r.substitution, ok(r.substitution[v]) && fsort(r.substitution[v]) == SortLiteral)
func primeimplicant.computeGeneric(fac, formula, maximize, hdl) (a, b, st)
  noframe
  requires ok(formula)
  modifies ncalls
  ensures lits: implies(st.Success, lits2(b))
  ensures implicants: implies(st.Success, impls(formula, a))
  ensures primes: implies(st.Success && maximize, primes(formula, a))
  inv (s *sat.Solver): complement(fs(s), formula)
  inv (p *primeimplicant.primeReduction): complement(fs(p.implicantSolver), formula)
  inv (p *primeimplicant.primeReduction): represents(fs(p.implicateSolver), formula)
  inv (s phi [][]formula.Literal): impls(formula, s)
  inv (s phi [][]formula.Literal): implies(maximize, primes(formula, s))
  inv (s phi [][]formula.Literal): lits2(s)
  inv (s *primeimplicant.substitutionResult): allkeys(v, s.substitution, ok(s.substitution[v]) && fsort(s.substitution[v]) == SortLiteral)
  inv (i idx, s []formula.Formula): forall(j, 0, i, ok(s[j]))
  inv (i idx, s []formula.Literal): forall(j, 0, i, ok(s[j]) && fsort(s[j]) == SortLiteral)
func primeimplicant.compute(fac, formula, sort, maximize, hdl) (r, st)
  requires ok(formula)
  modifies ncalls
  ensures result: implies(st.Success, r != nil)
  ensures implicants: implies(r != nil && sort == CoverImplicants, impls(formula, r.Implicants))
  ensures implicates: implies(r != nil && sort != CoverImplicants, icates(formula, r.Implicates))
  ensures primes: implies(r != nil && sort == CoverImplicants && maximize, primes(formula, r.Implicants))
  ensures iprimes: implies(r != nil && sort != CoverImplicants && maximize, iprimes(formula, r.Implicates))

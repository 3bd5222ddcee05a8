// Substitution: semb is the assignment that gives each variable the value of its replacement.
use sem enc sem2
prop T01
define litrange(m) = allkeys(v, m, fsort(m[v]) == SortLiteral)
define substok(m) = allkeys(v, m, ok(m[v]))
define substval(m) = all(v, implies(ok(v) && fsort(v) == SortLiteral && fid(v) % 2 == 1, iff(semb(v), ite(has(m, v), sem(m[v]), sem(v)))), semb(v))
func transformation.Substitute(fac, formula, subst) (r, err)
  requires ok(formula) && subst != nil && substok(subst.subst)
  ensures implies(err == nil, ok(r) && implies(old(substval(subst.subst)), iff(sem(r), semb(formula))))
  ensures noerror: implies(litrange(subst.subst), err == nil)
  inv (i idx, s []formula.Formula): forall(k, 0, i, ok(s[k]) && implies(substval(subst.subst), iff(sem(s[k]), semb(nop(formula, k)))))
  inv (s []formula.Formula): len(s) == nops(formula)
func transformation.substitutePbc(fac, pbc, substitution) (r, err)
  requires ok(pbc) && (fsort(pbc) == SortCC || fsort(pbc) == SortPBC) && substitution != nil && substok(substitution.subst)
  ensures implies(err == nil, ok(r) && implies(old(substval(substitution.subst)), iff(sem(r), semb(pbc))))
  ensures noerror: implies(litrange(substitution.subst), err == nil)
  inv (s phi []formula.Literal): oklits(s)
  inv (s phi []formula.Literal, c phi []int): len(s) == len(c)
  inv (i idx, s phi []formula.Literal, c phi []int, x phi int, lits []formula.Literal, coefs []int): implies(substval(substitution.subst), lsumbs(lits, coefs, i) == x + lsum(s, c, len(s)))
define litval(m) = all(v, implies(ok(v) && fsort(v) == SortLiteral && fid(v) % 2 == 1, iff(semb(v), ite(has(m, v), sem(m[v]), sem(v))) && implies(has(m, negl(v)), iff(semb(v), !sem(m[negl(v)])))), semb(v))
func transformation.SubstituteLiterals(fac, formula, substitution) (r)
  requires ok(formula) && substitution != nil && allkeys(v, *substitution, ok((*substitution)[v]) && fsort((*substitution)[v]) == SortLiteral)
  ensures ok(r) && implies(litval(*substitution), iff(sem(r), semb(formula))) && implies(fsort(formula) == SortLiteral, fsort(r) == SortLiteral)
  inv (i idx, s []formula.Formula): forall(k, 0, i, ok(s[k]) && implies(litval(*substitution), iff(sem(s[k]), semb(nop(formula, k)))))
  inv (s []formula.Formula): len(s) == nops(formula)
  inv (i idx, s []formula.Literal): forall(k, 0, i, ok(s[k]) && fsort(s[k]) == SortLiteral && implies(litval(*substitution), iff(sem(s[k]), semb(plit(formula, k)))))
  inv (s []formula.Literal): len(s) == plen(formula)
// quantifier elimination; semb: the fixed assignment with the (only) variable flipped
define flip(x) = all(v, implies(ok(v) && fsort(v) == SortLiteral && fid(v) % 2 == 1, iff(semb(v), ite(v == x, !sem(v), sem(v)))), semb(v))
func transformation.ExistentialQE(fac, formula, variable) (r)
  requires ok(formula) && okvars(variable)
  ensures ok(r) && implies(sem(formula), sem(r)) && implies(len(variable) == 0, r == formula)
  ensures one: implies(len(variable) == 1 && flip(variable[0]), iff(sem(r), sem(formula) || semb(formula)))
  inv (f phi formula.Formula): ok(f) && implies(sem(formula), sem(f))
  inv (i idx, f phi formula.Formula): implies(i == 0, f == formula) && implies(i == 1 && flip(variable[0]), iff(sem(f), sem(formula) || semb(formula)))
func transformation.UniversalQE(fac, formula, variable) (r)
  requires ok(formula) && okvars(variable)
  ensures ok(r) && implies(sem(r), sem(formula)) && implies(len(variable) == 0, r == formula)
  ensures one: implies(len(variable) == 1 && flip(variable[0]), iff(sem(r), sem(formula) && semb(formula)))
  inv (f phi formula.Formula): ok(f) && implies(sem(f), sem(formula))
  inv (i idx, f phi formula.Formula): implies(i == 0, f == formula) && implies(i == 1 && flip(variable[0]), iff(sem(f), sem(formula) && semb(formula)))
func transformation.isValidCC(op, rhs) (r)
  ensures iff(r, op == LE && rhs == 1 || op == LT && rhs == 2 || op == EQ && rhs == 1)
func encoding.EncodeCC(fac, constraint, config) (r, err)
  trusted the clauses of the pure at-most-one encoding collected in a list (no auxiliary variables)
  requires ok(constraint)
  ensures implies(err == nil, okall(r))
  ensures pure: implies(fsort(constraint) == SortCC && len(config) > 0 && config[0].AMOEncoder == AMOPure && (pcmp(constraint) == LE && prhs(constraint) == 1 || pcmp(constraint) == LT && prhs(constraint) == 2 || pcmp(constraint) == EQ && prhs(constraint) == 1), err == nil && iff(conj(r), sem(constraint)))
func encoding.DefaultConfig() (c)
  ensures c != nil && fresh(c)
func transformation.ExpandAMOAndEXO(fac, formula) (r, err)
  requires ok(formula)
  ensures implies(err == nil, ok(r) && iff(sem(r), sem(formula)))
  inv (i idx, s []formula.Formula): forall(k, 0, i, ok(s[k]) && iff(sem(s[k]), sem(nop(formula, k))))
  inv (s []formula.Formula): len(s) == nops(formula)
func transformation.(*Substitution).AddVar(s, variable, formula)
  requires s != nil
  modifies mapof(s.subst)
  ensures s.subst[variable] == formula && has(s.subst, variable)
  ensures others: all(k, implies(k != variable, iff(has(s.subst, k), old(has(s.subst, k))) && implies(has(s.subst, k), s.subst[k] == old(s.subst[k]))), has(s.subst, k))
func transformation.(*Substitution).AddMapping(s, mapping)
  requires s != nil && ref(s.subst) != ref(mapping)
  modifies mapof(s.subst)
  ensures added: allkeys(k, mapping, has(s.subst, k) && s.subst[k] == mapping[k])
  ensures others: all(k, implies(!has(mapping, k), iff(has(s.subst, k), old(has(s.subst, k))) && implies(has(s.subst, k), s.subst[k] == old(s.subst[k]))), has(s.subst, k))
  inv (): allkeys(k, mapping, implies(visited(k), has(s.subst, k) && s.subst[k] == mapping[k]))
  inv (): all(k, implies(!visited(k), iff(has(s.subst, k), old(has(s.subst, k))) && implies(has(s.subst, k), s.subst[k] == old(s.subst[k]))), has(s.subst, k))
func transformation.NewSubstitution() (s)
  ensures fresh(s) && s != nil && ref(s.subst) != 0 && allkeys(k, s.subst, false)
func transformation.(*Anonymizer).Anonymize(a, formula) (r)
  requires a != nil && a.Substitution != nil && ref(a.Substitution.subst) != 0 && ok(formula) && substok(a.Substitution.subst) && litrange(a.Substitution.subst)
  modifies a.counter, mapof(a.Substitution.subst)
  noframe
  use facts
  ensures value: ok(r) && implies(occv(formula) && substval(a.Substitution.subst), iff(sem(r), semb(formula)))
  ensures consistent: all(k, implies(old(has(a.Substitution.subst, k)), has(a.Substitution.subst, k) && a.Substitution.subst[k] == old(a.Substitution.subst[k])), has(a.Substitution.subst, k), old(has(a.Substitution.subst, k)))
  ensures literals: substok(a.Substitution.subst) && litrange(a.Substitution.subst)
  inv (): all(k, implies(old(has(a.Substitution.subst, k)), has(a.Substitution.subst, k) && a.Substitution.subst[k] == old(a.Substitution.subst[k])), has(a.Substitution.subst, k), old(has(a.Substitution.subst, k)))
  inv (): substok(a.Substitution.subst) && litrange(a.Substitution.subst)

// Pseudo-Boolean constraints: negation, normalisation, encodings.
use sem enc aux card
prop C02
define pbcsum(lits, coeffs) = lsum(lits, coeffs, len(lits))
define pos(coeffs) = forall(k, 0, len(coeffs), coeffs[k] > 0)
func encoding.normalizeLE(fac, ps, cs, rhs) (r)
  trusted bounded check only
  requires oklits(ps) && len(ps) == len(cs)
  ensures ok(r) && iff(sem(r), old(pbcsum(ps, cs)) <= rhs)
  ensures normal: hera(r)
func encoding.Normalize(fac, constraint) (r)
  use pbsum inst_pbc
  requires ok(constraint) && (fsort(constraint) == SortCC || fsort(constraint) == SortPBC)
  ensures ok(r) && iff(sem(r), sem(constraint))
  ensures normal: hera(r)
  inv (i idx, s []int, t []int): forall(k, 0, i, s[k] == -t[k], s[k])
  inv (s []int, t []int): ref(s) != ref(t) && len(s) == len(t)
func encoding.encodePBCSWC(result, lits, coeffs, rhs)
  trusted bounded check only
  requires oklits(lits) && len(lits) == len(coeffs) && len(lits) >= 2 && rhs > 0 && forall(k, 0, len(coeffs), 0 < coeffs[k] && coeffs[k] <= rhs)
  modifies enc, nused
  ensures sound: cardsound(pbcsum(lits, coeffs) <= rhs)
  ensures complete: cardcomplete(pbcsum(lits, coeffs) <= rhs)
  ensures count: nused >= old(nused)
func encoding.encodePBCBinaryMerge(result, lits, coeffs, rhs, config)
  trusted bounded check only
  requires oklits(lits) && len(lits) == len(coeffs) && len(lits) >= 2 && rhs > 0 && forall(k, 0, len(coeffs), 0 < coeffs[k] && coeffs[k] <= rhs) && config != nil
  modifies enc, nused
  ensures sound: cardsound(pbcsum(lits, coeffs) <= rhs)
  ensures complete: cardcomplete(pbcsum(lits, coeffs) <= rhs)
  ensures count: nused >= old(nused)
func encoding.encodePBCAdder(result, lits, coeffs, rhs)
  trusted bounded check only
  requires oklits(lits) && len(lits) == len(coeffs) && len(lits) >= 2 && rhs > 0 && forall(k, 0, len(coeffs), 0 < coeffs[k] && coeffs[k] <= rhs)
  modifies enc, nused
  ensures sound: cardsound(pbcsum(lits, coeffs) <= rhs)
  ensures complete: cardcomplete(pbcsum(lits, coeffs) <= rhs)
  ensures count: nused >= old(nused)
func encoding.encodePBC(result, lits, coeffs, rhs, config) (err)
  requires oklits(lits) && len(lits) == len(coeffs) && pos(coeffs) && config != nil && rhs >= 0
  modifies enc, nused
  ensures sound: implies(err == nil, cardsound(pbcsum(lits, coeffs) <= rhs))
  ensures complete: implies(err == nil, cardcomplete(pbcsum(lits, coeffs) <= rhs))
  ensures failed: implies(err != nil, enc == old(enc) && rhs == 9223372036854775807)
  ensures count: nused >= old(nused)
  inv (i idx): iff(enc, old(enc) && forall(k, 0, i, !sem(lits[k]), lits[k]))
  inv (i idx): implies(enc, lsum(lits, coeffs, i) == 0)
  inv (i idx): iff(enc, old(enc) && forall(k, 0, i, implies(coeffs[k] > rhs, !sem(lits[k])), coeffs[k]))
  inv (i idx, s phi []formula.Literal, t phi []int): oklits(s) && len(s) == len(t) && len(s) <= i && forall(k, 0, len(t), 0 < t[k] && t[k] <= rhs)
  inv (i idx, s phi []formula.Literal, t phi []int): implies(enc, lsum(s, t, len(s)) == lsum(lits, coeffs, i))
  inv (i idx, s phi []formula.Literal, t phi []int): implies(lsum(lits, coeffs, i) <= rhs, lsum(s, t, len(s)) == lsum(lits, coeffs, i))
func encoding.EncodePBCInResult(fac, pbc, result, config) (err)
  use inst_pbc
  requires ok(pbc) && implies(len(config) > 0, config[0] != nil)
  modifies enc, nused
  ensures sound: implies(err == nil && enc, old(enc) && sem(pbc))
  ensures complete: implies(err == nil && faith && old(enc) && sem(pbc), enc)
  inv (i idx, s []formula.Formula): implies(enc, old(enc) && forall(k, 0, i, sem(s[k]), s[k]))
  inv (): implies(faith && old(enc) && sem(pbc), enc)
  inv (e phi error): e == nil
func encoding.ContainsPBC(fac, formula) (r)
  requires ok(formula)
prop C02 N01
func encoding.NegatePBC(fac, formula) (r)
  requires ok(formula) && (fsort(formula) == SortCC || fsort(formula) == SortPBC)
  ensures ok(r) && iff(sem(r), !sem(formula))
  ensures assumed_shape: fsort(r) <= SortTrue || fsort(r) == SortOr || fsort(r) >= SortCC

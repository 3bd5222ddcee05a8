// Encoding of formulas, variables and literals as numbers; small helpers.
use sem bits
prop F01 F02

func formula.(Formula).ID(f) (r)
  pure
  ensures r == fid(f)
func formula.(Literal).ID(f) (r)
  pure
  ensures r == fid(f)
func formula.(Variable).ID(f) (r)
  pure
  ensures r == fid(f)
func formula.(Formula).Sort(f) (r)
  pure
  ensures r == fsort(f)
func formula.EncodeFormula(s, id) (r)
  pure
  requires s < 16 && id < 268435456
  ensures r == s * 268435456 + id && fsort(r) == s && fid(r) == id
func formula.EncodeLiteral(id) (r)
  pure
  requires id < 268435456
  ensures r == 536870912 + id && fsort(r) == SortLiteral && fid(r) == id
func formula.EncodeVariable(id) (r)
  pure
  requires id < 268435456
  ensures r == 536870912 + id && fsort(r) == SortLiteral && fid(r) == id
func formula.(Literal).IsPos(f) (r)
  pure
  ensures iff(r, fid(f) % 2 == 1)
func formula.(Literal).IsNeg(f) (r)
  pure
  ensures iff(r, fid(f) % 2 == 0)
func formula.(Formula).IsPos(f) (r)
  pure
  ensures iff(r, fid(f) % 2 == 1)
func formula.(Formula).IsNeg(f) (r)
  pure
  ensures iff(r, fid(f) % 2 == 0)
func formula.(Formula).IsConstant(f) (r)
  pure
  ensures iff(r, fsort(f) <= SortTrue)
func formula.(Formula).IsAtomic(f) (r)
  pure
  ensures iff(r, fsort(f) <= SortLiteral || fsort(f) == SortCC || fsort(f) == SortPBC)
func formula.(Formula).AsVariable(f) (v, err)
  ensures iff(err == nil, fsort(f) == SortLiteral && fid(f) % 2 == 1)
  ensures implies(err == nil, v == f)
func formula.(Formula).AsLiteral(f) (l, err)
  ensures iff(err == nil, fsort(f) == SortLiteral)
  ensures implies(err == nil, l == f)
func formula.negId(id) (r)
  pure
  ensures r == ite(id % 2 == 0, id + 1, id - 1)
func formula.DualSort(s) (r, err)
  ensures implies(s == SortAnd, err == nil && r == SortOr)
  ensures implies(s == SortOr, err == nil && r == SortAnd)
  ensures implies(s != SortAnd && s != SortOr, err != nil)
func formula.(CSort).Evaluate(c, l, r) (b)
  pure
  ensures iff(b, cmpok(c, l, r))
func formula.evaluateTrivialPBConstraint(c, rhs) (r)
  pure
  ensures iff(r, cmpok(c, 0, rhs))
func formula.opsEquals(o1, o2) (r)
  pure
  ensures iff(r, len(o1) == len(o2) && forall(k, 0, len(o1), o1[k] == o2[k]))
  inv (i idx): forall(k, 0, i, o1[k] == o2[k])
func formula.(*CachingFactory).pbcsEquals(fac, p1, p2) (r)
  pure
  ensures iff(r, p1.comparator == p2.comparator && p1.rhs == p2.rhs && len(p1.literals) == len(p2.literals) && len(p1.coefficients) == len(p2.coefficients) && forall(k, 0, len(p1.literals), p1.literals[k] == p2.literals[k]) && forall(k, 0, len(p1.coefficients), p1.coefficients[k] == p2.coefficients[k]))
func formula.LiteralsAsFormulas(ls) (r)
  ensures len(r) == len(ls) && forall(k, 0, len(ls), r[k] == ls[k])
  ensures freshslice(r)
  ensures off(r) == 0
  inv (i idx, s []formula.Formula): forall(k, 0, i, s[k] == ls[k])
func formula.VariablesAsFormulas(ls) (r)
  ensures len(r) == len(ls) && forall(k, 0, len(ls), r[k] == ls[k])
  ensures freshslice(r)
  ensures off(r) == 0
  inv (i idx, s []formula.Formula): forall(k, 0, i, s[k] == ls[k])
func formula.VariablesAsLiterals(ls) (r)
  ensures len(r) == len(ls) && forall(k, 0, len(ls), r[k] == ls[k])
  ensures freshslice(r)
  ensures off(r) == 0
  inv (i idx, s []formula.Literal): forall(k, 0, i, s[k] == ls[k])
func formula.LiteralsAsVariables(ls) (r, err)
  ensures implies(err == nil, len(r) == len(ls) && forall(k, 0, len(ls), r[k] == ls[k]) && freshslice(r) && off(r) == 0)
  ensures iff(err == nil, forall(k, 0, len(ls), fid(ls[k]) % 2 == 1))
  inv (i idx, s []formula.Variable): forall(k, 0, i, s[k] == ls[k])
  inv (i idx): forall(k, 0, i, fid(ls[k]) % 2 == 1)
func formula.hashOperands(ops) (r)
  pure
  trusted the hash value is a function of the operand list (loop over the operands with wrapping arithmetic; only used as a map key)
  ensures r == hashsp(ops)
func formula.hashPbc(p) (r)
  pure
  trusted the hash value is a function of the constraint's contents (wrapping arithmetic; only used as a map key)
  ensures r == hashpb(p.comparator, p.rhs, p.literals, p.coefficients)

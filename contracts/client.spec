// The formula factory as its clients see it. Operands are formulas of the factory (ok); operand lists handed out
// are owned by the factory (negative references: disjoint from everything a client allocates or modifies).
use sem enc
prop F03 F04 N01 N02 C01 C02 X01 T01 B01 S01 S04 S05 E01 I01

define okall(s) = forall(k, 0, len(s), ok(s[k]))
define allhand(s) = forall(k, 0, len(s), hera(s[k]))
define allhor(s) = forall(k, 0, len(s), hero(s[k]))
define allhand2(s) = forall(k, 0, len(s), hera2(s[k]))
define allhor2(s) = forall(k, 0, len(s), hero2(s[k]))
define oklits(s) = forall(k, 0, len(s), ok(s[k]) && fsort(s[k]) == SortLiteral)
define okvars(s) = forall(k, 0, len(s), ok(s[k]) && fsort(s[k]) == SortLiteral && fid(s[k]) % 2 == 1)
iface formula.Factory.Verum(fac) (r)
  ensures r == verum
iface formula.Factory.Falsum(fac) (r)
  ensures r == falsum
iface formula.Factory.Constant(fac, value) (r)
  ensures r == ite(value, verum, falsum)
iface formula.Factory.Var(fac, name) (r)
  ensures ok(r) && fsort(r) == SortLiteral && r == litof(name, true) && lname(r) == name && lphase(r) && fid(r) % 2 == 1
iface formula.Factory.Variable(fac, name) (r)
  ensures ok(r) && fsort(r) == SortLiteral && r == litof(name, true) && lname(r) == name && lphase(r) && fid(r) % 2 == 1
iface formula.Factory.Lit(fac, name, phase) (r)
  ensures ok(r) && fsort(r) == SortLiteral && r == litof(name, phase) && ok(litof(name, true)) && r == ite(phase, litof(name, true), negl(litof(name, true))) && lname(r) == name && iff(lphase(r), phase) && iff(phase, fid(r) % 2 == 1)
iface formula.Factory.Literal(fac, name, phase) (r)
  ensures ok(r) && fsort(r) == SortLiteral && r == litof(name, phase) && ok(litof(name, true)) && r == ite(phase, litof(name, true), negl(litof(name, true))) && lname(r) == name && iff(lphase(r), phase) && iff(phase, fid(r) % 2 == 1)
iface formula.Factory.Not(fac, f) (r)
  requires ok(f)
  ensures ok(r) && iff(sem(r), !sem(f))
  ensures @calls all(c, iff(semc(c, r), !semc(c, f)), semc(c, r), semc(c, f))
  ensures implies(fsort(f) == SortLiteral, r == negl(f)) && implies(fsort(f) == SortNot, r == notop(f)) && implies(fsort(f) > 3, fsort(r) == SortNot && notop(r) == f) && implies(fsort(f) <= SortTrue, fsort(r) <= SortTrue)
iface formula.Factory.Implication(fac, left, right) (r)
  requires ok(left) && ok(right)
  ensures ok(r) && iff(sem(r), implies(sem(left), sem(right)))
  ensures @calls all(c, iff(semc(c, r), implies(semc(c, left), semc(c, right))), semc(c, r))
iface formula.Factory.Equivalence(fac, left, right) (r)
  requires ok(left) && ok(right)
  ensures ok(r) && iff(sem(r), iff(sem(left), sem(right)))
  ensures @calls all(c, iff(semc(c, r), iff(semc(c, left), semc(c, right))), semc(c, r))
iface formula.Factory.BinaryOperator(fac, sort, left, right) (r, err)
  requires ok(left) && ok(right)
  ensures iff(err == nil, sort == SortImpl || sort == SortEquiv)
  ensures implies(sort == SortImpl, ok(r) && iff(sem(r), implies(sem(left), sem(right))))
  ensures implies(sort == SortEquiv, ok(r) && iff(sem(r), iff(sem(left), sem(right))))
iface formula.Factory.NaryOperator(fac, sort, ops) (r, err)
  requires okall(ops)
  ensures iff(err == nil, sort == SortAnd || sort == SortOr)
  ensures implies(sort == SortAnd, ok(r) && iff(sem(r), conj(ops)))
  ensures implies(sort == SortOr, ok(r) && iff(sem(r), disj(ops)))
  ensures implies(sort == SortAnd && allhand(ops), hera(r)) && implies(sort == SortOr && allhor(ops), hero(r)) && implies(sort == SortAnd && allhand2(ops), hera2(r)) && implies(sort == SortOr && allhor2(ops), hero2(r))
iface formula.Factory.And(fac, ops) (r)
  requires okall(ops)
  ensures ok(r) && iff(sem(r), conj(ops))
  ensures @calls all(c, iff(semc(c, r), conjc(c, ops)), semc(c, r))
  ensures implies(allhand(ops), hera(r))
  ensures implies(allhand2(ops), hera2(r))
iface formula.Factory.Or(fac, ops) (r)
  requires okall(ops)
  ensures ok(r) && iff(sem(r), disj(ops))
  ensures @calls all(c, iff(semc(c, r), disjc(c, ops)), semc(c, r))
  ensures implies(allhor(ops), hero(r))
  ensures implies(allhor2(ops), hero2(r))
iface formula.Factory.Minterm(fac, ops) (r)
  requires oklits(ops)
  ensures ok(r) && iff(sem(r), conj(ops))
  ensures @calls all(c, iff(semc(c, r), conjc(c, ops)), semc(c, r))
  ensures implies(allhand(ops), hera(r))
  ensures implies(allhand2(ops), hera2(r))
iface formula.Factory.Clause(fac, ops) (r)
  requires oklits(ops)
  ensures ok(r) && iff(sem(r), disj(ops))
  ensures @calls all(c, iff(semc(c, r), disjc(c, ops)), semc(c, r))
define isccof(g, cmp, rhs, vars) = pcmp(g) == cmp && prhs(g) == rhs && plen(g) == len(vars) && forall(k, 0, len(vars), plit(g, k) == vars[k], alt(vars[k]), alt(plit(g, k))) && forall(k, 0, len(vars), pcoef(g, k) == 1, pcoef(g, k))
define ispbof(g, cmp, rhs, lits, coefs) = pcmp(g) == cmp && prhs(g) == rhs && plen(g) == len(lits) && plen(g) == len(coefs) && forall(k, 0, len(lits), plit(g, k) == lits[k], alt(lits[k]), alt(plit(g, k))) && forall(k, 0, len(lits), pcoef(g, k) == coefs[k], alt(coefs[k]), alt(pcoef(g, k)))
  ensures implies(allhor(ops), hero(r))
  ensures implies(allhor2(ops), hero2(r))
iface formula.Factory.CC(fac, cmp, rhs, vars) (r)
  requires okvars(vars) && 0 <= cmp && cmp <= 4
  ensures ok(r) && implies(len(vars) == 0, r == ite(cmpok(cmp, 0, rhs), verum, falsum)) && implies(len(vars) > 0, fsort(r) == SortCC && isccof(r, cmp, rhs, vars))
iface formula.Factory.AMO(fac, vars) (r)
  requires okvars(vars)
  ensures ok(r) && implies(len(vars) == 0, r == verum) && implies(len(vars) > 0, fsort(r) == SortCC && isccof(r, 1, 1, vars))
iface formula.Factory.EXO(fac, vars) (r)
  requires okvars(vars)
  ensures ok(r) && implies(len(vars) == 0, r == falsum) && implies(len(vars) > 0, fsort(r) == SortCC && isccof(r, 0, 1, vars))
iface formula.Factory.PBC(fac, cmp, rhs, lits, coefs) (r)
  requires oklits(lits) && len(lits) == len(coefs) && 0 <= cmp && cmp <= 4
  ensures ok(r) && implies(len(lits) == 0, r == ite(cmpok(cmp, 0, rhs), verum, falsum)) && implies(len(lits) > 0, (fsort(r) == SortCC || fsort(r) == SortPBC) && ispbof(r, cmp, rhs, lits, coefs))
iface formula.Factory.VarName(fac, v) (name, found)
  ensures implies(ok(v) && fsort(v) == SortLiteral, found && name == lname(v))
iface formula.Factory.LitNamePhase(fac, l) (name, phase, found)
  ensures implies(ok(l) && fsort(l) == SortLiteral, found && name == lname(l) && iff(phase, lphase(l)))
iface formula.Factory.LiteralNamePhase(fac, f) (name, phase, found)
  ensures implies(ok(f), iff(found, fsort(f) == SortLiteral) && implies(found, name == lname(f) && iff(phase, lphase(f))))
iface formula.Factory.NotOperand(fac, f) (op, found)
  ensures implies(ok(f), iff(found, fsort(f) == SortNot) && implies(found, op == notop(f) && ok(op)))
iface formula.Factory.BinaryLeftRight(fac, f) (left, right, found)
  ensures implies(ok(f), iff(found, fsort(f) == SortImpl || fsort(f) == SortEquiv) && implies(found, left == bl(f) && right == br(f) && ok(left) && ok(right)))
iface formula.Factory.NaryOperands(fac, f) (ops, found)
  ensures implies(ok(f), iff(found, fsort(f) == SortAnd || fsort(f) == SortOr) && implies(found, ref(ops) < 0 && off(ops) == 0 && cap(ops) == len(ops) && len(ops) == nops(f) && forall(k, 0, nops(f), ops[k] == nop(f, k) && ok(ops[k]), alt(ops[k]), alt(nop(f, k)))))
iface formula.Factory.PBCOps(fac, f) (cmp, rhs, lits, coefs, found)
  ensures implies(ok(f), iff(found, fsort(f) == SortCC || fsort(f) == SortPBC) && implies(found, ref(lits) < 0 && ref(coefs) < 0 && ispbof(f, cmp, rhs, lits, coefs)))
iface formula.Factory.Operands(fac, f) (ops)
  requires ok(f)
  ensures okall(ops) && (ref(ops) < 0 || freshslice(ops))
  ensures implies(fsort(f) == SortNot, len(ops) == 1 && ops[0] == notop(f))
  ensures implies(fsort(f) == SortImpl || fsort(f) == SortEquiv, len(ops) == 2 && ops[0] == bl(f) && ops[1] == br(f))
  ensures implies(fsort(f) == SortAnd || fsort(f) == SortOr, len(ops) == nops(f) && forall(k, 0, nops(f), ops[k] == nop(f, k), alt(ops[k]), alt(nop(f, k))))
  ensures implies(fsort(f) <= SortLiteral || fsort(f) >= SortCC, len(ops) == 0)
ghost nused Int
iface formula.Factory.NewAuxVar(fac, sort) (r)
  use aux
  trusted creates a variable never used before; the assignment is extended to it as its first use defines
  modifies nused
  ensures ok(r) && fsort(r) == SortLiteral && fid(r) % 2 == 1
  ensures auxno(r) == old(nused) && nused == old(nused) + 1

func formula.(Literal).Variable(l) (r)
  pure
  requires ok(l) && fsort(l) == SortLiteral
  ensures ok(r) && fsort(r) == SortLiteral && fid(r) % 2 == 1 && r == ite(fid(l) % 2 == 1, l, negl(l)) && iff(sem(l), ite(fid(l) % 2 == 1, sem(r), !sem(r)))
func formula.(Literal).Negate(l, fac) (r)
  requires ok(l) && fsort(l) == SortLiteral
  ensures ok(r) && fsort(r) == SortLiteral && r == negl(l)
func formula.(Variable).Negate(l, fac) (r)
  requires ok(l) && fsort(l) == SortLiteral && fid(l) % 2 == 1
  ensures ok(r) && fsort(r) == SortLiteral && r == negl(l)
func formula.(Formula).Negate(f, fac) (r)
  requires ok(f)
  ensures ok(r) && iff(sem(r), !sem(f))
  ensures @calls all(c, iff(semc(c, r), !semc(c, f)), semc(c, r), semc(c, f))
func formula.(Literal).Sprint(l, fac) (r)
  trusted printing has no effect on the state in view
func formula.(Variable).Sprint(l, fac) (r)
  trusted printing has no effect on the state in view
func formula.(Formula).Sprint(l, fac) (r)
  trusted printing has no effect on the state in view

// The caching factory: representation invariant, construction, and definitions by insertion of fresh keys.
use sem enc
prop F01 F02

define ex(fac, f) = (f == falsum || f == verum || (fsort(f) == SortLiteral && has(fac.literals, f)) || (fsort(f) == SortNot && has(fac.nots, f)) || (fsort(f) == SortAnd && has(fac.ands, f)) || (fsort(f) == SortOr && has(fac.ors, f)) || (fsort(f) == SortImpl && has(fac.implications, f)) || (fsort(f) == SortEquiv && has(fac.equivalences, f)) || (fsort(f) == SortCC && has(fac.ccs, f)) || (fsort(f) == SortPBC && has(fac.pbcs, f)))
define FIdist(fac) = ref(fac.implications) != ref(fac.equivalences) && ref(fac.ands) != ref(fac.ors) && ref(fac.ccs) != ref(fac.pbcs) && ref(fac.implCache) != ref(fac.equivCache) && ref(fac.andCache) != ref(fac.orCache) && ref(fac.andCache) != ref(fac.ccCache) && ref(fac.andCache) != ref(fac.pbcCache) && ref(fac.orCache) != ref(fac.ccCache) && ref(fac.orCache) != ref(fac.pbcCache) && ref(fac.ccCache) != ref(fac.pbcCache)
define FIconst(fac) = fac.cFalse == falsum && fac.cTrue == verum && fac.id >= 2 && FIdist(fac)
define FIlit(fac) = allkeys(l, fac.literals, ok(l) && fsort(l) == SortLiteral && 2 < fid(l) + 1 && fid(l) <= fac.id && lname(l) == fac.literals[l].name && iff(lphase(l), fac.literals[l].phase) && iff(lphase(l), fid(l) % 2 == 1) && has(fac.posLitCache, lname(l)) && negl(l) == litof(lname(l), !lphase(l)))
define FIpos(fac) = allkeys(n, fac.posLitCache, fac.posLitCache[n] == litof(n, true) && has(fac.literals, litof(n, true)) && lname(litof(n, true)) == n && lphase(litof(n, true)) && negl(litof(n, true)) == litof(n, false) && lname(litof(n, false)) == n && ok(litof(n, false)) && fofid(fid(litof(n, false))) == litof(n, false) && fid(litof(n, false)) == fid(litof(n, true)) - 1 && fid(litof(n, true)) <= fac.id)
define FIneg(fac) = allkeys(n, fac.negLitCache, has(fac.posLitCache, n) && fac.negLitCache[n] == litof(n, false) && has(fac.literals, litof(n, false)))
define FInot(fac) = allkeys(g, fac.nots, ok(g) && fsort(g) == SortNot && notop(g) == fac.nots[g].operand && ex(fac, notop(g)) && fsort(notop(g)) > 3 && fid(g) == fid(notop(g)) - 1 && fid(g) <= fac.id && has(fac.notCache, notop(g)) && fac.notCache[notop(g)] == g) && allkeys(h, fac.notCache, has(fac.nots, fac.notCache[h]) && fac.nots[fac.notCache[h]].operand == h)
define FIimpl(fac) = allkeys(g, fac.implications, ok(g) && fsort(g) == SortImpl && bl(g) == fac.implications[g].left && br(g) == fac.implications[g].right && ex(fac, bl(g)) && ex(fac, br(g)) && fid(g) <= fac.id && fid(g) % 2 == 1)
define FIequiv(fac) = allkeys(g, fac.equivalences, ok(g) && fsort(g) == SortEquiv && bl(g) == fac.equivalences[g].left && br(g) == fac.equivalences[g].right && ex(fac, bl(g)) && ex(fac, br(g)) && fid(g) <= fac.id && fid(g) % 2 == 1)
define FIimplc(fac) = allkeys(p, fac.implCache, has(fac.implications, fac.implCache[p]) && fac.implications[fac.implCache[p]].left == p.f1 && fac.implications[fac.implCache[p]].right == p.f2)
define FIequivc(fac) = allkeys(p, fac.equivCache, has(fac.equivalences, fac.equivCache[p]) && fac.equivalences[fac.equivCache[p]].left == p.f1 && fac.equivalences[fac.equivCache[p]].right == p.f2)
define FIand(fac) = allkeys(g, fac.ands, ok(g) && fsort(g) == SortAnd && nops(g) == len(fac.ands[g].operands) && fid(g) <= fac.id && fid(g) % 2 == 1 && forall(k, 0, nops(g), nop(g, k) == fac.ands[g].operands[k] && ex(fac, nop(g, k)), alt(fac.ands[g].operands[k]), alt(nop(g, k))))
define FIor(fac) = allkeys(g, fac.ors, ok(g) && fsort(g) == SortOr && nops(g) == len(fac.ors[g].operands) && fid(g) <= fac.id && fid(g) % 2 == 1 && forall(k, 0, nops(g), nop(g, k) == fac.ors[g].operands[k] && ex(fac, nop(g, k)), alt(fac.ors[g].operands[k]), alt(nop(g, k))))
define FIandc(fac) = allkeys(h, fac.andCache, forall(k, 0, len(fac.andCache[h]), has(fac.ands, fac.andCache[h][k])))
define FIorc(fac) = allkeys(h, fac.orCache, forall(k, 0, len(fac.orCache[h]), has(fac.ors, fac.orCache[h][k])))
define pbcdef(fac, g, c) = pcmp(g) == c.comparator && prhs(g) == c.rhs && plen(g) == len(c.literals) && plen(g) == len(c.coefficients) && forall(k, 0, plen(g), plit(g, k) == c.literals[k] && pcoef(g, k) == c.coefficients[k] && ex(fac, plit(g, k)), alt(c.literals[k]), alt(plit(g, k)), alt(c.coefficients[k]), alt(pcoef(g, k)))
define FIcc(fac) = allkeys(g, fac.ccs, ok(g) && fsort(g) == SortCC && fid(g) <= fac.id && fid(g) % 2 == 1 && pbcdef(fac, g, fac.ccs[g]))
define FIpbc(fac) = allkeys(g, fac.pbcs, ok(g) && fsort(g) == SortPBC && fid(g) <= fac.id && fid(g) % 2 == 1 && pbcdef(fac, g, fac.pbcs[g]))
define FIccc(fac) = allkeys(h, fac.ccCache, forall(k, 0, len(fac.ccCache[h]), has(fac.ccs, fac.ccCache[h][k])))
define FIpbcc(fac) = allkeys(h, fac.pbcCache, forall(k, 0, len(fac.pbcCache[h]), has(fac.pbcs, fac.pbcCache[h][k])))
define FI5(fac) = FIcc(fac) && FIpbc(fac) && FIccc(fac) && FIpbcc(fac)
define FIandu(fac) = allkeys(g, fac.ands, andof(fac.ands[g].operands) == g && 0 <= slot(g) && slot(g) < len(fac.andCache[hashsp(fac.ands[g].operands)]) && has(fac.andCache, hashsp(fac.ands[g].operands)) && fac.andCache[hashsp(fac.ands[g].operands)][slot(g)] == g)
define FIoru(fac) = allkeys(g, fac.ors, orof(fac.ors[g].operands) == g && 0 <= slot(g) && slot(g) < len(fac.orCache[hashsp(fac.ors[g].operands)]) && has(fac.orCache, hashsp(fac.ors[g].operands)) && fac.orCache[hashsp(fac.ors[g].operands)][slot(g)] == g)
define hpb(c) = hashpb(c.comparator, c.rhs, c.literals, c.coefficients)
define FIccu(fac) = allkeys(g, fac.ccs, ccof(fac.ccs[g].comparator, fac.ccs[g].rhs, fac.ccs[g].literals, fac.ccs[g].coefficients) == g && 0 <= slot(g) && slot(g) < len(fac.ccCache[hpb(fac.ccs[g])]) && has(fac.ccCache, hpb(fac.ccs[g])) && fac.ccCache[hpb(fac.ccs[g])][slot(g)] == g)
define FIpbcu(fac) = allkeys(g, fac.pbcs, pbcof(fac.pbcs[g].comparator, fac.pbcs[g].rhs, fac.pbcs[g].literals, fac.pbcs[g].coefficients) == g && 0 <= slot(g) && slot(g) < len(fac.pbcCache[hpb(fac.pbcs[g])]) && has(fac.pbcCache, hpb(fac.pbcs[g])) && fac.pbcCache[hpb(fac.pbcs[g])][slot(g)] == g)
define FI6(fac) = FIandu(fac) && FIoru(fac) && FIccu(fac) && FIpbcu(fac)
define sameseq(a, b) = len(a) == len(b) && forall(k, 0, len(a), a[k] == b[k])
define samecon(a, b) = a.comparator == b.comparator && a.rhs == b.rhs && sameseq(a.literals, b.literals) && sameseq(a.coefficients, b.coefficients)
define FI1(fac) = FIconst(fac) && FIlit(fac) && FIpos(fac) && FIneg(fac)
define FI2(fac) = FInot(fac)
define FI3(fac) = FIimpl(fac) && FIequiv(fac) && FIimplc(fac) && FIequivc(fac)
define FI4(fac) = FIand(fac) && FIor(fac) && FIandc(fac) && FIorc(fac)
define FI(fac) = FI1(fac) && FI2(fac) && FI3(fac) && FI4(fac) && FI5(fac) && FI6(fac)
define negid(i) = ite(i % 2 == 0, i + 1, i - 1)
define mono(fac) = fac.id >= old(fac.id) && all(f, implies(old(ex(fac, f)), ex(fac, f)), fsort(f))

func formula.(*CachingFactory).nextPosId(fac) (r)
  assume idspace: fac.id < 268435000
  modifies fac.id
  ensures r > old(fac.id) && r % 2 == 1 && fac.id == r && r <= old(fac.id) + 2 && r < 268435456

func formula.(*CachingFactory).Var(fac, name) (r)
  requires FI(fac)
  modifies fac.id, mapof(fac.posLitCache), mapof(fac.literals)
  def formula.CachingFactory.posLitCache requires !has(m, key) && fid(value) > old(fac.id) && fsort(value) == SortLiteral && fid(value) % 2 == 1 defines ok(value) && litof(key, true) == value && lname(value) == key && lphase(value) && negl(value) == litof(key, false) && litof(key, false) == value - 1 && fsort(value - 1) == SortLiteral && fid(value - 1) == fid(value) - 1
  ensures inv1: FI1(fac)
  ensures inv2: FI2(fac)
  ensures inv3a: FIimpl(fac)
  ensures inv3b: FIequiv(fac)
  ensures inv3c: FIimplc(fac)
  ensures inv3d: FIequivc(fac)
  ensures inv4a: FIand(fac)
  ensures inv4b: FIor(fac)
  ensures inv4c: FIandc(fac)
  ensures inv4d: FIorc(fac)
  ensures inv5a: FIcc(fac)
  ensures inv5b: FIpbc(fac)
  ensures inv5c: FIccc(fac) && FIpbcc(fac)
  ensures inv6a: FIandu(fac)
  ensures inv6b: FIoru(fac)
  ensures inv6c: FIccu(fac)
  ensures inv6d: FIpbcu(fac)
  ensures r == litof(name, true) && has(fac.literals, r) && has(fac.posLitCache, name) && ok(r) && lname(r) == name && lphase(r) && fsort(r) == SortLiteral
  ensures mono: mono(fac)
func formula.(*CachingFactory).Lit(fac, name, phase) (r)
  requires FI(fac)
  modifies fac.id, mapof(fac.posLitCache), mapof(fac.literals), mapof(fac.negLitCache)
  ensures inv1: FI1(fac)
  ensures inv2: FI2(fac)
  ensures inv3a: FIimpl(fac)
  ensures inv3b: FIequiv(fac)
  ensures inv3c: FIimplc(fac)
  ensures inv3d: FIequivc(fac)
  ensures inv4a: FIand(fac)
  ensures inv4b: FIor(fac)
  ensures inv4c: FIandc(fac)
  ensures inv4d: FIorc(fac)
  ensures inv5a: FIcc(fac)
  ensures inv5b: FIpbc(fac)
  ensures inv5c: FIccc(fac) && FIpbcc(fac)
  ensures inv6a: FIandu(fac)
  ensures inv6b: FIoru(fac)
  ensures inv6c: FIccu(fac)
  ensures inv6d: FIpbcu(fac)
  ensures neg: ok(litof(name, true)) && ex(fac, litof(name, true)) && r == ite(phase, litof(name, true), negl(litof(name, true)))
  ensures r == litof(name, phase) && has(fac.literals, r) && ok(r) && lname(r) == name && iff(lphase(r), phase) && fsort(r) == SortLiteral
  ensures mono: mono(fac)
func formula.(*CachingFactory).Not(fac, operand) (r)
  requires FI(fac) && ok(operand) && ex(fac, operand)
  modifies fac.id, mapof(fac.posLitCache), mapof(fac.literals), mapof(fac.negLitCache), mapof(fac.nots), mapof(fac.notCache)
  def formula.CachingFactory.notCache requires !has(m, key) && ok(key) && fsort(key) > 3 && fsort(value) == SortNot && fid(value) == fid(key) - 1 defines ok(value) && notop(value) == key && sem(value) == !sem(key)
  ensures inv1: FI1(fac)
  ensures inv2: FI2(fac)
  ensures inv3a: FIimpl(fac)
  ensures inv3b: FIequiv(fac)
  ensures inv3c: FIimplc(fac)
  ensures inv3d: FIequivc(fac)
  ensures inv4a: FIand(fac)
  ensures inv4b: FIor(fac)
  ensures inv4c: FIandc(fac)
  ensures inv4d: FIorc(fac)
  ensures inv5a: FIcc(fac)
  ensures inv5b: FIpbc(fac)
  ensures inv5c: FIccc(fac) && FIpbcc(fac)
  ensures inv6a: FIandu(fac)
  ensures inv6b: FIoru(fac)
  ensures inv6c: FIccu(fac)
  ensures inv6d: FIpbcu(fac)
  ensures ok(r) && ex(fac, r) && iff(sem(r), !sem(operand))
  ensures involution: implies(fsort(operand) == SortNot, r == notop(operand)) && implies(fsort(operand) == SortLiteral, r == negl(operand)) && implies(fsort(operand) > 3, fsort(r) == SortNot && notop(r) == operand && fid(r) == fid(operand) - 1)
  ensures mono: mono(fac)
func formula.(*CachingFactory).Constant(fac, value) (r)
  pure
  requires FI1(fac)
  ensures ok(r) && r == ite(value, verum, falsum)
func formula.(*CachingFactory).Verum(fac) (r)
  pure
  requires FI1(fac)
  ensures r == verum
func formula.(*CachingFactory).Falsum(fac) (r)
  pure
  requires FI1(fac)
  ensures r == falsum
func formula.(*CachingFactory).Implication(fac, left, right) (r)
  requires FI(fac) && ok(left) && ok(right) && ex(fac, left) && ex(fac, right)
  modifies fac.id, mapof(fac.posLitCache), mapof(fac.literals), mapof(fac.negLitCache), mapof(fac.nots), mapof(fac.notCache), mapof(fac.implications), mapof(fac.implCache)
  def formula.CachingFactory.implCache requires !has(m, key) && fid(value) > old(fac.id) && fsort(value) == SortImpl && fid(value) % 2 == 1 && ok(key.f1) && ok(key.f2) defines ok(value) && bl(value) == key.f1 && br(value) == key.f2
  ensures inv1: FI1(fac)
  ensures inv2: FI2(fac)
  ensures inv3a: FIimpl(fac)
  ensures inv3b: FIequiv(fac)
  ensures inv3c: FIimplc(fac)
  ensures inv3d: FIequivc(fac)
  ensures inv4a: FIand(fac)
  ensures inv4b: FIor(fac)
  ensures inv4c: FIandc(fac)
  ensures inv4d: FIorc(fac)
  ensures inv5a: FIcc(fac)
  ensures inv5b: FIpbc(fac)
  ensures inv5c: FIccc(fac) && FIpbcc(fac)
  ensures inv6a: FIandu(fac)
  ensures inv6b: FIoru(fac)
  ensures inv6c: FIccu(fac)
  ensures inv6d: FIpbcu(fac)
  ensures mono: mono(fac)
  ensures sem: ok(r) && ex(fac, r) && iff(sem(r), implies(sem(left), sem(right)))
  ensures shared: implies(fsort(left) > 1 && fsort(right) > 1 && left != right && fid(left) != negid(fid(right)), fsort(r) == SortImpl && bl(r) == left && br(r) == right)
func formula.(*CachingFactory).Equivalence(fac, left, right) (r)
  requires FI(fac) && ok(left) && ok(right) && ex(fac, left) && ex(fac, right)
  modifies fac.id, mapof(fac.posLitCache), mapof(fac.literals), mapof(fac.negLitCache), mapof(fac.nots), mapof(fac.notCache), mapof(fac.equivalences), mapof(fac.equivCache)
  def formula.CachingFactory.equivCache requires !has(m, key) && fid(value) > old(fac.id) && fsort(value) == SortEquiv && fid(value) % 2 == 1 && ok(key.f1) && ok(key.f2) defines ok(value) && bl(value) == key.f1 && br(value) == key.f2
  ensures inv1: FI1(fac)
  ensures inv2: FI2(fac)
  ensures inv3a: FIimpl(fac)
  ensures inv3b: FIequiv(fac)
  ensures inv3c: FIimplc(fac)
  ensures inv3d: FIequivc(fac)
  ensures inv4a: FIand(fac)
  ensures inv4b: FIor(fac)
  ensures inv4c: FIandc(fac)
  ensures inv4d: FIorc(fac)
  ensures inv5a: FIcc(fac)
  ensures inv5b: FIpbc(fac)
  ensures inv5c: FIccc(fac) && FIpbcc(fac)
  ensures inv6a: FIandu(fac)
  ensures inv6b: FIoru(fac)
  ensures inv6c: FIccu(fac)
  ensures inv6d: FIpbcu(fac)
  ensures mono: mono(fac)
  ensures sem: ok(r) && ex(fac, r) && iff(sem(r), iff(sem(left), sem(right)))
  ensures shared: implies(fsort(left) > 1 && fsort(right) > 1 && left != right && fid(left) != negid(fid(right)), fsort(r) == SortEquiv && bl(r) == left && br(r) == right)
define orlite(fac, f) = implies(fsort(f) == SortOr, has(fac.ors, f) && nops(f) == len(fac.ors[f].operands) && forall(k, 0, nops(f), nop(f, k) == fac.ors[f].operands[k], alt(fac.ors[f].operands[k]), alt(nop(f, k))))
func formula.(*CachingFactory).isCNFClause(fac, f) (r)
  pure
  requires ok(f) && orlite(fac, f)
  ensures iff(r, fsort(f) == SortLiteral || (fsort(f) == SortOr && forall(k, 0, nops(f), fsort(nop(f, k)) == SortLiteral)))
  inv (i idx): forall(k, 0, i, fsort(nop(f, k)) == SortLiteral)
func formula.(*CachingFactory).findAnd(fac, hash, ops) (r, found)
  pure
  requires FIand(fac) && FIandc(fac) && FIandu(fac) && hash == hashsp(ops)
  ensures implies(found, ok(r) && ex(fac, r) && fsort(r) == SortAnd && nops(r) == len(ops) && forall(k, 0, len(ops), nop(r, k) == ops[k]))
  ensures complete: implies(!found, allkeys(g, fac.ands, !sameseq(fac.ands[g].operands, ops)))
  inv (i idx, s []formula.Formula): forall(k, 0, i, !sameseq(fac.ands[s[k]].operands, ops))
func formula.(*CachingFactory).findOr(fac, hash, ops) (r, found)
  pure
  requires FIor(fac) && FIorc(fac) && FIoru(fac) && hash == hashsp(ops)
  ensures implies(found, ok(r) && ex(fac, r) && fsort(r) == SortOr && nops(r) == len(ops) && forall(k, 0, len(ops), nop(r, k) == ops[k]))
  ensures complete: implies(!found, allkeys(g, fac.ors, !sameseq(fac.ors[g].operands, ops)))
  inv (i idx, s []formula.Formula): forall(k, 0, i, !sameseq(fac.ors[s[k]].operands, ops))
define OC(m, s) = allkeys(i, m, ok(fofid(i)) && fid(fofid(i)) == i && implies(conj(s), sem(fofid(i))))
define OD(m, s) = allkeys(i, m, ok(fofid(i)) && fid(fofid(i)) == i && implies(sem(fofid(i)), disj(s)))
define allhand(s) = forall(k, 0, len(s), hera(s[k]))
define allhor(s) = forall(k, 0, len(s), hero(s[k]))
define isop(fac, f) = ok(f) && ex(fac, f)
func formula.(*CachingFactory).addFormulaAnd(fac, oc, ops, f) (r)
  requires ok(f) && fac.cFalse == falsum && fac.cTrue == verum
  requires cache: OC(*oc, *ops) && ref(*oc) != 0
  requires lit: orlite(fac, f)
  requires sep: ref(fac.ors[f].operands) != ref(*ops) || cap(*ops) == 0
  modifies *ops, elems(*ops), mapof(*oc)
  ensures contra: implies(r == 0, !(sem(f) && old(conj(*ops))))
  ensures equiv: implies(r != 0, iff(conj(*ops), sem(f) && old(conj(*ops))))
  ensures cache: implies(r != 0, OC(*oc, *ops))
  ensures elems: implies(r != 0, len(*ops) >= old(len(*ops)) && len(*ops) <= old(len(*ops)) + 1 && forall(k, 0, old(len(*ops)), (*ops)[k] == old((*ops)[k])) && implies(len(*ops) > old(len(*ops)), (*ops)[old(len(*ops))] == f && fsort(f) > 1))
  ensures own: (ref(*ops) == old(ref(*ops)) && cap(*ops) == old(cap(*ops)) && off(*ops) == old(off(*ops))) || freshslice(*ops)
func formula.(*CachingFactory).containsComplement(fac, oc, f) (r)
  inline
func formula.(*CachingFactory).condenseOperandsAnd(fac, operands) (r, cnf, contra)
  requires FIconst(fac) && FIand(fac) && FIor(fac) && forall(k, 0, len(operands), isop(fac, operands[k]))
  ensures contra: implies(contra, !conj(operands))
  ensures equiv: implies(!contra, iff(conj(r), conj(operands)))
  ensures ops: implies(!contra, forall(k, 0, len(r), isop(fac, r[k]) && fsort(r[k]) > 1 && fsort(r[k]) != SortAnd))
  ensures fresh: implies(!contra, freshslice(r))
  inv (s phi []formula.Formula): forall(k, 0, len(s), isop(fac, s[k]) && fsort(s[k]) > 1 && fsort(s[k]) != SortAnd)
  inv (s phi []formula.Formula): implies(allhand(operands), allhand(s))
  inv (s phi []formula.Formula, m phi map[uint32]formula.present): OC(m, s)
  inv (i idx, s phi []formula.Formula): implies(conj(s), conjpre(operands, i))
  inv (i idx, s phi []formula.Formula): implies(conjpre(operands, i), conj(s))
  inv (s phi []formula.Formula, j idx, o []formula.Formula): implies(conj(s), conjpre(o, j))
  inv (i idx, s phi []formula.Formula, j idx, o []formula.Formula): implies(conjpre(operands, i) && conjpre(o, j), conj(s))
  ensures hered: implies(!contra && allhand(operands), allhand(r))
func formula.(*CachingFactory).addFormulaOr(fac, oc, ops, f) (r)
  requires ok(f) && fac.cFalse == falsum && fac.cTrue == verum
  requires cache: OD(*oc, *ops) && ref(*oc) != 0
  modifies *ops, elems(*ops), mapof(*oc)
  ensures contra: implies(r == 0, sem(f) || old(disj(*ops)))
  ensures equiv: implies(r != 0, iff(disj(*ops), sem(f) || old(disj(*ops))))
  ensures cache: implies(r != 0, OD(*oc, *ops))
  ensures elems: implies(r != 0, len(*ops) >= old(len(*ops)) && len(*ops) <= old(len(*ops)) + 1 && forall(k, 0, old(len(*ops)), (*ops)[k] == old((*ops)[k])) && implies(len(*ops) > old(len(*ops)), (*ops)[old(len(*ops))] == f && fsort(f) > 1))
  ensures own: (ref(*ops) == old(ref(*ops)) && cap(*ops) == old(cap(*ops)) && off(*ops) == old(off(*ops))) || freshslice(*ops)
func formula.(*CachingFactory).condenseOperandsOr(fac, operands) (r, cnf, taut)
  requires FIconst(fac) && FIand(fac) && FIor(fac) && forall(k, 0, len(operands), isop(fac, operands[k]))
  ensures taut: implies(taut, disj(operands))
  ensures equiv: implies(!taut, iff(disj(r), disj(operands)))
  ensures ops: implies(!taut, forall(k, 0, len(r), isop(fac, r[k]) && fsort(r[k]) > 1 && fsort(r[k]) != SortOr))
  ensures fresh: implies(!taut, freshslice(r))
  inv (s phi []formula.Formula): forall(k, 0, len(s), isop(fac, s[k]) && fsort(s[k]) > 1 && fsort(s[k]) != SortOr)
  inv (s phi []formula.Formula): implies(allhor(operands), allhor(s))
  inv (s phi []formula.Formula, m phi map[uint32]formula.present): OD(m, s)
  inv (i idx, s phi []formula.Formula): implies(disj(s), disjpre(operands, i))
  inv (i idx, s phi []formula.Formula): implies(disjpre(operands, i), disj(s))
  inv (s phi []formula.Formula, j idx, o []formula.Formula): implies(disjpre(o, j), disj(s))
  inv (i idx, s phi []formula.Formula, j idx, o []formula.Formula): implies(disj(s), disjpre(operands, i) || disjpre(o, j))
  ensures hered: implies(!taut && allhor(operands), allhor(r))
func formula.(*CachingFactory).setCNFCaches(fac, f, isCNF)
  trusted writes only the predicate and transformation caches of the factory (types map[Formula]bool and map[Formula]Formula, maps never shared with the formula tables)
func formula.(*CachingFactory).And(fac, operands) (r)
  requires FI(fac) && forall(k, 0, len(operands), isop(fac, operands[k]))
  modifies fac.id, mapof(fac.ands), mapof(fac.andCache)
  def formula.CachingFactory.ands requires !has(m, key) && allkeys(g, m, !sameseq(m[g].operands, value.operands)) && fid(key) > old(fac.id) && fsort(key) == SortAnd && fid(key) % 2 == 1 && len(value.operands) >= 2 && forall(k, 0, len(value.operands), ok(value.operands[k])) && forall(k, 0, len(value.operands), fsort(value.operands[k]) > 1 && fsort(value.operands[k]) != SortAnd) defines andof(value.operands) == key && slot(key) == len(fac.andCache[hashsp(value.operands)]) - 1 && ok(key) && nops(key) == len(value.operands) && iff(sem(key), conj(value.operands)) && forall(k, 0, len(value.operands), nop(key, k) == value.operands[k], alt(value.operands[k]), alt(nop(key, k)))
  ensures inv1: FI1(fac)
  ensures inv2: FI2(fac)
  ensures inv3a: FIimpl(fac)
  ensures inv3b: FIequiv(fac)
  ensures inv3c: FIimplc(fac)
  ensures inv3d: FIequivc(fac)
  ensures inv4a: FIand(fac)
  ensures inv4b: FIor(fac)
  ensures inv4c: FIandc(fac)
  ensures inv4d: FIorc(fac)
  ensures inv5a: FIcc(fac)
  ensures inv5b: FIpbc(fac)
  ensures inv5c: FIccc(fac) && FIpbcc(fac)
  ensures inv6a: FIandu(fac)
  ensures inv6b: FIoru(fac)
  ensures inv6c: FIccu(fac)
  ensures inv6d: FIpbcu(fac)
  ensures mono: mono(fac)
  ensures sem: ok(r) && ex(fac, r) && iff(sem(r), conj(operands))
  ensures hered: implies(old(allhand(operands)), hera(r))
func formula.(*CachingFactory).Minterm(fac, operands) (r)
  requires FI(fac) && forall(k, 0, len(operands), isop(fac, operands[k]) && fsort(operands[k]) == SortLiteral)
  modifies fac.id, mapof(fac.ands), mapof(fac.andCache)
  def formula.CachingFactory.ands requires !has(m, key) && allkeys(g, m, !sameseq(m[g].operands, value.operands)) && fid(key) > old(fac.id) && fsort(key) == SortAnd && fid(key) % 2 == 1 && len(value.operands) >= 2 && forall(k, 0, len(value.operands), ok(value.operands[k])) && forall(k, 0, len(value.operands), fsort(value.operands[k]) > 1 && fsort(value.operands[k]) != SortAnd) defines andof(value.operands) == key && slot(key) == len(fac.andCache[hashsp(value.operands)]) - 1 && ok(key) && nops(key) == len(value.operands) && iff(sem(key), conj(value.operands)) && forall(k, 0, len(value.operands), nop(key, k) == value.operands[k], alt(value.operands[k]), alt(nop(key, k)))
  ensures inv1: FI1(fac)
  ensures inv2: FI2(fac)
  ensures inv3a: FIimpl(fac)
  ensures inv3b: FIequiv(fac)
  ensures inv3c: FIimplc(fac)
  ensures inv3d: FIequivc(fac)
  ensures inv4a: FIand(fac)
  ensures inv4b: FIor(fac)
  ensures inv4c: FIandc(fac)
  ensures inv4d: FIorc(fac)
  ensures inv5a: FIcc(fac)
  ensures inv5b: FIpbc(fac)
  ensures inv5c: FIccc(fac) && FIpbcc(fac)
  ensures inv6a: FIandu(fac)
  ensures inv6b: FIoru(fac)
  ensures inv6c: FIccu(fac)
  ensures inv6d: FIpbcu(fac)
  ensures mono: mono(fac)
  ensures sem: ok(r) && ex(fac, r) && iff(sem(r), conj(operands))
  ensures hered: implies(old(allhand(operands)), hera(r))
func formula.(*CachingFactory).Or(fac, operands) (r)
  requires FI(fac) && forall(k, 0, len(operands), isop(fac, operands[k]))
  modifies fac.id, mapof(fac.ors), mapof(fac.orCache)
  def formula.CachingFactory.ors requires !has(m, key) && allkeys(g, m, !sameseq(m[g].operands, value.operands)) && fid(key) > old(fac.id) && fsort(key) == SortOr && fid(key) % 2 == 1 && len(value.operands) >= 2 && forall(k, 0, len(value.operands), ok(value.operands[k])) && forall(k, 0, len(value.operands), fsort(value.operands[k]) > 1 && fsort(value.operands[k]) != SortOr) defines orof(value.operands) == key && slot(key) == len(fac.orCache[hashsp(value.operands)]) - 1 && ok(key) && nops(key) == len(value.operands) && iff(sem(key), disj(value.operands)) && forall(k, 0, len(value.operands), nop(key, k) == value.operands[k], alt(value.operands[k]), alt(nop(key, k)))
  ensures inv1: FI1(fac)
  ensures inv2: FI2(fac)
  ensures inv3a: FIimpl(fac)
  ensures inv3b: FIequiv(fac)
  ensures inv3c: FIimplc(fac)
  ensures inv3d: FIequivc(fac)
  ensures inv4a: FIand(fac)
  ensures inv4b: FIor(fac)
  ensures inv4c: FIandc(fac)
  ensures inv4d: FIorc(fac)
  ensures inv5a: FIcc(fac)
  ensures inv5b: FIpbc(fac)
  ensures inv5c: FIccc(fac) && FIpbcc(fac)
  ensures inv6a: FIandu(fac)
  ensures inv6b: FIoru(fac)
  ensures inv6c: FIccu(fac)
  ensures inv6d: FIpbcu(fac)
  ensures mono: mono(fac)
  ensures sem: ok(r) && ex(fac, r) && iff(sem(r), disj(operands))
  ensures hered: implies(old(allhor(operands)), hero(r))
func formula.(*CachingFactory).Clause(fac, operands) (r)
  requires FI(fac) && forall(k, 0, len(operands), isop(fac, operands[k]) && fsort(operands[k]) == SortLiteral)
  modifies fac.id, mapof(fac.ors), mapof(fac.orCache)
  def formula.CachingFactory.ors requires !has(m, key) && allkeys(g, m, !sameseq(m[g].operands, value.operands)) && fid(key) > old(fac.id) && fsort(key) == SortOr && fid(key) % 2 == 1 && len(value.operands) >= 2 && forall(k, 0, len(value.operands), ok(value.operands[k])) && forall(k, 0, len(value.operands), fsort(value.operands[k]) > 1 && fsort(value.operands[k]) != SortOr) defines orof(value.operands) == key && slot(key) == len(fac.orCache[hashsp(value.operands)]) - 1 && ok(key) && nops(key) == len(value.operands) && iff(sem(key), disj(value.operands)) && forall(k, 0, len(value.operands), nop(key, k) == value.operands[k], alt(value.operands[k]), alt(nop(key, k)))
  ensures inv1: FI1(fac)
  ensures inv2: FI2(fac)
  ensures inv3a: FIimpl(fac)
  ensures inv3b: FIequiv(fac)
  ensures inv3c: FIimplc(fac)
  ensures inv3d: FIequivc(fac)
  ensures inv4a: FIand(fac)
  ensures inv4b: FIor(fac)
  ensures inv4c: FIandc(fac)
  ensures inv4d: FIorc(fac)
  ensures inv5a: FIcc(fac)
  ensures inv5b: FIpbc(fac)
  ensures inv5c: FIccc(fac) && FIpbcc(fac)
  ensures inv6a: FIandu(fac)
  ensures inv6b: FIoru(fac)
  ensures inv6c: FIccu(fac)
  ensures inv6d: FIpbcu(fac)
  ensures mono: mono(fac)
  ensures sem: ok(r) && ex(fac, r) && iff(sem(r), disj(operands))
define samepbc(g, cmp, rhs, lits, coefs) = pcmp(g) == cmp && prhs(g) == rhs && plen(g) == len(lits) && forall(k, 0, len(lits), plit(g, k) == lits[k], alt(lits[k]), alt(plit(g, k))) && forall(k, 0, len(lits), pcoef(g, k) == coefs[k], alt(coefs[k]), alt(pcoef(g, k)))
define samecc(g, cmp, rhs, vars) = pcmp(g) == cmp && prhs(g) == rhs && plen(g) == len(vars) && forall(k, 0, len(vars), plit(g, k) == vars[k], alt(vars[k]), alt(plit(g, k))) && forall(k, 0, len(vars), pcoef(g, k) == 1, pcoef(g, k))
define litops(fac, s) = forall(k, 0, len(s), isop(fac, s[k]) && fsort(s[k]) == SortLiteral)
  ensures hered: implies(old(allhor(operands)), hero(r))
func formula.(*CachingFactory).findCC(fac, hash, c) (r, found)
  pure
  requires FIcc(fac) && FIccc(fac) && FIccu(fac) && hash == hpb(*c)
  ensures implies(found, ok(r) && ex(fac, r) && fsort(r) == SortCC && samepbc(r, c.comparator, c.rhs, c.literals, c.coefficients))
  ensures complete: implies(!found, allkeys(g, fac.ccs, !samecon(fac.ccs[g], old(*c))))
  inv (i idx, s []formula.Formula): forall(k, 0, i, !samecon(fac.ccs[s[k]], old(*c)))
func formula.(*CachingFactory).findPBC(fac, hash, c) (r, found)
  pure
  requires FIpbc(fac) && FIpbcc(fac) && FIpbcu(fac) && hash == hpb(*c)
  ensures implies(found, ok(r) && ex(fac, r) && fsort(r) == SortPBC && samepbc(r, c.comparator, c.rhs, c.literals, c.coefficients))
  ensures complete: implies(!found, allkeys(g, fac.pbcs, !samecon(fac.pbcs[g], old(*c))))
  inv (i idx, s []formula.Formula): forall(k, 0, i, !samecon(fac.pbcs[s[k]], old(*c)))
func formula.(*CachingFactory).isCC(fac, cmp, rhs, literals, coefs) (r)
  pure
  requires 0 <= cmp && cmp <= 4
  ensures implies(r, rhs >= 0)
  ensures implies(r, forall(k, 0, len(literals), fid(literals[k]) % 2 == 1) && implies(ref(coefs) != 0, forall(k, 0, len(*coefs), (*coefs)[k] == 1)))
  inv (i idx): forall(k, 0, i, fid(literals[k]) % 2 == 1)
  inv (i idx): forall(k, 0, i, (*coefs)[k] == 1)
func formula.(*CachingFactory).constructCC(fac, cmp, rhs, variables) (r)
  requires rhs >= 0 && forall(k, 0, len(variables), fid(variables[k]) % 2 == 1)
  requires FI(fac) && litops(fac, variables) && 0 <= cmp && cmp <= 4
  modifies fac.id, mapof(fac.ccs), mapof(fac.ccCache)
  def formula.CachingFactory.ccs requires !has(m, key) && allkeys(g, m, !samecon(m[g], value)) && fid(key) > old(fac.id) && fsort(key) == SortCC && fid(key) % 2 == 1 && len(value.literals) >= 1 && value.rhs >= 0 && forall(k, 0, len(value.literals), fid(value.literals[k]) % 2 == 1) && 0 <= value.comparator && value.comparator <= 4 && len(value.coefficients) == len(value.literals) && forall(k, 0, len(value.literals), ok(value.literals[k]) && fsort(value.literals[k]) == SortLiteral && value.coefficients[k] == 1) defines ccof(value.comparator, value.rhs, value.literals, value.coefficients) == key && slot(key) == len(fac.ccCache[hpb(value)]) - 1 && ok(key) && samepbc(key, value.comparator, value.rhs, value.literals, value.coefficients)
  ensures inv1: FI1(fac)
  ensures inv2: FI2(fac)
  ensures inv3a: FIimpl(fac)
  ensures inv3b: FIequiv(fac)
  ensures inv3c: FIimplc(fac)
  ensures inv3d: FIequivc(fac)
  ensures inv4a: FIand(fac)
  ensures inv4b: FIor(fac)
  ensures inv4c: FIandc(fac)
  ensures inv4d: FIorc(fac)
  ensures inv5a: FIcc(fac)
  ensures inv5b: FIpbc(fac)
  ensures inv5c: FIccc(fac) && FIpbcc(fac)
  ensures inv6a: FIandu(fac)
  ensures inv6b: FIoru(fac)
  ensures inv6c: FIccu(fac)
  ensures inv6d: FIpbcu(fac)
  ensures mono: mono(fac)
  ensures sem: ok(r) && ex(fac, r)
  ensures empty: implies(len(variables) == 0, r == ite(cmpok(cmp, 0, rhs), verum, falsum))
  ensures content: implies(len(variables) > 0, fsort(r) == SortCC && samecc(r, cmp, rhs, variables))
  inv (i idx, s []int): forall(k, 0, i, s[k] == 1)
func formula.(*CachingFactory).constructPBC(fac, cmp, rhs, literals, coefs) (r)
  requires FI(fac) && litops(fac, literals) && len(literals) == len(coefs) && 0 <= cmp && cmp <= 4
  modifies fac.id, mapof(fac.pbcs), mapof(fac.pbcCache)
  def formula.CachingFactory.pbcs requires !has(m, key) && allkeys(g, m, !samecon(m[g], value)) && fid(key) > old(fac.id) && fsort(key) == SortPBC && fid(key) % 2 == 1 && len(value.literals) >= 1 && 0 <= value.comparator && value.comparator <= 4 && len(value.coefficients) == len(value.literals) && forall(k, 0, len(value.literals), ok(value.literals[k]) && fsort(value.literals[k]) == SortLiteral) defines pbcof(value.comparator, value.rhs, value.literals, value.coefficients) == key && slot(key) == len(fac.pbcCache[hpb(value)]) - 1 && ok(key) && samepbc(key, value.comparator, value.rhs, value.literals, value.coefficients)
  ensures inv1: FI1(fac)
  ensures inv2: FI2(fac)
  ensures inv3a: FIimpl(fac)
  ensures inv3b: FIequiv(fac)
  ensures inv3c: FIimplc(fac)
  ensures inv3d: FIequivc(fac)
  ensures inv4a: FIand(fac)
  ensures inv4b: FIor(fac)
  ensures inv4c: FIandc(fac)
  ensures inv4d: FIorc(fac)
  ensures inv5a: FIcc(fac)
  ensures inv5b: FIpbc(fac)
  ensures inv5c: FIccc(fac) && FIpbcc(fac)
  ensures inv6a: FIandu(fac)
  ensures inv6b: FIoru(fac)
  ensures inv6c: FIccu(fac)
  ensures inv6d: FIpbcu(fac)
  ensures mono: mono(fac)
  ensures sem: ok(r) && ex(fac, r)
  ensures empty: implies(len(literals) == 0, r == ite(cmpok(cmp, 0, rhs), verum, falsum))
  ensures content: implies(len(literals) > 0, fsort(r) == SortPBC && samepbc(r, cmp, rhs, literals, coefs))
func formula.(*CachingFactory).CC(fac, cmp, rhs, variables) (r)
  requires forall(k, 0, len(variables), fid(variables[k]) % 2 == 1)
  requires FI(fac) && litops(fac, variables) && 0 <= cmp && cmp <= 4
  modifies fac.id, mapof(fac.ccs), mapof(fac.ccCache)
  ensures inv1: FI1(fac)
  ensures inv2: FI2(fac)
  ensures inv3a: FIimpl(fac)
  ensures inv3b: FIequiv(fac)
  ensures inv3c: FIimplc(fac)
  ensures inv3d: FIequivc(fac)
  ensures inv4a: FIand(fac)
  ensures inv4b: FIor(fac)
  ensures inv4c: FIandc(fac)
  ensures inv4d: FIorc(fac)
  ensures inv5a: FIcc(fac)
  ensures inv5b: FIpbc(fac)
  ensures inv5c: FIccc(fac) && FIpbcc(fac)
  ensures inv6a: FIandu(fac)
  ensures inv6b: FIoru(fac)
  ensures inv6c: FIccu(fac)
  ensures inv6d: FIpbcu(fac)
  ensures mono: mono(fac)
  ensures sem: ok(r) && ex(fac, r)
  ensures empty: implies(len(variables) == 0, r == ite(cmpok(cmp, 0, rhs), verum, falsum))
  ensures content: implies(len(variables) > 0, fsort(r) == SortCC && samecc(r, cmp, rhs, variables))
func formula.(*CachingFactory).AMO(fac, variables) (r)
  requires forall(k, 0, len(variables), fid(variables[k]) % 2 == 1)
  requires FI(fac) && litops(fac, variables)
  modifies fac.id, mapof(fac.ccs), mapof(fac.ccCache)
  ensures inv1: FI1(fac)
  ensures inv2: FI2(fac)
  ensures inv3a: FIimpl(fac)
  ensures inv3b: FIequiv(fac)
  ensures inv3c: FIimplc(fac)
  ensures inv3d: FIequivc(fac)
  ensures inv4a: FIand(fac)
  ensures inv4b: FIor(fac)
  ensures inv4c: FIandc(fac)
  ensures inv4d: FIorc(fac)
  ensures inv5a: FIcc(fac)
  ensures inv5b: FIpbc(fac)
  ensures inv5c: FIccc(fac) && FIpbcc(fac)
  ensures inv6a: FIandu(fac)
  ensures inv6b: FIoru(fac)
  ensures inv6c: FIccu(fac)
  ensures inv6d: FIpbcu(fac)
  ensures mono: mono(fac)
  ensures sem: ok(r) && ex(fac, r)
  ensures empty: implies(len(variables) == 0, r == ite(cmpok(1, 0, 1), verum, falsum))
  ensures content: implies(len(variables) > 0, fsort(r) == SortCC && samecc(r, 1, 1, variables))
func formula.(*CachingFactory).EXO(fac, variables) (r)
  requires forall(k, 0, len(variables), fid(variables[k]) % 2 == 1)
  requires FI(fac) && litops(fac, variables)
  modifies fac.id, mapof(fac.ccs), mapof(fac.ccCache)
  ensures inv1: FI1(fac)
  ensures inv2: FI2(fac)
  ensures inv3a: FIimpl(fac)
  ensures inv3b: FIequiv(fac)
  ensures inv3c: FIimplc(fac)
  ensures inv3d: FIequivc(fac)
  ensures inv4a: FIand(fac)
  ensures inv4b: FIor(fac)
  ensures inv4c: FIandc(fac)
  ensures inv4d: FIorc(fac)
  ensures inv5a: FIcc(fac)
  ensures inv5b: FIpbc(fac)
  ensures inv5c: FIccc(fac) && FIpbcc(fac)
  ensures inv6a: FIandu(fac)
  ensures inv6b: FIoru(fac)
  ensures inv6c: FIccu(fac)
  ensures inv6d: FIpbcu(fac)
  ensures mono: mono(fac)
  ensures sem: ok(r) && ex(fac, r)
  ensures empty: implies(len(variables) == 0, r == ite(cmpok(0, 0, 1), verum, falsum))
  ensures content: implies(len(variables) > 0, fsort(r) == SortCC && samecc(r, 0, 1, variables))
func formula.(*CachingFactory).PBC(fac, cmp, rhs, literals, coefs) (r)
  requires FI(fac) && litops(fac, literals) && len(literals) == len(coefs) && 0 <= cmp && cmp <= 4
  modifies fac.id, mapof(fac.ccs), mapof(fac.ccCache), mapof(fac.pbcs), mapof(fac.pbcCache)
  ensures inv1: FI1(fac)
  ensures inv2: FI2(fac)
  ensures inv3a: FIimpl(fac)
  ensures inv3b: FIequiv(fac)
  ensures inv3c: FIimplc(fac)
  ensures inv3d: FIequivc(fac)
  ensures inv4a: FIand(fac)
  ensures inv4b: FIor(fac)
  ensures inv4c: FIandc(fac)
  ensures inv4d: FIorc(fac)
  ensures inv5a: FIcc(fac)
  ensures inv5b: FIpbc(fac)
  ensures inv5c: FIccc(fac) && FIpbcc(fac)
  ensures inv6a: FIandu(fac)
  ensures inv6b: FIoru(fac)
  ensures inv6c: FIccu(fac)
  ensures inv6d: FIpbcu(fac)
  ensures mono: mono(fac)
  ensures sem: ok(r) && ex(fac, r)
  ensures empty: implies(len(literals) == 0, r == ite(cmpok(cmp, 0, rhs), verum, falsum))
  ensures content: implies(len(literals) > 0, (fsort(r) == SortPBC || fsort(r) == SortCC) && samepbc(r, cmp, rhs, literals, coefs))
func formula.(*CachingFactory).VarName(fac, v) (name, found)
  pure
  requires FIlit(fac) && ok(v) && ex(fac, v) && fsort(v) == SortLiteral
  ensures found && name == lname(v)
func formula.(*CachingFactory).LitNamePhase(fac, l) (name, phase, found)
  pure
  requires FIlit(fac) && ok(l) && ex(fac, l) && fsort(l) == SortLiteral
  ensures found && name == lname(l) && iff(phase, lphase(l))
func formula.(*CachingFactory).LiteralNamePhase(fac, f) (name, phase, found)
  pure
  requires FIlit(fac) && ok(f) && ex(fac, f)
  ensures iff(found, fsort(f) == SortLiteral) && implies(found, name == lname(f) && iff(phase, lphase(f)))
func formula.(*CachingFactory).NotOperand(fac, f) (op, found)
  pure
  requires FInot(fac) && ok(f) && ex(fac, f)
  ensures iff(found, fsort(f) == SortNot) && implies(found, op == notop(f) && ex(fac, op))
func formula.(*CachingFactory).BinaryLeftRight(fac, f) (left, right, found)
  pure
  requires FIimpl(fac) && FIequiv(fac) && ok(f) && ex(fac, f)
  ensures iff(found, fsort(f) == SortImpl || fsort(f) == SortEquiv) && implies(found, left == bl(f) && right == br(f) && ex(fac, left) && ex(fac, right))
func formula.(*CachingFactory).NaryOperands(fac, f) (ops, found)
  pure
  requires FIand(fac) && FIor(fac) && ok(f) && ex(fac, f)
  ensures iff(found, fsort(f) == SortAnd || fsort(f) == SortOr) && implies(found, len(ops) == nops(f) && forall(k, 0, nops(f), ops[k] == nop(f, k) && ex(fac, ops[k])))
func formula.(*CachingFactory).PBCOps(fac, f) (cmp, rhs, lits, coefs, found)
  pure
  requires FIcc(fac) && FIpbc(fac) && ok(f) && ex(fac, f)
  ensures iff(found, fsort(f) == SortCC || fsort(f) == SortPBC) && implies(found, samepbc(f, cmp, rhs, lits, coefs))
func formula.(*CachingFactory).Operands(fac, f) (ops)
  requires FInot(fac) && FIimpl(fac) && FIequiv(fac) && FIand(fac) && FIor(fac) && ok(f) && ex(fac, f)
  ensures implies(fsort(f) == SortNot, len(ops) == 1 && ops[0] == notop(f))
  ensures implies(fsort(f) == SortImpl || fsort(f) == SortEquiv, len(ops) == 2 && ops[0] == bl(f) && ops[1] == br(f))
  ensures implies(fsort(f) == SortAnd || fsort(f) == SortOr, len(ops) == nops(f) && forall(k, 0, nops(f), ops[k] == nop(f, k)))
  ensures implies(fsort(f) <= SortLiteral || fsort(f) >= SortCC, len(ops) == 0)
func formula.(*CachingFactory).getPBCUnsafe(fac, f) (c)
  pure
  requires FIcc(fac) && FIpbc(fac) && ok(f) && ex(fac, f) && (fsort(f) == SortCC || fsort(f) == SortPBC)
  ensures samepbc(f, c.comparator, c.rhs, c.literals, c.coefficients)
func formula.NewFactory(conserveVars) (r)
  ensures typeis(r, "*formula.CachingFactory")
  ensures inv1: FI1(unbox(r, "*formula.CachingFactory"))
  ensures inv2: FI2(unbox(r, "*formula.CachingFactory"))
  ensures inv3: FI3(unbox(r, "*formula.CachingFactory"))
  ensures inv4: FI4(unbox(r, "*formula.CachingFactory"))
  ensures inv5: FI5(unbox(r, "*formula.CachingFactory"))
  ensures inv6: FI6(unbox(r, "*formula.CachingFactory"))

// Cardinality encodings. enc: all clauses of the result so far are true under the (arbitrary) assignment.
// faith: the auxiliary variables have their intended values wit(0), wit(1), ...; wit is arbitrary, each function
// states which values it intends for the variables it creates (assume clauses: definitions, one per variable).
use sem enc aux card
prop C01 C02
ghost enc Bool
iface encoding.Result.AddClause(r, literals)
  requires oklits(literals)
  modifies enc
  ensures iff(enc, old(enc) && disj(literals))
iface encoding.Result.NewAuxVar(r, sort) (v)
  modifies nused
  ensures ok(v) && fsort(v) == SortLiteral && fid(v) % 2 == 1
  ensures auxno(v) == old(nused) && nused == old(nused) + 1 && implies(faith, iff(sem(v), wit(old(nused))))
iface encoding.Result.Factory(r) (fac)
iface encoding.Result.Formulas(r) (fs)
prop C01
func encoding.(*FormulaEncoding).AddClause(r, literals)
  requires r != nil && oklits(literals) && okall(r.result)
  modifies r.result
  ensures shape: okall(r.result)
  ensures sem: iff(conj(r.result), old(conj(r.result)) && disj(literals))
func encoding.(*FormulaEncoding).Formulas(r) (fs)
  requires r != nil
  ensures same(fs, r.result)
define nopair(vs, i, j) = !(sem(vs[i]) && sem(vs[j]))
define pairs(vs, n) = forall(a, 0, n, forall(b, a + 1, len(vs), nopair(vs, a, b), vs[b]), vs[a])
func encoding.amoPure(result, vars)
  requires okvars(vars)
  modifies enc
  ensures iff(enc, old(enc) && amo(vars))
  inv (i idx): iff(enc, old(enc) && pairs(vars, i))
  inv (i idx, j idx): iff(enc, old(enc) && pairs(vars, i) && forall(b, i + 1, j, nopair(vars, i, b), vars[b]))
func encoding.buildPure(result, vars)
  requires okvars(vars)
  modifies enc
  ensures iff(enc, old(enc) && amo(vars))
  inv (i idx): iff(enc, old(enc) && pairs(vars, i))
  inv (i idx, j idx): iff(enc, old(enc) && pairs(vars, i) && forall(b, i + 1, j, nopair(vars, i, b), vars[b]))
func encoding.buildPureLit(result, lits)
  requires oklits(lits)
  modifies enc
  ensures iff(enc, old(enc) && amo(lits))
  inv (i idx): iff(enc, old(enc) && pairs(lits, i))
  inv (i idx, j idx): iff(enc, old(enc) && pairs(lits, i) && forall(b, i + 1, j, nopair(lits, i, b), lits[b]))
// encoders with auxiliary variables: sound for every assignment, complete for the intended values
define amosound(vs) = implies(enc, old(enc) && amo(vs))
define amocomplete(vs) = implies(faith && old(enc) && amo(vs), enc)
func encoding.amoLadder(result, vars)
  requires okvars(vars) && len(vars) >= 2
  assume forall(k, old(nused), old(nused) + len(vars) - 1, iff(wit(k), disjpre(vars, k - old(nused) + 1)), wit(k))
  modifies enc, nused
  ensures sound: amosound(vars)
  ensures complete: amocomplete(vars)
  ensures count: nused >= old(nused)
  inv (s []formula.Variable): off(s) == 0 && len(s) == len(vars) - 1 && ref(s) != ref(vars)
  inv (i idx, s []formula.Variable): nused == old(nused) + i && okvarsn(s, i) && forall(k, 0, i, implies(faith, iff(sem(s[k]), wit(old(nused) + k))), s[k])
  inv (i idx, s []formula.Variable): implies(enc, old(enc) && forall(k, 0, i, forall(a, 0, k + 1, implies(k < len(s) && sem(vars[a]), sem(s[k])), vars[a]), s[k]))
  inv (i idx, s []formula.Variable): implies(enc, forall(k, 1, i, !(sem(vars[k]) && sem(s[k - 1])), vars[k]))
  inv (s []formula.Variable): okvarsn(s, len(s)) && forall(k, 0, len(s), implies(faith, iff(sem(s[k]), wit(old(nused) + k))), s[k])
  inv (): amocomplete(vars)
define okvarsn(s, n) = forall(k, 0, n, ok(s[k]) && fsort(s[k]) == SortLiteral && fid(s[k]) % 2 == 1, s[k])
func encoding.amoNested(result, groupSize, vars)
  requires oklits(vars)
  assume iff(wit(old(nused)), exists(k, len(vars) / 2, len(vars), sem(vars[k])))
  modifies enc, nused
  ensures sound: amosound(vars)
  ensures complete: amocomplete(vars)
  ensures count: nused >= old(nused)
  inv (i idx): iff(enc, old(enc) && pairs(vars, i))
  inv (i idx, j idx): iff(enc, old(enc) && pairs(vars, i) && forall(b, i + 1, j, nopair(vars, i, b), vars[b]))
  inv (i idx, s phi []formula.Literal): oklits(s) && len(s) == i && forall(k, 0, i, s[k] == vars[k], s[k], alt(vars[k])) && ref(s) != ref(vars)
  inv (i idx, s phi []formula.Literal): oklits(s) && len(s) == i - len(vars) / 2 && forall(k, 0, len(s), s[k] == vars[k + len(vars) / 2], s[k]) && forall(k, len(vars) / 2, i, vars[k] == s[k - len(vars) / 2], vars[k]) && ref(s) != ref(vars)
  inv (i idx): i <= len(vars)
  inv (i idx): i <= len(vars) / 2
func math.Sqrt(x) (r)
  use float
  pure
  trusted square root
  ensures r == fsqrt(x)
func math.Ceil(x) (r)
  use float
  pure
  trusted smallest integer not below
  ensures r == fceil(x)
define gridv(vs, n, q, us, ws, i, j) = forall(k, 0, n, implies((kd(k, q) < i || kd(k, q) == i && km(k, q) < j) && sem(vs[k]), sem(us[kd(k, q)]) && sem(ws[km(k, q)])), vs[k])
func encoding.amoProduct(result, recursiveBound, vars)
  use float
  requires okvars(vars) && len(vars) >= 1
  assume forall(k, old(nused), old(nused) + pf(len(vars)), iff(wit(k), exists(m, 0, len(vars), kd(m, qf(len(vars))) == k - old(nused) && sem(vars[m]), vars[m])), wit(k))
  assume forall(k, old(nused) + pf(len(vars)), old(nused) + pf(len(vars)) + qf(len(vars)), iff(wit(k), exists(m, 0, len(vars), km(m, qf(len(vars))) == k - old(nused) - pf(len(vars)) && sem(vars[m]), vars[m])), wit(k))
  modifies enc, nused
  ensures sound: amosound(vars)
  ensures complete: amocomplete(vars)
  ensures count: nused >= old(nused)
  inv (s []formula.Variable): off(s) == 0 && ref(s) != ref(vars)
  inv (i idx, s []formula.Variable): nused == old(nused) + i && okvarsn(s, i) && forall(k, 0, i, implies(faith, iff(sem(s[k]), wit(old(nused) + k))), s[k])
  inv (i idx, s []formula.Variable): nused == old(nused) + pf(len(vars)) + i && okvarsn(s, i) && forall(k, 0, i, implies(faith, iff(sem(s[k]), wit(old(nused) + pf(len(vars)) + k))), s[k])
  inv (s []formula.Variable): okvarsn(s, len(s)) && forall(k, 0, len(s), implies(faith, iff(sem(s[k]), wit(old(nused) + k))), s[k])
  inv (s []formula.Variable): okvarsn(s, len(s)) && forall(k, 0, len(s), implies(faith, iff(sem(s[k]), wit(old(nused) + pf(len(vars)) + k))), s[k])
  inv (i idx, u []formula.Variable, w []formula.Variable): implies(enc, gridv(vars, len(vars), qf(len(vars)), u, w, i, 0))
  inv (i idx, j idx, u []formula.Variable, w []formula.Variable): implies(enc, gridv(vars, len(vars), qf(len(vars)), u, w, i, j))
  inv (s []formula.Variable): implies(enc, old(enc) && amo(s))
  inv (): amocomplete(vars)
define cardsound(c) = implies(enc, old(enc) && c)
define cardcomplete(c) = implies(faith && old(enc) && c, enc)
func encoding.amoCommander(result, groupSize, vars)
  trusted bounded check only
  requires oklits(vars)
  modifies enc, nused
  ensures sound: amosound(vars)
  ensures complete: amocomplete(vars)
  ensures count: nused >= old(nused)
func encoding.amoBinary(result, vars)
  trusted bounded check only
  requires okvars(vars) && len(vars) >= 2
  modifies enc, nused
  ensures sound: amosound(vars)
  ensures complete: amocomplete(vars)
  ensures count: nused >= old(nused)
func encoding.amoBimander(result, groupSize, fixed, vars)
  trusted bounded check only
  requires okvars(vars) && len(vars) >= 2
  modifies enc, nused
  ensures sound: amosound(vars)
  ensures complete: amocomplete(vars)
  ensures count: nused >= old(nused)
func encoding.bestAMO(result, config, vars)
  requires okvars(vars) && len(vars) >= 2 && config != nil
  modifies enc, nused
  ensures sound: amosound(vars)
  ensures complete: amocomplete(vars)
  ensures count: nused >= old(nused)
func encoding.amo(result, config, vars)
  requires okvars(vars) && config != nil
  modifies enc, nused
  ensures sound: cardsound(cnt(vars) <= 1)
  ensures complete: cardcomplete(cnt(vars) <= 1)
  ensures count: nused >= old(nused)
func encoding.exo(result, config, vars)
  requires okvars(vars) && config != nil
  modifies enc, nused
  ensures sound: cardsound(cnt(vars) == 1)
  ensures complete: cardcomplete(cnt(vars) == 1)
  ensures count: nused >= old(nused)
func encoding.modtotalizerAMK(result, vars, rhs) (d)
  trusted bounded check only
  requires oklits(vars) && 1 <= rhs && rhs < len(vars)
  modifies enc, nused
  ensures sound: cardsound(cnt(vars) <= rhs)
  ensures complete: cardcomplete(cnt(vars) <= rhs)
  ensures count: nused >= old(nused)
func encoding.modtotalizerALK(result, vars, rhs) (d)
  trusted bounded check only
  requires oklits(vars) && 1 <= rhs && rhs < len(vars)
  modifies enc, nused
  ensures sound: cardsound(cnt(vars) >= rhs)
  ensures complete: cardcomplete(cnt(vars) >= rhs)
  ensures count: nused >= old(nused)
func encoding.cnAmk(result, vars, rhs)
  trusted bounded check only
  requires oklits(vars) && 1 <= rhs && rhs < len(vars)
  modifies enc, nused
  ensures sound: cardsound(cnt(vars) <= rhs)
  ensures complete: cardcomplete(cnt(vars) <= rhs)
  ensures count: nused >= old(nused)
func encoding.cnAlk(result, vars, rhs)
  trusted bounded check only
  requires oklits(vars) && 1 <= rhs && rhs < len(vars)
  modifies enc, nused
  ensures sound: cardsound(cnt(vars) >= rhs)
  ensures complete: cardcomplete(cnt(vars) >= rhs)
  ensures count: nused >= old(nused)
func encoding.cnExk(result, vars, rhs)
  trusted bounded check only
  requires oklits(vars) && 1 <= rhs && rhs < len(vars)
  modifies enc, nused
  ensures sound: cardsound(cnt(vars) == rhs)
  ensures complete: cardcomplete(cnt(vars) == rhs)
  ensures count: nused >= old(nused)
func encoding.cnAmkForIncremental(result, vars, rhs) (d)
  trusted bounded check only
  requires oklits(vars) && 1 <= rhs && rhs < len(vars)
  modifies enc, nused
  ensures sound: cardsound(cnt(vars) <= rhs)
  ensures complete: cardcomplete(cnt(vars) <= rhs)
  ensures count: nused >= old(nused)
func encoding.cnAlkForIncremental(result, vars, rhs) (d)
  trusted bounded check only
  requires oklits(vars) && 1 <= rhs && rhs < len(vars)
  modifies enc, nused
  ensures sound: cardsound(cnt(vars) >= rhs)
  ensures complete: cardcomplete(cnt(vars) >= rhs)
  ensures count: nused >= old(nused)
func encoding.amk(result, config, rhs, vars)
  requires okvars(vars) && config != nil
  modifies enc, nused
  ensures sound: cardsound(cnt(vars) <= rhs)
  ensures complete: cardcomplete(cnt(vars) <= rhs)
  ensures count: nused >= old(nused)
  inv (i idx): iff(enc, old(enc) && forall(k, 0, i, !sem(vars[k]), vars[k]))
  inv (i idx): iff(enc, old(enc) && forall(k, 0, i, sem(vars[k]), vars[k]))
func encoding.alk(result, config, rhs, vars)
  requires okvars(vars) && config != nil && rhs >= 0
  modifies enc, nused
  ensures lemall: iff(cnt(vars) >= len(vars), conj(vars))
  ensures sound: cardsound(cnt(vars) >= rhs)
  ensures complete: cardcomplete(cnt(vars) >= rhs)
  ensures count: nused >= old(nused)
  inv (i idx): iff(enc, old(enc) && forall(k, 0, i, !sem(vars[k]), vars[k]))
  inv (i idx): iff(enc, old(enc) && forall(k, 0, i, sem(vars[k]), vars[k]))
func encoding.exk(result, config, rhs, vars)
  requires okvars(vars) && config != nil && rhs >= 0
  modifies enc, nused
  ensures lemall: iff(cnt(vars) >= len(vars), conj(vars))
  ensures sound: cardsound(cnt(vars) == rhs)
  ensures complete: cardcomplete(cnt(vars) == rhs)
  ensures count: nused >= old(nused)
  inv (i idx): iff(enc, old(enc) && forall(k, 0, i, !sem(vars[k]), vars[k]))
  inv (i idx): iff(enc, old(enc) && forall(k, 0, i, sem(vars[k]), vars[k]))
func encoding.amkIncremental(result, config, vars, rhs) (d, err)
  requires okvars(vars) && config != nil
  modifies enc, nused
  ensures sound: implies(err == nil, cardsound(cnt(vars) <= rhs))
  ensures complete: implies(err == nil, cardcomplete(cnt(vars) <= rhs))
  ensures trivial: implies(err != nil, iff(enc, old(enc) && cnt(vars) <= rhs))
  ensures count: nused >= old(nused)
  inv (i idx): iff(enc, old(enc) && forall(k, 0, i, !sem(vars[k]), vars[k]))
  inv (i idx): iff(enc, old(enc) && forall(k, 0, i, sem(vars[k]), vars[k]))
func encoding.alkIncremental(result, config, vars, rhs) (d, err)
  requires okvars(vars) && config != nil && rhs >= 0
  modifies enc, nused
  ensures lemall: iff(cnt(vars) >= len(vars), conj(vars))
  ensures sound: implies(err == nil, cardsound(cnt(vars) >= rhs))
  ensures complete: implies(err == nil, cardcomplete(cnt(vars) >= rhs))
  ensures trivial: implies(err != nil, iff(enc, old(enc) && cnt(vars) >= rhs))
  ensures count: nused >= old(nused)
  inv (i idx): iff(enc, old(enc) && forall(k, 0, i, !sem(vars[k]), vars[k]))
  inv (i idx): iff(enc, old(enc) && forall(k, 0, i, sem(vars[k]), vars[k]))
func encoding.determineConfig(fac, initConfig) (c)
  requires implies(len(initConfig) > 0, initConfig[0] != nil)
  ensures assumed_config: c != nil
func encoding.EncodeCCInResult(fac, constraint, result, config) (err)
  requires ok(constraint) && implies(len(config) > 0, config[0] != nil)
  modifies enc, nused
  ensures err: iff(err == nil, fsort(constraint) == SortCC)
  ensures sound: implies(err == nil && enc, old(enc) && sem(constraint))
  ensures complete: implies(err == nil && faith && old(enc) && sem(constraint), enc)
  ensures none: implies(err != nil, enc == old(enc))
func encoding.EncodeIncremental(fac, constraint, result, config) (d, err)
  requires ok(constraint) && fsort(constraint) == SortCC && implies(len(config) > 0, config[0] != nil)
  modifies enc, nused
  ensures sound: implies(err == nil && enc, old(enc) && sem(constraint))
  ensures complete: implies(err == nil && faith && old(enc) && sem(constraint), enc)
  ensures trivial: implies(err != nil, iff(enc, old(enc) && sem(constraint)))
// totalizer: output k of a node is true iff more than k of its leaves are true
define amkcl(l, r, o, i, j) = implies((i == 0 || sem(l[i - 1])) && (j == 0 || sem(r[j - 1])), sem(o[i + j - 1]))
define amkrow(l, r, o, rhs, i, n) = forall(b, 0, n, implies(mark(i, b) && i + b > 0 && i + b <= rhs + 1, amkcl(l, r, o, i, b)), mark(i, b))
define amkall(l, r, o, rhs, n) = forall2(a, 0, n, b, 0, len(r) + 1, implies(mark(a, b) && a + b > 0 && a + b <= rhs + 1, amkcl(l, r, o, a, b)), mark(a, b))
func encoding.adderAMK(result, left, right, output, rhs)
  requires left != nil && right != nil && output != nil && okvars(*left) && okvars(*right) && okvars(*output) && len(*output) == len(*left) + len(*right) && len(*left) >= 0 && len(*right) >= 0
  modifies enc
  ensures iff(enc, old(enc) && amkall(*left, *right, *output, rhs, len(*left) + 1))
  inv (i idx, j idx): mark(i, j)
  inv (i idx): i <= len(*left) + 1
  inv (i idx): i <= len(*right) + 1
  inv (i idx): iff(enc, old(enc) && amkall(*left, *right, *output, rhs, i))
  inv (i idx, j idx): iff(enc, old(enc) && amkall(*left, *right, *output, rhs, i) && amkrow(*left, *right, *output, rhs, i, j))
define nx(i, n) = ite(i == 0, n, i - 1)
define alkcl(l, r, o, i, j) = (i > 0 && sem(l[i - 1])) || (j > 0 && sem(r[j - 1])) || !sem(o[nx(i, len(l)) + nx(j, len(r))])
define alkrow(l, r, o, i, n) = forall(b, 0, n, implies(mark(i, b) && i + b > 0, alkcl(l, r, o, i, b)), mark(i, b))
define alkall(l, r, o, n) = forall2(a, 0, n, b, 0, len(r) + 1, implies(mark(a, b) && a + b > 0, alkcl(l, r, o, a, b)), mark(a, b))
func encoding.adderALK(result, left, right, output)
  requires left != nil && right != nil && output != nil && okvars(*left) && okvars(*right) && okvars(*output) && len(*output) == len(*left) + len(*right) && len(*left) >= 0 && len(*right) >= 0
  modifies enc
  ensures iff(enc, old(enc) && alkall(*left, *right, *output, len(*left) + 1))
  inv (i idx, j idx): mark(i, j)
  inv (i idx): i <= len(*left) + 1
  inv (i idx): i <= len(*right) + 1
  inv (i idx): iff(enc, old(enc) && alkall(*left, *right, *output, i))
  inv (i idx, j idx): iff(enc, old(enc) && alkall(*left, *right, *output, i) && alkrow(*left, *right, *output, i, j))
func encoding.initializeConstraint(result, vars) (tv)
  requires okvars(vars)
  assume forall(k, old(nused), old(nused) + len(vars), iff(wit(k), cnt(vars) > k - old(nused)), wit(k))
  modifies nused
  ensures fresh(tv) && fresh(tv.invars) && fresh(tv.outvars) && tv.invars != nil && tv.outvars != nil && tv.invars != tv.outvars
  ensures okvars(*tv.invars) && len(*tv.invars) == len(vars) && cnt(*tv.invars) == cnt(vars)
  ensures okvars(*tv.outvars) && len(*tv.outvars) == len(vars)
  ensures faithful: implies(faith, forall(k, 0, len(vars), iff(sem((*tv.outvars)[k]), cnt(vars) > k), (*tv.outvars)[k]))
  ensures count: nused >= old(nused)
  inv (s []formula.Variable): off(s) == 0 && len(s) == len(vars) && ref(s) != ref(vars)
  inv (s []formula.Variable): forall(k, 0, len(vars), s[k] == vars[k], s[k])
  inv (i idx, s []formula.Variable): nused == old(nused) + i && okvarsn(s, i) && forall(k, 0, i, implies(faith, iff(sem(s[k]), wit(old(nused) + k))), s[k])
define leaves(tv, n) = cntseg(*tv.invars, len(*tv.invars) - n, len(*tv.invars))
define leftn(tv) = cntseg(*tv.invars, len(*tv.invars) - len(*tv.outvars) / 2, len(*tv.invars))
define rightn(tv) = cntseg(*tv.invars, len(*tv.invars) - len(*tv.outvars), len(*tv.invars) - len(*tv.outvars) / 2)
define leavessplit(tv) = segsplit(*tv.invars, len(*tv.invars) - len(*tv.outvars), len(*tv.invars) - len(*tv.outvars) / 2, len(*tv.invars))
define mn(a, b) = ite(a < b, a, b)
define upmark(a, k) = mark(mn(a, k + 1), k + 1 - mn(a, k + 1))
define lowmark(b, k, l, r) = mark(ite(mn(l, k - b) == l, 0, mn(l, k - b) + 1), ite(k - mn(l, k - b) == r, 0, k - mn(l, k - b) + 1))
define popped(i, n) = ite(n / 2 == 1, ite(i == 0, 0, ite(n == 2 && i >= 2, 2, 1)), 0)
func encoding.toCNF(result, tv, rhs, bound)
  requires tv != nil && tv.invars != nil && tv.outvars != nil && tv.invars != tv.outvars && len(*tv.outvars) >= 2 && len(*tv.invars) >= len(*tv.outvars)
  requires okvars(*tv.invars) && okvars(*tv.outvars) && (bound == boundLower || bound == boundUpper || bound == boundBoth)
  assume forall(k, old(nused), old(nused) + len(*tv.outvars) / 2, implies(len(*tv.outvars) / 2 > 1, iff(wit(k), cntseg(*tv.invars, len(*tv.invars) - len(*tv.outvars) / 2, len(*tv.invars)) > k - old(nused))), wit(k))
  assume forall(k, old(nused) + ite(len(*tv.outvars) == 3, 0, len(*tv.outvars) / 2), old(nused) + len(*tv.outvars), implies(len(*tv.outvars) > 2, iff(wit(k), cntseg(*tv.invars, len(*tv.invars) - len(*tv.outvars), len(*tv.invars) - len(*tv.outvars) / 2) > k - old(nused) - ite(len(*tv.outvars) == 3, 0, len(*tv.outvars) / 2))), wit(k))
  modifies enc, nused, *tv.invars
  ensures header: len(*tv.invars) == old(len(*tv.invars)) - len(*tv.outvars) && ref(*tv.invars) == old(ref(*tv.invars)) && off(*tv.invars) == old(off(*tv.invars))
  ensures sound: implies(enc, old(enc))
  ensures lemsplit: old(leavessplit(tv)) && old(leaves(tv, len(*tv.outvars))) == old(leftn(tv)) + old(rightn(tv))
  ensures upper: implies(enc && bound != boundLower, forall(k, 0, len(*tv.outvars), implies(k <= rhs && old(leaves(tv, len(*tv.outvars))) > k && upmark(old(leftn(tv)), k), sem((*tv.outvars)[k])), (*tv.outvars)[k]))
  ensures lower: implies(enc && bound != boundUpper, forall(k, 0, len(*tv.outvars), implies(sem((*tv.outvars)[k]) && lowmark(old(rightn(tv)), k, len(*tv.outvars) / 2, len(*tv.outvars) - len(*tv.outvars) / 2), old(leaves(tv, len(*tv.outvars))) > k), (*tv.outvars)[k]))
  ensures complete: implies(faith && old(enc) && forall(k, 0, len(*tv.outvars), iff(sem((*tv.outvars)[k]), old(leaves(tv, len(*tv.outvars))) > k), (*tv.outvars)[k]), enc)
  ensures count: nused >= old(nused)
  inv (i idx): i <= len(*tv.outvars) && nused == old(nused) + i - popped(i, len(*tv.outvars))
  inv (i idx): len(*tv.invars) == old(len(*tv.invars)) - popped(i, len(*tv.outvars)) && ref(*tv.invars) == old(ref(*tv.invars)) && off(*tv.invars) == old(off(*tv.invars))
  inv (i idx, s phi []formula.Variable): len(s) == ite(i < len(*tv.outvars) / 2, i, len(*tv.outvars) / 2) && okvarsn(s, len(s)) && ref(s) != ref(*tv.invars) && ref(s) != ref(*tv.outvars)
  inv (s phi []formula.Variable): forall(k, 0, len(s), implies(len(*tv.outvars) / 2 == 1, s[k] == old((*tv.invars)[len(*tv.invars) - 1])) && implies(faith && len(*tv.outvars) / 2 > 1, iff(sem(s[k]), wit(old(nused) + k))), s[k])
  inv (i idx, s phi []formula.Variable): len(s) == ite(i < len(*tv.outvars) / 2, 0, i - len(*tv.outvars) / 2) && okvarsn(s, len(s)) && ref(s) != ref(*tv.invars) && ref(s) != ref(*tv.outvars)
  inv (s phi []formula.Variable): forall(k, 0, len(s), implies(len(*tv.outvars) == 2, s[k] == old((*tv.invars)[len(*tv.invars) - 2])) && implies(faith && len(*tv.outvars) > 2, iff(sem(s[k]), wit(old(nused) + ite(len(*tv.outvars) == 3, 0, len(*tv.outvars) / 2) + k))), s[k])
func encoding.totalizerAMK(result, vars, rhs) (d)
  requires okvars(vars) && 1 <= rhs && rhs < len(vars)
  modifies enc, nused
  ensures sound: cardsound(cnt(vars) <= rhs)
  ensures complete: cardcomplete(cnt(vars) <= rhs)
  ensures count: nused >= old(nused)
  inv (s *encoding.totalizerVars): mark((*s.outvars)[rhs], 0)
  inv (i idx, s phi *encoding.totalizerVars): iff(enc, entry(enc) && forall(k, rhs, i, !sem((*s.outvars)[k]), (*s.outvars)[k]))
  inv (i idx, s *encoding.totalizerVars): iff(enc, entry(enc) && forall(k, rhs, i, !sem((*s.outvars)[k]), (*s.outvars)[k]))
func encoding.totalizerALK(result, vars, rhs) (d)
  requires okvars(vars) && 1 <= rhs && rhs < len(vars)
  modifies enc, nused
  ensures sound: cardsound(cnt(vars) >= rhs)
  ensures complete: cardcomplete(cnt(vars) >= rhs)
  ensures count: nused >= old(nused)
  inv (i idx, s *encoding.totalizerVars): iff(enc, entry(enc) && forall(k, 0, i, sem((*s.outvars)[k]), (*s.outvars)[k]))
func encoding.totalizerEXK(result, vars, rhs)
  requires okvars(vars) && 1 <= rhs && rhs < len(vars)
  modifies enc, nused
  ensures sound: cardsound(cnt(vars) == rhs)
  ensures complete: cardcomplete(cnt(vars) == rhs)
  ensures count: nused >= old(nused)
  inv (s *encoding.totalizerVars): mark((*s.outvars)[rhs], 0)
  inv (i idx, s *encoding.totalizerVars): iff(enc, entry(enc) && forall(k, 0, i, sem((*s.outvars)[k]), (*s.outvars)[k]))
  inv (i idx, s *encoding.totalizerVars): iff(enc, entry(enc) && forall(k, rhs, i, !sem((*s.outvars)[k]), (*s.outvars)[k]))

// Normal forms. faith: the assignment gives every auxiliary variable the value of what it stands for.
use sem enc facts shape
prop N01
define eqv(f, r) = implies(sem(r), sem(f)) && implies((faith || nopb(f)) && sem(f), sem(r))
define neqv(f, r) = implies(sem(r), !sem(f)) && implies((faith || nopb(f)) && !sem(f), sem(r))
define pcok(sort, f, v) = implies(sort == PredNNF, iff(v, isnnf(f))) && implies(sort == PredCNF, iff(v, iscnf(f))) && implies(sort == PredDNF, iff(v, isdnf(f))) && implies(sort == PredAIG, iff(v, isaig(f)))
define tcok(sort, f, v) = ok(v) && implies(sort == TransNNF, eqv(f, v) && nnfshape(f, v)) && implies(sort == TransCNFFactorization, eqv(f, v) && iscnf(v)) && implies(sort == TransDNFFactorization, eqv(f, v) && isdnf(v)) && implies(sort == TransAIG, implies(nopb(f), iff(sem(f), sem(v)))) && implies(sort == TransDistrSimpl, iff(sem(f), sem(v)))
define nnfshape(f, r) = isnnf(r) && implies(iscl(f), iscl(r)) && implies(fsort(f) >= SortCC, iscnf(r))
func formula.LookupPredicateCache(fac, sort, f) (c, found)
  trusted the cache holds only values passed to SetPredicateCache (whose contract demands pcok) and the clause checks of the factory's constructors
  requires ok(f)
  ensures implies(found, pcok(sort, f, c))
func formula.SetPredicateCache(fac, sort, f, v)
  trusted writes one map entry; its precondition is what LookupPredicateCache promises
  requires pcok(sort, f, v)
func formula.LookupTransformationCache(fac, sort, f) (c, found)
  trusted the cache holds only values passed to SetTransformationCache, whose contract demands tcok
  requires ok(f)
  ensures implies(found, tcok(sort, f, c))
func formula.SetTransformationCache(fac, sort, f, v)
  trusted writes one map entry; its precondition is what LookupTransformationCache promises
  requires tcok(sort, f, v)
func normalform.IsNNF(fac, f) (r)
  requires ok(f)
  ensures iff(r, isnnf(f))
  inv (i idx): forall(k, 0, i, isnnf(nop(f, k)), nop(f, k))
func normalform.IsCNF(fac, f) (r)
  requires ok(f)
  ensures iff(r, iscnf(f))
func normalform.IsDNF(fac, f) (r)
  requires ok(f)
  ensures iff(r, isdnf(f))
  inv (i idx): forall(k, 0, i, istm(nop(f, k)), nop(f, k))
func normalform.IsAIG(fac, f) (r)
  requires ok(f)
  ensures iff(r, isaig(f))
  inv (i idx): forall(k, 0, i, isaig(nop(f, k)), nop(f, k))
func normalform.IsMinterm(fac, f) (r)
  requires ok(f)
  ensures iff(r, istm(f))
func normalform.IsMaxterm(fac, f) (r)
  requires ok(f)
  ensures iff(r, iscl(f))
func normalform.testTerm(fac, f, minterm) (r)
  requires ok(f)
  ensures iff(r, ite(minterm, istm(f), iscl(f)))
func normalform.onlyLiterals(fac, f) (r)
  requires ok(f) && (fsort(f) == SortAnd || fsort(f) == SortOr)
  ensures iff(r, forall(k, 0, nops(f), fsort(nop(f, k)) == SortLiteral, nop(f, k)))
  inv (i idx): forall(k, 0, i, fsort(nop(f, k)) == SortLiteral, nop(f, k))
define clauses(s) = forall(k, 0, len(s), ok(s[k]) && iscl(s[k]))
func encoding.EncodePBC(fac, f, config) (r, err)
  trusted the clauses collected by EncodePBCInResult (subject of the properties on cardinality and pseudo-Boolean encodings)
  requires ok(f) && fsort(f) >= SortCC
  ensures implies(err == nil, clauses(r) && implies(conj(r), sem(f)) && implies(faith && sem(f), conj(r)))
func normalform.NNF(fac, f) (r)
  requires ok(f)
  ensures ok(r) && eqv(f, r)
  ensures nnfshape(f, r)
func normalform.nnfRec(fac, f, polarity) (r)
  use inst_nnf
  requires ok(f)
  ensures ok(r)
  ensures implies(polarity, eqv(f, r))
  ensures implies(!polarity, neqv(f, r))
  ensures isnnf(r)
  ensures implies(polarity, nnfshape(f, r))
func normalform.nnfRecNary(fac, fsort, polarity, ops) (r)
  use inst_nnf
  requires okall(ops) && (fsort == SortAnd || fsort == SortOr)
  ensures ok(r) && isnnf(r)
  ensures implies(polarity && fsort == SortAnd, implies(sem(r), conj(ops)) && implies((faith || forall(k, 0, len(ops), nopb(ops[k]))) && conj(ops), sem(r)))
  ensures implies(polarity && fsort == SortOr, implies(sem(r), disj(ops)) && implies((faith || forall(k, 0, len(ops), nopb(ops[k]))) && disj(ops), sem(r)))
  ensures implies(!polarity && fsort == SortAnd, implies(sem(r), !conj(ops)) && implies((faith || forall(k, 0, len(ops), nopb(ops[k]))) && !conj(ops), sem(r)))
  ensures implies(!polarity && fsort == SortOr, implies(sem(r), !disj(ops)) && implies((faith || forall(k, 0, len(ops), nopb(ops[k]))) && !disj(ops), sem(r)))
  ensures implies(polarity && fsort == SortAnd && forall(k, 0, len(ops), iscl(ops[k])), iscnf(r))
  ensures implies(polarity && fsort == SortOr && forall(k, 0, len(ops), fsort(ops[k]) == SortLiteral), iscl(r))
  inv (i idx, s phi []formula.Formula): len(s) == i && forall(k, 0, i, ok(s[k]) && isnnf(s[k]) && implies(polarity, eqv(ops[k], s[k]) && nnfshape(ops[k], s[k])) && implies(!polarity, neqv(ops[k], s[k])))
func normalform.AIG(fac, f) (r)
  use inst_aig
  requires ok(f)
  ensures ok(r) && implies(nopb(f), iff(sem(f), sem(r)))
  inv (i idx, s []formula.Formula): forall(k, 0, i, ok(s[k]) && implies(nopb(nop(f, k)), iff(sem(s[k]), sem(nop(f, k)))))
  inv (i idx, s []formula.Formula): forall(k, 0, i, ok(s[k]) && implies(nopb(nop(f, k)), iff(sem(s[k]), !sem(nop(f, k)))))
iface handler.Handler.ShouldResume(h, e) (r)
  ensures implies(isnop(h), r)
func handler.(nopHandler).ShouldResume(h, e) (r)
  pure
  ensures r
func handler.Success() (s)
  pure
  ensures s.Success
func handler.Cancelation(e) (s)
  pure
  ensures !s.Success
define isnop(h) = typeis(h, "handler.nopHandler")
func normalform.FactorizedCNF(fac, f) (r)
  use inst_cnf
  requires ok(f)
  ensures ok(r) && eqv(f, r) && iscnf(r)
func normalform.FactorizedDNF(fac, f) (r)
  requires ok(f)
  ensures ok(r) && eqv(f, r) && isdnf(r)
func normalform.FactorizedCNFWithHandler(fac, f, hdl) (r, state)
  requires ok(f)
  ensures implies(state.Success, ok(r) && eqv(f, r) && iscnf(r))
func normalform.factorizedCNFRec(fac, f, hdl) (r, state)
  assume succ.Success
  ensures implies(isnop(hdl), state.Success)
  use inst_cnf
  requires ok(f)
  ensures implies(state.Success, ok(r) && eqv(f, r) && iscnf(r))
  inv (i idx, s phi []formula.Formula): len(s) == i && forall(k, 0, i, ok(s[k]) && iscnf(s[k]) && eqv(nop(f, k), s[k]))
  inv (i idx, s phi []formula.Formula): len(s) == i
  inv (i idx, s phi []formula.Formula, st *handler.State): implies(st.Success, forall(k, 0, i, ok(s[k]) && iscnf(s[k]) && eqv(nop(f, k), s[k])))
  inv (st *handler.State): implies(isnop(hdl), st.Success)
  inv (s []formula.Formula, st *handler.State): implies(st.Success, len(s) == nops(f) && forall(k, 0, len(s), ok(s[k]) && iscnf(s[k]) && eqv(nop(f, k), s[k])))
  inv (i phi int, c phi formula.Formula, st *handler.State, s []formula.Formula): implies(st.Success, ok(c) && iscnf(c) && iff(sem(c), disjpre(s, i)))
func normalform.distributeCNF(fac, f1, f2, hdl) (r, state)
  use inst_cnf
  requires ok(f1) && ok(f2) && iscnf(f1) && iscnf(f2)
  assume succ.Success
  ensures implies(isnop(hdl), state.Success)
  ensures implies(state.Success, ok(r) && iff(sem(r), sem(f1) || sem(f2)) && iscnf(r))
  inv (i idx, s phi []formula.Formula): len(s) == i && forall(k, 0, i, ok(s[k]) && iscnf(s[k]) && iff(sem(s[k]), sem(nop(ite(fsort(f1) == SortAnd, f1, f2), k)) || sem(ite(fsort(f1) == SortAnd, f2, f1))))
func normalform.FactorizedDNFWithHandler(fac, f, hdl) (r, state)
  requires ok(f)
  ensures implies(state.Success, ok(r) && eqv(f, r) && isdnf(r))
func normalform.factorizedDNFRec(fac, f, hdl) (r, state)
  assume succ.Success
  ensures implies(isnop(hdl), state.Success)
  use inst_dnf
  requires ok(f)
  ensures implies(state.Success, ok(r) && eqv(f, r) && isdnf(r))
  inv (i idx, s phi []formula.Formula): len(s) == i && forall(k, 0, i, ok(s[k]) && isdnf(s[k]) && eqv(nop(f, k), s[k]))
  inv (i idx, s phi []formula.Formula): len(s) == i
  inv (i idx, s phi []formula.Formula, st *handler.State): implies(st.Success, forall(k, 0, i, ok(s[k]) && isdnf(s[k]) && eqv(nop(f, k), s[k])))
  inv (st *handler.State): implies(isnop(hdl), st.Success)
  inv (s []formula.Formula, st *handler.State): implies(st.Success, len(s) == nops(f) && forall(k, 0, len(s), ok(s[k]) && isdnf(s[k]) && eqv(nop(f, k), s[k])))
  inv (i phi int, c phi formula.Formula, st *handler.State, s []formula.Formula): implies(st.Success, ok(c) && isdnf(c) && iff(sem(c), conjpre(s, i)))
func normalform.distributeDNF(fac, f1, f2, hdl) (r, state)
  use inst_dnf
  requires ok(f1) && ok(f2) && isdnf(f1) && isdnf(f2)
  assume succ.Success
  ensures implies(isnop(hdl), state.Success)
  ensures implies(state.Success, ok(r) && iff(sem(r), sem(f1) && sem(f2)) && isdnf(r))
  inv (i idx, s phi []formula.Formula): len(s) == i && forall(k, 0, i, ok(s[k]) && isdnf(s[k]) && iff(sem(s[k]), sem(nop(ite(fsort(f1) == SortOr, f1, f2), k)) && sem(ite(fsort(f1) == SortOr, f2, f1))))

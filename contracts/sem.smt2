; One fixed, arbitrary total assignment; one factory.
; ok(f): f is a formula of the factory; sem(f): its truth value.
(declare-fun ok (Int) Bool)
(declare-fun sem (Int) Bool)
(declare-fun fsort (Int) Int)
(declare-fun fid (Int) Int)
(declare-fun fofid (Int) Int)      ; the formula with an identifier
(declare-fun notop (Int) Int)      ; operand of a negation
(declare-fun bl (Int) Int)         ; operands of implications and equivalences
(declare-fun br (Int) Int)
(declare-fun nops (Int) Int)       ; operands of conjunctions and disjunctions
(declare-fun nop (Int Int) Int)
(declare-fun nw (Int) Int)         ; witness index
(declare-fun negl (Int) Int)       ; the complementary literal
(declare-fun lname (Int) Str)
(declare-fun lphase (Int) Bool)
(declare-fun litof (Str Bool) Int)
(declare-fun pcmp (Int) Int)       ; comparator, right-hand side, literals, coefficients
(declare-fun prhs (Int) Int)
(declare-fun plen (Int) Int)
(declare-fun pla (Int) (Array Int Int))
(declare-fun pca (Int) (Array Int Int))
(declare-fun plit (Int Int) Int)
(declare-fun pcoef (Int Int) Int)
(assert (forall ((f Int) (k Int)) (! (= (plit f k) (elt_Int (pla f) 0 k)) :pattern ((plit f k)) :pattern ((elt_Int (pla f) 0 k)))))
(assert (forall ((f Int) (k Int)) (! (= (pcoef f k) (elt_Int (pca f) 0 k)) :pattern ((pcoef f k)) :pattern ((elt_Int (pca f) 0 k)))))
; sum of the coefficients of the true literals among the first n (literals: array, offset; coefficients: array, offset)
(declare-fun lsumf ((Array Int Int) Int (Array Int Int) Int Int) Int)
(declare-fun lsumg ((Array Int Int) Int (Array Int Int) Int Int) Int) ; the same function (unfolded once only)
(define-fun lsum ((a (Array Int Int)) (o Int) (l Int) (b (Array Int Int)) (p Int) (m Int) (n Int)) Int (lsumf a o b p n))
(assert (forall ((a (Array Int Int)) (o Int) (b (Array Int Int)) (p Int) (n Int)) (! (and (= (lsumf a o b p n) (lsumg a o b p n)) (=> (<= n 0) (= (lsumf a o b p n) 0)) (=> (> n 0) (= (lsumf a o b p n) (+ (lsumg a o b p (- n 1)) (ite (sem (elt_Int a o (- n 1))) (elt_Int b p (- n 1)) 0))))) :pattern ((lsumf a o b p n)))))
; lemma (induction on n): equal contents, equal sums
(declare-fun lsumw ((Array Int Int) Int (Array Int Int) Int (Array Int Int) Int (Array Int Int) Int Int) Int)
(lemma sums (induct n) (skolem lsumw) (assert (forall ((a (Array Int Int)) (o Int) (b (Array Int Int)) (p Int) (n Int) (a2 (Array Int Int)) (o2 Int) (b2 (Array Int Int)) (p2 Int)) (! (let ((w (lsumw a o b p a2 o2 b2 p2 n))) (or (= (lsumg a o b p n) (lsumg a2 o2 b2 p2 n)) (and (<= 0 w) (< w n) (not (and (= (elt_Int a o w) (elt_Int a2 o2 w)) (= (elt_Int b p w) (elt_Int b2 p2 w))))))) :pattern ((lsumg a o b p n) (lsumf a2 o2 b2 p2 n))))))
(define-fun cmpok ((c Int) (l Int) (r Int)) Bool
  (ite (= c 0) (= l r) (ite (= c 1) (<= l r) (ite (= c 2) (< l r) (ite (= c 3) (>= l r) (and (= c 4) (> l r)))))))
(declare-const verum Int)
(declare-const falsum Int)
(assert (and (ok verum) (sem verum) (= (fsort verum) 1) (= (fid verum) 1) (ok falsum) (not (sem falsum)) (= (fsort falsum) 0) (= (fid falsum) 0)))
(assert (not (= verum falsum)))
(assert (forall ((f Int)) (! (=> (ok f) (and (<= 0 (fsort f)) (<= (fsort f) 9) (=> (= (fsort f) 0) (= f falsum)) (=> (= (fsort f) 1) (= f verum)))) :pattern ((fsort f)))))
(assert (forall ((f Int)) (! (=> (ok f) (= (fofid (fid f)) f)) :pattern ((ok f) (fid f)))))
(assert (forall ((f Int)) (! (=> (and (ok f) (= (fsort f) 3)) (and (ok (notop f)) (= (sem f) (not (sem (notop f)))) (> (fsort (notop f)) 3) (= (fid (notop f)) (+ (fid f) 1)))) :pattern ((notop f)))))
(assert (forall ((f Int)) (! (=> (and (ok f) (= (fsort f) 2)) (and (ok (negl f)) (= (fsort (negl f)) 2) (= (negl (negl f)) f) (= (sem f) (not (sem (negl f)))) (= (fid (negl f)) (ite (lphase f) (- (fid f) 1) (+ (fid f) 1))) (= (lphase (negl f)) (not (lphase f))) (= (lname (negl f)) (lname f)))) :pattern ((negl f)))))
(assert (forall ((f Int)) (! (=> (and (ok f) (= (fsort f) 2)) (= (litof (lname f) (lphase f)) f)) :pattern ((lname f)) :pattern ((lphase f)))))
(assert (forall ((f Int)) (! (=> (and (ok f) (= (fsort f) 6)) (and (ok (bl f)) (ok (br f)) (= (sem f) (=> (sem (bl f)) (sem (br f)))))) :pattern ((bl f)))))
(assert (forall ((f Int)) (! (=> (and (ok f) (= (fsort f) 7)) (and (ok (bl f)) (ok (br f)) (= (sem f) (= (sem (bl f)) (sem (br f)))))) :pattern ((bl f)))))
(assert (forall ((f Int) (k Int)) (! (=> (and (ok f) (<= 0 k) (< k (nops f)) (or (= (fsort f) 4) (= (fsort f) 5))) (ok (nop f k))) :pattern ((nop f k)))))
(assert (forall ((f Int) (k Int)) (! (=> (and (ok f) (= (fsort f) 4) (sem f) (<= 0 k) (< k (nops f))) (sem (nop f k))) :pattern ((nop f k)))))
(assert (forall ((f Int)) (! (=> (and (ok f) (= (fsort f) 4) (not (sem f))) (and (<= 0 (nw f)) (< (nw f) (nops f)) (not (sem (nop f (nw f)))))) :pattern ((nops f)))))
(assert (forall ((f Int) (k Int)) (! (=> (and (ok f) (= (fsort f) 5) (not (sem f)) (<= 0 k) (< k (nops f))) (not (sem (nop f k)))) :pattern ((nop f k)))))
(assert (forall ((f Int)) (! (=> (and (ok f) (= (fsort f) 5) (sem f)) (and (<= 0 (nw f)) (< (nw f) (nops f)) (sem (nop f (nw f))))) :pattern ((nops f)))))
(assert (forall ((f Int)) (! (=> (and (ok f) (or (= (fsort f) 4) (= (fsort f) 5))) (<= 2 (nops f))) :pattern ((nops f)))))
; conjunctions and disjunctions are flat
(assert (forall ((f Int) (k Int)) (! (=> (and (ok f) (<= 0 k) (< k (nops f)) (= (fsort f) 4)) (and (> (fsort (nop f k)) 1) (not (= (fsort (nop f k)) 4)))) :pattern ((nop f k)))))
(assert (forall ((f Int) (k Int)) (! (=> (and (ok f) (<= 0 k) (< k (nops f)) (= (fsort f) 5)) (and (> (fsort (nop f k)) 1) (not (= (fsort (nop f k)) 5)))) :pattern ((nop f k)))))
; an arbitrary predicate which holds for the constants, and for a conjunction (hera) or disjunction (hero) iff it holds for its operands
(declare-fun hera (Int) Bool)
(declare-fun hero (Int) Bool)
(declare-fun hera2 (Int) Bool) ; a second such predicate
(declare-fun hero2 (Int) Bool)
(declare-fun heraw (Int) Int)
(declare-fun herow (Int) Int)
(assert (and (hera verum) (hera falsum) (hero verum) (hero falsum)))
(assert (forall ((f Int) (k Int)) (! (=> (and (ok f) (= (fsort f) 4) (hera f) (<= 0 k) (< k (nops f))) (hera (nop f k))) :pattern ((hera f) (nop f k)))))
(assert (forall ((f Int)) (! (=> (and (ok f) (= (fsort f) 4) (not (hera f))) (and (<= 0 (heraw f)) (< (heraw f) (nops f)) (not (hera (nop f (heraw f)))))) :pattern ((hera f)))))
(assert (forall ((f Int) (k Int)) (! (=> (and (ok f) (= (fsort f) 5) (hero f) (<= 0 k) (< k (nops f))) (hero (nop f k))) :pattern ((hero f) (nop f k)))))
(assert (forall ((f Int)) (! (=> (and (ok f) (= (fsort f) 5) (not (hero f))) (and (<= 0 (herow f)) (< (herow f) (nops f)) (not (hero (nop f (herow f)))))) :pattern ((hero f)))))
; identifiers: positive literals and compound formulas odd, negative literals and negations even (one less than the complement)
(assert (forall ((f Int)) (! (=> (ok f) (and (=> (> (fsort f) 3) (= (mod (fid f) 2) 1)) (=> (= (fsort f) 3) (= (mod (fid f) 2) 0)) (=> (= (fsort f) 2) (= (lphase f) (= (mod (fid f) 2) 1))))) :pattern ((fid f)))))
; lemma complement
(lemma complement (direct f) (hint (fsort f) (negl f) (notop f) (fid f) (fid (notop f)) (fid (negl f)) (fid verum)) (assert (forall ((f Int)) (! (=> (and (ok f) (= (mod (fid f) 2) 0)) (and (ok (fofid (+ (fid f) 1))) (= (sem (fofid (+ (fid f) 1))) (not (sem f))))) :pattern ((fid f))))))
; cardinality and pseudo-Boolean constraints
(assert (forall ((f Int)) (! (=> (and (ok f) (or (= (fsort f) 8) (= (fsort f) 9))) (and (<= 1 (plen f)) (<= 0 (pcmp f)) (<= (pcmp f) 4) (= (sem f) (cmpok (pcmp f) (lsumf (pla f) 0 (pca f) 0 (plen f)) (prhs f))))) :pattern ((plen f)))))
(assert (forall ((f Int) (k Int)) (! (=> (and (ok f) (or (= (fsort f) 8) (= (fsort f) 9)) (<= 0 k) (< k (plen f))) (and (ok (plit f k)) (= (fsort (plit f k)) 2))) :pattern ((plit f k)))))
(assert (forall ((f Int) (k Int)) (! (=> (and (ok f) (= (fsort f) 8) (<= 0 k) (< k (plen f))) (= (pcoef f k) 1)) :pattern ((pcoef f k)))))
; conjunctions and disjunctions of slices (array, offset, length)
(assert (forall ((f Int) (k Int)) (! (=> (and (ok f) (= (fsort f) 8) (<= 0 k) (< k (plen f))) (= (mod (fid (plit f k)) 2) 1)) :pattern ((plit f k)))))
(assert (forall ((f Int)) (! (=> (and (ok f) (= (fsort f) 8)) (<= 0 (prhs f))) :pattern ((prhs f)))))
(declare-fun conj ((Array Int Int) Int Int) Bool)
(declare-fun conjw ((Array Int Int) Int Int) Int)
(declare-fun disj ((Array Int Int) Int Int) Bool)
(declare-fun disjw ((Array Int Int) Int Int) Int)
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (k Int)) (! (=> (and (conj a o n) (<= 0 k) (< k n)) (sem (elt_Int a o k))) :pattern ((conj a o n) (elt_Int a o k)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (not (conj a o n)) (and (<= 0 (conjw a o n)) (< (conjw a o n) n) (not (sem (elt_Int a o (conjw a o n)))))) :pattern ((conj a o n)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (k Int)) (! (=> (and (not (disj a o n)) (<= 0 k) (< k n)) (not (sem (elt_Int a o k)))) :pattern ((disj a o n) (elt_Int a o k)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (disj a o n) (and (<= 0 (disjw a o n)) (< (disjw a o n) n) (sem (elt_Int a o (disjw a o n))))) :pattern ((disj a o n)))))
(define-fun conjpre ((a (Array Int Int)) (o Int) (l Int) (n Int)) Bool (conj a o n))
(define-fun disjpre ((a (Array Int Int)) (o Int) (l Int) (n Int)) Bool (disj a o n))
; hash values: functions of the contents (array, offset, length)
(declare-fun hashsp ((Array Int Int) Int Int) Int)
(declare-fun hashpb (Int Int (Array Int Int) Int Int (Array Int Int) Int Int) Int)
(declare-fun hashw ((Array Int Int) Int Int (Array Int Int) Int) Int)
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (b (Array Int Int)) (p Int)) (! (or (= (hashsp a o n) (hashsp b p n)) (and (<= 0 (hashw a o n b p)) (< (hashw a o n b p) n) (not (= (elt_Int a o (hashw a o n b p)) (elt_Int b p (hashw a o n b p)))))) :pattern ((hashsp a o n) (hashsp b p n)))))
(declare-fun hashpw (Int Int (Array Int Int) Int Int (Array Int Int) Int Int (Array Int Int) Int (Array Int Int) Int) Int)
(declare-fun hashpv (Int Int (Array Int Int) Int Int (Array Int Int) Int Int (Array Int Int) Int (Array Int Int) Int) Int)
(assert (forall ((c Int) (r Int) (a (Array Int Int)) (o Int) (n Int) (b (Array Int Int)) (p Int) (m Int) (a2 (Array Int Int)) (o2 Int) (b2 (Array Int Int)) (p2 Int)) (! (let ((i (hashpw c r a o n b p m a2 o2 b2 p2)) (j (hashpv c r a o n b p m a2 o2 b2 p2))) (or (= (hashpb c r a o n b p m) (hashpb c r a2 o2 n b2 p2 m)) (and (<= 0 i) (< i n) (not (= (elt_Int a o i) (elt_Int a2 o2 i)))) (and (<= 0 j) (< j m) (not (= (elt_Int b p j) (elt_Int b2 p2 j)))))) :pattern ((hashpb c r a o n b p m) (hashpb c r a2 o2 n b2 p2 m)))))
; the formula with given contents (functions of the contents, as the factory shares equal formulas); position of a formula in its hash bucket
(declare-fun slot (Int) Int)
(declare-fun andof ((Array Int Int) Int Int) Int)
(declare-fun orof ((Array Int Int) Int Int) Int)
(declare-fun ccof (Int Int (Array Int Int) Int Int (Array Int Int) Int Int) Int)
(declare-fun pbcof (Int Int (Array Int Int) Int Int (Array Int Int) Int Int) Int)

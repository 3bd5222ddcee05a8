; number of true literals of a list; at-most-one; encodings
(needs sem enc)
(declare-fun cnt ((Array Int Int) Int Int) Int)
(declare-fun cntg ((Array Int Int) Int Int) Int) ; the same function (unfolded once only)
(define-fun cntpre ((a (Array Int Int)) (o Int) (l Int) (n Int)) Int (cnt a o n))
(assert (forall ((a (Array Int Int)) (o Int) (n Int)) (! (and (= (cnt a o n) (cntg a o n)) (=> (<= n 0) (= (cnt a o n) 0)) (=> (> n 0) (= (cnt a o n) (+ (cntg a o (- n 1)) (ite (sem (elt_Int a o (- n 1))) 1 0))))) :pattern ((cnt a o n)))))
(lemma range (induct n) (assert (forall ((a (Array Int Int)) (o Int) (n Int)) (! (and (<= 0 (cntg a o n)) (<= (cntg a o n) (ite (>= n 0) n 0)) (= (cntg a o n) (cnt a o n))) :pattern ((cntg a o n))))))
; at least one true literal
(lemma least (induct n) (assert (forall ((a (Array Int Int)) (o Int) (n Int)) (! (= (>= (cnt a o n) 1) (disj a o n)) :pattern ((cnt a o n))))))
; all literals true
(lemma every (induct n) (assert (forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (>= n 0) (= (>= (cnt a o n) n) (conj a o n))) :pattern ((conj a o n) (cnt a o n))))))
; no two literals are true
(declare-fun amo ((Array Int Int) Int Int) Bool)
(declare-fun amow1 ((Array Int Int) Int Int) Int)
(declare-fun amow2 ((Array Int Int) Int Int) Int)
(define-fun amopre ((a (Array Int Int)) (o Int) (l Int) (n Int)) Bool (amo a o n))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (i Int) (j Int)) (! (=> (and (amo a o n) (<= 0 i) (< i j) (< j n)) (not (and (sem (elt_Int a o i)) (sem (elt_Int a o j))))) :pattern ((amo a o n) (elt_Int a o i) (elt_Int a o j)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (not (amo a o n)) (and (<= 0 (amow1 a o n)) (< (amow1 a o n) (amow2 a o n)) (< (amow2 a o n) n) (sem (elt_Int a o (amow1 a o n))) (sem (elt_Int a o (amow2 a o n))))) :pattern ((amo a o n)))))
(lemma most (induct n) (assert (forall ((a (Array Int Int)) (o Int) (n Int)) (! (= (<= (cnt a o n) 1) (amo a o n)) :pattern ((amo a o n) (cnt a o n))))))
; a constraint whose coefficients are all 1
(declare-fun onew ((Array Int Int) Int Int) Int)
(lemma unit (induct n) (skolem onew) (assert (forall ((a (Array Int Int)) (o Int) (b (Array Int Int)) (p Int) (n Int)) (! (or (= (lsumf a o b p n) (cnt a o n)) (and (<= 0 (onew b p n)) (< (onew b p n) n) (not (= (elt_Int b p (onew b p n)) 1)))) :pattern ((lsumf a o b p n))))))
; equal contents, equal counts
(declare-fun cntw ((Array Int Int) Int (Array Int Int) Int Int) Int)
(lemma ext (induct n) (skolem cntw) (assert (forall ((a (Array Int Int)) (o Int) (b (Array Int Int)) (p Int) (n Int)) (! (or (= (cntg a o n) (cntg b p n)) (and (<= 0 (cntw a o b p n)) (< (cntw a o b p n) n) (not (= (elt_Int a o (cntw a o b p n)) (elt_Int b p (cntw a o b p n)))))) :pattern ((cntg a o n) (cnt b p n))))))
; part of a list, its count, splitting a list
(define-fun cntseg ((a (Array Int Int)) (o Int) (l Int) (i Int) (j Int)) Int (cnt a (+ o i) (- j i)))
(declare-fun cntsplit ((Array Int Int) Int Int Int) Bool)
(lemma split (induct n) (hint (cntsplit a o k (- n 1))) (assert (forall ((a (Array Int Int)) (o Int) (k Int) (n Int)) (! (=> (and (<= 0 k) (<= k n)) (= (cnt a o n) (+ (cnt a o k) (cnt a (+ o k) (- n k))))) :pattern ((cntsplit a o k n))))))
(assert (forall ((a (Array Int Int)) (o Int) (k Int) (n Int)) (! (cntsplit a o k n) :pattern ((cntsplit a o k n)))))
(define-fun segsplit ((a (Array Int Int)) (o Int) (l Int) (i Int) (j Int) (k Int)) Bool (cntsplit a (+ o i) (- j i) (- k i)))
; trigger
(declare-fun mark (Int Int) Bool)
(assert (forall ((i Int) (j Int)) (! (mark i j) :pattern ((mark i j)))))
; sums with non-negative coefficients
(declare-fun negw ((Array Int Int) Int Int) Int)
(lemma nonneg (induct n) (skolem negw) (assert (forall ((a (Array Int Int)) (o Int) (b (Array Int Int)) (p Int) (n Int)) (! (or (<= 0 (lsumg a o b p n)) (and (<= 0 (negw b p n)) (< (negw b p n) n) (< (elt_Int b p (negw b p n)) 0))) :pattern ((lsumg a o b p n))))))
(declare-fun coefle ((Array Int Int) Int (Array Int Int) Int Int Int) Bool)
(lemma single (induct n) (skolem negw) (wit (negw b p (- n 1))) (hint (coefle a o b p (- n 1) k)) (assert (forall ((a (Array Int Int)) (o Int) (b (Array Int Int)) (p Int) (n Int) (k Int)) (! (=> (and (<= 0 k) (< k n) (sem (elt_Int a o k))) (or (<= (elt_Int b p k) (lsumf a o b p n)) (and (<= 0 (negw b p n)) (< (negw b p n) n) (< (elt_Int b p (negw b p n)) 0)))) :pattern ((coefle a o b p n k))))))
(assert (forall ((a (Array Int Int)) (o Int) (b (Array Int Int)) (p Int) (n Int) (k Int)) (! (coefle a o b p n k) :pattern ((coefle a o b p n k)) :pattern ((lsumf a o b p n) (elt_Int b p k)))))
(lemma zero (direct n) (hint (lsumf a o b p n)) (assert (forall ((a (Array Int Int)) (o Int) (b (Array Int Int)) (p Int) (n Int)) (! (=> (<= n 0) (= (lsumg a o b p n) 0)) :pattern ((lsumg a o b p n))))))

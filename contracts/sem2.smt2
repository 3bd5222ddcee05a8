; semb: truth values under a second assignment (compound formulas by their operands)
(needs sem enc)
(declare-fun semb (Int) Bool)
(declare-fun nwb (Int) Int)
(declare-fun lsumb ((Array Int Int) Int (Array Int Int) Int Int) Int)
(declare-fun lsumbg ((Array Int Int) Int (Array Int Int) Int Int) Int)
(assert (and (semb verum) (not (semb falsum))))
(assert (forall ((f Int)) (! (=> (and (ok f) (= (fsort f) 2)) (= (semb f) (not (semb (negl f))))) :pattern ((negl f)))))
(assert (forall ((f Int)) (! (=> (and (ok f) (= (fsort f) 3)) (= (semb f) (not (semb (notop f))))) :pattern ((notop f)))))
(assert (forall ((f Int)) (! (=> (and (ok f) (= (fsort f) 6)) (= (semb f) (=> (semb (bl f)) (semb (br f))))) :pattern ((bl f)))))
(assert (forall ((f Int)) (! (=> (and (ok f) (= (fsort f) 7)) (= (semb f) (= (semb (bl f)) (semb (br f))))) :pattern ((bl f)))))
(assert (forall ((f Int) (k Int)) (! (=> (and (ok f) (= (fsort f) 4) (semb f) (<= 0 k) (< k (nops f))) (semb (nop f k))) :pattern ((nop f k)))))
(assert (forall ((f Int)) (! (=> (and (ok f) (= (fsort f) 4) (not (semb f))) (and (<= 0 (nwb f)) (< (nwb f) (nops f)) (not (semb (nop f (nwb f)))))) :pattern ((nops f)))))
(assert (forall ((f Int) (k Int)) (! (=> (and (ok f) (= (fsort f) 5) (not (semb f)) (<= 0 k) (< k (nops f))) (not (semb (nop f k)))) :pattern ((nop f k)))))
(assert (forall ((f Int)) (! (=> (and (ok f) (= (fsort f) 5) (semb f)) (and (<= 0 (nwb f)) (< (nwb f) (nops f)) (semb (nop f (nwb f))))) :pattern ((nops f)))))
(assert (forall ((a (Array Int Int)) (o Int) (b (Array Int Int)) (p Int) (n Int)) (! (and (= (lsumb a o b p n) (lsumbg a o b p n)) (=> (<= n 0) (= (lsumb a o b p n) 0)) (=> (> n 0) (= (lsumb a o b p n) (+ (lsumbg a o b p (- n 1)) (ite (semb (elt_Int a o (- n 1))) (elt_Int b p (- n 1)) 0))))) :pattern ((lsumb a o b p n)))))
(define-fun lsumbs ((a (Array Int Int)) (o Int) (l Int) (b (Array Int Int)) (p Int) (m Int) (n Int)) Int (lsumb a o b p n))
(declare-fun lsumbw ((Array Int Int) Int (Array Int Int) Int (Array Int Int) Int (Array Int Int) Int Int) Int)
(lemma sumsb (induct n) (skolem lsumbw) (assert (forall ((a (Array Int Int)) (o Int) (b (Array Int Int)) (p Int) (a2 (Array Int Int)) (o2 Int) (b2 (Array Int Int)) (p2 Int) (n Int)) (! (let ((w (lsumbw a o b p a2 o2 b2 p2 n))) (or (= (lsumbg a o b p n) (lsumb a2 o2 b2 p2 n)) (and (<= 0 w) (< w n) (not (and (= (elt_Int a o w) (elt_Int a2 o2 w)) (= (elt_Int b p w) (elt_Int b2 p2 w))))))) :pattern ((lsumbg a o b p n) (lsumb a2 o2 b2 p2 n))))))
(assert (forall ((f Int)) (! (=> (and (ok f) (or (= (fsort f) 8) (= (fsort f) 9))) (= (semb f) (cmpok (pcmp f) (lsumb (pla f) 0 (pca f) 0 (plen f)) (prhs f)))) :pattern ((plen f)))))
(declare-fun mixw ((Array Int Int) Int (Array Int Int) Int (Array Int Int) Int (Array Int Int) Int Int) Int)
(lemma mixed (induct n) (skolem mixw) (assert (forall ((a (Array Int Int)) (o Int) (b (Array Int Int)) (p Int) (a2 (Array Int Int)) (o2 Int) (b2 (Array Int Int)) (p2 Int) (n Int)) (! (let ((w (mixw a o b p a2 o2 b2 p2 n))) (or (= (lsumf a o b p n) (lsumb a2 o2 b2 p2 n)) (and (<= 0 w) (< w n) (not (and (= (sem (elt_Int a o w)) (semb (elt_Int a2 o2 w))) (= (elt_Int b p w) (elt_Int b2 p2 w))))))) :pattern ((lsumf a o b p n) (lsumb a2 o2 b2 p2 n))))))

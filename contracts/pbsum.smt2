; negated coefficients
(needs sem enc)
(declare-fun nsw ((Array Int Int) Int (Array Int Int) Int (Array Int Int) Int (Array Int Int) Int Int) Int)
(lemma negsum (induct n) (skolem nsw) (assert (forall ((a (Array Int Int)) (o Int) (b (Array Int Int)) (p Int) (c (Array Int Int)) (q Int) (d (Array Int Int)) (r Int) (n Int)) (! (or (= (lsumf a o b p n) (- (lsumf c q d r n))) (and (<= 0 (nsw a o b p c q d r n)) (< (nsw a o b p c q d r n) n) (not (and (= (elt_Int a o (nsw a o b p c q d r n)) (elt_Int c q (nsw a o b p c q d r n))) (= (elt_Int b p (nsw a o b p c q d r n)) (- (elt_Int d r (nsw a o b p c q d r n)))))))) :pattern ((lsumf a o b p n) (lsumf c q d r n))))))

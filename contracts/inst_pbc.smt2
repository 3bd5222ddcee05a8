; hera: constants, normalised constraints (<=, positive coefficients, non-negative bound) and conjunctions of them
(needs sem)
(declare-fun pbw (Int) Int)
(assert (forall ((f Int) (k Int)) (! (=> (and (hera f) (> (fsort f) 1) (not (= (fsort f) 4)) (<= 0 k) (< k (plen f))) (> (pcoef f k) 0)) :pattern ((hera f) (pcoef f k)))))
(assert (forall ((f Int)) (! (=> (and (hera f) (> (fsort f) 1) (not (= (fsort f) 4))) (and (or (= (fsort f) 8) (= (fsort f) 9)) (= (pcmp f) 1) (>= (prhs f) 0))) :pattern ((hera f)))))
(assert (forall ((f Int)) (! (=> (and (or (= (fsort f) 8) (= (fsort f) 9)) (= (pcmp f) 1) (>= (prhs f) 0) (not (and (<= 0 (pbw f)) (< (pbw f) (plen f)) (<= (pcoef f (pbw f)) 0)))) (hera f)) :pattern ((hera f)))))

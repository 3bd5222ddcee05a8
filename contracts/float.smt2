; rounding: products of the square-root grid cover the number (exact for numbers below 2^52)
(declare-fun fsqrt (F64) F64)
(declare-fun fceil (F64) F64)
(define-fun pf ((n Int)) Int (f2i (fceil (fsqrt (i2f n)))))
(define-fun cdiv ((n Int) (p Int)) Int (f2i (fceil (f64_div (i2f n) (i2f p)))))
(define-fun qf ((n Int)) Int (cdiv n (pf n)))
(assert (forall ((n Int)) (! (let ((p (f2i (fceil (fsqrt (i2f n)))))) (=> (<= 1 n) (and (<= 1 p) (<= p n) (>= (* p p) n)))) :pattern ((fsqrt (i2f n))))))
(assert (forall ((n Int) (p Int)) (! (let ((q (f2i (fceil (f64_div (i2f n) (i2f p)))))) (=> (and (<= 1 n) (<= 1 p)) (and (<= 1 q) (<= q n) (>= (* p q) n) (< (* p (- q 1)) n)))) :pattern ((f64_div (i2f n) (i2f p))))))
; quotient and remainder
(declare-fun kd (Int Int) Int)
(declare-fun km (Int Int) Int)
(assert (forall ((k Int) (q Int)) (! (=> (and (<= 0 k) (<= 1 q)) (and (= k (+ (* (kd k q) q) (km k q))) (<= 0 (kd k q)) (<= (kd k q) k) (<= 0 (km k q)) (< (km k q) q))) :pattern ((kd k q)))))
(lemma kdless (direct k) (assert (forall ((k Int) (n Int) (p Int)) (! (let ((q (cdiv n p))) (=> (and (<= 0 k) (< k n) (<= 1 p)) (< (kd k q) p))) :pattern ((kd k (f2i (fceil (f64_div (i2f n) (i2f p))))))))))
(lemma kduniq (direct k) (hint (kd (+ (* i q) j) q)) (assert (forall ((k Int) (i Int) (j Int) (q Int)) (! (=> (and (<= 0 i) (<= 0 j) (< j q) (= k (+ (* i q) j))) (and (= (kd k q) i) (= (km k q) j))) :pattern ((kd k q) (* i q) (km k q))))))

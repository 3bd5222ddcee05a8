; Shapes of formulas and absence of constraints, by recursion on the formula.
(needs sem enc)
(define-fun islit ((f Int)) Bool (= (fsort f) 2))
(declare-fun isnnf (Int) Bool)
(declare-fun isnnfw (Int) Int)
(assert (forall ((f Int)) (! (and (=> (<= (fsort f) 2) (isnnf f)) (=> (or (= (fsort f) 3) (>= (fsort f) 6)) (not (isnnf f)))) :pattern ((isnnf f)))))
(assert (forall ((f Int) (k Int)) (! (=> (and (= (fsort f) 4) (isnnf f) (<= 0 k) (< k (nops f))) (isnnf (nop f k))) :pattern ((isnnf f) (nop f k)))))
(assert (forall ((f Int)) (! (=> (and (= (fsort f) 4) (not (isnnf f))) (and (<= 0 (isnnfw f)) (< (isnnfw f) (nops f)) (not (isnnf (nop f (isnnfw f)))))) :pattern ((isnnf f)))))
(assert (forall ((f Int) (k Int)) (! (=> (and (= (fsort f) 5) (isnnf f) (<= 0 k) (< k (nops f))) (isnnf (nop f k))) :pattern ((isnnf f) (nop f k)))))
(assert (forall ((f Int)) (! (=> (and (= (fsort f) 5) (not (isnnf f))) (and (<= 0 (isnnfw f)) (< (isnnfw f) (nops f)) (not (isnnf (nop f (isnnfw f)))))) :pattern ((isnnf f)))))
(declare-fun iscl (Int) Bool)
(declare-fun isclw (Int) Int)
(assert (forall ((f Int)) (! (and (=> (<= (fsort f) 2) (iscl f)) (=> (or (= (fsort f) 3) (= (fsort f) 4) (>= (fsort f) 6)) (not (iscl f)))) :pattern ((iscl f)))))
(assert (forall ((f Int) (k Int)) (! (=> (and (= (fsort f) 5) (iscl f) (<= 0 k) (< k (nops f))) (islit (nop f k))) :pattern ((iscl f) (nop f k)))))
(assert (forall ((f Int)) (! (=> (and (= (fsort f) 5) (not (iscl f))) (and (<= 0 (isclw f)) (< (isclw f) (nops f)) (not (islit (nop f (isclw f)))))) :pattern ((iscl f)))))
(declare-fun istm (Int) Bool)
(declare-fun istmw (Int) Int)
(assert (forall ((f Int)) (! (and (=> (<= (fsort f) 2) (istm f)) (=> (or (= (fsort f) 3) (= (fsort f) 5) (>= (fsort f) 6)) (not (istm f)))) :pattern ((istm f)))))
(assert (forall ((f Int) (k Int)) (! (=> (and (= (fsort f) 4) (istm f) (<= 0 k) (< k (nops f))) (islit (nop f k))) :pattern ((istm f) (nop f k)))))
(assert (forall ((f Int)) (! (=> (and (= (fsort f) 4) (not (istm f))) (and (<= 0 (istmw f)) (< (istmw f) (nops f)) (not (islit (nop f (istmw f)))))) :pattern ((istm f)))))
(declare-fun iscnf (Int) Bool)
(declare-fun iscnfw (Int) Int)
(assert (forall ((f Int)) (! (and (=> (<= (fsort f) 2) (iscnf f)) (=> (= (fsort f) 5) (= (iscnf f) (iscl f))) (=> (or (= (fsort f) 3) (>= (fsort f) 6)) (not (iscnf f)))) :pattern ((iscnf f)))))
(assert (forall ((f Int) (k Int)) (! (=> (and (= (fsort f) 4) (iscnf f) (<= 0 k) (< k (nops f))) (iscl (nop f k))) :pattern ((iscnf f) (nop f k)))))
(assert (forall ((f Int)) (! (=> (and (= (fsort f) 4) (not (iscnf f))) (and (<= 0 (iscnfw f)) (< (iscnfw f) (nops f)) (not (iscl (nop f (iscnfw f)))))) :pattern ((iscnf f)))))
(declare-fun isdnf (Int) Bool)
(declare-fun isdnfw (Int) Int)
(assert (forall ((f Int)) (! (and (=> (<= (fsort f) 2) (isdnf f)) (=> (= (fsort f) 4) (= (isdnf f) (istm f))) (=> (or (= (fsort f) 3) (>= (fsort f) 6)) (not (isdnf f)))) :pattern ((isdnf f)))))
(assert (forall ((f Int) (k Int)) (! (=> (and (= (fsort f) 5) (isdnf f) (<= 0 k) (< k (nops f))) (istm (nop f k))) :pattern ((isdnf f) (nop f k)))))
(assert (forall ((f Int)) (! (=> (and (= (fsort f) 5) (not (isdnf f))) (and (<= 0 (isdnfw f)) (< (isdnfw f) (nops f)) (not (istm (nop f (isdnfw f)))))) :pattern ((isdnf f)))))
(declare-fun isaig (Int) Bool)
(declare-fun isaigw (Int) Int)
(assert (forall ((f Int)) (! (and (=> (<= (fsort f) 2) (isaig f)) (=> (= (fsort f) 3) (= (isaig f) (isaig (notop f)))) (=> (>= (fsort f) 5) (not (isaig f)))) :pattern ((isaig f)))))
(assert (forall ((f Int) (k Int)) (! (=> (and (= (fsort f) 4) (isaig f) (<= 0 k) (< k (nops f))) (isaig (nop f k))) :pattern ((isaig f) (nop f k)))))
(assert (forall ((f Int)) (! (=> (and (= (fsort f) 4) (not (isaig f))) (and (<= 0 (isaigw f)) (< (isaigw f) (nops f)) (not (isaig (nop f (isaigw f)))))) :pattern ((isaig f)))))
(declare-fun nopb (Int) Bool)
(declare-fun nopbw (Int) Int)
(assert (forall ((f Int)) (! (and (=> (<= (fsort f) 2) (nopb f)) (=> (= (fsort f) 3) (= (nopb f) (nopb (notop f)))) (=> (or (= (fsort f) 6) (= (fsort f) 7)) (= (nopb f) (and (nopb (bl f)) (nopb (br f))))) (=> (>= (fsort f) 8) (not (nopb f)))) :pattern ((nopb f)))))
(assert (forall ((f Int) (k Int)) (! (=> (and (= (fsort f) 4) (nopb f) (<= 0 k) (< k (nops f))) (nopb (nop f k))) :pattern ((nopb f) (nop f k)))))
(assert (forall ((f Int)) (! (=> (and (= (fsort f) 4) (not (nopb f))) (and (<= 0 (nopbw f)) (< (nopbw f) (nops f)) (not (nopb (nop f (nopbw f)))))) :pattern ((nopb f)))))
(assert (forall ((f Int) (k Int)) (! (=> (and (= (fsort f) 5) (nopb f) (<= 0 k) (< k (nops f))) (nopb (nop f k))) :pattern ((nopb f) (nop f k)))))
(assert (forall ((f Int)) (! (=> (and (= (fsort f) 5) (not (nopb f))) (and (<= 0 (nopbw f)) (< (nopbw f) (nops f)) (not (nopb (nop f (nopbw f)))))) :pattern ((nopb f)))))
; lemma (induction on the formula): a negation normal form contains no constraint
(lemma nnfnopb (struct f) (assert (forall ((f Int)) (! (=> (and (ok f) (isnnf f)) (nopb f)) :pattern ((isnnf f))))))

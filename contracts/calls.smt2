; semc(c, f): truth value of f under the assignment number c. Assignment 0 is the fixed arbitrary one; the model found by
; a satisfiable solver call has that call's number. holds(h, c): assignment c satisfies every formula in the formula set h.
(needs sem enc)
(declare-fun semc (Int Int) Bool)
(declare-fun holds (Int Int) Bool)
(declare-fun stfs (Int) Int)       ; the formula set recorded in a saved solver state
(declare-fun pf (Int) Int)         ; the formula of a proposition
(assert (forall ((f Int)) (! (= (semc 0 f) (sem f)) :pattern ((semc 0 f)))))
(assert (forall ((c Int) (f Int)) (! (=> (and (ok f) (= (fsort f) 2)) (= (semc c f) (not (semc c (negl f))))) :pattern ((semc c (negl f))) :pattern ((semc c f) (negl f)))))
(assert (forall ((c Int)) (! (semc c verum) :pattern ((semc c verum)))))
(assert (forall ((c Int)) (! (not (semc c falsum)) :pattern ((semc c falsum)))))
(declare-fun conjc (Int (Array Int Int) Int Int) Bool)
(declare-fun conjcw (Int (Array Int Int) Int Int) Int)
(declare-fun disjc (Int (Array Int Int) Int Int) Bool)
(declare-fun disjcw (Int (Array Int Int) Int Int) Int)
(assert (forall ((c Int) (a (Array Int Int)) (o Int) (n Int) (k Int)) (! (=> (and (conjc c a o n) (<= 0 k) (< k n)) (semc c (elt_Int a o k))) :pattern ((conjc c a o n) (elt_Int a o k)))))
(assert (forall ((c Int) (a (Array Int Int)) (o Int) (n Int)) (! (=> (not (conjc c a o n)) (and (<= 0 (conjcw c a o n)) (< (conjcw c a o n) n) (not (semc c (elt_Int a o (conjcw c a o n)))))) :pattern ((conjc c a o n)))))
(assert (forall ((c Int) (a (Array Int Int)) (o Int) (n Int) (k Int)) (! (=> (and (not (disjc c a o n)) (<= 0 k) (< k n)) (not (semc c (elt_Int a o k)))) :pattern ((disjc c a o n) (elt_Int a o k)))))
(assert (forall ((c Int) (a (Array Int Int)) (o Int) (n Int)) (! (=> (disjc c a o n) (and (<= 0 (disjcw c a o n)) (< (disjcw c a o n) n) (semc c (elt_Int a o (disjcw c a o n))))) :pattern ((disjc c a o n)))))
; the formulas of the first n propositions, all but number x (x = -1: all)
(declare-fun pconjx (Int (Array Int Int) Int Int Int) Bool)
(declare-fun pconjw (Int (Array Int Int) Int Int Int) Int)
(assert (forall ((c Int) (a (Array Int Int)) (o Int) (n Int) (x Int) (k Int)) (! (=> (and (pconjx c a o n x) (<= 0 k) (< k n) (not (= k x))) (semc c (pf (elt_Int a o k)))) :pattern ((pconjx c a o n x) (elt_Int a o k)))))
(assert (forall ((c Int) (a (Array Int Int)) (o Int) (n Int) (x Int)) (! (let ((w (pconjw c a o n x))) (=> (not (pconjx c a o n x)) (and (<= 0 w) (< w n) (not (= w x)) (not (semc c (pf (elt_Int a o w))))))) :pattern ((pconjx c a o n x)))))
(assert (forall ((c Int) (a (Array Int Int)) (o Int) (n Int) (m Int) (x Int)) (! (=> (= n m) (= (pconjx c a o n x) (pconjx c a o m x))) :pattern ((pconjx c a o n x) (pconjx c a o m x)))))
(define-fun pconj ((c Int) (a (Array Int Int)) (o Int) (l Int)) Bool (pconjx c a o l (- 1)))
(define-fun pconjpre ((c Int) (a (Array Int Int)) (o Int) (l Int) (n Int)) Bool (pconjx c a o n (- 1)))
(define-fun pconjbut ((c Int) (a (Array Int Int)) (o Int) (l Int) (x Int)) Bool (pconjx c a o l x))
; h is the set of the formulas of the first n propositions
(declare-fun eqsetf (Int (Array Int Int) Int Int) Bool)
(declare-fun eqsetw (Int (Array Int Int) Int Int) Int)
(assert (forall ((h Int) (a (Array Int Int)) (o Int) (n Int) (c Int)) (! (=> (eqsetf h a o n) (= (holds h c) (pconjx c a o n (- 1)))) :pattern ((eqsetf h a o n) (holds h c)))))
(assert (forall ((h Int) (a (Array Int Int)) (o Int) (n Int) (m Int) (c Int)) (! (=> (and (eqsetf h a o n) (= n m)) (= (holds h c) (pconjx c a o m (- 1)))) :pattern ((eqsetf h a o n) (pconjx c a o m (- 1))))))
(assert (forall ((h Int) (a (Array Int Int)) (o Int) (n Int)) (! (let ((w (eqsetw h a o n))) (=> (not (eqsetf h a o n)) (not (= (holds h w) (pconjx w a o n (- 1)))))) :pattern ((eqsetf h a o n)))))
(define-fun eqset ((h Int) (a (Array Int Int)) (o Int) (l Int) (n Int)) Bool (eqsetf h a o n))
; no assignment satisfies both the propositions of the first slice and the first m of the second one
(declare-fun nonef ((Array Int Int) Int Int (Array Int Int) Int Int) Bool)
(declare-fun nonew ((Array Int Int) Int Int (Array Int Int) Int Int) Int)
(assert (forall ((c Int) (a (Array Int Int)) (o Int) (n Int) (b (Array Int Int)) (p Int) (m Int) (m2 Int)) (! (=> (nonef a o n b p m) (not (and (pconjx c a o n (- 1)) (pconjx c b p m (- 1))))) :pattern ((nonef a o n b p m) (pconjx c b p m2 (- 1))) :pattern ((nonef a o n b p m) (pconjx c a o m2 (- 1))))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (b (Array Int Int)) (p Int) (m Int)) (! (let ((c (nonew a o n b p m))) (=> (not (nonef a o n b p m)) (and (pconjx c a o n (- 1)) (pconjx c b p m (- 1))))) :pattern ((nonef a o n b p m)))))
(define-fun none ((a (Array Int Int)) (o Int) (l Int) (b (Array Int Int)) (p Int) (bl Int) (m Int)) Bool (nonef a o l b p m))
; h is the formula set g extended by the formulas of the first n propositions
(declare-fun extf (Int Int (Array Int Int) Int Int) Bool)
(declare-fun extw (Int Int (Array Int Int) Int Int) Int)
(assert (forall ((h Int) (g Int) (a (Array Int Int)) (o Int) (n Int) (c Int)) (! (=> (extf h g a o n) (= (holds h c) (and (holds g c) (pconjx c a o n (- 1))))) :pattern ((extf h g a o n) (holds h c)) :pattern ((extf h g a o n) (holds g c)))))
(assert (forall ((h Int) (g Int) (a (Array Int Int)) (o Int) (n Int) (m Int) (c Int)) (! (=> (and (extf h g a o n) (= n m)) (= (holds h c) (and (holds g c) (pconjx c a o m (- 1))))) :pattern ((extf h g a o n) (pconjx c a o m (- 1))))))
(assert (forall ((h Int) (g Int) (a (Array Int Int)) (o Int) (n Int)) (! (let ((w (extw h g a o n))) (=> (not (extf h g a o n)) (not (= (holds h w) (and (holds g w) (pconjx w a o n (- 1))))))) :pattern ((extf h g a o n)))))
(define-fun ext ((h Int) (g Int) (a (Array Int Int)) (o Int) (l Int) (n Int)) Bool (extf h g a o n))
(declare-fun memberf (Int (Array Int Int) Int Int) Bool)
(declare-fun memberw (Int (Array Int Int) Int Int) Int)
(assert (forall ((x Int) (a (Array Int Int)) (o Int) (n Int) (k Int)) (! (=> (and (not (memberf x a o n)) (<= 0 k) (< k n)) (not (= x (elt_Int a o k)))) :pattern ((memberf x a o n) (elt_Int a o k)))))
(assert (forall ((x Int) (a (Array Int Int)) (o Int) (n Int)) (! (let ((w (memberw x a o n))) (=> (memberf x a o n) (and (<= 0 w) (< w n) (= x (elt_Int a o w))))) :pattern ((memberf x a o n)))))
(define-fun member ((x Int) (a (Array Int Int)) (o Int) (n Int)) Bool (memberf x a o n))
; some assignment satisfies the propositions of the first slice but number k, and the first n of the second slice
(declare-fun excf ((Array Int Int) Int Int Int (Array Int Int) Int Int) Bool)
(declare-fun excw ((Array Int Int) Int Int Int (Array Int Int) Int Int) Int)
(assert (forall ((c Int) (a (Array Int Int)) (o Int) (n Int) (k Int) (b (Array Int Int)) (p Int) (m Int) (m2 Int)) (! (=> (and (pconjx c a o n k) (pconjx c b p m (- 1))) (excf a o n k b p m)) :pattern ((excf a o n k b p m) (pconjx c b p m2 (- 1))))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (k Int) (b (Array Int Int)) (p Int) (m Int)) (! (let ((c (excw a o n k b p m))) (=> (excf a o n k b p m) (and (pconjx c a o n k) (pconjx c b p m (- 1))))) :pattern ((excf a o n k b p m)))))
(define-fun exc ((a (Array Int Int)) (o Int) (l Int) (k Int) (b (Array Int Int)) (p Int) (bl Int) (m Int)) Bool (excf a o l k b p m))
; sets of formulas given by the domain of a map: all members but x are true under assignment c
(declare-fun setcf (Int (Array Int Bool) Int) Bool)
(declare-fun setcw (Int (Array Int Bool) Int) Int)
(assert (forall ((c Int) (d (Array Int Bool)) (x Int) (k Int)) (! (=> (and (setcf c d x) (select d k) (or (< x 0) (not (= k x)))) (semc c k)) :pattern ((setcf c d x) (select d k)))))
(assert (forall ((c Int) (d (Array Int Bool)) (x Int)) (! (let ((w (setcw c d x))) (=> (not (setcf c d x)) (and (select d w) (or (< x 0) (not (= w x))) (not (semc c w))))) :pattern ((setcf c d x)))))
(define-fun setc ((c Int) (d (Array Int Bool)) (x Int)) Bool (setcf c d x))
; no assignment satisfies h and all members of d
(declare-fun nonesf (Int (Array Int Bool)) Bool)
(declare-fun nonesw (Int (Array Int Bool)) Int)
(assert (forall ((h Int) (d (Array Int Bool)) (c Int)) (! (=> (nonesf h d) (not (and (holds h c) (setcf c d (- 1))))) :pattern ((nonesf h d) (holds h c)) :pattern ((nonesf h d) (setcf c d (- 1))))))
(assert (forall ((h Int) (d (Array Int Bool))) (! (let ((c (nonesw h d))) (=> (not (nonesf h d)) (and (holds h c) (setcf c d (- 1))))) :pattern ((nonesf h d)))))
(define-fun nones ((h Int) (d (Array Int Bool))) Bool (nonesf h d))
; some assignment satisfies h and all members of d but x
(declare-fun excsf (Int (Array Int Bool) Int) Bool)
(declare-fun excsw (Int (Array Int Bool) Int) Int)
(assert (forall ((h Int) (d (Array Int Bool)) (x Int) (c Int)) (! (=> (and (holds h c) (setcf c d x)) (excsf h d x)) :pattern ((excsf h d x) (holds h c)))))
(assert (forall ((h Int) (d (Array Int Bool)) (x Int)) (! (let ((c (excsw h d x))) (=> (excsf h d x) (and (holds h c) (setcf c d x)))) :pattern ((excsf h d x)))))
(define-fun excs ((h Int) (d (Array Int Bool)) (x Int)) Bool (excsf h d x))
; all elements of the slice but x are true (false) under assignment c
(declare-fun conjxf (Int (Array Int Int) Int Int Int) Bool)
(declare-fun conjxw (Int (Array Int Int) Int Int Int) Int)
(assert (forall ((c Int) (a (Array Int Int)) (o Int) (n Int) (x Int) (k Int)) (! (=> (and (conjxf c a o n x) (<= 0 k) (< k n) (or (< x 0) (not (= (elt_Int a o k) x)))) (semc c (elt_Int a o k))) :pattern ((conjxf c a o n x) (elt_Int a o k)))))
(assert (forall ((c Int) (a (Array Int Int)) (o Int) (n Int) (x Int)) (! (let ((w (conjxw c a o n x))) (=> (not (conjxf c a o n x)) (and (<= 0 w) (< w n) (or (< x 0) (not (= (elt_Int a o w) x))) (not (semc c (elt_Int a o w)))))) :pattern ((conjxf c a o n x)))))
(declare-fun disjxf (Int (Array Int Int) Int Int Int) Bool)
(declare-fun disjxw (Int (Array Int Int) Int Int Int) Int)
(assert (forall ((c Int) (a (Array Int Int)) (o Int) (n Int) (x Int) (k Int)) (! (=> (and (not (disjxf c a o n x)) (<= 0 k) (< k n) (or (< x 0) (not (= (elt_Int a o k) x)))) (not (semc c (elt_Int a o k)))) :pattern ((disjxf c a o n x) (elt_Int a o k)))))
(assert (forall ((c Int) (a (Array Int Int)) (o Int) (n Int) (x Int)) (! (let ((w (disjxw c a o n x))) (=> (disjxf c a o n x) (and (<= 0 w) (< w n) (or (< x 0) (not (= (elt_Int a o w) x))) (semc c (elt_Int a o w))))) :pattern ((disjxf c a o n x)))))
; the literals of the slice imply every formula set complementing h: no assignment satisfies h and all of them;
; dropping the element x makes this false
(declare-fun impf (Int (Array Int Int) Int Int) Bool)
(declare-fun impw (Int (Array Int Int) Int Int) Int)
(assert (forall ((h Int) (a (Array Int Int)) (o Int) (n Int) (c Int)) (! (=> (impf h a o n) (not (and (holds h c) (conjc c a o n)))) :pattern ((impf h a o n) (holds h c)) :pattern ((impf h a o n) (conjc c a o n)))))
(assert (forall ((h Int) (a (Array Int Int)) (o Int) (n Int)) (! (let ((c (impw h a o n))) (=> (not (impf h a o n)) (and (holds h c) (conjc c a o n)))) :pattern ((impf h a o n)))))
(define-fun implicant ((h Int) (a (Array Int Int)) (o Int) (n Int)) Bool (impf h a o n))
(declare-fun primf (Int (Array Int Int) Int Int Int) Bool)
(declare-fun primw (Int (Array Int Int) Int Int Int) Int)
(assert (forall ((h Int) (a (Array Int Int)) (o Int) (n Int) (x Int) (c Int)) (! (=> (and (holds h c) (conjxf c a o n x)) (primf h a o n x)) :pattern ((primf h a o n x) (holds h c)))))
(assert (forall ((h Int) (a (Array Int Int)) (o Int) (n Int) (x Int)) (! (let ((c (primw h a o n x))) (=> (primf h a o n x) (and (holds h c) (conjxf c a o n x)))) :pattern ((primf h a o n x)))))
(define-fun needed ((h Int) (a (Array Int Int)) (o Int) (n Int) (x Int)) Bool (primf h a o n x))
; every assignment satisfying h makes one of the literals of the slice true; without x this is false
(declare-fun icf (Int (Array Int Int) Int Int) Bool)
(declare-fun icw (Int (Array Int Int) Int Int) Int)
(assert (forall ((h Int) (a (Array Int Int)) (o Int) (n Int) (c Int)) (! (=> (and (icf h a o n) (holds h c)) (disjc c a o n)) :pattern ((icf h a o n) (holds h c)) :pattern ((icf h a o n) (disjc c a o n)))))
(assert (forall ((h Int) (a (Array Int Int)) (o Int) (n Int)) (! (let ((c (icw h a o n))) (=> (not (icf h a o n)) (and (holds h c) (not (disjc c a o n))))) :pattern ((icf h a o n)))))
(define-fun implicate ((h Int) (a (Array Int Int)) (o Int) (n Int)) Bool (icf h a o n))
(declare-fun priif (Int (Array Int Int) Int Int Int) Bool)
(declare-fun priiw (Int (Array Int Int) Int Int Int) Int)
(assert (forall ((h Int) (a (Array Int Int)) (o Int) (n Int) (x Int) (c Int)) (! (=> (and (holds h c) (not (disjxf c a o n x))) (priif h a o n x)) :pattern ((priif h a o n x) (holds h c)))))
(assert (forall ((h Int) (a (Array Int Int)) (o Int) (n Int) (x Int)) (! (let ((c (priiw h a o n x))) (=> (priif h a o n x) (and (holds h c) (not (disjxf c a o n x))))) :pattern ((priif h a o n x)))))
(define-fun neededi ((h Int) (a (Array Int Int)) (o Int) (n Int) (x Int)) Bool (priif h a o n x))
; the same for the negated members of a set
(declare-fun nsetf (Int (Array Int Bool) Int) Bool)
(declare-fun nsetw (Int (Array Int Bool) Int) Int)
(assert (forall ((c Int) (d (Array Int Bool)) (x Int) (k Int)) (! (=> (and (nsetf c d x) (select d k) (or (< x 0) (not (= k x)))) (not (semc c k))) :pattern ((nsetf c d x) (select d k)))))
(assert (forall ((c Int) (d (Array Int Bool)) (x Int)) (! (let ((w (nsetw c d x))) (=> (not (nsetf c d x)) (and (select d w) (or (< x 0) (not (= w x))) (semc c w)))) :pattern ((nsetf c d x)))))
(declare-fun nonenf (Int (Array Int Bool)) Bool)
(declare-fun nonenw (Int (Array Int Bool)) Int)
(assert (forall ((h Int) (d (Array Int Bool)) (c Int)) (! (=> (nonenf h d) (not (and (holds h c) (nsetf c d (- 1))))) :pattern ((nonenf h d) (holds h c)) :pattern ((nonenf h d) (nsetf c d (- 1))))))
(assert (forall ((h Int) (d (Array Int Bool))) (! (let ((c (nonenw h d))) (=> (not (nonenf h d)) (and (holds h c) (nsetf c d (- 1))))) :pattern ((nonenf h d)))))
(define-fun nonen ((h Int) (d (Array Int Bool))) Bool (nonenf h d))
(declare-fun excnf (Int (Array Int Bool) Int) Bool)
(declare-fun excnw (Int (Array Int Bool) Int) Int)
(assert (forall ((h Int) (d (Array Int Bool)) (x Int) (c Int)) (! (=> (and (holds h c) (nsetf c d x)) (excnf h d x)) :pattern ((excnf h d x) (holds h c)))))
(assert (forall ((h Int) (d (Array Int Bool)) (x Int)) (! (let ((c (excnw h d x))) (=> (excnf h d x) (and (holds h c) (nsetf c d x)))) :pattern ((excnf h d x)))))
(define-fun excn ((h Int) (d (Array Int Bool)) (x Int)) Bool (excnf h d x))
; the propositions of the first slice are those of the second one and the first m formulas of the third one
(declare-fun paddf ((Array Int Int) Int Int (Array Int Int) Int Int (Array Int Int) Int Int) Bool)
(declare-fun paddw ((Array Int Int) Int Int (Array Int Int) Int Int (Array Int Int) Int Int) Int)
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (b (Array Int Int)) (p Int) (k Int) (l (Array Int Int)) (q Int) (m Int) (c Int)) (! (=> (paddf a o n b p k l q m) (= (pconjx c a o n (- 1)) (and (pconjx c b p k (- 1)) (conjc c l q m)))) :pattern ((paddf a o n b p k l q m) (pconjx c b p k (- 1))) :pattern ((paddf a o n b p k l q m) (pconjx c a o n (- 1))))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (b (Array Int Int)) (p Int) (k Int) (l (Array Int Int)) (q Int) (m Int)) (! (let ((c (paddw a o n b p k l q m))) (=> (not (paddf a o n b p k l q m)) (not (= (pconjx c a o n (- 1)) (and (pconjx c b p k (- 1)) (conjc c l q m)))))) :pattern ((paddf a o n b p k l q m)))))
(assert (forall ((c Int) (a (Array Int Int)) (o Int) (n Int) (m Int)) (! (=> (= n m) (= (conjc c a o n) (conjc c a o m))) :pattern ((conjc c a o n) (conjc c a o m)))))
(define-fun padd ((a (Array Int Int)) (o Int) (n Int) (b (Array Int Int)) (p Int) (k Int) (l (Array Int Int)) (q Int) (ln Int) (m Int)) Bool (paddf a o n b p k l q m))
; the assignments satisfying (falsifying) a formula
(declare-fun pset (Int) Int)
(declare-fun nset (Int) Int)
(assert (forall ((f Int) (c Int)) (! (= (holds (pset f) c) (semc c f)) :pattern ((holds (pset f) c)) :pattern ((pset f) (semc c f)))))
(assert (forall ((f Int) (c Int)) (! (= (holds (nset f) c) (not (semc c f))) :pattern ((holds (nset f) c)) :pattern ((nset f) (semc c f)))))
(define-fun conjcpre ((c Int) (a (Array Int Int)) (o Int) (l Int) (n Int)) Bool (conjc c a o n))
; the second slice holds the negations of the literals of the first one
(declare-fun negslf ((Array Int Int) Int Int (Array Int Int) Int Int) Bool)
(declare-fun negslw ((Array Int Int) Int Int (Array Int Int) Int Int) Int)
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (b (Array Int Int)) (p Int) (m Int) (k Int)) (! (=> (and (negslf a o n b p m) (<= 0 k) (< k n)) (= (elt_Int b p k) (negl (elt_Int a o k)))) :pattern ((negslf a o n b p m) (elt_Int a o k)) :pattern ((negslf a o n b p m) (elt_Int b p k)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (b (Array Int Int)) (p Int) (m Int)) (! (let ((w (negslw a o n b p m))) (and (=> (negslf a o n b p m) (= n m)) (=> (and (= n m) (not (negslf a o n b p m))) (and (<= 0 w) (< w n) (not (= (elt_Int b p w) (negl (elt_Int a o w)))))))) :pattern ((negslf a o n b p m)))))
(define-fun negsl ((a (Array Int Int)) (o Int) (n Int) (b (Array Int Int)) (p Int) (m Int)) Bool (negslf a o n b p m))
; literal slices; every element of the slice is needed
(declare-fun litslf ((Array Int Int) Int Int) Bool)
(declare-fun litslw ((Array Int Int) Int Int) Int)
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (k Int)) (! (=> (and (litslf a o n) (<= 0 k) (< k n)) (and (ok (elt_Int a o k)) (= (fsort (elt_Int a o k)) 2))) :pattern ((litslf a o n) (elt_Int a o k)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int)) (! (let ((w (litslw a o n))) (=> (not (litslf a o n)) (and (<= 0 w) (< w n) (not (and (ok (elt_Int a o w)) (= (fsort (elt_Int a o w)) 2)))))) :pattern ((litslf a o n)))))
(define-fun litsl ((a (Array Int Int)) (o Int) (n Int)) Bool (litslf a o n))
(declare-fun allnf (Int (Array Int Int) Int Int) Bool)
(declare-fun allnw (Int (Array Int Int) Int Int) Int)
(assert (forall ((h Int) (a (Array Int Int)) (o Int) (n Int) (k Int)) (! (=> (and (allnf h a o n) (<= 0 k) (< k n)) (primf h a o n (elt_Int a o k))) :pattern ((allnf h a o n) (elt_Int a o k)))))
(assert (forall ((h Int) (a (Array Int Int)) (o Int) (n Int)) (! (let ((w (allnw h a o n))) (=> (not (allnf h a o n)) (and (<= 0 w) (< w n) (not (primf h a o n (elt_Int a o w)))))) :pattern ((allnf h a o n)))))
(define-fun allneeded ((h Int) (a (Array Int Int)) (o Int) (n Int)) Bool (allnf h a o n))
(declare-fun allif (Int (Array Int Int) Int Int) Bool)
(declare-fun alliw (Int (Array Int Int) Int Int) Int)
(assert (forall ((h Int) (a (Array Int Int)) (o Int) (n Int) (k Int)) (! (=> (and (allif h a o n) (<= 0 k) (< k n)) (priif h a o n (elt_Int a o k))) :pattern ((allif h a o n) (elt_Int a o k)))))
(assert (forall ((h Int) (a (Array Int Int)) (o Int) (n Int)) (! (let ((w (alliw h a o n))) (=> (not (allif h a o n)) (and (<= 0 w) (< w n) (not (priif h a o n (elt_Int a o w)))))) :pattern ((allif h a o n)))))
(define-fun allneededi ((h Int) (a (Array Int Int)) (o Int) (n Int)) Bool (allif h a o n))

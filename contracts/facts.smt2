; Derived facts as functions of the formula (definitions by recursion on the formula, unfolded once per term).
; nch/child: the immediate operands.
(declare-fun nch (Int) Int)
(declare-fun child (Int Int) Int)
(assert (forall ((f Int)) (! (= (nch f) (ite (= (fsort f) 3) 1 (ite (or (= (fsort f) 6) (= (fsort f) 7)) 2 (ite (or (= (fsort f) 4) (= (fsort f) 5)) (nops f) 0)))) :pattern ((nch f)))))
(assert (forall ((f Int) (k Int)) (! (= (child f k) (ite (= (fsort f) 3) (notop f) (ite (or (= (fsort f) 4) (= (fsort f) 5)) (nop f k) (ite (= k 0) (bl f) (br f))))) :pattern ((child f k)))))
; depth: 0 for atoms, else 1 + maximum over the operands (mdepth: maximum over the first k)
(declare-fun depth (Int) Int)
(declare-fun mdepth (Int Int) Int)
(declare-fun mdepthg (Int Int) Int)
(assert (forall ((f Int)) (! (= (depth f) (ite (or (<= (fsort f) 2) (>= (fsort f) 8)) 0 (+ 1 (mdepth f (nch f))))) :pattern ((depth f)))))
(assert (forall ((f Int) (k Int)) (! (and (= (mdepth f k) (mdepthg f k)) (=> (<= k 0) (= (mdepth f k) 0)) (=> (> k 0) (= (mdepth f k) (ite (>= (mdepthg f (- k 1)) (depth (child f (- k 1)))) (mdepthg f (- k 1)) (depth (child f (- k 1))))))) :pattern ((mdepth f k)))))
; number of nodes and atoms
(declare-fun nnodes (Int) Int)
(declare-fun snodes (Int Int) Int)
(declare-fun snodesg (Int Int) Int)
(assert (forall ((f Int)) (! (= (nnodes f) (ite (<= (fsort f) 2) 1 (ite (>= (fsort f) 8) (+ 1 (plen f)) (+ 1 (snodes f (nch f)))))) :pattern ((nnodes f)))))
(assert (forall ((f Int) (k Int)) (! (and (= (snodes f k) (snodesg f k)) (=> (<= k 0) (= (snodes f k) 0)) (=> (> k 0) (= (snodes f k) (+ (snodesg f (- k 1)) (nnodes (child f (- k 1))))))) :pattern ((snodes f k)))))
(declare-fun natoms (Int) Int)
(declare-fun satoms (Int Int) Int)
(declare-fun satomsg (Int Int) Int)
(assert (forall ((f Int)) (! (= (natoms f) (ite (or (<= (fsort f) 2) (>= (fsort f) 8)) 1 (satoms f (nch f)))) :pattern ((natoms f)))))
(assert (forall ((f Int) (k Int)) (! (and (= (satoms f k) (satomsg f k)) (=> (<= k 0) (= (satoms f k) 0)) (=> (> k 0) (= (satoms f k) (+ (satomsg f (- k 1)) (natoms (child f (- k 1))))))) :pattern ((satoms f k)))))
; number of occurrences of the fixed literal lx and of the fixed variable vx
(declare-const lx Int)
(declare-const vx Int)
(define-fun posof ((l Int)) Int (ite (= (mod (fid l) 2) 1) l (negl l)))
(declare-fun nlx (Int) Int)
(declare-fun snlx (Int Int) Int)
(declare-fun snlxg (Int Int) Int)
(declare-fun plx ((Array Int Int) Int Int) Int)
(declare-fun plxg ((Array Int Int) Int Int) Int)
(assert (forall ((f Int)) (! (= (nlx f) (ite (<= (fsort f) 1) 0 (ite (= (fsort f) 2) (ite (= f lx) 1 0) (ite (>= (fsort f) 8) (plx (pla f) 0 (plen f)) (snlx f (nch f)))))) :pattern ((nlx f)))))
(assert (forall ((f Int) (k Int)) (! (and (= (snlx f k) (snlxg f k)) (=> (<= k 0) (= (snlx f k) 0)) (=> (> k 0) (= (snlx f k) (+ (snlxg f (- k 1)) (nlx (child f (- k 1))))))) :pattern ((snlx f k)))))
(assert (forall ((a (Array Int Int)) (o Int) (k Int)) (! (and (= (plx a o k) (plxg a o k)) (=> (<= k 0) (= (plx a o k) 0)) (=> (> k 0) (= (plx a o k) (+ (plxg a o (- k 1)) (ite (= (elt_Int a o (- k 1)) lx) 1 0))))) :pattern ((plx a o k)))))
(declare-fun nvx (Int) Int)
(declare-fun snvx (Int Int) Int)
(declare-fun snvxg (Int Int) Int)
(declare-fun pvx ((Array Int Int) Int Int) Int)
(declare-fun pvxg ((Array Int Int) Int Int) Int)
(assert (forall ((f Int)) (! (= (nvx f) (ite (<= (fsort f) 1) 0 (ite (= (fsort f) 2) (ite (= (posof f) vx) 1 0) (ite (>= (fsort f) 8) (pvx (pla f) 0 (plen f)) (snvx f (nch f)))))) :pattern ((nvx f)))))
(assert (forall ((f Int) (k Int)) (! (and (= (snvx f k) (snvxg f k)) (=> (<= k 0) (= (snvx f k) 0)) (=> (> k 0) (= (snvx f k) (+ (snvxg f (- k 1)) (nvx (child f (- k 1))))))) :pattern ((snvx f k)))))
(assert (forall ((a (Array Int Int)) (o Int) (k Int)) (! (and (= (pvx a o k) (pvxg a o k)) (=> (<= k 0) (= (pvx a o k) 0)) (=> (> k 0) (= (pvx a o k) (+ (pvxg a o (- k 1)) (ite (= (posof (elt_Int a o (- k 1))) vx) 1 0))))) :pattern ((pvx a o k)))))
; does the fixed variable vx / literal lx / sub-formula gx occur?
(declare-fun occv (Int) Bool)
(declare-fun occvw (Int) Int)
(assert (forall ((f Int)) (! (and (=> (= (fsort f) 2) (= (occv f) (= (posof f) vx))) (=> (<= (fsort f) 1) (not (occv f)))) :pattern ((occv f)))))
(assert (forall ((f Int)) (! (and (=> (= (fsort f) 3) (= (occv f) (occv (notop f)))) (=> (or (= (fsort f) 6) (= (fsort f) 7)) (= (occv f) (or (occv (bl f)) (occv (br f)))))) :pattern ((occv f)))))
(assert (forall ((f Int)) (! (=> (and (occv f) (>= (fsort f) 3) (<= (fsort f) 7)) (and (<= 0 (occvw f)) (< (occvw f) (nch f)) (occv (child f (occvw f))))) :pattern ((occv f)))))
(assert (forall ((f Int) (k Int)) (! (=> (and (not (occv f)) (>= (fsort f) 3) (<= (fsort f) 7) (<= 0 k) (< k (nch f))) (not (occv (child f k)))) :pattern ((occv f) (child f k)))))
(assert (forall ((f Int) (k Int)) (! (=> (and (not (occv f)) (or (= (fsort f) 4) (= (fsort f) 5)) (<= 0 k) (< k (nops f))) (not (occv (nop f k)))) :pattern ((occv f) (nop f k)))))
(assert (forall ((f Int)) (! (=> (and (occv f) (>= (fsort f) 8)) (and (<= 0 (occvw f)) (< (occvw f) (plen f)) (= (posof (plit f (occvw f))) vx))) :pattern ((occv f)))))
(assert (forall ((f Int) (k Int)) (! (=> (and (not (occv f)) (>= (fsort f) 8) (<= 0 k) (< k (plen f))) (not (= (posof (plit f k)) vx))) :pattern ((occv f) (plit f k)))))
(declare-fun occl (Int) Bool)
(declare-fun occlw (Int) Int)
(assert (forall ((f Int)) (! (and (=> (= (fsort f) 2) (= (occl f) (= f lx))) (=> (<= (fsort f) 1) (not (occl f)))) :pattern ((occl f)))))
(assert (forall ((f Int)) (! (and (=> (= (fsort f) 3) (= (occl f) (occl (notop f)))) (=> (or (= (fsort f) 6) (= (fsort f) 7)) (= (occl f) (or (occl (bl f)) (occl (br f)))))) :pattern ((occl f)))))
(assert (forall ((f Int)) (! (=> (and (occl f) (>= (fsort f) 3) (<= (fsort f) 7)) (and (<= 0 (occlw f)) (< (occlw f) (nch f)) (occl (child f (occlw f))))) :pattern ((occl f)))))
(assert (forall ((f Int) (k Int)) (! (=> (and (not (occl f)) (>= (fsort f) 3) (<= (fsort f) 7) (<= 0 k) (< k (nch f))) (not (occl (child f k)))) :pattern ((occl f) (child f k)))))
(assert (forall ((f Int) (k Int)) (! (=> (and (not (occl f)) (or (= (fsort f) 4) (= (fsort f) 5)) (<= 0 k) (< k (nops f))) (not (occl (nop f k)))) :pattern ((occl f) (nop f k)))))
(assert (forall ((f Int)) (! (=> (and (occl f) (>= (fsort f) 8)) (and (<= 0 (occlw f)) (< (occlw f) (plen f)) (= (plit f (occlw f)) lx))) :pattern ((occl f)))))
(assert (forall ((f Int) (k Int)) (! (=> (and (not (occl f)) (>= (fsort f) 8) (<= 0 k) (< k (plen f))) (not (= (plit f k) lx))) :pattern ((occl f) (plit f k)))))

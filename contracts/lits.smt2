; no literal occurs together with its complement among the first n literals; j is the identifier of one of the first n literals
(needs sem)
(declare-fun nocomplf ((Array Int Int) Int Int) Bool)
(declare-fun nocompli ((Array Int Int) Int Int) Int)
(declare-fun nocomplj ((Array Int Int) Int Int) Int)
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (k Int) (j Int)) (! (=> (and (nocomplf a o n) (<= 0 k) (< k n) (<= 0 j) (< j n)) (not (= (elt_Int a o k) (negl (elt_Int a o j))))) :pattern ((nocomplf a o n) (elt_Int a o k) (elt_Int a o j)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int)) (! (let ((k (nocompli a o n)) (j (nocomplj a o n))) (=> (not (nocomplf a o n)) (and (<= 0 k) (< k n) (<= 0 j) (< j n) (= (elt_Int a o k) (negl (elt_Int a o j)))))) :pattern ((nocomplf a o n)))))
(define-fun nocompl ((a (Array Int Int)) (o Int) (n Int)) Bool (nocomplf a o n))
(declare-fun inlitf (Int (Array Int Int) Int Int) Bool)
(declare-fun inlitw (Int (Array Int Int) Int Int) Int)
(assert (forall ((i Int) (a (Array Int Int)) (o Int) (n Int) (k Int)) (! (=> (and (<= 0 k) (< k n) (= i (fid (elt_Int a o k)))) (inlitf i a o n)) :pattern ((inlitf i a o n) (elt_Int a o k)))))
(assert (forall ((i Int) (a (Array Int Int)) (o Int) (n Int)) (! (let ((w (inlitw i a o n))) (=> (inlitf i a o n) (and (<= 0 w) (< w n) (= i (fid (elt_Int a o w)))))) :pattern ((inlitf i a o n)))))
(define-fun inlits ((i Int) (a (Array Int Int)) (o Int) (l Int) (n Int)) Bool (inlitf i a o n))

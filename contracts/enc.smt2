; consequences of the encoding of formulas as numbers (contracts of ID, Sort, EncodeFormula)
(assert (forall ((f Int)) (! (and (<= 0 (fid f)) (< (fid f) 268435456) (= f (+ (* 268435456 (fsort f)) (fid f)))) :pattern ((fid f)))))
(declare-const faith Bool) ; every auxiliary variable has the value it stands for

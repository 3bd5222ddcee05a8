; encoding of formulas: sort in the upper 4 bits, identifier in the lower 28
(assert (forall ((f Int)) (! (= (fsort f) (div f 268435456)) :pattern ((fsort f)))))
(assert (forall ((f Int)) (! (= (fid f) (mod f 268435456)) :pattern ((fid f)))))
(assert (forall ((p Int) (q Int)) (! (=> (and (= (mod p 268435456) 0) (<= 0 q) (< q 268435456)) (= (bor p q) (+ p q))) :pattern ((bor p q)))))

; instances of the predicate schemes of the factory contracts
(assert (forall ((f Int)) (! (= (hera f) (isnnf f)) :pattern ((hera f)))))
(assert (forall ((f Int)) (! (= (hero f) (isnnf f)) :pattern ((hero f)))))
(assert (forall ((f Int)) (! (= (hera2 f) (iscnf f)) :pattern ((hera2 f)))))
(assert (forall ((f Int)) (! (= (hero2 f) (iscl f)) :pattern ((hero2 f)))))

; instances of the predicate schemes of the factory contracts
(assert (forall ((f Int)) (! (= (hera2 f) (iscnf f)) :pattern ((hera2 f)))))
(assert (forall ((f Int)) (! (= (hero f) (iscl f)) :pattern ((hero f)))))

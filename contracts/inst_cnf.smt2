; instances of the predicate schemes of the factory contracts
(assert (forall ((f Int)) (! (= (hera f) (iscnf f)) :pattern ((hera f)))))
(assert (forall ((f Int)) (! (= (hero f) (iscl f)) :pattern ((hero f)))))

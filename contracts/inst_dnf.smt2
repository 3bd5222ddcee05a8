; instances of the predicate schemes of the factory contracts
(assert (forall ((f Int)) (! (= (hera f) (istm f)) :pattern ((hera f)))))
(assert (forall ((f Int)) (! (= (hero f) (isdnf f)) :pattern ((hero f)))))

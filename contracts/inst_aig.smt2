; instances of the predicate schemes of the factory contracts
(assert (forall ((f Int)) (! (= (hera f) (isaig f)) :pattern ((hera f)))))

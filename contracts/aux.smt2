; auxiliary variables: running number of a variable created by NewAuxVar, the auxiliary literal a state assigns to a formula in negation
; normal form, the negation normal form of a formula, position of an operand in a list of sub-formulas
(declare-fun auxno (Int) Int)
(declare-fun auxlit (Int Int) Int)
(declare-fun nnfof (Int) Int)
(declare-fun subix (Int Int) Int)
(declare-fun wit (Int) Bool) ; the intended value of the auxiliary variable with a running number


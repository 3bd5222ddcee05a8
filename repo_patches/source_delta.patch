From adc77d0a989b97adc1aa233f53f7dcc2d0e31ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:50 +0000
Subject: [PATCH 01/42] fix: truncate instead of zeroing the literal vectors in
 the cardinality network encoding

---
 encoding/cc_cardinality_network.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/encoding/cc_cardinality_network.go b/encoding/cc_cardinality_network.go
index ac60705..e97e9ff 100644
--- a/encoding/cc_cardinality_network.go
+++ b/encoding/cc_cardinality_network.go
@@ -116,22 +116,22 @@ func directSorterValue(n int) int {
 
 func sort(m int, input, output *[]f.Literal, result Result, direction dir) {
 	if m == 0 {
-		clear(*output)
+		*output = (*output)[:0]
 		return
 	}
 	n := len(*input)
 	m2 := min(m, n)
 	if n == 0 {
-		clear(*output)
+		*output = (*output)[:0]
 		return
 	}
 	if n == 1 {
-		clear(*output)
+		*output = (*output)[:0]
 		*output = append(*output, (*input)[0])
 		return
 	}
 	if n == 2 {
-		clear(*output)
+		*output = (*output)[:0]
 		o1 := result.NewAuxVar(f.AuxCC).AsLiteral()
 		if m2 == 2 {
 			o2 := result.NewAuxVar(f.AuxCC).AsLiteral()
@@ -181,7 +181,7 @@ func comparator4(x1, x2, y1, y2 f.Literal, result Result, direction dir) {
 }
 
 func recursiveSorter(m int, input, output *[]f.Literal, result Result, direction dir) {
-	clear(*output)
+	*output = (*output)[:0]
 	n := len(*input)
 	l := n / 2
 	tmpLitsA := make([]f.Literal, l)
@@ -228,7 +228,7 @@ func counterSorter(k int, x, output *[]f.Literal, result Result, direction dir)
 			}
 		}
 	}
-	clear(*output)
+	*output = (*output)[:0]
 	for i := range k {
 		*output = append(*output, auxVars[n-1][i])
 	}
@@ -238,13 +238,13 @@ func directSorter(m int, input, output *[]f.Literal, result Result) {
 	n := len(*input)
 	bitmask := 1
 	clause := make([]f.Literal, 0)
-	clear(*output)
+	*output = (*output)[:0]
 	for range m {
 		*output = append(*output, result.NewAuxVar(f.AuxCC).AsLiteral())
 	}
 	for bitmask < int(math.Pow(2, float64(n))) {
 		count := 0
-		clear(clause)
+		clause = clause[:0]
 		for i := range n {
 			if ((1 << i) & bitmask) != 0 {
 				count++
@@ -264,7 +264,7 @@ func directSorter(m int, input, output *[]f.Literal, result Result) {
 
 func merge(m int, inputA, inputB, output *[]f.Literal, result Result, direction dir) {
 	if m == 0 {
-		clear(*output)
+		*output = (*output)[:0]
 		return
 	}
 	a := len(*inputA)
@@ -289,7 +289,7 @@ func merge(m int, inputA, inputB, output *[]f.Literal, result Result, direction
 func recursiveMerger(
 	c int, inputA *[]f.Literal, a int, inputB *[]f.Literal, b int, result Result, output *[]f.Literal, direction dir,
 ) {
-	clear(*output)
+	*output = (*output)[:0]
 	a2 := a
 	b2 := b
 	if a2 > c {
-- 
2.43.0


From eaf6f7c861130fb915766d1ae174684f45ef6d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:50 +0000
Subject: [PATCH 02/42] fix: encode at-most-k constraints with a negative bound
 as contradiction

---
 encoding/cc_encoding.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/encoding/cc_encoding.go b/encoding/cc_encoding.go
index 97bce7c..3261f80 100644
--- a/encoding/cc_encoding.go
+++ b/encoding/cc_encoding.go
@@ -178,6 +178,10 @@ func amk(result Result, config *Config, rhs int, vars []f.Variable) {
 	if rhs >= len(vars) { // there is no constraint
 		return
 	}
+	if rhs < 0 { // contradiction, e.g. a constraint < 0
+		result.AddClause()
+		return
+	}
 	if rhs == 0 { // no variable can be true
 		for _, v := range vars {
 			result.AddClause(v.Negate(result.Factory()))
@@ -268,6 +272,10 @@ func amkIncremental(
 	if rhs >= len(vars) {
 		return nil, errorx.BadInput("tautology AMK with rhs > len(vars)")
 	}
+	if rhs < 0 {
+		result.AddClause()
+		return nil, errorx.BadInput("contradiction AMK with rhs < 0")
+	}
 	if rhs == 0 { // no variable can be true
 		for _, variable := range vars {
 			result.AddClause(variable.Negate(result.Factory()))
-- 
2.43.0


From f9f234eab587ae1c3ffa15932b9c4170d7311ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:50 +0000
Subject: [PATCH 03/42] fix: restore the literals for the second half of a
 normalized equality constraint

---
 encoding/normalize.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/encoding/normalize.go b/encoding/normalize.go
index 7b39a4e..418772b 100644
--- a/encoding/normalize.go
+++ b/encoding/normalize.go
@@ -25,6 +25,7 @@ func Normalize(fac f.Factory, constraint f.Formula) f.Formula {
 		copy(normCs, coefficients)
 		normRhs = rhs
 		f1 := normalizeLE(fac, normPs, normCs, normRhs)
+		copy(normPs, literals) // normalizeLE reorders its arguments
 		normCs = make([]int, len(literals))
 		for i := range literals {
 			normCs[i] = -coefficients[i]
-- 
2.43.0


From 87b29eda0832f1e43298069f718852dc52e4564b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:52 +0000
Subject: [PATCH 04/42] fix: consider all bits of the right-hand side in the
 adder encoding

---
 encoding/pbc_adder.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/encoding/pbc_adder.go b/encoding/pbc_adder.go
index 1016377..d85cbea 100644
--- a/encoding/pbc_adder.go
+++ b/encoding/pbc_adder.go
@@ -1,6 +1,7 @@
 package encoding
 
 import (
+	"math/bits"
 	"slices"
 
 	f "github.com/booleworks/logicng-go/formula"
@@ -28,13 +29,7 @@ func encodePBCAdder(result Result, lits []f.Literal, coeffs []int, rhs int) {
 }
 
 func ldInt(x int) int {
-	ldreturn := 0
-	for i := range 31 {
-		if (x & (1 << i)) > 0 {
-			ldreturn = i + 1
-		}
-	}
-	return ldreturn
+	return bits.Len(uint(x))
 }
 
 func adderTree(result Result, buckets *[][]f.Literal, literals *[]f.Literal, nullLit f.Literal) {
-- 
2.43.0


From 658b0dd3c020ffdb3392e768574c27b78c98b63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 05/42] fix: terminate the recursive AMO encodings for small
 group sizes

---
 encoding/amo.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/amo.go b/encoding/amo.go
index 1c4de42..f5e5703 100644
--- a/encoding/amo.go
+++ b/encoding/amo.go
@@ -39,6 +39,7 @@ func amoProduct(result Result, recursiveBound int, vars []f.Variable) {
 	if recursiveBound == 0 {
 		recursiveBound = 20
 	}
+	recursiveBound = max(recursiveBound, 2) // smaller bounds are never reached
 	fac := result.Factory()
 	n := len(vars)
 	p := int(math.Ceil(math.Sqrt(float64(n))))
@@ -94,6 +95,7 @@ func amoNested(result Result, groupSize int, vars []f.Literal) {
 	if groupSize == 0 {
 		groupSize = 4
 	}
+	groupSize = max(groupSize, 3) // smaller groups are never reached
 	fac := result.Factory()
 	if len(vars) <= groupSize {
 		for i := 0; i+1 < len(vars); i++ {
@@ -123,6 +125,7 @@ func amoCommander(result Result, groupSize int, vars []f.Literal) {
 	if groupSize == 0 {
 		groupSize = 3
 	}
+	groupSize = max(groupSize, 2) // smaller groups do not reduce the literals
 	fac := result.Factory()
 	isExactlyOne := false
 	for len(vars) > groupSize {
-- 
2.43.0


From 3c253fc51a4ef8b518f3743ddd691749ecf03c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 06/42] fix: do not reorder caller-owned literals and keep
 assumptions aligned with their propositions

---
 sat/call.go   | 2 +-
 sat/solver.go | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/sat/call.go b/sat/call.go
index b496e1e..0accaa3 100644
--- a/sat/call.go
+++ b/sat/call.go
@@ -237,7 +237,7 @@ func initCall(solver *Solver, hdl handler.Handler, addProps []f.Proposition) *ca
 	}
 	adds := splitPropsIntoLitsAndFormulas(addProps)
 	if len(adds.lits) > 0 {
-		c.solver.core.assumptions = c.solver.generateClauseVector(adds.lits)
+		c.solver.core.assumptions = c.solver.generateLiteralVector(adds.lits)
 		c.solver.core.assumptionProps = adds.propsForLits
 	}
 	if len(adds.props) > 0 {
diff --git a/sat/solver.go b/sat/solver.go
index a3f64ae..b8c1d2b 100644
--- a/sat/solver.go
+++ b/sat/solver.go
@@ -146,8 +146,13 @@ func (s *Solver) addClause(formula f.Formula, proposition f.Proposition) {
 }
 
 func (s *Solver) generateClauseVector(literals []f.Literal) []int32 {
+	sorted := slices.Clone(literals) // the literals can be owned by the factory or the caller
+	slices.Sort(sorted)
+	return s.generateLiteralVector(sorted)
+}
+
+func (s *Solver) generateLiteralVector(literals []f.Literal) []int32 {
 	clause := make([]int32, len(literals))
-	slices.Sort(literals)
 	for i, lit := range literals {
 		_, phase, _ := s.fac.LitNamePhase(lit)
 		index := s.getOrAddIndex(lit)
-- 
2.43.0


From afd076c4e9dbec724419bc7db7e8bd64e50252a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 07/42] fix: report only assigned variables as units in
 FormulasOnSolver

---
 sat/formulas_on_solver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sat/formulas_on_solver.go b/sat/formulas_on_solver.go
index a75dda9..ecde169 100644
--- a/sat/formulas_on_solver.go
+++ b/sat/formulas_on_solver.go
@@ -37,7 +37,7 @@ func (s *Solver) FormulasOnSolver() []f.Formula {
 	}
 	for i := 0; i < len(s.core.vars); i++ {
 		variable := s.core.vars[i]
-		if variable.level == 0 {
+		if variable.level == 0 && variable.assignment != f.TristateUndef {
 			formulas.Add(s.fac.Literal(s.core.idx2name[int32(i)], variable.assignment == f.TristateTrue))
 		}
 	}
-- 
2.43.0


From 52dd5fe55ebf9e4bc7a6c56d1ac3fe4d8f09c29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 08/42] fix: allow more decision levels than variables in the
 LBD computation

---
 sat/core.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sat/core.go b/sat/core.go
index df4873e..c54d3b9 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -1016,6 +1016,9 @@ func (m *CoreSolver) computeLBD(lits *[]int32) int {
 	m.myflag++
 	for i := 0; i < len(*lits); i++ {
 		l := m.v((*lits)[i]).level
+		for l >= len(m.permDiff) { // assumptions can open more decision levels than there are variables
+			m.permDiff = append(m.permDiff, 0)
+		}
 		if m.permDiff[l] != m.myflag {
 			m.permDiff[l] = m.myflag
 			nbLevels++
-- 
2.43.0


From 3617d8896df24838f24837f99ec803121f781ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 09/42] fix: support assumptions without propositions on proof
 tracing solvers

---
 sat/core.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sat/core.go b/sat/core.go
index c54d3b9..7f06cf5 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -501,7 +501,7 @@ func (m *CoreSolver) search(hdl handler.Handler) (f.Tristate, handler.State) {
 				} else if m.value(p) == f.TristateFalse {
 					if m.config.ProofGeneration {
 						drupLit := (Vari(p) + 1) * (-2*signAsInt(p) + 1)
-						pi := proofInformation{[]int32{drupLit}, m.assumptionProps[m.decisionLevel()]}
+						pi := proofInformation{[]int32{drupLit}, m.assumptionProp(m.decisionLevel())}
 						m.pgOriginalClauses = append(m.pgOriginalClauses, pi)
 					}
 					m.analyzeFinal(Not(p))
@@ -509,7 +509,7 @@ func (m *CoreSolver) search(hdl handler.Handler) (f.Tristate, handler.State) {
 				} else {
 					if m.config.ProofGeneration {
 						drupLit := (Vari(p) + 1) * (-2*signAsInt(p) + 1)
-						pi := proofInformation{[]int32{drupLit}, m.assumptionProps[m.decisionLevel()]}
+						pi := proofInformation{[]int32{drupLit}, m.assumptionProp(m.decisionLevel())}
 						m.pgOriginalClauses = append(m.pgOriginalClauses, pi)
 					}
 					next = p
@@ -528,6 +528,13 @@ func (m *CoreSolver) search(hdl handler.Handler) (f.Tristate, handler.State) {
 	}
 }
 
+func (m *CoreSolver) assumptionProp(level int) f.Proposition {
+	if level < len(m.assumptionProps) {
+		return m.assumptionProps[level]
+	}
+	return nil // assumptions without propositions, e.g. in a backbone computation
+}
+
 func (m *CoreSolver) saveState() *SolverState {
 	state := make([]int, 6)
 	if m.ok {
-- 
2.43.0


From ae00f95df2fe6564c1feb31751e69e6e6d0509ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 10/42] fix: close the proof trace before computing an unsat
 core

---
 sat/unsat_core.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sat/unsat_core.go b/sat/unsat_core.go
index 627c096..b61d02b 100644
--- a/sat/unsat_core.go
+++ b/sat/unsat_core.go
@@ -28,7 +28,9 @@ func (s *Solver) computeUnsatCore() *e.UnsatCore {
 		return e.NewUnsatCore([]f.Proposition{emptyClause}, true)
 	}
 
-	result := drupCompute(&clauses, &s.core.pgProof)
+	// the trace of a call with assumptions is not closed by the solver
+	proof := append(slices.Clip(s.core.pgProof), []int32{0})
+	result := drupCompute(&clauses, &proof)
 
 	if result.trivialUnsat {
 		return handleTrivialCase(s)
-- 
2.43.0


From a4a3494ddb18ee811107eb45c62918969909e106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 11/42] fix: do not use untraceable at-most clauses on proof
 tracing solvers

---
 sat/solver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sat/solver.go b/sat/solver.go
index b8c1d2b..86aaa66 100644
--- a/sat/solver.go
+++ b/sat/solver.go
@@ -81,7 +81,8 @@ func (s *Solver) AddProposition(propositions ...f.Proposition) {
 
 func (s *Solver) addWithProp(formula f.Formula, proposition f.Proposition) {
 	if formula.Sort() == f.SortCC {
-		if s.config.UseAtMostClauses {
+		// at-most clauses are not part of the proof trace
+		if s.config.UseAtMostClauses && !s.config.ProofGeneration {
 			comparator, rhs, literals, _, _ := s.fac.PBCOps(formula)
 			if comparator == f.LE {
 				s.core.addAtMost(s.generateClauseVector(literals), rhs)
-- 
2.43.0


From 5ecac5a54e74d81a9f00595d1a36742307d2fbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:02 +0000
Subject: [PATCH 12/42] fix: return the cancelation state of the search and
 keep the conflict on level 0

---
 sat/core.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sat/core.go b/sat/core.go
index 7f06cf5..f0f2647 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -394,7 +394,11 @@ func (m *CoreSolver) Solve(hdl handler.Handler) (f.Tristate, handler.State) {
 	}
 	status := f.TristateUndef
 	for status == f.TristateUndef {
-		status, _ = m.search(hdl)
+		var state handler.State
+		if status, state = m.search(hdl); !state.Success {
+			m.cancelUntil(0)
+			return f.TristateFalse, state
+		}
 	}
 
 	if m.config.ProofGeneration && len(m.assumptions) == 0 {
@@ -437,6 +441,9 @@ func (m *CoreSolver) search(hdl handler.Handler) (f.Tristate, handler.State) {
 		confl := m.propagate()
 		if confl != nil {
 			if e := event.SatConflictDetected; !hdl.ShouldResume(e) {
+				if m.decisionLevel() == 0 {
+					m.ok = false
+				}
 				return f.TristateUndef, handler.Cancelation(e)
 			}
 			m.conflicts++
-- 
2.43.0


From 0a7c35fac6044c3c26edf82888fd4a74034a8ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:02 +0000
Subject: [PATCH 13/42] fix: examine all true literals of at-most reasons in
 basic clause minimization

---
 sat/core.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sat/core.go b/sat/core.go
index f0f2647..dd1d06a 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -1081,7 +1081,13 @@ func (m *CoreSolver) simplifyClause(outLearnt *[]int32) {
 				} else {
 					k = 1
 				}
+				if c.isAtMost {
+					k = 0
+				}
 				for ; k < c.size(); k++ {
+					if c.isAtMost && m.value(c.get(k)) != f.TristateTrue {
+						continue
+					}
 					if !m.seen[Vari(c.get(k))] && m.v(c.get(k)).level > 0 {
 						(*outLearnt)[j] = (*outLearnt)[i]
 						j++
-- 
2.43.0


From a716516fa4971f1734fcce10d6c9b264b140cf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 14/42] fix: do not cache canceled results and restore the
 state on canceled MaxSAT calls

---
 maxsat/algorithm.go | 4 ++--
 maxsat/solver.go    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/maxsat/algorithm.go b/maxsat/algorithm.go
index ddc457b..8aadbd0 100644
--- a/maxsat/algorithm.go
+++ b/maxsat/algorithm.go
@@ -104,11 +104,11 @@ func (m *maxSatAlgorithm) innerSearch(
 	}
 	stateBeforeSolving := m.saveState()
 	result, state := search()
+	_ = m.loadState(stateBeforeSolving)
+	m.hdl = nil
 	if e := event.MaxSatCallFinished; !hdl.ShouldResume(e) {
 		return Result{}, handler.Cancelation(e)
 	}
-	_ = m.loadState(stateBeforeSolving)
-	m.hdl = nil
 	return result, state
 }
 
diff --git a/maxsat/solver.go b/maxsat/solver.go
index 2f5e80c..852e759 100644
--- a/maxsat/solver.go
+++ b/maxsat/solver.go
@@ -231,7 +231,7 @@ func (m *Solver) SolveWithHandler(hdl handler.Handler) (Result, handler.State) {
 	}
 	var state handler.State
 	m.result, state = m.solver.search(hdl)
-	m.ok = true
+	m.ok = state.Success
 	return m.result, state
 }
 
-- 
2.43.0


From 0ced3f70680ac757531452ea3c2beb253332facc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:03 +0000
Subject: [PATCH 15/42] fix: report canceled SAT calls and canceled recursion
 in the model iteration

---
 model/iter/iteration.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/model/iter/iteration.go b/model/iter/iteration.go
index dc06f08..e42dc4f 100644
--- a/model/iter/iteration.go
+++ b/model/iter/iteration.go
@@ -76,6 +76,10 @@ func (m *ModelIterator[R]) iterRecursive(
 	iterFinished, iterState := iterate(collector, solver, iterVars, m.additionalVars, maxModelsForIter, m.hdl)
 	if !iterState.Success {
 		collector.Commit(m.hdl)
+		err := solver.LoadState(state)
+		if err != nil {
+			panic(err)
+		}
 		return iterState
 	}
 	if !iterFinished {
@@ -127,7 +131,16 @@ func (m *ModelIterator[R]) iterRecursive(
 			recursiveSplitAssignment := make([]f.Literal, newSplitAssignment.Size())
 			copy(recursiveSplitAssignment, newSplitAssignment.Literals)
 			recursiveSplitAssignment = append(recursiveSplitAssignment, splitModel...)
-			m.iterRecursive(collector, solver, recursiveSplitAssignment, iterVars, recursiveSplitVars, recursionDepth+1)
+			recState := m.iterRecursive(
+				collector, solver, recursiveSplitAssignment, iterVars, recursiveSplitVars, recursionDepth+1,
+			)
+			if !recState.Success {
+				err := solver.LoadState(state)
+				if err != nil {
+					panic(err)
+				}
+				return recState
+			}
 			if s := collector.Commit(m.hdl); !s.Success {
 				err := solver.LoadState(state)
 				if err != nil {
@@ -166,7 +179,11 @@ func iterate[R any](
 
 	foundModels := 0
 	state := handler.Success()
-	for iterSATCall(solver, hdl) {
+	for {
+		var isSat bool
+		if isSat, state = iterSATCall(solver, hdl); !isSat {
+			break
+		}
 		modelFromSolver := solver.CoreSolver().Model()
 		foundModels++
 		if foundModels >= maxModels {
@@ -194,9 +211,9 @@ func iterate[R any](
 	return true, succ
 }
 
-func iterSATCall(solver *sat.Solver, hdl handler.Handler) bool {
+func iterSATCall(solver *sat.Solver, hdl handler.Handler) (bool, handler.State) {
 	sResult := solver.Call(sat.Params().Handler(hdl))
-	return sResult.OK() && sResult.Sat()
+	return sResult.OK() && sResult.Sat(), sResult.State()
 }
 
 func generateBlockingClause(modelFromSolver []bool, relevantVars []int32) []int32 {
-- 
2.43.0


From f79eac7c4d832f37d04e8d5177c0bb0969dc859e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:30 +0000
Subject: [PATCH 16/42] fix: handle additional variables which are also
 enumerated or unknown to the solver

---
 model/enum/enumeration.go | 2 +-
 model/iter/iteration.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/model/enum/enumeration.go b/model/enum/enumeration.go
index 9ea035d..523e570 100644
--- a/model/enum/enumeration.go
+++ b/model/enum/enumeration.go
@@ -126,7 +126,7 @@ func (c *modelEnumCollector) Rollback(hdl handler.Handler) handler.State {
 func (c *modelEnumCollector) RollbackAndReturnModels(_ *sat.Solver, hdl handler.Handler) ([]*model.Model, handler.State) {
 	modelsToReturn := make([]*model.Model, len(c.uncommittedModels))
 	for i, lits := range c.uncommittedModels {
-		modelsToReturn[i] = model.New(lits...)
+		modelsToReturn[i] = model.New(lits[c.additionalVariablesNotOnSolver.Size():]...)
 	}
 	state := c.Rollback(hdl)
 	return modelsToReturn, state
diff --git a/model/iter/iteration.go b/model/iter/iteration.go
index e42dc4f..3fc9ba1 100644
--- a/model/iter/iteration.go
+++ b/model/iter/iteration.go
@@ -51,7 +51,7 @@ func (m *ModelIterator[R]) Iterate(
 		return emptyElement, handler.Cancelation(e)
 	}
 	knownVariables := solver.CoreSolver().KnownVariables(solver.Factory())
-	additionalVarsNotOnSolver := difference(m.additionalVars, knownVariables)
+	additionalVarsNotOnSolver := difference(difference(m.additionalVars, m.vars), knownVariables)
 	dontCareVariablesNotOnSolver := difference(m.vars, knownVariables)
 	collector := newCollector(solver.Factory(), knownVariables, dontCareVariablesNotOnSolver, additionalVarsNotOnSolver)
 	initialSplitVars := f.NewMutableVarSet()
-- 
2.43.0


From e952c15bc3b62cd8e8cedc88fa9b09b7ef0c9909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:12 +0000
Subject: [PATCH 17/42] fix: include literals unknown to the solver in
 optimization models

---
 sat/optimizer_function.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/sat/optimizer_function.go b/sat/optimizer_function.go
index 6577865..ba75e11 100644
--- a/sat/optimizer_function.go
+++ b/sat/optimizer_function.go
@@ -67,15 +67,7 @@ func (s *Solver) optimize(
 		variable := lit.Variable()
 		resultModelVariables.Add(variable)
 	}
-	relevantIndices := make([]int32, 0, resultModelVariables.Size())
-	for _, variable := range resultModelVariables.Content() {
-		name, _ := s.fac.VarName(variable)
-		idx := s.core.IdxForName(name)
-		if idx != -1 {
-			relevantIndices = append(relevantIndices, idx)
-		}
-	}
-	mdl, state := s.maximize(maximize, literals, relevantIndices, hdl)
+	mdl, state := s.maximize(maximize, literals, resultModelVariables, hdl)
 	_ = s.LoadState(initialState)
 	return mdl, state
 }
@@ -83,7 +75,7 @@ func (s *Solver) optimize(
 func (s *Solver) maximize(
 	maximize bool,
 	literals []f.Literal,
-	relevantIndices []int32,
+	resultModelVariables *f.MutableVarSet,
 	hdl handler.Handler,
 ) (*model.Model, handler.State) {
 	if e := event.OptimizationFunctionStarted; !hdl.ShouldResume(e) {
@@ -110,6 +102,15 @@ func (s *Solver) maximize(
 		}
 	}
 
+	relevantIndices := make([]int32, 0, resultModelVariables.Size())
+	for _, variable := range resultModelVariables.Content() {
+		name, _ := s.fac.VarName(variable)
+		idx := s.core.IdxForName(name)
+		if idx != -1 {
+			relevantIndices = append(relevantIndices, idx)
+		}
+	}
+
 	params := Params().Handler(hdl).WithModel(selectors)
 	sResult := s.Call(params)
 	if sResult.Canceled() {
-- 
2.43.0


From 3d18d324f29cd77e63084b311645a5fa43df7c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:49 +0000
Subject: [PATCH 18/42] fix: split only on enumeration variables known to the
 solver

---
 model/iter/iteration.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/model/iter/iteration.go b/model/iter/iteration.go
index 3fc9ba1..2925f94 100644
--- a/model/iter/iteration.go
+++ b/model/iter/iteration.go
@@ -54,11 +54,14 @@ func (m *ModelIterator[R]) Iterate(
 	additionalVarsNotOnSolver := difference(difference(m.additionalVars, m.vars), knownVariables)
 	dontCareVariablesNotOnSolver := difference(m.vars, knownVariables)
 	collector := newCollector(solver.Factory(), knownVariables, dontCareVariablesNotOnSolver, additionalVarsNotOnSolver)
+	iterVars := difference(m.vars, dontCareVariablesNotOnSolver)
 	initialSplitVars := f.NewMutableVarSet()
-	if vars := m.strategy.SplitVarsForRecursionDepth(m.vars, solver, 0); vars.Size() > 0 {
-		initialSplitVars.AddAll(vars)
+	for _, v := range m.strategy.SplitVarsForRecursionDepth(iterVars, solver, 0).Content() {
+		if iterVars.Contains(v) {
+			initialSplitVars.Add(v)
+		}
 	}
-	state := m.iterRecursive(collector, solver, []f.Literal{}, m.vars, initialSplitVars.AsImmutable(), 0)
+	state := m.iterRecursive(collector, solver, []f.Literal{}, iterVars, initialSplitVars.AsImmutable(), 0)
 	return collector.Result(), state
 }
 
-- 
2.43.0


From 29dca350971293e8241577fa555c0312e418561a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 19/42] fix: remove tautological clauses before compiling a
 DNNF

---
 dnnf/compiler.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/dnnf/compiler.go b/dnnf/compiler.go
index 7f0aef4..e70b51c 100644
--- a/dnnf/compiler.go
+++ b/dnnf/compiler.go
@@ -49,11 +49,34 @@ type compiler struct {
 }
 
 func simplifyFormula(fac f.Factory, formula f.Formula) f.Formula {
-	simp := simplification.PropagateBackbone(fac, formula)
+	simp := simplification.PropagateBackbone(fac, removeTautologies(fac, formula))
 	simp, _ = simplification.CNFSubsumption(fac, simp) // formula is in cnf - no error possible
 	return simp
 }
 
+// removeTautologies removes all clauses containing complementary literals.
+// Such clauses can only exist on a formula factory which conserves variables.
+func removeTautologies(fac f.Factory, cnf f.Formula) f.Formula {
+	switch cnf.Sort() {
+	case f.SortAnd:
+		clauses := make([]f.Formula, 0, len(fac.Operands(cnf)))
+		for _, clause := range fac.Operands(cnf) {
+			clauses = append(clauses, removeTautologies(fac, clause))
+		}
+		return fac.And(clauses...)
+	case f.SortOr:
+		literals := f.NewMutableLitSet()
+		for _, op := range fac.Operands(cnf) {
+			literal := f.Literal(op)
+			if literals.Contains(literal.Negate(fac)) {
+				return fac.Verum()
+			}
+			literals.Add(literal)
+		}
+	}
+	return cnf
+}
+
 func newCompiler(fac f.Factory, formula f.Formula) *compiler {
 	numVars := f.Variables(fac, formula).Size()
 	units, nonUnits := initializeClauses(fac, formula)
-- 
2.43.0


From ce351ff700b94e4aefc4ef30cb49c9f501224ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:48 +0000
Subject: [PATCH 20/42] fix: do not modify cached model and path counts of a
 BDD

---
 bdd/operation.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/bdd/operation.go b/bdd/operation.go
index c292588..dae7592 100644
--- a/bdd/operation.go
+++ b/bdd/operation.go
@@ -181,9 +181,7 @@ func (k *Kernel) allUnsatRec(r int32, models *[][]byte, allunsatProfile *[]byte)
 func (k *Kernel) satCount(r int32) *big.Int {
 	size, i, e := big.NewInt(0), big.NewInt(2), big.NewInt(int64(k.level(r)))
 	size.Exp(i, e, nil)
-	satcount := k.satCountRec(r, cacheidSatcou)
-	satcount.Mul(satcount, size)
-	return satcount
+	return new(big.Int).Mul(k.satCountRec(r, cacheidSatcou), size)
 }
 
 func (k *Kernel) satCountRec(root, miscid int32) *big.Int {
@@ -210,7 +208,7 @@ func (k *Kernel) satCountRec(root, miscid int32) *big.Int {
 }
 
 func (k *Kernel) pathCountOne(r int32) *big.Int {
-	return k.pathCountRecOne(r, cacheidPathcouOne)
+	return new(big.Int).Set(k.pathCountRecOne(r, cacheidPathcouOne))
 }
 
 func (k *Kernel) pathCountRecOne(r, miscid int32) *big.Int {
@@ -226,7 +224,7 @@ func (k *Kernel) pathCountRecOne(r, miscid int32) *big.Int {
 		return entry.bdres
 	}
 	count := k.pathCountRecOne(k.low(r), miscid)
-	size = count.Add(count, k.pathCountRecOne(k.high(r), miscid))
+	size = new(big.Int).Add(count, k.pathCountRecOne(k.high(r), miscid))
 	entry.a = r
 	entry.c = miscid
 	entry.bdres = size
@@ -234,7 +232,7 @@ func (k *Kernel) pathCountRecOne(r, miscid int32) *big.Int {
 }
 
 func (k *Kernel) pathCountZero(r int32) *big.Int {
-	return k.pathCountRecZero(r, cacheidPathcouZero)
+	return new(big.Int).Set(k.pathCountRecZero(r, cacheidPathcouZero))
 }
 
 func (k *Kernel) pathCountRecZero(r, miscid int32) *big.Int {
@@ -250,7 +248,7 @@ func (k *Kernel) pathCountRecZero(r, miscid int32) *big.Int {
 		return entry.bdres
 	}
 	count := k.pathCountRecZero(k.low(r), miscid)
-	size = count.Add(count, k.pathCountRecZero(k.high(r), miscid))
+	size = new(big.Int).Add(count, k.pathCountRecZero(k.high(r), miscid))
 	entry.a = r
 	entry.c = miscid
 	entry.bdres = size
-- 
2.43.0


From 94f89f2c5ba24987afaff9be1267201cd1cc3837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:17 +0000
Subject: [PATCH 21/42] fix: protect the results of BDD restriction and
 quantification from garbage collection

---
 bdd/bdd.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/bdd/bdd.go b/bdd/bdd.go
index ca2d54a..3c81bd6 100644
--- a/bdd/bdd.go
+++ b/bdd/bdd.go
@@ -337,21 +337,27 @@ func (b *BDD) NumberOfCNFClauses() *big.Int {
 // the respective variables anymore.
 func (b *BDD) Restrict(restriction ...f.Literal) *BDD {
 	resBdd := CompileLiterals(restriction, b.Kernel)
-	return newBdd(b.Kernel.restrict(b.Index, resBdd.Index), b.Kernel)
+	bdd, _ := b.Kernel.addRef(b.Kernel.restrict(b.Index, resBdd.Index), handler.NopHandler)
+	b.Kernel.delRef(resBdd.Index)
+	return newBdd(bdd, b.Kernel)
 }
 
 // Exists performs existential quantifier elimination for a given set of
 // variables and return the resulting BDD.
 func (b *BDD) Exists(variable ...f.Variable) *BDD {
 	resBdd := CompileLiterals(f.VariablesAsLiterals(variable), b.Kernel)
-	return newBdd(b.Kernel.exists(b.Index, resBdd.Index), b.Kernel)
+	bdd, _ := b.Kernel.addRef(b.Kernel.exists(b.Index, resBdd.Index), handler.NopHandler)
+	b.Kernel.delRef(resBdd.Index)
+	return newBdd(bdd, b.Kernel)
 }
 
 // ForAll performs universal quantifier elimination for a given set of
 // variables and returns the resulting BDD.
 func (b *BDD) ForAll(variable ...f.Variable) *BDD {
 	resBdd := CompileLiterals(f.VariablesAsLiterals(variable), b.Kernel)
-	return newBdd(b.Kernel.forAll(b.Index, resBdd.Index), b.Kernel)
+	bdd, _ := b.Kernel.addRef(b.Kernel.forAll(b.Index, resBdd.Index), handler.NopHandler)
+	b.Kernel.delRef(resBdd.Index)
+	return newBdd(bdd, b.Kernel)
 }
 
 // Model returns an arbitrary model of the BDD.  An error is returned if the
-- 
2.43.0


From 74b22e11d706f0e19ef55972e0073ba4bfff25e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:47 +0000
Subject: [PATCH 22/42] fix: respect variable reordering during negation,
 restriction and quantification

---
 bdd/construction.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/bdd/construction.go b/bdd/construction.go
index ff06d3f..1f17031 100644
--- a/bdd/construction.go
+++ b/bdd/construction.go
@@ -74,9 +74,15 @@ func (k *Kernel) notRec(r int32) (int32, bool) {
 	if entry.a == r && entry.c == bddNot.v {
 		return entry.res, false
 	}
-	node, _ := k.notRec(k.low(r))
+	node, reorder := k.notRec(k.low(r))
+	if reorder {
+		return -1, true
+	}
 	k.pushRef(node)
-	node, _ = k.notRec(k.high(r))
+	node, reorder = k.notRec(k.high(r))
+	if reorder {
+		return -1, true
+	}
 	k.pushRef(node)
 	res, reorder := k.makeNode(k.level(r), k.readRef(2), k.readRef(1))
 	if reorder {
@@ -93,8 +99,8 @@ func (k *Kernel) restrict(r, variable int32) int32 {
 	if variable < 2 {
 		return r
 	}
-	k.varset2svartable(variable)
 	return k.doWithPotentialReordering(func() (int32, bool) {
+		k.varset2svartable(variable)
 		return k.restrictRec(r, (variable<<3)|cacheidRestrict)
 	})
 }
@@ -145,8 +151,8 @@ func (k *Kernel) exists(r, variable int32) int32 {
 	if variable < 2 {
 		return r
 	}
-	k.varset2vartable(variable)
 	return k.doWithPotentialReordering(func() (int32, bool) {
+		k.varset2vartable(variable)
 		return k.quantRec(r, bddOr, variable<<3)
 	})
 }
@@ -155,8 +161,8 @@ func (k *Kernel) forAll(r, variable int32) int32 {
 	if variable < 2 {
 		return r
 	}
-	k.varset2vartable(variable)
 	return k.doWithPotentialReordering(func() (int32, bool) {
+		k.varset2vartable(variable)
 		return k.quantRec(r, bddAnd, (variable<<3)|cacheidForall)
 	})
 }
-- 
2.43.0


From 5a804fa973ec491fbe50ea06c103087b2e0b04a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:05 +0000
Subject: [PATCH 23/42] fix: reject trailing input and do not process trees of
 malformed input

---
 parser/propositional_parser.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser/propositional_parser.go b/parser/propositional_parser.go
index 65c873c..e7b6f26 100644
--- a/parser/propositional_parser.go
+++ b/parser/propositional_parser.go
@@ -52,11 +52,16 @@ func (p *PropositionalParser) parse(data string) (f.Formula, error) {
 	lngParser := NewLogicNGPropositionalParser(stream)
 	lngParser.RemoveErrorListeners()
 	lngParser.AddErrorListener(errorListener)
-	listener := &formulaListener{fac: p.fac}
-	antlr.ParseTreeWalkerDefault.Walk(listener, lngParser.Formula())
+	tree := lngParser.Formula()
+	if !errorListener.err && stream.LA(1) != antlr.TokenEOF {
+		token := stream.LT(1)
+		lngParser.NotifyErrorListeners(fmt.Sprintf("unexpected input '%s'", token.GetText()), token, nil)
+	}
 	if errorListener.err {
 		return p.fac.Falsum(), errorx.BadInput("%s", errorListener.message)
 	}
+	listener := &formulaListener{fac: p.fac}
+	antlr.ParseTreeWalkerDefault.Walk(listener, tree)
 	return listener.formula(), nil
 }
 
-- 
2.43.0


From 85969914422a32d6bfa0720c6c9c6efb025f187f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:06 +0000
Subject: [PATCH 24/42] fix: read numbers as literals in linear sums and as
 coefficients only in front of a literal

---
 parser/propositional_parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/propositional_parser.go b/parser/propositional_parser.go
index e7b6f26..24c04d1 100644
--- a/parser/propositional_parser.go
+++ b/parser/propositional_parser.go
@@ -221,13 +221,13 @@ func (l *formulaListener) ExitMul(c *MulContext) {
 	case c.LITERAL() != nil && len(c.AllNUMBER()) == 0:
 		lit = c.LITERAL().GetText()
 	case c.LITERAL() == nil && len(c.AllNUMBER()) == 1:
-		lit = c.LITERAL().GetText()
+		lit = c.NUMBER(0).GetText()
 	case c.LITERAL() != nil && len(c.AllNUMBER()) == 1:
 		lit = c.LITERAL().GetText()
 		coeff, _ = strconv.Atoi(c.NUMBER(0).GetText())
 	case c.LITERAL() == nil && len(c.AllNUMBER()) == 2:
-		lit = c.NUMBER(0).GetText()
-		coeff, _ = strconv.Atoi(c.NUMBER(1).GetText())
+		lit = c.NUMBER(1).GetText()
+		coeff, _ = strconv.Atoi(c.NUMBER(0).GetText())
 	}
 	name, phase := parseLiteral(lit)
 	literal := l.fac.Lit(name, phase)
-- 
2.43.0


From 1fadeb41baafb50819272eda6ad5ae875b7babb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:07 +0000
Subject: [PATCH 25/42] fix: reject numbers outside the integer range in the
 parser

---
 parser/propositional_parser.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/parser/propositional_parser.go b/parser/propositional_parser.go
index 24c04d1..04bf46c 100644
--- a/parser/propositional_parser.go
+++ b/parser/propositional_parser.go
@@ -62,6 +62,9 @@ func (p *PropositionalParser) parse(data string) (f.Formula, error) {
 	}
 	listener := &formulaListener{fac: p.fac}
 	antlr.ParseTreeWalkerDefault.Walk(listener, tree)
+	if listener.err != nil {
+		return p.fac.Falsum(), listener.err
+	}
 	return listener.formula(), nil
 }
 
@@ -92,6 +95,7 @@ type formulaListener struct {
 	fac   f.Factory
 	stack []stackFormula
 	pbc   *pbc
+	err   error
 }
 
 type pbc struct {
@@ -214,6 +218,14 @@ func (l *formulaListener) EnterAdd(_ *AddContext) {
 	l.pbc.coefficients = make([]int, 0)
 }
 
+func (l *formulaListener) parseNumber(text string) int {
+	number, err := strconv.Atoi(text)
+	if err != nil && l.err == nil {
+		l.err = errorx.BadInput("illegal number: %s", text)
+	}
+	return number
+}
+
 func (l *formulaListener) ExitMul(c *MulContext) {
 	coeff := 1
 	var lit string
@@ -224,10 +236,10 @@ func (l *formulaListener) ExitMul(c *MulContext) {
 		lit = c.NUMBER(0).GetText()
 	case c.LITERAL() != nil && len(c.AllNUMBER()) == 1:
 		lit = c.LITERAL().GetText()
-		coeff, _ = strconv.Atoi(c.NUMBER(0).GetText())
+		coeff = l.parseNumber(c.NUMBER(0).GetText())
 	case c.LITERAL() == nil && len(c.AllNUMBER()) == 2:
 		lit = c.NUMBER(1).GetText()
-		coeff, _ = strconv.Atoi(c.NUMBER(0).GetText())
+		coeff = l.parseNumber(c.NUMBER(0).GetText())
 	}
 	name, phase := parseLiteral(lit)
 	literal := l.fac.Lit(name, phase)
@@ -240,7 +252,7 @@ func (l *formulaListener) EnterComparison(_ *ComparisonContext) {
 }
 
 func (l *formulaListener) ExitComparison(c *ComparisonContext) {
-	l.pbc.rhs, _ = strconv.Atoi(c.NUMBER().GetText())
+	l.pbc.rhs = l.parseNumber(c.NUMBER().GetText())
 	l.pbc.comparator = l.parseComparator(c)
 	l.pushFormula(l.fac.PBC(l.pbc.comparator, l.pbc.rhs, l.pbc.literals, l.pbc.coefficients))
 }
-- 
2.43.0


From d6c99e091c860315a4d197e2bfbcda3ef8b4d8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:27 +0000
Subject: [PATCH 26/42] fix: return an error instead of panicking when reading
 malformed formulas

---
 io/formula_reader.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/io/formula_reader.go b/io/formula_reader.go
index c2b4820..8538751 100644
--- a/io/formula_reader.go
+++ b/io/formula_reader.go
@@ -54,7 +54,11 @@ func ReadFormulasFile(fac f.Factory, file *os.File) ([]f.Formula, error) {
 	scanner.Buffer(buf, 1024*1024)
 	for scanner.Scan() {
 		line := scanner.Text()
-		ops = append(ops, parser.ParseUnsafe(line))
+		formula, err := parser.Parse(line)
+		if err != nil {
+			return nil, err
+		}
+		ops = append(ops, formula)
 	}
 	if err := scanner.Err(); err != nil {
 		return nil, err
-- 
2.43.0


From 9f1e31d3f226d777aed4613e5b60649df2357234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:40 +0000
Subject: [PATCH 27/42] fix: accept any white space and empty lines in MaxSAT
 files

---
 maxsat/reader.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/maxsat/reader.go b/maxsat/reader.go
index b17fa1d..383dd66 100644
--- a/maxsat/reader.go
+++ b/maxsat/reader.go
@@ -26,7 +26,7 @@ func ReadDimacsToSolver(fac f.Factory, solver *Solver, filename string) error {
 	for scanner.Scan() {
 		line := scanner.Text()
 		if strings.HasPrefix(line, "p wcnf") {
-			header := strings.Split(strings.TrimSpace(line), " ")
+			header := strings.Fields(line)
 			if len(header) > 4 {
 				hardWeight, _ = strconv.Atoi(header[4])
 			}
@@ -37,7 +37,10 @@ func ReadDimacsToSolver(fac f.Factory, solver *Solver, filename string) error {
 		}
 	}
 	for scanner.Scan() {
-		tokens := strings.Split(strings.TrimSpace(scanner.Text()), " ")
+		tokens := strings.Fields(scanner.Text())
+		if len(tokens) == 0 {
+			continue
+		}
 		weight, err := strconv.Atoi(tokens[0])
 		if err != nil {
 			return err
@@ -50,14 +53,12 @@ func ReadDimacsToSolver(fac f.Factory, solver *Solver, filename string) error {
 		}
 		literals := make([]f.Formula, len(tokens)-start-1)
 		for i := start; i < len(tokens)-1; i++ {
-			if len(tokens[i]) > 0 {
-				parsedLit, err := strconv.Atoi(tokens[i])
-				if err != nil {
-					return err
-				}
-				variable := fmt.Sprintf("v%d", int(math.Abs(float64(parsedLit))))
-				literals[i-start] = fac.Literal(variable, parsedLit > 0)
+			parsedLit, err := strconv.Atoi(tokens[i])
+			if err != nil {
+				return err
 			}
+			variable := fmt.Sprintf("v%d", int(math.Abs(float64(parsedLit))))
+			literals[i-start] = fac.Literal(variable, parsedLit > 0)
 		}
 		if pureMaxSat {
 			solver.AddSoftFormula(fac.Or(literals...), 1)
-- 
2.43.0


From 850a1c7a4fbf3fce89295407f60ea638a830b083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:40 +0000
Subject: [PATCH 28/42] fix: report read errors and illegal weights of MaxSAT
 files

---
 maxsat/reader.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/maxsat/reader.go b/maxsat/reader.go
index 383dd66..ce723dd 100644
--- a/maxsat/reader.go
+++ b/maxsat/reader.go
@@ -61,12 +61,13 @@ func ReadDimacsToSolver(fac f.Factory, solver *Solver, filename string) error {
 			literals[i-start] = fac.Literal(variable, parsedLit > 0)
 		}
 		if pureMaxSat {
-			solver.AddSoftFormula(fac.Or(literals...), 1)
-		} else if weight == hardWeight {
+			weight = 1
+		}
+		if !pureMaxSat && weight == hardWeight {
 			solver.AddHardFormula(fac.Or(literals...))
-		} else {
-			solver.AddSoftFormula(fac.Or(literals...), weight)
+		} else if err := solver.AddSoftFormula(fac.Or(literals...), weight); err != nil {
+			return err
 		}
 	}
-	return nil
+	return scanner.Err()
 }
-- 
2.43.0


From 83010a939a072b15e191e7241a3c4579df105a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:28 +0000
Subject: [PATCH 29/42] fix: treat a falsum hard clause as the empty clause in
 MaxSAT solvers

---
 maxsat/algorithm.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/maxsat/algorithm.go b/maxsat/algorithm.go
index 8aadbd0..5a34295 100644
--- a/maxsat/algorithm.go
+++ b/maxsat/algorithm.go
@@ -263,8 +263,8 @@ func (m *maxSatAlgorithm) getModel() []bool {
 }
 
 func (m *maxSatAlgorithm) addClause(formula f.Formula, weight int) {
-	clauseVec := make([]int32, f.NumberOfAtoms(m.fac, formula))
-	for i, lit := range f.Literals(m.fac, formula).Content() {
+	clauseVec := make([]int32, 0, f.NumberOfAtoms(m.fac, formula))
+	for _, lit := range f.Literals(m.fac, formula).Content() {
 		variable := lit.Variable()
 		index, ok := m.var2index[variable]
 		if !ok {
@@ -278,7 +278,7 @@ func (m *maxSatAlgorithm) addClause(formula f.Formula, weight int) {
 		} else {
 			litNum = (index * 2) ^ 1
 		}
-		clauseVec[i] = litNum
+		clauseVec = append(clauseVec, litNum)
 	}
 	m.addClauseVec(clauseVec, weight)
 }
-- 
2.43.0


From 5f8451c5194b3bb90ba3fbe836a100f69f80a1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:28 +0000
Subject: [PATCH 30/42] fix: do not forbid the only remaining literal of a
 pseudo-Boolean encoding in MaxSAT

---
 maxsat/enc_swc.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/maxsat/enc_swc.go b/maxsat/enc_swc.go
index d05d518..55fa833 100644
--- a/maxsat/enc_swc.go
+++ b/maxsat/enc_swc.go
@@ -59,11 +59,7 @@ func (m *swc) encode(s *sat.CoreSolver, lits *[]int32, coeffs *[]int, rhs int) {
 			addUnitClause(s, sat.Not(simpLits[i]))
 		}
 	}
-	if len(*lits) == 1 {
-		addUnitClause(s, sat.Not((*lits)[0]))
-		return
-	}
-	if len(*lits) == 0 {
+	if len(*lits) <= 1 {
 		return
 	}
 	n := len(*lits)
-- 
2.43.0


From 1ad70a0c0b6728de1690c6ba0315e7560654635c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:39 +0000
Subject: [PATCH 31/42] fix: keep the weight of the problem when solving with
 WMSU3

---
 maxsat/alg_wmsu3.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/maxsat/alg_wmsu3.go b/maxsat/alg_wmsu3.go
index 027fa52..084c876 100644
--- a/maxsat/alg_wmsu3.go
+++ b/maxsat/alg_wmsu3.go
@@ -37,10 +37,10 @@ func (m *wmsu3) search(hdl handler.Handler) (Result, handler.State) {
 	}
 	m.encoder = newEncoder()
 	isBMO := m.bmoMode && m.isBmo(true)
-	if !isBMO {
-		m.currentWeight = 1
-	}
 	return m.innerSearch(hdl, func() (Result, handler.State) {
+		if !isBMO {
+			m.currentWeight = 1
+		}
 		switch m.incrementalStrategy {
 		case IncNone:
 			return m.none()
-- 
2.43.0


From 9531065926ff05ca4ac79cf391aa1739a008eefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:27 +0000
Subject: [PATCH 32/42] fix: reject disjunctions which are not clauses when
 generating hypergraphs

---
 graph/hypergraph_generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graph/hypergraph_generator.go b/graph/hypergraph_generator.go
index b6a2529..5a134e0 100644
--- a/graph/hypergraph_generator.go
+++ b/graph/hypergraph_generator.go
@@ -18,6 +18,9 @@ func HypergraphFromClauses(fac f.Factory, clauses ...f.Formula) (*Hypergraph, er
 		case f.SortCC, f.SortPBC, f.SortEquiv, f.SortImpl, f.SortNot, f.SortAnd:
 			return nil, errorx.BadInput("not a clause %s", clause.Sprint(fac))
 		case f.SortLiteral, f.SortOr:
+			if !normalform.IsCNF(fac, clause) {
+				return nil, errorx.BadInput("not a clause %s", clause.Sprint(fac))
+			}
 			addClause(fac, clause, hypergraph, &nodes)
 		}
 	}
-- 
2.43.0


From 0c0030c713e77267f0dd75e6d600f00f0d09778c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:10 +0000
Subject: [PATCH 33/42] fix: represent pseudo-Boolean constraints with < 0 as
 cardinality constraints like all others

---
 formula/factory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formula/factory.go b/formula/factory.go
index 5472f5e..f228aa0 100644
--- a/formula/factory.go
+++ b/formula/factory.go
@@ -691,7 +691,7 @@ func (fac *CachingFactory) isCC(comparator CSort, rhs int, literals []Literal, c
 		}
 	}
 	return comparator == LE && rhs >= 0 ||
-		comparator == LT && rhs >= 1 ||
+		comparator == LT && rhs >= 0 ||
 		comparator == GE && rhs >= 0 ||
 		comparator == GT && rhs >= 0 ||
 		comparator == EQ && rhs >= 0
-- 
2.43.0


From 4d5a85fcf371f58feabccfd0fbb05035099884ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:19 +0000
Subject: [PATCH 34/42] fix: return the empty conjunction together with the
 error for unreadable formula files

---
 io/formula_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/formula_reader.go b/io/formula_reader.go
index 8538751..f902146 100644
--- a/io/formula_reader.go
+++ b/io/formula_reader.go
@@ -38,7 +38,7 @@ func ReadFormulas(fac f.Factory, filename string) ([]f.Formula, error) {
 func ReadFormulaFile(fac f.Factory, file *os.File) (f.Formula, error) {
 	ops, err := ReadFormulasFile(fac, file)
 	if err != nil {
-		return 0, err
+		return fac.Verum(), err
 	}
 	return fac.And(ops...), nil
 }
-- 
2.43.0


From dc6277f7ba9d6ac4ef096c575cdb7ce8722deaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:34 +0000
Subject: [PATCH 35/42] fix: keep all root nodes referenced when finishing a
 BDD reordering

---
 bdd/reordering.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdd/reordering.go b/bdd/reordering.go
index cfd9500..b937cbe 100644
--- a/bdd/reordering.go
+++ b/bdd/reordering.go
@@ -200,7 +200,7 @@ func (r *reordering) reorderDone() {
 	}
 	for n := int32(2); n < r.k.nodesize; n++ {
 		if r.k.marked(n) {
-			r.k.unmark(n)
+			r.k.unmarkNode(n)
 		} else {
 			r.k.setRefcou(n, 0)
 		}
-- 
2.43.0


From 3e1f94559286b379638401453c760bf8a03a1ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:06 +0000
Subject: [PATCH 36/42] fix: record clauses without duplicate literals in the
 proof trace

---
 sat/core.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sat/core.go b/sat/core.go
index dd1d06a..da91019 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -260,6 +260,9 @@ func (m *CoreSolver) addUnitClause(lit int32, proposition f.Proposition) bool {
 func (m *CoreSolver) AddClause(ps []int32, proposition f.Proposition) bool {
 	m.assertNotInCall()
 	if m.config.ProofGeneration {
+		ps = slices.Clone(ps)
+		slices.Sort(ps)
+		ps = slices.Compact(ps)
 		slice := make([]int32, len(ps))
 		for i, p := range ps {
 			slice[i] = (Vari(p) + 1) * (-2*signAsInt(p) + 1)
-- 
2.43.0


From 4d8d8757cd7675938a6fd2ed7f9cdb4324f5b1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 37/42] fix: remove all watchers of an at-most clause with
 repeated literals

---
 sat/core.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/sat/core.go b/sat/core.go
index da91019..e597530 100644
--- a/sat/core.go
+++ b/sat/core.go
@@ -777,12 +777,8 @@ func (m *CoreSolver) detachAtMost(c *clause) {
 	m.clausesLiterals -= c.size()
 }
 
-func removeWatcher(watcher *[]*watcher, clause *clause) {
-	for i, w := range *watcher {
-		if w.clause == clause {
-			*watcher = append((*watcher)[:i], (*watcher)[i+1:]...)
-		}
-	}
+func removeWatcher(ws *[]*watcher, clause *clause) {
+	*ws = slices.DeleteFunc(*ws, func(w *watcher) bool { return w.clause == clause })
 }
 
 func (m *CoreSolver) removeClause(c *clause) {
-- 
2.43.0


From 1de91ca35c044b00765bc0691b3d37dc75951063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:01 +0000
Subject: [PATCH 38/42] fix: do not record a missing auxiliary literal for
 factorised formulas in the CNF state

---
 normalform/cnf.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/normalform/cnf.go b/normalform/cnf.go
index d5480f6..f9a73e7 100644
--- a/normalform/cnf.go
+++ b/normalform/cnf.go
@@ -284,7 +284,9 @@ func PGCNF(fac f.Factory, formula f.Formula, boundaryForFactorization int, state
 		topLevel, _ := assignment.New(fac, state.LiteralMap[nnf])
 		pg = assignment.Restrict(fac, pg, topLevel)
 	}
-	state.LiteralMap[formula] = state.LiteralMap[nnf]
+	if lit, ok := state.LiteralMap[nnf]; ok {
+		state.LiteralMap[formula] = lit
+	}
 	return pg
 }
 
@@ -394,7 +396,9 @@ func TseitinCNF(fac f.Factory, formula f.Formula, boundaryForFactorization int,
 		topLevel, _ := assignment.New(fac, state.LiteralMap[nnf])
 		tseitin = assignment.Restrict(fac, state.FormulaMap[nnf], topLevel)
 	}
-	state.LiteralMap[formula] = state.LiteralMap[nnf]
+	if lit, ok := state.LiteralMap[nnf]; ok {
+		state.LiteralMap[formula] = lit
+	}
 	return tseitin
 }
 
-- 
2.43.0


From aa56d317b57906d21ae7644c7e141f41fcccaec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:56 +0000
Subject: [PATCH 39/42] fix: insertion-based MUS accepted the satisfiable empty
 set

---
 explanation/mus/mus.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/explanation/mus/mus.go b/explanation/mus/mus.go
index b3c508b..5744ee9 100644
--- a/explanation/mus/mus.go
+++ b/explanation/mus/mus.go
@@ -30,6 +30,9 @@ func ComputeInsertionBasedWithHandler(
 	if e := event.MusComputationStarted; !hdl.ShouldResume(e) {
 		return nil, handler.Cancelation(e), nil
 	}
+	if len(*propositions) == 0 {
+		return nil, handler.Success(), errorx.BadInput("formula set is satisfiable")
+	}
 	currentFormula := make([]f.Proposition, len(*propositions))
 	copy(currentFormula, *propositions)
 	mus := make([]f.Proposition, 0, len(*propositions))
-- 
2.43.0


From 3fe5d4171e34ad0f37e4030d84d9f9514a10be2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:32 +0000
Subject: [PATCH 40/42] fix: read formula, DIMACS and MaxSAT files with lines
 of any length

---
 io/dimacs_reader.go  | 2 ++
 io/formula_reader.go | 3 ++-
 maxsat/reader.go     | 1 +
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/io/dimacs_reader.go b/io/dimacs_reader.go
index 5184cb0..84b267e 100644
--- a/io/dimacs_reader.go
+++ b/io/dimacs_reader.go
@@ -2,6 +2,7 @@ package io
 
 import (
 	"bufio"
+	"math"
 	"os"
 	"strings"
 
@@ -38,6 +39,7 @@ func ReadDimacsFile(fac f.Factory, file *os.File, prefix ...string) (*[]f.Formul
 	}
 
 	scanner := bufio.NewScanner(file)
+	scanner.Buffer(nil, math.MaxInt)
 	for scanner.Scan() {
 		line := scanner.Text()
 		if !strings.HasPrefix(line, "c") && !strings.HasPrefix(line, "p") && strings.TrimSpace(line) != "" {
diff --git a/io/formula_reader.go b/io/formula_reader.go
index f902146..c8c7e4d 100644
--- a/io/formula_reader.go
+++ b/io/formula_reader.go
@@ -2,6 +2,7 @@ package io
 
 import (
 	"bufio"
+	"math"
 	"os"
 
 	f "github.com/booleworks/logicng-go/formula"
@@ -51,7 +52,7 @@ func ReadFormulasFile(fac f.Factory, file *os.File) ([]f.Formula, error) {
 	ops := make([]f.Formula, 0, 64)
 	scanner := bufio.NewScanner(file)
 	buf := make([]byte, 0, 64*1024)
-	scanner.Buffer(buf, 1024*1024)
+	scanner.Buffer(buf, math.MaxInt)
 	for scanner.Scan() {
 		line := scanner.Text()
 		formula, err := parser.Parse(line)
diff --git a/maxsat/reader.go b/maxsat/reader.go
index ce723dd..e5e6a5f 100644
--- a/maxsat/reader.go
+++ b/maxsat/reader.go
@@ -23,6 +23,7 @@ func ReadDimacsToSolver(fac f.Factory, solver *Solver, filename string) error {
 	pureMaxSat := false
 	hardWeight := -1
 	scanner := bufio.NewScanner(file)
+	scanner.Buffer(nil, math.MaxInt)
 	for scanner.Scan() {
 		line := scanner.Text()
 		if strings.HasPrefix(line, "p wcnf") {
-- 
2.43.0


From d8d6dd474ab5d808da6552157bd3ea5f947768ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:47 +0000
Subject: [PATCH 41/42] fix: search BMO problems with the non-incremental WMSU3
 strategy like others instead of never terminating

---
 maxsat/alg_wmsu3.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maxsat/alg_wmsu3.go b/maxsat/alg_wmsu3.go
index 084c876..d9d666f 100644
--- a/maxsat/alg_wmsu3.go
+++ b/maxsat/alg_wmsu3.go
@@ -36,7 +36,8 @@ func (m *wmsu3) search(hdl handler.Handler) (Result, handler.State) {
 		panic(errorx.BadInput("wmsu3 does not support unweighted MaxSAT instances"))
 	}
 	m.encoder = newEncoder()
-	isBMO := m.bmoMode && m.isBmo(true)
+	// only the iterative strategy works through the weights of a BMO problem
+	isBMO := m.bmoMode && m.incrementalStrategy == IncIterative && m.isBmo(true)
 	return m.innerSearch(hdl, func() (Result, handler.State) {
 		if !isBMO {
 			m.currentWeight = 1
-- 
2.43.0


From 319afedbf8592daecdcd8495dc3e28dc9387c6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:05 +0000
Subject: [PATCH 42/42] fix: compile an empty conjunction of literals to the
 true BDD

---
 bdd/bdd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdd/bdd.go b/bdd/bdd.go
index 3c81bd6..b441a49 100644
--- a/bdd/bdd.go
+++ b/bdd/bdd.go
@@ -104,7 +104,7 @@ func CompileWithKernelAndHandler(
 func CompileLiterals(literals []f.Literal, kernel *Kernel) *BDD {
 	var bdd int32
 	if len(literals) == 0 {
-		bdd = bddFalse
+		bdd = bddTrue
 	} else if len(literals) == 1 {
 		lit := literals[0]
 		variable := lit.Variable()
-- 
2.43.0


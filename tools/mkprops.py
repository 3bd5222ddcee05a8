import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,state=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    assert len(title)<=80,(id,len(title))
    P.append(d)
p("F01","Formula construction preserves logical meaning",
 "Every formula returned by a factory (constants, literals, negation, implication, equivalence, conjunction, disjunction, clause, minterm, cardinality and pseudo-Boolean constraint) has, under every total assignment, exactly the truth value of the requested operator applied to its operands, whatever simplification, flattening or caching the factory performs. This holds for every operand list (empty, singleton, duplicated, complementary, constant or nested operands) and every factory configuration.",
 ["inputs","histories","configurations"],"all operand lists over all formulas of one factory, all assignments, all earlier construction histories (the caches), both settings of variable conservation",
 "unit tests construct a few dozen fixed formulas; the simplification rules and hash buckets interact with every earlier construction on the same factory, which no finite sample covers",
 ["formula/factory.go","formula/formula.go"],
 [("n-ary construction and condensation","formula/factory.go:And, Or, condenseOperandsAnd, condenseOperandsOr, constructAnd, constructOr"),("binary and unary constructors","formula/factory.go:Not, Implication, Equivalence, Literal"),("constraint constructors","formula/factory.go:CC, PBC, constructPBC; formula/formula.go:evaluateTrivialPBConstraint")])
p("F02","Structural sharing, immutability and identity of formulas",
 "On one factory, building the same formula again (same kind, same operands in the same order) returns the identical formula; different formulas never share an identity; negating twice gives back the original. Once returned, a formula's kind and operands never change, whatever other operation of the library is run on it afterwards.",
 ["histories","inputs"],"all sequences of constructions and library operations on one factory",
 "tests compare a handful of formulas; hash collisions, operand-slice aliasing and in-place mutation only show after particular histories",
 ["formula/factory.go","formula/formula.go","sat/solver.go"],
 [("hash-consing lookup and insertion","formula/factory.go:findAnd, findOr, findPbc, constructAnd, constructOr, Literal, Not"),("identifier scheme","formula/formula.go:EncodeFormula, ID, Sort, IsNeg"),("consumers of operand slices","sat/solver.go:generateClauseVector; formula/factory.go:NaryOperands, PBCOps")])
p("F03","Evaluation and restriction agree with propositional semantics",
 "Evaluating a formula under an assignment (unassigned variables count as false) yields exactly its truth value. Restricting a formula by a partial assignment yields a formula without the assigned variables that agrees with the original on every total assignment extending it; the test whether a partial assignment makes a formula constant never claims a value that some extension contradicts, and is exact for total assignments.",
 ["inputs"],"all formulas including cardinality and pseudo-Boolean constraints with arbitrary integer coefficients, all partial assignments",
 "tests enumerate a few formulas and assignments; the constraint evaluator's early-exit bounds depend on coefficient signs and order",
 ["assignment/evaluate.go","assignment/restrict.go","assignment/evaluate_to_constant.go","assignment/assignment.go"],
 [("evaluation","assignment/evaluate.go:Evaluate, evaluateCoeffs"),("restriction","assignment/restrict.go:Restrict"),("partial constant test","assignment/evaluate_to_constant.go:EvaluatesToTrue, EvaluatesToFalse")])
p("F04","Derived formula facts are exact",
 "For every formula the reported variables, literals, sub-formulas, depth, atom count, node count, profiles, containment and kind predicates equal their definition on the formula's structure, independent of earlier queries whose results were cached. Sets of formulas behave as mathematical sets.",
 ["inputs","histories"],"all formulas, all earlier query histories on the same factory",
 "tests check some fixed formulas; cached answers depend on the order of previous queries",
 ["formula/function.go","formula/formula_depth.go","formula/number_of_nodes.go","formula/number_of_atoms.go","formula/formula_profile.go","formula/subnode.go","formula/predicate.go","formula/set.go"],
 [("variables, literals, sub-nodes, depth, counts","formula package functions Variables, Literals, SubNodes, FormulaDepth, NumberOfAtoms, NumberOfNodes, LiteralProfile, VariableProfile"),("formula sets","formula/set.go")])
p("N01","Normal forms are equivalent to the input and have the promised shape",
 "Negation normal form, factorised CNF and DNF, the configurable CNF without auxiliary variables, canonical CNF/DNF, BDD-based CNF/DNF and AIG return a formula in the named form that is logically equivalent to the input; cardinality and pseudo-Boolean constraints are replaced by encodings, in which case the result is equivalent after projecting away the auxiliary encoding variables. Equivalence of AIG, DNF, canonical and BDD-based forms is promised for formulas without such constraints. The predicates for NNF, CNF, DNF, AIG, minterm, maxterm and clause-like shapes answer exactly by the definition of the form.",
 ["inputs","histories","configurations"],"all formulas, all cache histories, all factorisation bounds",
 "tests sample formulas; distribution and caching errors only show for particular nestings or after earlier conversions",
 ["normalform/nnf.go","normalform/cnf.go","normalform/dnf.go","normalform/aig.go","model/enum/normalform.go","bdd/normalform.go"],
 [("NNF","normalform/nnf.go"),("factorised CNF/DNF","normalform/cnf.go, normalform/dnf.go"),("AIG","normalform/aig.go"),("predicates","normalform: IsNNF, IsCNF, IsDNF, IsAIG, IsMinterm, IsMaxterm")])
p("N02","Auxiliary-variable CNF preserves the models over the original variables",
 "The Tseitin and Plaisted-Greenbaum transformations (directly, through the configurable CNF with any algorithm and boundary, and when adding formulas to a SAT solver) return a CNF over the original plus fresh auxiliary variables whose models, projected to the original variables, are exactly the models of the input. Auxiliary variables are never variables of the input.",
 ["inputs","histories","configurations"],"all formulas, all boundary settings, all sequences of conversions sharing one factory or solver",
 "tests check equisatisfiability on samples; a lost implication direction shows only for a formula where the polarity matters, or after cached sub-results",
 ["normalform/cnf.go","sat/pg_on_solver.go","maxsat/pg_on_solver.go"],
 [("Tseitin and Plaisted-Greenbaum","normalform/cnf.go:TseitinCNFWithBoundary, PGCNFWithBoundary, advancedEncoding"),("on-solver encodings","sat/pg_on_solver.go; maxsat/pg_on_solver.go")])
p("C01","Cardinality encodings admit exactly the assignments of the constraint",
 "For every cardinality constraint (at most, at least, exactly k, and the one-variants) and every selectable encoding, the produced clauses, projected to the constraint's variables, have exactly the constraint's models; incremental data allows tightening the bound with the same exactness. This holds whether the encoding goes to a list of formulas or directly to a solver.",
 ["inputs","configurations","histories"],"all sizes n, all bounds k (including below 0, 0, n and above n), all encoder choices and their parameters, all tightening sequences",
 "tests use a few sizes per encoder; the recursive constructions have special cases at particular n and k",
 ["encoding/amo.go","encoding/cc_encoding.go","encoding/cc_totalizer.go","encoding/cc_modular_totalizer.go","encoding/cc_cardinality_network.go","encoding/cc_incremental_data.go"],
 [("dispatch and trivial cases","encoding/cc_encoding.go"),("at-most-one encoders","encoding/amo.go"),("totalizer, modular totalizer, cardinality network","encoding/cc_*.go"),("incremental bounds","encoding/cc_incremental_data.go")])
p("C02","Pseudo-Boolean normalisation and encodings are exact",
 "Normalising or negating a pseudo-Boolean constraint preserves (or complements) its models, and every selectable encoding projected to the constraint's variables admits exactly its models. This covers negative, zero and repeated coefficients, repeated or complementary literals and all comparators.",
 ["inputs","configurations"],"all literal lists, integer coefficients and bounds whose sums stay within the integer range, all encoders and their options",
 "tests use a few constraints; sign normalisation, saturation, gcd and bucket logic have many numeric corner cases",
 ["encoding/normalize.go","encoding/pbc_encoding.go","encoding/pbc_swc.go","encoding/pbc_adder.go","encoding/pbc_binary_merge.go","formula/formula.go"],
 [("normalisation","encoding/normalize.go"),("encoders","encoding/pbc_*.go"),("negation","formula/formula.go:NegatePBC / factory negation of constraints")])
p("S01","SAT answers and models are correct",
 "For every set of formulas added to a SAT solver under any configuration, the solver reports satisfiable exactly when a satisfying assignment exists, and the model it returns satisfies every added formula and covers exactly the requested variables. The predicates for satisfiability, tautology, contradiction, implication and equivalence agree with the semantics.",
 ["inputs","configurations"],"all formula sets, all solver configurations (CNF method, clause minimisation, initial phase, native at-most clauses, proof tracing), all random search histories",
 "tests solve a fixed benchmark collection; learning, minimisation, restarts and the native constraints interact in ways only some instances exercise",
 ["sat/core.go","sat/solver.go","sat/call.go","sat/pg_on_solver.go","sat/heap.go","sat/queue.go"],
 [("CDCL search","sat/core.go:search, propagate, analyze"),("model extraction","sat/core.go:CreateModel; sat/solver.go:computeModel"),("adding formulas","sat/solver.go:addWithProp; sat/pg_on_solver.go")])
p("S02","Incremental use: assumptions and saved states are faithful",
 "A call with assumption literals or additional formulas answers for exactly the formulas on the solver plus those, and leaves later calls unaffected. Restoring a saved state makes the solver answer exactly as at the time of saving, and restoring a state that was invalidated by an earlier restore is rejected with an error.",
 ["histories","configurations"],"all interleavings of add, call with and without assumptions, save and load",
 "tests run a few fixed sequences; stale watchers, unit literals, learnt clauses and encoder caches only leak in particular histories",
 ["sat/core.go","sat/core_state.go","sat/call.go","sat/solver.go","sat/pg_on_solver.go"],
 [("state stack","sat/core.go:saveState, loadState; sat/core_state.go"),("call bracket","sat/call.go:initCall, close"),("encoder caches","sat/pg_on_solver.go:clearCache")])
p("S03","Unsatisfiable cores are unsatisfiable subsets",
 "When a solver with proof tracing reports unsatisfiable and a core is requested, every proposition of the core is one of the propositions added or assumed, and the conjunction of the core's formulas is unsatisfiable. This holds with assumptions, additional formulas, native at-most clauses and after restoring states.",
 ["inputs","histories"],"all unsatisfiable proposition sets, all call histories",
 "tests check a few cores; a wrong clause-to-proposition mapping is only visible when a necessary proposition is missing",
 ["sat/unsat_core.go","sat/proofs.go","sat/core.go","sat/call.go"],
 [("core extraction","sat/unsat_core.go; sat/proofs.go"),("proof tracing","sat/core.go"),("assumption propositions","sat/call.go:initCall")])
p("S04","Backbones are exact",
 "The backbone of a formula set relative to given variables contains a positive (negative) variable exactly when it is true (false) in every model, lists exactly the remaining requested variables as optional, and reports unsatisfiability exactly. Computing it leaves the solver's later answers unchanged; unit-propagation literals reported by a call are implied.",
 ["inputs","histories"],"all satisfiable and unsatisfiable formula sets, all variable selections, all backbone kinds, all solver histories",
 "tests use few formulas; the rotation and upper-bound refinements are only unsound on particular watch-list states",
 ["sat/backbone.go","sat/core.go","sat/call.go"],
 [("backbone computation","sat/backbone.go"),("unit literals","sat/core.go:upZeroLiterals")])
p("S05","Model enumeration and counting are exact",
 "Enumerating models over a variable set yields every model's projection exactly once and nothing else, extended by additional variables' values that belong to a common model; counting by enumeration, by decomposition and as decision diagram returns the exact number (counting by decomposition supports constraints of the at-most-one and exactly-one kind only). This holds for all split strategies and leaves the solver's later answers unchanged.",
 ["inputs","configurations"],"all formulas, all projection and additional variable sets (including variables not in the formula), all iteration strategies",
 "tests use few formulas and default strategies; splitting, commits and rollbacks interact with the limit of a strategy",
 ["model/iter/iteration.go","model/iter/split.go","model/iter/strategy.go","model/enum/enumeration.go","model/enum/enumeration_bdd.go","model/count/sat_counting.go","model/count/dnnf_counting.go"],
 [("iteration core","model/iter/iteration.go"),("collectors","model/enum/*.go, model/count/*.go"),("split strategies","model/iter/strategy.go, model/iter/split.go")])
p("S06","Solver optimisation returns an optimal model",
 "Maximising (minimising) a literal list on a solver returns a model of the added formulas that satisfies the largest (smallest) possible number of the listed literals, and reports no model exactly when the formulas are unsatisfiable. The solver's later answers are unaffected.",
 ["inputs","histories"],"all formula sets, all literal lists, all additional variables",
 "tests compare a few instances; bound tightening and the reuse of counter encodings have edge cases at 0 and n",
 ["sat/optimizer_function.go"],[("optimisation loop","sat/optimizer_function.go:optimize")])
p("M01","MaxSAT algorithms find the optimum",
 "Every MaxSAT algorithm with every configuration reports unsatisfiable exactly when the hard formulas are, and otherwise the minimum total weight of unsatisfied soft formulas together with a model of the hard formulas attaining it (the model may contain auxiliary variables besides the formulas' variables). This also holds across saving and restoring states and repeated solving.",
 ["inputs","configurations","histories"],"all hard/soft formula sets and positive weights, all algorithms, incremental strategies and weight strategies",
 "tests run a fixed benchmark set; core relaxation, stratification and totalizer growth only fail for particular core sequences",
 ["maxsat/algorithm.go","maxsat/alg_oll.go","maxsat/alg_wbo.go","maxsat/alg_incwbo.go","maxsat/alg_msu3.go","maxsat/alg_wmsu3.go","maxsat/alg_linear_su.go","maxsat/alg_linear_us.go","maxsat/solver.go"],
 [("algorithms","maxsat/alg_*.go"),("encodings","maxsat/encoder.go, enc_*.go"),("front end","maxsat/solver.go, maxsat/pg_on_solver.go")])
p("B01","Decision diagrams represent exactly the compiled function",
 "A BDD compiled from a formula without cardinality and pseudo-Boolean constraints, and every operation on it (negation, conjunction, disjunction, implication, equivalence, restriction, quantification), represents exactly the corresponding Boolean function; model counts, enumerations, support, models, path counts and conversions back are exact. Two BDDs of one kernel are equal exactly when their functions are, and reordering or garbage collection changes no function.",
 ["inputs","histories"],"all formulas, all variable orders, all operation sequences on one kernel, all table sizes that force resizing and collection",
 "tests use a few formulas; operation-cache collisions, node reuse after collection and level swaps depend on the history of the kernel",
 ["bdd/kernel.go","bdd/construction.go","bdd/operation.go","bdd/bdd.go","bdd/reordering.go","bdd/cache.go"],
 [("node table and operations","bdd/kernel.go, bdd/construction.go"),("queries","bdd/operation.go, bdd/bdd.go"),("reordering","bdd/reordering.go")])
p("D01","DNNF compilation is equivalent, decomposable and counts exactly",
 "The DNNF compiled from a formula is logically equivalent to it over the original variables, its conjunctions have operands with disjoint variables and its disjunctions are mutually exclusive, and the model count over the original variables is exact.",
 ["inputs"],"all formulas",
 "tests use benchmark formulas and compare with one other counter; decomposition separators and component caching depend on the decomposition tree",
 ["dnnf/compiler.go","dnnf/dtree.go","dnnf/dtree_generator.go","dnnf/dnnf.go","sat/dnnf_solver.go"],
 [("compiler","dnnf/compiler.go"),("decomposition trees","dnnf/dtree.go, dnnf/dtree_generator.go"),("solver interface","sat/dnnf_solver.go")])
p("I01","Prime implicants and implicates are correct, prime and covering",
 "The prime compilation returns implicants (implicates) that each imply (are implied by) the formula, are minimal, and whose union is equivalent to the formula, for both coverage modes. The minimum-size prime implicant is an implicant of smallest possible size over the formula's variables.",
 ["inputs","configurations"],"all formulas, both coverage modes",
 "tests check random formulas of one shape; a reduction that drops one literal too many or stops early shows only on particular implicants",
 ["primeimplicant/computation.go","primeimplicant/minimum_implicant.go"],
 [("computation","primeimplicant/computation.go"),("reduction","primeimplicant/computation.go"),("minimum implicant","primeimplicant/minimum_implicant.go")])
p("E01","Minimal and smallest unsatisfiable sets are right",
 "The MUS algorithms return a subset of the given propositions that is unsatisfiable and becomes satisfiable when any member is removed; the SMUS computation returns an unsatisfiable subset of smallest cardinality (together with the given extra constraints). Satisfiable inputs are rejected and never answered with a set.",
 ["inputs","configurations"],"all proposition lists including duplicates, all algorithms",
 "tests use few instances; minimality is a statement about all subsets",
 ["explanation/mus/mus.go","explanation/smus/smus.go"],
 [("MUS","explanation/mus/mus.go"),("SMUS","explanation/smus/smus.go")])
p("X01","Simplifiers preserve logical equivalence",
 "Every simplifier (distribution, factoring out, negation minimisation, backbone, subsumption for CNF and DNF, Quine-McCluskey, unit propagation and the advanced simplifier under every option) returns a formula logically equivalent to its input (unit propagation works on a CNF of the input and may add auxiliary variables; it is equivalent over the input's variables). Simplifiers guided by a rating never return a formula rated worse than the input; subsumption keeps the clause form and leaves no subsumed clause.",
 ["inputs","configurations"],"all formulas, all simplifier options and rating functions",
 "tests simplify samples; rewriting rules are wrong only for particular operand patterns",
 ["simplification/distribution.go","simplification/factor_out.go","simplification/negation_simplifier.go","simplification/backbone.go","simplification/subsumption.go","simplification/advanced.go","simplification/unit_propagation.go","np/set_cover.go"],
 [("rewriters","simplification/*.go"),("covering","np/set_cover.go")])
p("T01","Substitution, quantifier elimination and anonymisation are exact",
 "Substituting formulas or literals for variables gives a formula whose value under an assignment is the original's value under the assignment with the substituted values; existential and universal elimination yield the disjunction and conjunction of both restrictions without the eliminated variables. Anonymising is a consistent, injective renaming; pure-expansion of at-most-one and exactly-one constraints is equivalent and contains no such constraint.",
 ["inputs","histories"],"all formulas, all substitutions (overlapping, swapping, cyclic), all variable sets",
 "tests substitute a few formulas; simultaneous substitution and constraint operands have corner cases",
 ["transformation/substitution.go","transformation/literal_substitution.go","transformation/qe.go","transformation/anonymizer.go","transformation/pure_expansion.go"],
 [("transformations","transformation/*.go")])
p("R01","Printing and parsing round-trip",
 "Parsing the printed form of any formula yields the same formula on the same factory and an equal one on another factory, and every text accepted by the parser denotes the formula given by the grammar's precedence and associativity. Malformed texts are rejected with an error and never accepted or crash.",
 ["inputs"],"all formulas including constraints with negative coefficients and all identifier shapes, all input texts",
 "tests parse a list of strings; parenthesisation depends on operator nesting pairs",
 ["formula/printer.go","parser/propositional_parser.go","parser/logicngpropositional_parser.go"],
 [("printer","formula/printer.go"),("parser","parser/propositional_parser.go")])
p("R02","File formats round-trip and read exactly what is written",
 "Writing formulas to a file and reading it back yields the same formulas, and a DIMACS CNF file describes exactly the clauses of the CNF formula under the reported variable mapping and reads back to an equivalent formula. Weighted and unweighted MaxSAT DIMACS files are read as exactly the hard and soft clauses they contain.",
 ["inputs"],"all formulas, all CNFs, all well-formed DIMACS files",
 "tests use fixed files",
 ["io/formula_writer.go","io/formula_reader.go","io/dimacs_reader.go","io/dimacs_writer.go","maxsat/reader.go"],
 [("formula files","io/formula_writer.go, io/formula_reader.go"),("DIMACS","io/dimacs_*.go, maxsat/reader.go")])
p("G01","Constraint graphs and components are exact",
 "The constraint graph of formulas links two variables exactly when they occur together in one formula, its connected components partition the variables, and splitting formulas by component assigns each formula to exactly the component of its variables. The clause hypergraph has one edge per clause containing exactly its variables.",
 ["inputs"],"all formula lists",
 "tests use a few graphs",
 ["graph/connected_components.go","graph/constraint_graph.go","graph/hypergraph.go","graph/hypergraph_generator.go"],
 [("graphs","graph/*.go")])
p("H01","Cancelled computations report cancellation and never corrupt results",
 "For every handler-aware computation and every event at which the handler requests cancellation, the call returns a state reporting that cancellation and no result presented as final, or else the same correct result as without a handler. Partial results of a cancelled optimisation or enumeration, where offered, are sound (models of the formulas, subsets of the answer). After a cancellation, the same factory and solver still give correct answers.",
 ["schedules","fault_sequences","histories"],"all computations taking a handler, all cancellation points (which event, which occurrence), all later calls",
 "tests cancel at the first event or after a timeout only; partial caches and half-updated solver states depend on the exact cancellation point",
 ["handler/handler.go","sat/core.go","normalform/cnf.go","normalform/dnf.go","model/iter/iteration.go","sat/backbone.go","sat/optimizer_function.go","maxsat/algorithm.go","bdd/construction.go","dnnf/compiler.go"],
 [("handler protocol","handler/*.go, event/*.go"),("solver search","sat/core.go:Solve, search"),("caching of partial results","normalform/cnf.go, normalform/dnf.go, normalform/nnf.go")])
json.dumps
import os
out='/verif/properties.jsonl'
with open(out,'w') as fh:
    for d in P:
        for f in d['anchors']['files']:
            if not os.path.exists('/repo/'+f): print('missing',d['id'],f)
        fh.write(json.dumps(d)+'\n')
print(len(P))

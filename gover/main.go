// Command gover is a deductive verifier for Go: it executes the SSA form of the
// functions of /repo symbolically, one function at a time, against the contracts in
// /verif/contracts and discharges every obligation with an SMT solver.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoMod = "github.com/booleworks/logicng-go"

type Failed struct {
	Obligation string `json:"obligation"`
	Function   string `json:"function"`
	Where      string `json:"where,omitempty"`
	Reason     string `json:"reason"`
}

type FnReport struct {
	Function    string  `json:"function"`
	Contract    string  `json:"contract_file"`
	Paths       int     `json:"exits"`
	Obligations int     `json:"obligations"`
	Invariants  int     `json:"loop_invariants_inferred"`
	Seconds     float64 `json:"seconds"`
}

type Report struct {
	Property    string         `json:"property"`
	Obligations int            `json:"obligations"`
	Discharged  int            `json:"discharged"`
	Functions   []FnReport     `json:"functions"`
	Failed      []Failed       `json:"failed"`
	Assumptions []string       `json:"assumptions"`
	Trusted     []string       `json:"trusted"`
	Vacuity     int            `json:"vacuity_checks"`
	ByBackend   map[string]int `json:"by_backend"`
	SolverSecs  float64        `json:"solver_seconds"`
	Inlined     []string       `json:"inlined"`
	Wall        float64        `json:"wall_s"`
}

var (
	flagTimeout = flag.Int("timeout", 3000, "solver time limit per obligation (ms)")
	flagHoudini = flag.Int("houdini", 1000, "solver time limit per candidate invariant (ms)")
	flagDump    = flag.String("dump", "", "directory for the scripts of failed obligations")
	flagOnce    = flag.Bool("once", false, "no second attempt with more resources")
	flagV       = flag.Bool("v", false, "verbose")
)

func main() {
	prop := flag.String("prop", "", "property")
	fun := flag.String("func", "", "verify only this function")
	out := flag.String("out", "", "JSON report")
	dir := flag.String("contracts", "/verif/contracts", "directory of contracts")
	repo := flag.String("repo", "/repo", "repository")
	tier := flag.String("tier", "quick", "tier")
	list := flag.String("list", "", "list the functions whose key contains the string")
	ssaOf := flag.String("ssa", "", "print the SSA of a function")
	flag.BoolVar(&debugSolver, "debug", false, "show solver errors")
	flag.Parse()
	t0 := time.Now()
	if *tier == "thorough" {
		*flagTimeout *= 4
		*flagHoudini *= 3
	}
	p, err := load(*repo, *dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	p.verbose = *flagV
	if *list != "" {
		var ks []string
		for k := range p.fns {
			if strings.Contains(k, *list) {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		fmt.Println(strings.Join(ks, "\n"))
		return
	}
	if *ssaOf != "" {
		p.fns[*ssaOf].WriteTo(os.Stdout)
		return
	}
	rep := &Report{Property: *prop, ByBackend: map[string]int{}, Failed: []Failed{}}
	var m sync.Mutex
	var wg sync.WaitGroup
	fsem := make(chan struct{}, 6)
	assumed, trusted, inlined := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, key := range p.order {
		ct := p.contracts[key]
		if *fun != "" && key != *fun {
			continue
		}
		if *prop != "" && !contains(ct.props, *prop) {
			continue
		}
		if ct.inline {
			continue
		}
		if ct.trusted != "" {
			trusted[key+": "+ct.trusted] = true
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			fsem <- struct{}{}
			defer func() { <-fsem }()
			t := time.Now()
			x, fails, nob, ndis := p.verify(ct, 1)
			if len(fails) > 0 && !*flagOnce {
				// a second attempt with more resources before anything is reported
				x, fails, nob, ndis = p.verify(ct, 3)
			}
			m.Lock()
			defer m.Unlock()
			fr := FnReport{Function: key, Contract: ct.file, Obligations: nob, Seconds: round2(time.Since(t).Seconds())}
			rep.Obligations += nob
			rep.Discharged += ndis
			rep.Failed = append(rep.Failed, fails...)
			if x != nil {
				fr.Paths = x.exits
				for _, c := range x.cands {
					if c.active {
						fr.Invariants++
					}
				}
				rep.Vacuity += x.vacuity
				for k := range x.assumed {
					assumed[k] = true
				}
				for k := range x.inlined {
					inlined[k] = true
				}
				for k := range x.called {
					c := p.contracts[k]
					if c.trusted != "" {
						trusted[k+": "+c.trusted] = true
					} else if !contains(c.props, *prop) {
						assumed["contract of "+k+" is verified by the check of "+strings.Join(c.props, ", ")] = true
					}
				}
				for _, o := range x.obligs {
					if o.status == "proved" {
						rep.ByBackend[o.by]++
					}
				}
				for _, c := range ct.assumes {
					assumed["in "+key+": "+c.text] = true
				}
				for _, u := range ct.uses {
					assumed["definitions and axioms of contracts/"+u+".smt2"] = true
				}
			}
			rep.Functions = append(rep.Functions, fr)
			if *flagV || *out == "" {
				s := "ok"
				if len(fails) > 0 {
					s = "FAILED"
				}
				fmt.Printf("%-8s %-60s %d/%d obligations, %.1f s\n", s, key, ndis, nob, time.Since(t).Seconds())
				for _, f := range fails {
					fmt.Printf("    %s\n        %s\n", f.Obligation, f.Reason)
				}
				if *flagV && x != nil {
					for _, c := range x.cands {
						if c.active && !strings.HasPrefix(c.text, "frame") {
							fmt.Println("    inv", c.inst.key, c.text)
						}
					}
				}
			}
		}()
	}
	wg.Wait()
	// lemmas of the preludes in use
	inUse := map[string]bool{}
	for _, key := range p.order {
		ct := p.contracts[key]
		if *prop == "" || contains(ct.props, *prop) {
			for _, u := range ct.uses {
				inUse[u] = true
			}
		}
	}
	for _, l := range p.lemmas {
		if !inUse[l.file] || *fun != "" && *fun != "lemma" {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			t := time.Now()
			fs, n, ok := p.verifyLemma(l)
			m.Lock()
			defer m.Unlock()
			rep.Obligations += n
			rep.Discharged += ok
			rep.Failed = append(rep.Failed, fs...)
			rep.ByBackend["lemmas by induction"] += ok
			rep.Functions = append(rep.Functions, FnReport{Function: "lemma " + l.file + "." + l.name, Contract: l.file + ".smt2", Obligations: n, Seconds: round2(time.Since(t).Seconds())})
			if *flagV || *out == "" {
				fmt.Printf("lemma %s.%s %d/%d obligations\n", l.file, l.name, ok, n)
				for _, f := range fs {
					fmt.Printf("FAILED   %s: %s\n", f.Obligation, f.Reason)
				}
			}
		}()
	}
	wg.Wait()
	if rep.Obligations == 0 && len(rep.Failed) == 0 {
		rep.Failed = append(rep.Failed, Failed{Obligation: "contracts-present", Reason: "no obligation was generated for the property"})
	}
	assumed["integers are mathematical (no overflow), except where a contract says otherwise; floating point operations are uninterpreted"] = true
	assumed["partial correctness: executions that panic or do not terminate are not considered"] = true
	assumed["append to a slice that existed before the call of the function under contract does not write into spare capacity seen by others"] = true
	rep.Assumptions, rep.Trusted, rep.Inlined = keysOf(assumed), keysOf(trusted), keysOf(inlined)
	sort.Slice(rep.Functions, func(i, j int) bool { return rep.Functions[i].Function < rep.Functions[j].Function })
	sort.Slice(rep.Failed, func(i, j int) bool { return rep.Failed[i].Obligation < rep.Failed[j].Obligation })
	rep.SolverSecs = round2(solverSecs)
	rep.Wall = round2(time.Since(t0).Seconds())
	if *out != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(*out, b, 0o644)
	}
	fmt.Printf("%d functions, %d obligations, %d discharged, %d failed, solver %.1f s, wall %.1f s\n", len(rep.Functions), rep.Obligations, rep.Discharged, len(rep.Failed), rep.SolverSecs, rep.Wall)
	if len(rep.Failed) > 0 {
		os.Exit(1)
	}
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }

func contains(s []string, t string) bool {
	for _, q := range s {
		if q == t {
			return true
		}
	}
	return false
}

func keysOf(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func load(repo, dir string) (*Prog, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: repo}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, q := range pk {
		for _, e := range q.Errors {
			return nil, e
		}
	}
	prog, ps := ssautil.Packages(pk, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{prog: prog, fns: map[string]*ssa.Function{}, contracts: map[string]*Contract{}, macros: map[string]macro{},
		specs: map[string]specFn{}, ghosts: map[string]ghost{}, prelude: map[string]string{}, pkgs: map[string]*types.Package{}}
	for _, q := range ps {
		if q != nil {
			if _, dup := p.pkgs[q.Pkg.Name()]; !dup || strings.HasPrefix(q.Pkg.Path(), repoMod+"/") {
				p.pkgs[q.Pkg.Name()] = q.Pkg
			}
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if len(fn.Blocks) == 0 || !inRepo(fn) {
			continue
		}
		if fn.Synthetic != "" && fn.Origin() == nil {
			continue
		}
		k := fnKey(fn)
		if old := p.fns[k]; old == nil || fn.Origin() == nil || len(fn.TypeArgs()) > 0 && old.Origin() != nil && fn.String() < old.String() {
			p.fns[k] = fn
		}
	}
	pre, _ := filepath.Glob(filepath.Join(dir, "*.smt2"))
	for _, f := range pre {
		if err := p.loadPrelude(f); err != nil {
			return nil, err
		}
	}
	specs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(specs)
	for _, f := range specs {
		p.loadContracts(f)
	}
	return p, nil
}

// verify proves one function against its contract.
func (p *Prog) verify(ct *Contract, scale int) (x *Exec, fails []Failed, nob, ndis int) {
	fn := p.fns[ct.key]
	fail := func(what, why string) {
		fails = append(fails, Failed{Obligation: ct.key + ": " + what, Function: ct.key, Reason: why})
	}
	if fn == nil {
		fail("function exists", "no function "+ct.key+" in the repository")
		return nil, fails, 1, 0
	}
	mods := map[string]map[string]bool{}
	sorts := map[string]string{}
	for round := 0; ; round++ {
		if round > 25 {
			fail("execution", "modified memory of the loops does not stabilise")
			return x, fails, 1, 0
		}
		x = &Exec{P: p, ct: ct, fn: fn, hinits: map[string]string{}, hsorts: map[string]string{}, strs: map[string]string{}, floats: map[string]string{},
			elts: map[string]bool{}, inlined: map[string]bool{}, assumed: map[string]bool{}, called: map[string]bool{}, boxDecl: map[string]bool{},
			loopMods: mods, modSorts: sorts, binds: map[string]V{}}
		var why string
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch e := r.(type) {
					case unsupported:
						why = e.Error()
					case specErr:
						why = "contract: " + string(e)
					default:
						why = fmt.Sprintf("verifier: %v", r)
						if p.verbose {
							debug.PrintStack()
						}
					}
				}
			}()
			x.execute()
		}()
		x.solver.close()
		if why != "" {
			fail("execution", why)
			return x, fails, 1, 0
		}
		if !x.restart {
			break
		}
	}
	x.solver = nil
	to := *flagTimeout * scale
	if ct.timeout > 0 {
		to = ct.timeout * to / 3000
	}
	x.houdini(*flagHoudini * scale)
	var os_ []*Oblig
	for _, o := range x.obligs {
		if o.cand == nil {
			os_ = append(os_, o)
		} else if o.cand.active {
			nob++
			ndis++
			o.status, o.by = "proved", "z3 5.3.2"
			if o.goal == "true" {
				o.by = "simplification"
			}
		}
	}
	x.discharge(os_, to)
	for _, o := range os_ {
		nob++
		if o.status == "proved" {
			ndis++
		} else {
			fail(o.name, o.kind+" obligation not discharged ("+o.by+")")
			if *flagDump != "" {
				x.dump(o)
			}
		}
	}
	// vacuity: the precondition and at least one exit must not be contradictory
	x.vacuity++
	if r := x.check("z3-new", x.preNode, []string{"false"}, 1500); r[0] == "unsat" {
		fail("vacuity of the precondition", "the assumptions at entry are contradictory")
	}
	if len(x.exitNode) == 0 {
		fail("vacuity of the exits", "no path reaches a return")
	} else {
		ok := false
		for i, n := range x.exitNode {
			if i > 12 {
				break
			}
			x.vacuity++
			if r := x.check("z3-new", n, []string{"false"}, 1500); r[0] != "unsat" {
				ok = true
				break
			}
		}
		if !ok {
			fail("vacuity of the exits", "the assumptions at every return are contradictory")
		}
	}
	// one report per obligation name
	seen := map[string]bool{}
	var fs []Failed
	for _, f := range fails {
		if !seen[f.Obligation] {
			seen[f.Obligation] = true
			fs = append(fs, f)
		}
	}
	return x, fs, nob, ndis
}

func (x *Exec) dump(o *Oblig) {
	os.MkdirAll(*flagDump, 0o755)
	n := strings.NewReplacer("/", "_", " ", "_", "(", "", ")", "", "*", "").Replace(x.ct.key + "-" + o.name)
	if len(n) > 120 {
		n = n[:120]
	}
	s := x.header("z3-new", 20000) + x.rest() + x.acts() + pathText(o.path) + "(assert (not " + o.goal + "))\n(check-sat)\n(get-model)\n"
	for i := 0; ; i++ {
		f := filepath.Join(*flagDump, fmt.Sprintf("%s-%d.smt2", n, i))
		if _, err := os.Stat(f); err != nil {
			os.WriteFile(f, []byte(s), 0o644)
			return
		}
	}
}

// execute runs the function once and collects its obligations.
func (x *Exec) execute() {
	fn, ct := x.fn, x.ct
	x.alloc0 = "alloc0"
	x.elts["Int"], x.elts["Bool"], x.elts["Str"] = true, true, true
	x.solver = newInter()
	x.solver.send(x.preamble(false) + "(declare-const alloc0 Int)\n(assert (< 1 alloc0))\n")
	x.initDecl = append(x.initDecl, "(declare-const alloc0 Int)", "(assert (< 1 alloc0))")
	st := &State{heap: map[string]string{}, alloc: x.alloc0}
	names := ct.params
	if len(names) == 0 {
		for _, p := range fn.Params {
			names = append(names, p.Name())
		}
	}
	if len(names) != len(fn.Params) {
		panic(specErr(fmt.Sprintf("%d parameter names for %d parameters", len(names), len(fn.Params))))
	}
	var args, fv []V
	for i, p := range fn.Params {
		v := x.freshV(st, names[i]+"!p", p.Type())
		args = append(args, v)
		x.binds[names[i]] = v
	}
	for _, p := range fn.FreeVars {
		v := x.freshV(st, p.Name()+"!p", p.Type())
		fv = append(fv, v)
		x.binds[p.Name()] = v
	}
	x.old = st.clone()
	env := &Env{x: x, st: st, old: x.old, binds: x.binds, pkg: ct.pkg}
	for _, r := range ct.requires {
		x.assume(st, env.boolean(r.expr))
	}
	for _, r := range ct.assumes {
		x.assume(st, env.boolean(r.expr))
	}
	x.old = st.clone()
	x.preNode = st.path
	x.callFunction(st, nil, fn, args, fv, func(st *State, res []V) { x.atReturn(st, res) })
}

func (x *Exec) atReturn(st *State, res []V) {
	ct := x.ct
	x.exits++
	if x.restart {
		return
	}
	b := map[string]V{}
	for k, v := range x.binds {
		b[k] = v
	}
	sig := x.fn.Signature
	for i, r := range res {
		r.T = sig.Results().At(i).Type()
		b[pname(ct.results, i)] = r
		b[fmt.Sprintf("result%d", i)] = r
		if len(res) == 1 {
			b["result"] = r
		}
	}
	env := &Env{x: x, st: st, old: x.old, binds: b, pkg: ct.pkg}
	x.exitNode = append(x.exitNode, st.path)
	for i, e := range ct.ensures {
		if e.when != "" && !contains(ct.uses, e.when) {
			continue
		}
		if strings.HasPrefix(e.name, "assumed") {
			x.assumed["in "+ct.key+", not verified: "+e.text] = true
			continue
		}
		g := env.boolean(e.expr)
		x.oblig(st, "post", "ensures "+e.label(i), g)
		if strings.HasPrefix(e.name, "lem") {
			x.assume(st, g) // an intermediate assertion: later postconditions may use it
		}
	}
	if ct.noframe {
		return
	}
	excl := map[string][]string{}
	wild := map[string]bool{}
	envO := &Env{x: x, st: x.old, old: x.old, binds: x.binds, pkg: ct.pkg}
	for _, m := range ct.modifies {
		for _, r := range envO.regions(m.expr) {
			if r.ref == "" {
				wild[r.key] = true
			}
			excl[r.key] = append(excl[r.key], r.ref)
		}
	}
	var keys []string
	for k := range st.heap {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		h, h0 := st.heap[k], x.hinits[k]
		if h == h0 || wild[k] || strings.HasPrefix(k, "IT|") {
			continue
		}
		s := x.hsorts[k]
		if strings.HasPrefix(k, "G|") || !strings.HasPrefix(s, "(Array Int ") {
			x.oblig(st, "frame", "frame: "+heapName(k)+" unchanged", eq(h, h0))
			continue
		}
		if h0 == "" {
			continue
		}
		cs := []string{app("<=", "r?", x.alloc0)}
		for _, r := range excl[k] {
			cs = append(cs, not(eq("r?", r)))
		}
		x.oblig(st, "frame", "frame: "+heapName(k)+" unchanged outside the modifies clause",
			fmt.Sprintf("(forall ((r? Int)) (! (=> %s (= (select %s r?) (select %s r?))) :pattern ((select %s r?))))", and(cs...), h, h0, h))
	}
}

package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

const maxPaths = 20000

// Inter is an interactive solver used to prune infeasible branches.
type Inter struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	dead   bool
	keys   map[string]bool
	checks int
}

func newInter() *Inter {
	c := exec.Command("z3-new", "-in", "-smt2")
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	c.Stderr = nil
	if err := c.Start(); err != nil {
		return &Inter{dead: true, keys: map[string]bool{}}
	}
	i := &Inter{keys: map[string]bool{}, cmd: c, in: in, out: bufio.NewReaderSize(out, 1<<16)}
	i.send("(set-option :global-declarations true)\n(set-option :timeout 5000)\n(set-option :rlimit 300000)")
	return i
}

func (i *Inter) send(s string) {
	if i == nil || i.dead {
		return
	}
	if _, err := io.WriteString(i.in, s+"\n"); err != nil {
		i.dead = true
	}
}

func (i *Inter) push() { i.send("(push)") }
func (i *Inter) pop()  { i.send("(pop)") }

func (i *Inter) feasible() bool {
	if i == nil || i.dead {
		return true
	}
	i.checks++
	i.send("(check-sat)")
	for {
		l, err := i.out.ReadString('\n')
		if err != nil {
			i.dead = true
			return true
		}
		l = strings.TrimSpace(l)
		switch l {
		case "sat", "unknown", "timeout":
			return true
		case "unsat":
			return false
		}
		if strings.HasPrefix(l, "(error") {
			if debugSolver {
				fmt.Println("solver:", l)
			}
			continue
		}
	}
}

func (i *Inter) close() {
	if i == nil || i.cmd == nil {
		return
	}
	i.in.Close()
	i.cmd.Process.Kill()
	i.cmd.Wait()
}

var debugSolver bool

var sem = make(chan struct{}, 8)

var statMu sync.Mutex
var solverSecs float64

// runSolver runs a script and returns the answers in order.
func runSolver(name string, script string, limit time.Duration) []string {
	sem <- struct{}{}
	defer func() { <-sem }()
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	var c *exec.Cmd
	switch name {
	case "z3-new relevancy":
		c = exec.CommandContext(ctx, "z3-new", "-in", "-smt2", "smt.relevancy=0")
	case "z3-new", "z3-new split":
		c = exec.CommandContext(ctx, "z3-new", "-in", "-smt2")
	case "z3":
		c = exec.CommandContext(ctx, "z3", "-in", "-smt2")
	default:
		c = exec.CommandContext(ctx, "cvc5", "--lang=smt2", "--incremental", "-")
	}
	c.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	c.Stdout = &out
	t := time.Now()
	c.Run()
	statMu.Lock()
	solverSecs += time.Since(t).Seconds()
	statMu.Unlock()
	var r []string
	for _, l := range strings.Split(out.String(), "\n") {
		l = strings.TrimSpace(l)
		switch l {
		case "sat", "unsat", "unknown", "timeout":
			r = append(r, l)
		default:
			if strings.HasPrefix(l, "(error") && debugSolver {
				fmt.Println(l)
			}
		}
	}
	return r
}

func (x *Exec) header(solver string, timeout int) string {
	var b strings.Builder
	if solver == "cvc5" {
		b.WriteString("(set-logic ALL)\n")
		fmt.Fprintf(&b, "(set-option :tlimit-per %d)\n", 2*timeout)
	} else {
		// the resource limit decides, so that a loaded machine does not change the outcome; the time limit is a safety net
		fmt.Fprintf(&b, "(set-option :rlimit %d)\n(set-option :timeout %d)\n(set-option :smt.mbqi false)\n(set-option :auto_config false)\n", timeout*2500, timeout*5)
		if solver == "z3-new" {
			b.WriteString("(set-option :smt.case_split 3)\n(set-option :smt.solve_eqs false)\n")
		}
	}
	b.WriteString(x.preamble(true))
	return b.String()
}

// preamble: sorts, element access functions, specification prelude, initial heap.
func (x *Exec) preamble(axioms bool) string {
	var b strings.Builder
	b.WriteString(basePrelude)
	mu.Lock()
	for _, n := range sortedKeys(keySorts) {
		b.WriteString(keyDecl(n, keySorts[n]))
		if x.solver != nil {
			x.solver.keys[n] = true
		}
	}
	mu.Unlock()
	var es []string
	for s := range x.elts {
		es = append(es, s)
	}
	for _, s := range []string{"Int", "Bool", "Str"} {
		if !x.elts[s] {
			es = append(es, s)
		}
	}
	sort.Strings(es)
	for _, s := range es {
		f := "elt_" + sortName(s)
		fmt.Fprintf(&b, "(declare-fun %s ((Array Int %s) Int Int) %s)\n", f, s, s)
		if axioms {
			fmt.Fprintf(&b, "(assert (forall ((a (Array Int %s)) (o Int) (k Int)) (! (= (%s a o k) (select a (+ o k))) :pattern ((%s a o k)))))\n", s, f, f)
			fmt.Fprintf(&b, "(assert (forall ((a (Array Int %s)) (i Int) (v %s) (o Int) (k Int)) (! (= (%s (store a i v) o k) (ite (= i (+ o k)) v (%s a o k))) :pattern ((%s (store a i v) o k)) :pattern ((store a i v) (%s a o k)))))\n", s, s, f, f, f, f)
		}
	}
	used := map[string]bool{}
	for _, u := range x.ct.uses {
		if used[u] {
			continue
		}
		used[u] = true
		t, ok := x.P.prelude[u]
		if !ok {
			panic("unknown prelude " + u)
		}
		if axioms {
			b.WriteString(t)
		} else {
			for _, e := range sexps(t) {
				if !strings.HasPrefix(e, "(assert (forall") {
					b.WriteString(e + "\n")
				}
			}
		}
	}
	return b.String()
}

func (x *Exec) rest() string {
	var b strings.Builder
	var names []string
	for s, n := range x.strs {
		if strings.HasPrefix(n, "str_") {
			names = append(names, n)
			_ = s
		}
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Fprintf(&b, "(declare-const %s Str)\n", n)
	}
	if len(names) > 0 {
		fmt.Fprintf(&b, "(assert (distinct str_empty %s))\n", strings.Join(names, " "))
	}
	names = nil
	for _, n := range x.floats {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Fprintf(&b, "(declare-const %s F64)\n", n)
	}
	for _, d := range x.initDecl {
		b.WriteString(d + "\n")
	}
	return b.String()
}

func (x *Exec) acts() string {
	var b strings.Builder
	for _, c := range x.cands {
		fmt.Fprintf(&b, "(define-fun %s () Bool %v)\n", c.id, c.active)
	}
	return b.String()
}

func pathText(p *Path) string {
	var parts []string
	for ; p != nil; p = p.up {
		parts = append(parts, p.text)
	}
	var b strings.Builder
	for i := len(parts) - 1; i >= 0; i-- {
		b.WriteString(parts[i])
		b.WriteByte('\n')
	}
	return b.String()
}

// check decides the goals under one path; answers "unsat" mean proved.
func (x *Exec) check(solver string, p *Path, goals []string, timeout int) []string {
	var b strings.Builder
	b.WriteString(x.header(solver, timeout))
	b.WriteString(x.rest())
	b.WriteString(x.acts())
	b.WriteString(pathText(p))
	if len(goals) == 1 {
		fmt.Fprintf(&b, "(assert (not %s))\n(check-sat)\n", goals[0])
		goals = nil
	}
	for _, g := range goals {
		fmt.Fprintf(&b, "(push 1)\n(assert (not %s))\n(check-sat)\n(pop 1)\n", g)
	}
	ng := len(goals)
	if ng == 0 {
		ng = 1
	}
	lim := time.Duration(ng*(5*timeout+100)+3000) * time.Millisecond
	r := runSolver(solver, b.String(), lim)
	for len(r) < ng {
		r = append(r, "timeout")
	}
	return r
}

type group struct {
	path *Path
	os   []*Oblig
}

func groups(os []*Oblig) []*group {
	m := map[*Path]*group{}
	var r []*group
	for _, o := range os {
		g := m[o.path]
		if g == nil || len(g.os) >= 24 {
			g = &group{path: o.path}
			m[o.path] = g
			r = append(r, g)
		}
		g.os = append(g.os, o)
	}
	return r
}

// houdini drops candidates until the rest is inductive.
func (x *Exec) houdini(timeout int) {
	var cs []*Oblig
	for _, o := range x.obligs {
		if o.cand != nil {
			cs = append(cs, o)
		}
	}
	dirty := map[*Oblig]bool{}
	for _, o := range cs {
		if o.cand.active {
			dirty[o] = true
		}
	}
	for round := 0; len(dirty) > 0; round++ {
		var todo []*Oblig
		for _, o := range cs {
			if dirty[o] && o.cand.active {
				if o.goal == "true" {
					continue
				}
				todo = append(todo, o)
			}
		}
		dirty = map[*Oblig]bool{}
		gs := groups(todo)
		var wg sync.WaitGroup
		var m sync.Mutex
		dropped := map[string]bool{}
		for _, g := range gs {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				var goals []string
				for _, o := range g.os {
					goals = append(goals, o.goal)
				}
				r := x.check("z3-new", g.path, goals, timeout)
				for i, o := range g.os {
					// goals that follow others in one run are harder: a second chance alone
					if r[i] != "unsat" && o.cand.user && len(goals) > 1 {
						m.Lock()
						skip := dropped[o.cand.id]
						m.Unlock()
						if !skip {
							r[i] = x.check("z3-new", o.path, []string{o.goal}, timeout)[0]
						}
					}
					if r[i] != "unsat" {
						m.Lock()
						dropped[o.cand.id] = true
						m.Unlock()
					}
				}
				m.Lock()
				for i, o := range g.os {
					if r[i] != "unsat" && o.cand.active {
						if dbg := os.Getenv("GOVER_CAND"); dbg != "" && strings.Contains(o.cand.text, dbg) {
							x.dump(o)
							fmt.Println("dropped", o.cand.text, r[i], o.name)
						}
						dropped[o.cand.id] = true
					}
				}
				m.Unlock()
			}()
		}
		wg.Wait()
		if len(dropped) == 0 {
			return
		}
		for _, c := range x.cands {
			if dropped[c.id] {
				c.active = false
			}
		}
		// obligations whose hypotheses mention a dropped candidate must be proved again
		memo := map[*Path]bool{}
		var has func(p *Path) bool
		has = func(p *Path) bool {
			if p == nil {
				return false
			}
			if v, ok := memo[p]; ok {
				return v
			}
			v := false
			if strings.HasPrefix(p.text, "(assert (=> act!") {
				id := p.text[len("(assert (=> "):]
				id = id[:strings.IndexAny(id, " )")]
				v = dropped[id]
			}
			v = v || has(p.up)
			memo[p] = v
			return v
		}
		for _, o := range cs {
			if o.cand.active && o.goal != "true" && has(o.path) {
				dirty[o] = true
			}
		}
	}
}

// discharge proves the final obligations.
func (x *Exec) discharge(os []*Oblig, timeout int) {
	var todo []*Oblig
	for _, o := range os {
		if o.goal == "true" {
			o.status, o.by = "proved", "simplification"
			continue
		}
		todo = append(todo, o)
	}
	var wg sync.WaitGroup
	for _, g := range groups(todo) {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			var goals []string
			for _, o := range g.os {
				goals = append(goals, o.goal)
			}
			t := time.Now()
			r := x.check("z3-new", g.path, goals, timeout)
			d := time.Since(t).Seconds() / float64(len(goals))
			var fw sync.WaitGroup
			for i, o := range g.os {
				o.secs = d
				if r[i] == "unsat" {
					o.status, o.by = "proved", "z3 5.3.2"
					continue
				}
				fw.Add(1)
				go func() {
					defer fw.Done()
					x.fallback(o, timeout)
				}()
			}
			fw.Wait()
		}()
	}
	wg.Wait()
}

// fallback tries an obligation on its own, with other solvers and settings.
func (x *Exec) fallback(o *Oblig, timeout int) {
	last := ""
	for _, s := range []string{"z3-new", "z3-new split", "z3-new relevancy", "z3", "cvc5"} {
		r := x.check(s, o.path, []string{o.goal}, timeout)
		last += " " + s + ": " + r[0]
		if r[0] == "unsat" {
			o.status, o.by = "proved", map[string]string{"z3": "z3 4.8.12", "cvc5": "cvc5 1.1.2"}[s]
			if o.by == "" {
				o.by = "z3 5.3.2"
			}
			return
		}
	}
	o.status, o.by = "failed", strings.TrimSpace(last)
}

const basePrelude = `(declare-sort Str 0)
(declare-sort F64 0)
(declare-const str_empty Str)
(declare-const f64_zero F64)
(declare-fun strlen (Str) Int)
(declare-fun strat (Str Int) Int)
(declare-fun strcat (Str Str) Str)
(declare-fun strlt (Str Str) Bool)
(declare-fun f64_add (F64 F64) F64)
(declare-fun f64_sub (F64 F64) F64)
(declare-fun f64_mul (F64 F64) F64)
(declare-fun f64_div (F64 F64) F64)
(declare-fun f64_neg (F64) F64)
(declare-fun f64_lt (F64 F64) Bool)
(declare-fun f64_le (F64 F64) Bool)
(declare-fun f64_gt (F64 F64) Bool)
(declare-fun f64_ge (F64 F64) Bool)
(declare-fun f64_eq (F64 F64) Bool)
(declare-fun i2f (Int) F64)
(declare-fun f2i (F64) Int)
(declare-fun typeof (Int) Int)
(declare-fun band (Int Int) Int)
(declare-fun bor (Int Int) Int)
(declare-fun bxor (Int Int) Int)
(declare-fun bnot (Int) Int)
(declare-fun bandnot (Int Int) Int)
(declare-fun pow2 (Int) Int)
(define-fun tdiv ((x Int) (y Int)) Int (ite (>= x 0) (div x y) (- (div (- x) y))))
(define-fun trem ((x Int) (y Int)) Int (- x (* y (ite (>= x 0) (div x y) (- (div (- x) y))))))
(define-fun bxor1 ((x Int)) Int (ite (= (mod x 2) 0) (+ x 1) (- x 1)))
`

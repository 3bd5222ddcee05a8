package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"

	f "github.com/booleworks/logicng-go/formula"
)

// A Case is one evaluation of a contract on the real code.
type Case struct {
	R      *rand.Rand
	Fam    string
	Idx    int
	Tier   string
	desc   []string
	key    string // distinctness key
	triv   bool
	giveUp bool
	consv  bool
	errs   []string
	hits   map[string]int // how often each contract clause was actually evaluated
}

func (c *Case) Log(format string, a ...any) {
	if len(c.desc) < 60 {
		c.desc = append(c.desc, fmt.Sprintf(format, a...))
	}
}
func (c *Case) Fail(format string, a ...any) { c.errs = append(c.errs, fmt.Sprintf(format, a...)) }
func (c *Case) Check(ok bool, clause, format string, a ...any) bool {
	c.hits[clause]++
	if !ok {
		c.Fail(clause+": "+format, a...)
	}
	return ok
}
func (c *Case) Fac() f.Factory {
	cons := c.R.Intn(4) == 0
	c.consv = cons
	c.Log("factory conserveVars=%v", cons)
	return f.NewFactory(cons)
}

// A Family is a set of cases checking the contracts of some functions.
type Family struct {
	Name  string
	Funcs string // functions of the real code whose contracts are evaluated
	Bound string // stated bound
	Quick int
	Thor  int
	Run   func(c *Case)
}

var props = map[string][]Family{}

func reg(id string, fams ...Family) { props[id] = append(props[id], fams...) }

type Failure struct {
	Family string   `json:"family"`
	Idx    int      `json:"idx"`
	Desc   []string `json:"case"`
	Errs   []string `json:"failed_contract_clauses"`
}
type FamRes struct {
	Name     string         `json:"family"`
	Funcs    string         `json:"functions"`
	Bound    string         `json:"bound"`
	Evals    int            `json:"evaluations"`
	GivenUp  int            `json:"oracle_gave_up"`
	Distinct int            `json:"distinct_nontrivial"`
	Clauses  map[string]int `json:"clauses_evaluated"`
	Samples  []string       `json:"samples"`
}
type Result struct {
	Prop     string    `json:"property"`
	Families []*FamRes `json:"families"`
	Failures []Failure `json:"failures"`
	Complete bool      `json:"complete"`
}

func seedFor(seed int64, fam string, idx int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, fam, idx)
	return int64(h.Sum64() >> 1)
}

var scale = 1
var skipCases string
var curCase atomic.Value
var curFam atomic.Value
var curStart atomic.Int64

func runCase(fam *Family, idx int, seed int64, tier string) (c *Case) {
	defer func() { curCase.Store((*Case)(nil)) }()
	c = &Case{R: rand.New(rand.NewSource(seedFor(seed, fam.Name, idx))), Fam: fam.Name, Idx: idx, Tier: tier, hits: map[string]int{}}
	curCase.Store(c)
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(inconclusive); ok {
				c.giveUp = true
				return
			}
			if oe, ok := p.(oracleErr); ok {
				c.Fail("result is malformed: %s", oe.msg)
				return
			}
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 1500 {
				st = st[:1500]
			}
			c.Fail("panic: %v\n%s", p, st)
		}
	}()
	fam.Run(c)
	return c
}

func dumpCase() {
	if c, _ := curCase.Load().(*Case); c != nil {
		fmt.Fprintln(os.Stderr, strings.Join(c.desc, "; "))
	}
}

func worker(id, tier string, seed int64, shard, shards int, onlyFam string, onlyCase int, progress string, limit time.Duration) {
	begin := time.Now()
	res := Result{Prop: id, Complete: true}
	pf, _ := os.OpenFile(progress, os.O_CREATE|os.O_WRONLY, 0o644)
	debug.SetMaxStack(256 << 20)
	curFam.Store("")
	curStart.Store(time.Now().UnixNano())
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			el := time.Since(time.Unix(0, curStart.Load()))
			if el > 100*time.Second {
				fmt.Fprintf(os.Stderr, "HANG case ran for %v\n", el)
				dumpCase()
				os.Exit(3)
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 3<<30 {
				fmt.Fprintf(os.Stderr, "MEMORY case used %d bytes\n", ms.HeapAlloc)
				dumpCase()
				os.Exit(4)
			}
		}
	}()
	fams := props[id]
	for fi := range fams {
		fam := &fams[fi]
		if onlyFam != "" && fam.Name != onlyFam {
			continue
		}
		fr := &FamRes{Name: fam.Name, Funcs: fam.Funcs, Bound: fam.Bound, Clauses: map[string]int{}}
		res.Families = append(res.Families, fr)
		cnt := fam.Quick
		if tier == "thorough" {
			cnt = fam.Thor
			if cnt == 0 {
				cnt = fam.Quick * 20
			}
		} else {
			cnt = fam.Quick * scale
		}
		deadline := begin.Add(limit * time.Duration(fi+1) / time.Duration(len(fams)))
		distinct := map[uint64]bool{}
		nfail := 0
		for idx := shard; idx < cnt; idx += shards {
			if onlyCase >= 0 && idx != onlyCase {
				continue
			}
			if time.Now().After(deadline) {
				res.Complete = false
				break
			}
			if pf != nil {
				pf.WriteAt([]byte(fmt.Sprintf("%-40s %12d\n", fam.Name, idx)), 0)
			}
			curStart.Store(time.Now().UnixNano())
			if strings.Contains(skipCases, fmt.Sprintf("%s/%d,", fam.Name, idx)) {
				fr.GivenUp++
				continue
			}
			c := runCase(fam, idx, seed, tier)
			if c.giveUp && len(c.errs) == 0 {
				fr.GivenUp++
				continue
			}
			fr.Evals++
			for k, v := range c.hits {
				fr.Clauses[k] += v
			}
			if !c.triv {
				h := fnv.New64a()
				h.Write([]byte(c.key + strings.Join(c.desc, "\n")))
				distinct[h.Sum64()] = true
			}
			if len(fr.Samples) < 1 && len(c.desc) > 0 && !c.triv {
				fr.Samples = append(fr.Samples, strings.Join(c.desc, "; "))
			}
			if len(c.errs) > 0 {
				res.Failures = append(res.Failures, Failure{fam.Name, idx, c.desc, c.errs})
				if nfail++; nfail >= 3 {
					break
				}
			}
		}
		fr.Distinct = len(distinct)
	}
	json.NewEncoder(os.Stdout).Encode(res)
}

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "tier")
	seed := flag.Int64("seed", 1, "seed")
	shard := flag.Int("shard", -1, "internal")
	shards := flag.Int("shards", 8, "worker processes")
	fam := flag.String("family", "", "only this family")
	idx := flag.Int("case", -1, "only this case")
	out := flag.String("out", "", "result file")
	progress := flag.String("progress", "", "internal")
	limit := flag.Int("limit", 600, "seconds before the exploration stops early")
	flag.StringVar(&skipCases, "skip", "", "internal")
	flag.IntVar(&scale, "scale", 1, "factor for the number of quick cases")
	list := flag.Bool("list", false, "list properties")
	find := flag.String("findings", "", "run the witnesses of the recorded findings of a property")
	flag.Parse()
	if *find != "" {
		runFindings(*find)
		return
	}
	if *list {
		for p, fs := range props {
			for _, x := range fs {
				fmt.Println(p, x.Name, x.Quick, x.Funcs)
			}
		}
		return
	}
	if len(props[*prop]) == 0 {
		fmt.Fprintln(os.Stderr, "no families for", *prop)
		os.Exit(2)
	}
	if *shard >= 0 {
		runtime.GOMAXPROCS(2)
		worker(*prop, *tier, *seed, *shard, *shards, *fam, *idx, *progress, time.Duration(*limit)*time.Second)
		return
	}
	if *idx >= 0 {
		*shards = 1
	}
	type ret struct {
		res Result
		err string
	}
	ch := make(chan ret, *shards)
	exe, _ := os.Executable()
	dir, _ := os.MkdirTemp("", "vdrv")
	defer os.RemoveAll(dir)
	for i := 0; i < *shards; i++ {
		go func(i int) {
			pr := fmt.Sprintf("%s/p%d", dir, i)
			skip := ""
			var r Result
		again:
			r = Result{}
			cmd := exec.Command(exe, "-skip", skip, "-prop", *prop, "-tier", *tier, "-seed", fmt.Sprint(*seed), "-shard", fmt.Sprint(i), "-shards", fmt.Sprint(*shards),
				"-family", *fam, "-case", fmt.Sprint(*idx), "-progress", pr, "-limit", fmt.Sprint(*limit), "-scale", fmt.Sprint(scale))
			so, se := new(strings.Builder), new(strings.Builder)
			cmd.Stdout, cmd.Stderr = so, se
			cmd.Dir = dir
			err := cmd.Run()
			if err != nil || json.Unmarshal([]byte(so.String()), &r) != nil {
				b, _ := os.ReadFile(pr)
				var fn string
				var ix int
				fmt.Sscan(string(b), &fn, &ix)
				if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 4 && strings.Count(skip, ",") < 10 {
					// the result is too large: counted as given up
					skip += fmt.Sprintf("%s/%d,", fn, ix)
					goto again
				}
				e := se.String()
				if len(e) > 1500 {
					e = e[:1500]
				}
				ch <- ret{Result{Failures: []Failure{{fn, ix, []string{"worker process died"}, []string{fmt.Sprintf("crash or hang: %v\n%s", err, e)}}}}, "x"}
				return
			}
			ch <- ret{r, ""}
		}(i)
	}
	tot := Result{Prop: *prop, Complete: true}
	byName := map[string]*FamRes{}
	for i := 0; i < *shards; i++ {
		r := <-ch
		if r.err != "" {
			tot.Complete = false
		} else {
			tot.Complete = tot.Complete && r.res.Complete
		}
		tot.Failures = append(tot.Failures, r.res.Failures...)
		for _, fr := range r.res.Families {
			t := byName[fr.Name]
			if t == nil {
				byName[fr.Name] = fr
				tot.Families = append(tot.Families, fr)
				continue
			}
			t.Evals += fr.Evals
			t.Distinct += fr.Distinct
			for k, v := range fr.Clauses {
				t.Clauses[k] += v
			}
			if len(t.Samples) < 2 {
				t.Samples = append(t.Samples, fr.Samples...)
			}
		}
	}
	b, _ := json.MarshalIndent(tot, "", " ")
	if *out != "" {
		os.WriteFile(*out, b, 0o644)
	} else {
		fmt.Println(string(b))
	}
	if len(tot.Failures) > 0 {
		os.Exit(1)
	}
}

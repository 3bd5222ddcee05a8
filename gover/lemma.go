package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"
)

// lemma: an axiom of a prelude which is proved by induction from what precedes it.
type lemma struct {
	name, file, kind, on string
	needs, skolem, hints, wits []string
	before, axiom        string
}

var symRe = regexp.MustCompile(`[^\s()]+`)

// subst replaces symbols in an expression.
func subst(e string, m map[string]string) string {
	return symRe.ReplaceAllStringFunc(e, func(t string) string {
		if r, ok := m[t]; ok {
			return r
		}
		return t
	})
}

// unskolem replaces the applications of a witness function by a symbol.
func unskolem(e, f, by string) string {
	for {
		i := strings.Index(e, "("+f+" ")
		if i < 0 {
			return e
		}
		d, j := 0, i
		for ; j < len(e); j++ {
			if e[j] == '(' {
				d++
			}
			if e[j] == ')' {
				d--
				if d == 0 {
					break
				}
			}
		}
		e = e[:i] + by + e[j+1:]
	}
}

// scripts of the proof obligations of a lemma.
func (p *Prog) lemmaGoals(l *lemma) []string {
	as := sexps(l.axiom[1 : len(l.axiom)-1])[1]
	q := sexps(as[1 : len(as)-1]) // forall vars body
	body := q[2]
	if strings.HasPrefix(body, "(! ") {
		body = sexps(body[1 : len(body)-1])[1]
	}
	var decl strings.Builder
	m := map[string]string{}
	for _, v := range sexps(q[1][1 : len(q[1])-1]) {
		vs := sexps(v[1 : len(v)-1])
		m[vs[0]] = vs[0] + "!"
		fmt.Fprintf(&decl, "(declare-const %s! %s)\n", vs[0], vs[1])
	}
	at := func(on string) map[string]string {
		r := map[string]string{}
		for k, v := range m {
			r[k] = v
		}
		r[l.on] = on
		return r
	}
	on := l.on + "!"
	for i, w := range l.skolem {
		body = unskolem(body, w, fmt.Sprintf("w?%d", i))
	}
	// the goal is that there is a witness: refuted at the witnesses of the hypothesis and at the last index
	neg := func() string {
		b := subst(body, m)
		var r []string
		if len(l.skolem) == 0 {
			return "(assert (not " + b + "))\n"
		}
		for k := 0; k < 2+len(l.wits); k++ {
			var ws []string
			for i := range l.skolem {
				if k == 0 {
					ws = append(ws, fmt.Sprintf("wh!%d", i))
				} else if k == 1 {
					ws = append(ws, "(- "+on+" 1)")
				} else {
					ws = append(ws, subst(l.wits[k-2], m))
				}
			}
			mm := map[string]string{}
			for i, w := range ws {
				mm[fmt.Sprintf("w?%d", i)] = w
			}
			r = append(r, "(assert (not "+subst(b, mm)+"))\n")
		}
		return strings.Join(r, "")
	}
	for i := range l.skolem {
		fmt.Fprintf(&decl, "(declare-const wh!%d Int)\n", i)
	}
	if len(l.hints) > 0 {
		decl.WriteString("(declare-fun hint! (Int) Bool)\n")
	}
	for _, h := range l.hints {
		fmt.Fprintf(&decl, "(assert (hint! %s))\n", subst(h, m))
	}
	hyp := func(on string) string {
		b := subst(body, at(on))
		mm := map[string]string{}
		for i := range l.skolem {
			mm[fmt.Sprintf("w?%d", i)] = fmt.Sprintf("wh!%d", i)
		}
		return subst(b, mm)
	}
	switch l.kind {
	case "direct":
		return []string{decl.String() + neg()}
	case "induct":
		base := decl.String() + fmt.Sprintf("(assert (<= %s 0))\n", on) + neg()
		step := decl.String() + fmt.Sprintf("(assert (> %s 0))\n(assert %s)\n", on, hyp("(- "+on+" 1)")) + neg()
		return []string{base, step}
	case "struct":
		// the axiom as hypothesis for the immediate operands of the formula
		s := decl.String()
		for _, c := range []string{"notop", "bl", "br"} {
			s += "(assert " + hyp("("+c+" "+on+")") + ")\n"
		}
		s += "(assert (forall ((k! Int)) (! " + hyp("(nop "+on+" k!)") + " :pattern ((nop " + on + " k!)))))\n"
		return []string{s + neg()}
	}
	panic("unknown induction " + l.kind)
}

func (p *Prog) verifyLemma(l *lemma) (fails []Failed, n, ok int) {
	x := &Exec{P: p, ct: &Contract{uses: append(append([]string{}, l.needs...), "lemma!"+l.file+"!"+l.name)}, elts: map[string]bool{"Int": true}}
	for i, g := range p.lemmaGoals(l) {
		n++
		done := false
		ans := ""
		for _, s := range []string{"z3-new", "z3-new split", "cvc5"} {
			t := x.header(s, *flagTimeout*2) + g + "(check-sat)\n"
			if *flagDump != "" && s == "z3-new" {
				os.MkdirAll(*flagDump, 0o755)
				os.WriteFile(filepath.Join(*flagDump, fmt.Sprintf("lemma-%s-%s-%d.smt2", l.file, l.name, i)), []byte(t), 0o644)
			}
			r := runSolver(s, t, time.Duration(*flagTimeout)*12*time.Millisecond)
			if len(r) > 0 {
				ans += " " + s + ": " + r[0]
			}
			if len(r) > 0 && r[0] == "unsat" {
				done = true
				break
			}
		}
		if done {
			ok++
		} else {
			fails = append(fails, Failed{Obligation: fmt.Sprintf("lemma %s.%s case %d", l.file, l.name, i), Function: "lemma", Reason: "not discharged (" + strings.TrimSpace(ans) + ")"})
		}
	}
	return
}

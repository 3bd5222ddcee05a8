package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type clause struct {
	name string
	when string
	text string
	expr ast.Expr
}

func (c clause) label(i int) string {
	if c.name != "" {
		return c.name
	}
	t := c.text
	if len(t) > 70 {
		t = t[:70] + "..."
	}
	return t
}

// Template is a loop invariant schema: its variables range over the values in scope at a loop.
type Template struct {
	vars  []tvar
	expr  ast.Expr
	text  string
	guard bool
}

type tvar struct{ name, typ string }

type Contract struct {
	key       string
	pkg       string
	params    []string
	results   []string
	requires  []clause
	ensures   []clause
	modifies  []clause
	assumes   []clause // ghost assumptions at entry (choice of the assignment, prophecies)
	invs      []Template
	defs      []defRule
	props     []string
	trusted   string // reason why the contract is assumed
	pure      bool
	inline    bool
	noframe   bool
	timeout   int
	file      string
	fn        *ssa.Function
	uses      []string
	loadFacts []clause
}

// defRule: inserting (key, value) into the map field makes the formula definition true
type defRule struct {
	field string // e.g. "formula.CachingFactory.ands"
	req   ast.Expr
	def   ast.Expr
	text  string
}

type macro struct {
	params []string
	expr   ast.Expr
}

type specFn struct {
	args []string
	ret  string
}

type ghost struct {
	args []string // 0 or 1 index sort
	sort string
}

type Prog struct {
	prog      *ssa.Program
	fns       map[string]*ssa.Function
	contracts map[string]*Contract
	order     []string
	macros    map[string]macro
	specs     map[string]specFn
	ghosts    map[string]ghost
	prelude   map[string]string
	lemmas    []*lemma // file -> smt text
	boxes     map[string]string
	consts    map[string]types.Object
	pkgs      map[string]*types.Package
	verbose   bool
}

func (p *Prog) declBox(x *Exec, n string, T types.Type) {
	if x.boxDecl[n] {
		return
	}
	x.boxDecl[n] = true
	var sorts []string
	d := ""
	for i, l := range leaves(T) {
		sorts = append(sorts, l.sort)
		d += fmt.Sprintf("(declare-fun un%s_%d (Int) %s)\n", n, i, l.sort)
	}
	d += fmt.Sprintf("(declare-fun %s (%s) Int)\n", n, strings.Join(sorts, " "))
	x.initDecl = append(x.initDecl, d)
	x.solverDecl(d)
	// boxes of equal content are equal; content and type of a box
	var vs, bs []string
	for i, s := range sorts {
		vs = append(vs, fmt.Sprintf("v%d", i))
		bs = append(bs, fmt.Sprintf("(v%d %s)", i, s))
	}
	if len(vs) > 0 {
		t := app(n, vs...)
		var cs []string
		for i := range vs {
			cs = append(cs, app("=", app(fmt.Sprintf("un%s_%d", n, i), t), vs[i]))
		}
		x.initDecl = append(x.initDecl, fmt.Sprintf("(assert (forall (%s) (! (and %s (= (typeof %s) %s) (not (= %s 0))) :pattern (%s))))", strings.Join(bs, " "), and(cs...), t, x.typeID(T), t, t))
	}
}

var reDecl = regexp.MustCompile(`\((declare-fun|define-fun|define-fun-rec)\s+([^\s()]+)\s+\(`)

// sexps splits a string into top-level s-expressions.
func sexps(s string) []string {
	var r []string
	depth, start := 0, -1
	for i, c := range s {
		switch {
		case c == '(':
			if depth == 0 && start < 0 {
				start = i
			}
			depth++
		case c == ')':
			depth--
			if depth == 0 {
				r = append(r, s[start:i+1])
				start = -1
			}
		case c == ' ' || c == '\n' || c == '\t':
			if depth == 0 && start >= 0 {
				r = append(r, s[start:i])
				start = -1
			}
		default:
			if start < 0 {
				start = i
			}
		}
	}
	if start >= 0 {
		r = append(r, s[start:])
	}
	return r
}

func stripComments(s string) string {
	var b strings.Builder
	for _, l := range strings.Split(s, "\n") {
		if i := strings.Index(l, ";"); i >= 0 {
			l = l[:i]
		}
		b.WriteString(l + "\n")
	}
	return b.String()
}

func (p *Prog) loadPrelude(file string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	name := strings.TrimSuffix(filepath.Base(file), ".smt2")
	var needs []string
	var body strings.Builder
	for _, e := range sexps(stripComments(string(b))) {
		in := sexps(e[1 : len(e)-1])
		if in[0] == "needs" {
			needs = in[1:]
			continue
		}
		if in[0] == "lemma" {
			// (lemma NAME (induct n | struct f) (skolem w ...) (assert ...)): proved, then used as an axiom
			l := &lemma{name: in[1], file: name, needs: needs, before: body.String(), axiom: in[len(in)-1]}
			how := sexps(in[2][1 : len(in[2])-1])
			l.kind, l.on = how[0], how[1]
			for _, a := range in[3 : len(in)-1] {
				if q := sexps(a[1 : len(a)-1]); q[0] == "hint" {
					l.hints = append(l.hints, q[1:]...)
				} else if q[0] == "wit" { // further terms to try as witness
					l.wits = append(l.wits, q[1:]...)
				} else {
					l.skolem = append(l.skolem, q[1:]...)
				}
			}
			p.lemmas = append(p.lemmas, l)
			p.prelude["lemma!"+name+"!"+l.name] = l.before
			e = l.axiom
		}
		body.WriteString(e + "\n")
	}
	text := body.String()
	for _, e := range sexps(text) {
		in := sexps(e[1 : len(e)-1])
		switch in[0] {
		case "declare-fun":
			p.specs[in[1]] = specFn{sexps(in[2][1 : len(in[2])-1]), in[3]}
		case "declare-const":
			p.specs[in[1]] = specFn{nil, in[2]}
		case "define-fun", "define-fun-rec":
			var a []string
			for _, q := range sexps(in[2][1 : len(in[2])-1]) {
				a = append(a, sexps(q[1 : len(q)-1])[1])
			}
			p.specs[in[1]] = specFn{a, in[3]}
		}
	}
	p.prelude[name] = text
	return nil
}

func mustExpr(t, where string) ast.Expr {
	e, err := parser.ParseExpr(t)
	if err != nil {
		panic(fmt.Sprintf("%s: %v in %q", where, err, t))
	}
	return e
}

var reHead = regexp.MustCompile(`^(\S+)\(([^()]*)\)\s*(?:\(([^()]*)\))?$`)

func splitNames(s string) []string {
	var r []string
	for _, n := range strings.Split(s, ",") {
		n = strings.TrimSpace(n)
		if n != "" {
			r = append(r, n)
		}
	}
	return r
}

var keywords = []string{"func", "iface", "define", "ghost", "requires", "ensures", "modifies", "inv", "prop", "trusted", "pure", "inline", "use", "assume", "noframe", "timeout", "def", "load"}

func (p *Prog) loadContracts(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	var lines []string
	for _, l := range strings.Split(string(b), "\n") {
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		w := strings.Fields(t)[0]
		kw := false
		for _, k := range keywords {
			if w == k {
				kw = true
			}
		}
		if kw {
			lines = append(lines, t)
		} else {
			if len(lines) == 0 {
				panic(file + ": stray line " + t)
			}
			lines[len(lines)-1] += " " + t
		}
	}
	var cur *Contract
	var uses, props []string
	for _, l := range lines {
		w := strings.Fields(l)[0]
		rest := strings.TrimSpace(strings.TrimPrefix(l, w))
		cl := func() clause {
			c := clause{}
			t := rest
			if strings.HasPrefix(t, "@") { // only for functions which use the prelude
				c.when = strings.Fields(t)[0][1:]
				t = strings.TrimSpace(t[1+len(c.when):])
			}
			if m := regexp.MustCompile(`^([A-Za-z][\w-]*):\s`).FindStringSubmatch(t); m != nil {
				c.name = m[1]
				t = t[len(m[0]):]
			}
			c.text = t
			c.expr = mustExpr(t, file)
			return c
		}
		switch w {
		case "use":
			if cur == nil {
				uses = append(uses, strings.Fields(rest)...)
			} else {
				cur.uses = append(cur.uses, strings.Fields(rest)...)
			}
		case "func", "iface":
			i := strings.Index(rest, "(")
			// the key may itself contain a receiver in parentheses
			key := rest
			m := regexp.MustCompile(`^((?:[\w./]+\.)?(?:\(\*?\w+\)\.)?[\w.$]+)\(([^()]*)\)\s*(?:\(([^()]*)\))?$`).FindStringSubmatch(rest)
			if m == nil {
				panic(fmt.Sprint(file, ": bad header ", rest, i))
			}
			key = m[1]
			cur = &Contract{key: key, params: splitNames(m[2]), results: splitNames(m[3]), file: filepath.Base(file), uses: append([]string{}, uses...), props: append([]string{}, props...)}
			cur.pkg = key[:strings.Index(key, ".")]
			if p.contracts[key] != nil {
				panic("duplicate contract " + key)
			}
			p.contracts[key] = cur
			p.order = append(p.order, key)
			if w == "iface" && cur.trusted == "" {
				cur.trusted = "interface method; the implementation in the repository is verified or listed separately"
			}
		case "define":
			m := regexp.MustCompile(`^(\w+)\(([^()]*)\)\s*=\s*(.*)$`).FindStringSubmatch(rest)
			if m == nil {
				panic(file + ": bad define " + rest)
			}
			p.macros[m[1]] = macro{splitNames(m[2]), mustExpr(m[3], file)}
		case "ghost":
			f := strings.Fields(rest)
			g := ghost{sort: strings.Join(f[len(f)-1:], " ")}
			g.args = f[1 : len(f)-1]
			p.ghosts[f[0]] = g
		case "requires":
			cur.requires = append(cur.requires, cl())
		case "ensures":
			cur.ensures = append(cur.ensures, cl())
		case "assume":
			cur.assumes = append(cur.assumes, cl())
		case "load":
			cur.loadFacts = append(cur.loadFacts, cl())
		case "modifies":
			for _, t := range splitTop(rest) {
				cur.modifies = append(cur.modifies, clause{text: t, expr: mustExpr(t, file)})
			}
		case "inv":
			m := regexp.MustCompile(`^(?:\(([^()]*)\)\s*)?:\s*(.*)$`).FindStringSubmatch(rest)
			if m == nil {
				panic(file + ": bad inv " + rest)
			}
			t := Template{text: m[2], expr: mustExpr(m[2], file)}
			for _, v := range splitNames(m[1]) {
				q := strings.Fields(v)
				t.vars = append(t.vars, tvar{q[0], strings.Join(q[1:], " ")})
			}
			cur.invs = append(cur.invs, t)
		case "def":
			m := regexp.MustCompile(`^(\S+)\s+requires\s+(.*)\s+defines\s+(.*)$`).FindStringSubmatch(rest)
			if m == nil {
				panic(file + ": bad def " + rest)
			}
			cur.defs = append(cur.defs, defRule{m[1], mustExpr(m[2], file), mustExpr(m[3], file), rest})
		case "prop":
			if cur == nil {
				props = strings.Fields(rest)
			} else {
				cur.props = strings.Fields(rest)
			}
		case "trusted":
			cur.trusted = rest
		case "pure":
			cur.pure = true
		case "inline":
			cur.inline = true
		case "noframe":
			cur.noframe = true
		case "timeout":
			fmt.Sscan(rest, &cur.timeout)
		}
	}
}

func splitTop(s string) []string {
	var r []string
	d, st := 0, 0
	for i, c := range s {
		switch c {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				r = append(r, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	return append(r, strings.TrimSpace(s[st:]))
}

// Env evaluates specification expressions.
type Env struct {
	x      *Exec
	st     *State
	old    *State
	entry  *State // state at loop entry (templates)
	binds  map[string]V
	pkg    string
	useKey string
	depth  int
}

func (e *Env) with(n string, v V) *Env {
	f := *e
	f.binds = make(map[string]V, len(e.binds)+1)
	for k, w := range e.binds {
		f.binds[k] = w
	}
	f.binds[n] = v
	return &f
}

type specErr string

func (s specErr) Error() string { return string(s) }

func (e *Env) boolean(x ast.Expr) string {
	v := e.eval(x)
	if len(v.L) != 1 {
		panic(specErr(fmt.Sprintf("not a condition: %s", exprStr(x))))
	}
	return v.L[0]
}

func exprStr(x ast.Expr) string { return types.ExprString(x) }

func boolV(t string) V { return V{T: types.Typ[types.Bool], L: []string{t}} }
func intV(t string) V  { return V{T: types.Typ[types.Int], L: []string{t}} }

func (e *Env) term(x ast.Expr) string {
	v := e.eval(x)
	if len(v.L) != 1 {
		panic(specErr("not a scalar: " + exprStr(x)))
	}
	return v.L[0]
}

func (e *Env) eval(ex ast.Expr) V {
	x := e.x
	switch n := ex.(type) {
	case *ast.ParenExpr:
		return e.eval(n.X)
	case *ast.BasicLit:
		if n.Kind == token.STRING {
			return V{T: types.Typ[types.String], L: []string{x.strConst(constant.StringVal(constant.MakeFromLiteral(n.Value, n.Kind, 0)))}}
		}
		return intV(n.Value)
	case *ast.Ident:
		if v, ok := e.binds[n.Name]; ok {
			return v
		}
		switch n.Name {
		case "true", "false":
			return boolV(n.Name)
		case "nil":
			return intV("0")
		}
		if s, ok := x.P.specs[n.Name]; ok && len(s.args) == 0 {
			return V{T: sortType(s.ret), L: []string{n.Name}}
		}
		if g, ok := x.P.ghosts[n.Name]; ok && len(g.args) == 0 {
			return V{T: sortType(g.sort), L: []string{x.hget(e.st, "Z|"+n.Name, g.sort)}}
		}
		if c, ok := x.P.constOf(e.pkg, n.Name); ok {
			return c
		}
		if g := x.P.globalOf(e.pkg, n.Name); g != nil {
			if !x.P.frozen(g) {
				panic(specErr("package variable " + n.Name + " is assigned after initialisation"))
			}
			x.assumed["package variable "+g.String()+": initial value as stated in the contract, never assigned afterwards (checked)"] = true
			T := g.Type().Underlying().(*types.Pointer).Elem()
			return x.load(e.st, &Addr{kind: 'g', glob: g, base: T, n: len(leaves(T)), T: T})
		}
		panic(specErr("unknown name " + n.Name))
	case *ast.UnaryExpr:
		switch n.Op {
		case token.NOT:
			return boolV(not(e.term(n.X)))
		case token.SUB:
			return intV(sub("0", e.term(n.X)))
		}
	case *ast.StarExpr:
		p := e.eval(n.X)
		return x.load(e.st, x.addrOf(p))
	case *ast.BinaryExpr:
		return e.binary(n)
	case *ast.SelectorExpr:
		if id, ok := n.X.(*ast.Ident); ok {
			if _, bound := e.binds[id.Name]; !bound {
				if c, ok := x.P.constOf(id.Name, n.Sel.Name); ok {
					return c
				}
			}
		}
		return e.field(e.eval(n.X), n.Sel.Name)
	case *ast.IndexExpr:
		v := e.eval(n.X)
		switch u := v.T.Underlying().(type) {
		case *types.Slice:
			k := e.term(n.Index)
			return x.load(e.st, &Addr{kind: 'e', ref: v.L[0], off0: v.L[1], idx: k, base: u.Elem(), n: len(leaves(u.Elem())), T: u.Elem()})
		case *types.Map:
			kv := e.eval(n.Index)
			kv.T = u.Key()
			r, _ := x.mapLookup(e.st, v, keyTerm(kv))
			return r
		case *types.Array:
			k := e.term(n.Index)
			r := V{T: u.Elem()}
			for _, l := range v.L {
				r.L = append(r.L, app("select", l, k))
			}
			return r
		}
		panic(specErr("index of " + v.T.String()))
	case *ast.CallExpr:
		return e.callExpr(n)
	}
	panic(specErr("cannot evaluate " + exprStr(ex)))
}

func sortType(s string) types.Type {
	switch s {
	case "Bool":
		return types.Typ[types.Bool]
	case "Str":
		return types.Typ[types.String]
	case "F64":
		return types.Typ[types.Float64]
	}
	return types.Typ[types.Int]
}

// field selects a (possibly promoted) field of a struct or of what a pointer points to.
func (e *Env) field(v V, name string) V {
	T := v.T
	if pt, ok := T.Underlying().(*types.Pointer); ok {
		a := e.x.addrOf(v)
		st, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			panic(specErr("field " + name + " of " + T.String()))
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				off, n, ft := fieldRange(pt.Elem(), i)
				b := *a
				b.off += off
				b.n = n
				b.T = ft
				return e.x.load(e.st, &b)
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Embedded() {
				off, n, ft := fieldRange(pt.Elem(), i)
				b := *a
				b.off += off
				b.n = n
				b.T = ft
				if hasField(ft, name) {
					return e.field(e.x.load(e.st, &b), name)
				}
			}
		}
		panic(specErr("no field " + name + " in " + T.String()))
	}
	st, ok := T.Underlying().(*types.Struct)
	if !ok {
		panic(specErr("field " + name + " of " + T.String()))
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			off, n, ft := fieldRange(T, i)
			return V{T: ft, L: v.L[off : off+n]}
		}
	}
	panic(specErr("no field " + name + " in " + T.String()))
}

func hasField(T types.Type, name string) bool {
	if p, ok := T.Underlying().(*types.Pointer); ok {
		T = p.Elem()
	}
	s, ok := T.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return true
		}
	}
	return false
}

func (e *Env) binary(n *ast.BinaryExpr) V {
	switch n.Op {
	case token.LAND:
		return boolV(and(e.boolean(n.X), e.boolean(n.Y)))
	case token.LOR:
		return boolV(or(e.boolean(n.X), e.boolean(n.Y)))
	}
	a, b := e.eval(n.X), e.eval(n.Y)
	switch n.Op {
	case token.EQL, token.NEQ:
		var t string
		interior := func(v V) bool { return v.A != nil && len(v.L) == 1 && v.L[0] == "?" }
		if interior(a) && b.A == nil || interior(b) && a.A == nil { // the address of a field of an existing object
			t = "false"
		} else if len(a.L) != len(b.L) { // comparison with nil
			t = eq(a.L[0], b.L[0])
		} else {
			t = eqV(a, b)
		}
		if n.Op == token.NEQ {
			t = not(t)
		}
		return boolV(t)
	}
	if len(a.L) != 1 || len(b.L) != 1 {
		panic(specErr("operands of " + exprStr(n)))
	}
	p, q := a.L[0], b.L[0]
	switch n.Op {
	case token.ADD:
		return intV(add(p, q))
	case token.SUB:
		return intV(sub(p, q))
	case token.MUL:
		return intV(app("*", p, q))
	case token.QUO:
		return intV(app("tdiv", p, q))
	case token.REM:
		return intV(app("mod", p, q))
	case token.LSS:
		return boolV(app("<", p, q))
	case token.LEQ:
		return boolV(app("<=", p, q))
	case token.GTR:
		return boolV(app(">", p, q))
	case token.GEQ:
		return boolV(app(">=", p, q))
	}
	panic(specErr("operator in " + exprStr(n)))
}

// flat returns the argument terms of a specification function.
func (e *Env) flat(v V) []string {
	if v.T == nil {
		return v.L
	}
	switch u := v.T.Underlying().(type) {
	case *types.Slice:
		var r []string
		for i, l := range leaves(u.Elem()) {
			e.x.useElt(l.sort)
			r = append(r, app("select", e.x.hget(e.st, hkey('E', u.Elem(), i), "(Array Int (Array Int "+l.sort+"))"), v.L[0]))
		}
		return append(r, v.L[1], v.L[2])
	case *types.Map:
		_, _, vals, _, _, vs := mapKeys(v.T)
		r := []string{e.x.mapDom(e.st, v)}
		for i := range vals {
			r = append(r, app("select", e.x.hget(e.st, vals[i], vs[i]), v.L[0]))
		}
		return r
	}
	return v.L
}

func (e *Env) quant(n *ast.CallExpr, q string) V {
	x := e.x
	v := n.Args[0].(*ast.Ident).Name
	x.nfresh++
	k := fmt.Sprintf("%s?%d", v, x.nfresh)
	in := e.with(v, intV(k))
	lo, hi := e.term(n.Args[1]), e.term(n.Args[2])
	body := in.boolean(n.Args[3])
	rng := and(app("<=", lo, k), app("<", k, hi))
	pat := ""
	if len(n.Args) > 4 {
		var ps []string
		for _, t := range n.Args[4:] {
			if c, ok := t.(*ast.CallExpr); ok && exprStr(c.Fun) == "alt" { // an alternative trigger
				pat += " :pattern (" + in.flat(in.eval(c.Args[0]))[0] + ")"
				continue
			}
			ps = append(ps, in.flat(in.eval(t))[0])
		}
		if len(ps) > 0 {
			pat += " :pattern (" + strings.Join(ps, " ") + ")"
		}
	}
	if q == "forall" {
		body = imp(rng, body)
	} else {
		body = and(rng, body)
	}
	if pat == "" {
		pats := autoPatterns(body, k)
		if len(pats) > 0 {
			for _, p := range pats {
				pat += " :pattern (" + p + ")"
			}
		}
	}
	if pat != "" {
		body = "(! " + body + " " + pat + ")"
	}
	return boolV(fmt.Sprintf("(%s ((%s Int)) %s)", q, k, body))
}

// autoPatterns collects the element accesses and function applications whose
// argument is exactly the bound variable.
func autoPatterns(body, k string) []string {
	var r []string
	seen := map[string]bool{}
	var walk func(s string, quant bool)
	walk = func(s string, quant bool) {
		if !strings.HasPrefix(s, "(") || !strings.Contains(s, k) {
			return
		}
		in := sexps(s[1 : len(s)-1])
		if len(in) == 0 {
			return
		}
		switch in[0] {
		case "forall", "exists":
			return
		}
		direct := false
		for _, a := range in[1:] {
			if a == k {
				direct = true
			}
		}
		if direct && !builtinOp[in[0]] && !seen[s] && !strings.Contains(strings.ReplaceAll(s, k, ""), "?") {
			seen[s] = true
			r = append(r, s)
		}
		for _, a := range in[1:] {
			walk(a, quant)
		}
	}
	walk(body, false)
	sort.SliceStable(r, func(i, j int) bool { return len(r[i]) < len(r[j]) })
	if len(r) > 4 {
		r = r[:4]
	}
	return r
}

var builtinOp = map[string]bool{"and": true, "or": true, "not": true, "=>": true, "=": true, "<": true, "<=": true, ">": true, ">=": true, "+": true, "-": true, "*": true,
	"ite": true, "!": true, "div": true, "mod": true, "distinct": true, "store": true, "tdiv": true, "trem": true, "xor": true}

func (e *Env) callExpr(n *ast.CallExpr) V {
	x := e.x
	id, ok := n.Fun.(*ast.Ident)
	if !ok {
		panic(specErr("call " + exprStr(n)))
	}
	name := id.Name
	switch name {
	case "old":
		f := *e
		f.st = e.old
		return f.eval(n.Args[0])
	case "entry":
		f := *e
		f.st = e.entry
		return f.eval(n.Args[0])
	case "implies":
		return boolV(imp(e.boolean(n.Args[0]), e.boolean(n.Args[1])))
	case "iff":
		return boolV(eq(e.boolean(n.Args[0]), e.boolean(n.Args[1])))
	case "ite":
		c := e.boolean(n.Args[0])
		a, b := e.eval(n.Args[1]), e.eval(n.Args[2])
		r := V{T: a.T}
		for i := range a.L {
			r.L = append(r.L, app("ite", c, a.L[i], b.L[i]))
		}
		return r
	case "forall", "exists":
		return e.quant(n, name)
	case "forall2": // forall2(i, lo, hi, j, lo, hi, body, trigger...): both variables in one quantifier
		x.nfresh++
		i, j := fmt.Sprintf("i?%d", x.nfresh), fmt.Sprintf("j?%d", x.nfresh)
		in := e.with(n.Args[0].(*ast.Ident).Name, intV(i))
		ilo, ihi := e.term(n.Args[1]), e.term(n.Args[2])
		jlo, jhi := in.term(n.Args[4]), in.term(n.Args[5])
		in = in.with(n.Args[3].(*ast.Ident).Name, intV(j))
		body := imp(and(app("<=", ilo, i), app("<", i, ihi), app("<=", jlo, j), app("<", j, jhi)), in.boolean(n.Args[6]))
		pat := ""
		for _, t := range n.Args[7:] {
			pat += " " + in.flat(in.eval(t))[0]
		}
		return boolV(fmt.Sprintf("(forall ((%s Int) (%s Int)) (! %s :pattern (%s)))", i, j, body, pat))
	case "all", "some": // unbounded over integers (or keys of the sort of a map)
		v := n.Args[0].(*ast.Ident).Name
		x.nfresh++
		k := fmt.Sprintf("%s?%d", v, x.nfresh)
		in := e.with(v, intV(k))
		body := in.boolean(n.Args[1])
		pat := ""
		for _, t := range n.Args[2:] {
			pat += " :pattern (" + in.flat(in.eval(t))[0] + ")"
		}
		if pat == "" {
			for _, p := range autoPatterns(body, k) {
				pat += " :pattern (" + p + ")"
			}
		}
		if pat != "" {
			body = "(! " + body + pat + ")"
		}
		q := "forall"
		if name == "some" {
			q = "exists"
		}
		return boolV(fmt.Sprintf("(%s ((%s Int)) %s)", q, k, body))
	case "allkeys": // allkeys(k, m, body[, triggers]): body for every key of the map
		v := n.Args[0].(*ast.Ident).Name
		m := e.eval(n.Args[1])
		K := m.T.Underlying().(*types.Map).Key()
		x.nfresh++
		k := fmt.Sprintf("%s?%d", v, x.nfresh)
		in := e.with(v, V{T: K, L: keyParts(K, k)})
		body := imp(app("select", x.mapDom(e.st, m), k), in.boolean(n.Args[2]))
		pat := ""
		for _, t := range n.Args[3:] {
			pat += " :pattern (" + in.flat(in.eval(t))[0] + ")"
		}
		if pat == "" {
			for _, p := range autoPatterns(body, k) {
				pat += " :pattern (" + p + ")"
			}
		}
		if pat != "" {
			body = "(! " + body + pat + ")"
		}
		return boolV(fmt.Sprintf("(forall ((%s %s)) %s)", k, keySort(K), body))
	case "len":
		v := e.eval(n.Args[0])
		switch v.T.Underlying().(type) {
		case *types.Slice:
			return intV(v.L[2])
		case *types.Map:
			if !strings.Contains(v.L[0], "?") {
				return intV(x.mapLen(e.st, v))
			}
			_, ln, _, _, _, _ := mapKeys(v.T)
			return intV(app("select", x.hget(e.st, ln, "(Array Int Int)"), v.L[0]))
		}
		return intV(app("strlen", v.L[0]))
	case "cap":
		return intV(e.eval(n.Args[0]).L[3])
	case "ref":
		v := e.eval(n.Args[0])
		return intV(v.L[0])
	case "off":
		return intV(e.eval(n.Args[0]).L[1])
	case "has":
		m := e.eval(n.Args[0])
		k := e.eval(n.Args[1])
		k.T = m.T.Underlying().(*types.Map).Key()
		_, h := x.mapLookup(e.st, m, keyTerm(k))
		return boolV(h)
	case "same":
		return boolV(eqV(e.eval(n.Args[0]), e.eval(n.Args[1])))
	case "fresh":
		v := e.eval(n.Args[0])
		return boolV(app(">", v.L[0], e.old.alloc))
	case "allocated": // exists in the current state
		v := e.eval(n.Args[0])
		return boolV(app("<=", v.L[0], e.st.alloc))
	case "freshslice": // newly allocated or without capacity
		v := e.eval(n.Args[0])
		return boolV(or(app(">", v.L[0], e.old.alloc), eq(v.L[3], "0")))
	case "isnil":
		return boolV(eq(e.eval(n.Args[0]).L[0], "0"))
	case "unbox": // unbox(v, "pkg.T")
		T := e.typeArg(n.Args[1])
		return x.unbox(e.st, T, e.term(n.Args[0]))
	case "boxed": // the interface value made of a pointer
		v := e.eval(n.Args[0])
		return intV(app(x.boxFn(v.T), v.L...))
	case "typeis":
		T := e.typeArg(n.Args[1])
		return boolV(eq(app("typeof", e.term(n.Args[0])), x.typeID(T)))
	case "as": // as(term, "pkg.T"): a scalar viewed at a Go type
		T := e.typeArg(n.Args[1])
		v := e.eval(n.Args[0])
		v.T = T
		return v
	case "unchanged": // unchanged(expr, ...)
		var r []string
		for _, a := range n.Args {
			o := *e
			o.st = e.old
			r = append(r, eqV(e.eval(a), o.eval(a)))
		}
		return boolV(and(r...))
	case "nvisited":
		it := e.binds["$nvisited"]
		if it.T == nil {
			panic(specErr("no map iteration"))
		}
		return it
	case "visited": // visited(k): the key was already visited by the (only) map iteration
		k := e.eval(n.Args[0])
		it := e.binds["$visited"]
		if it.T == nil {
			panic(specErr("no map iteration"))
		}
		return boolV(app("select", it.L[0], k.L[0]))
	}
	if m, ok := x.P.macros[name]; ok {
		f := *e
		f.depth++
		if f.depth > 40 {
			panic(specErr("recursive macro " + name))
		}
		f.binds = map[string]V{}
		for k, w := range e.binds {
			if strings.HasPrefix(k, "$") {
				f.binds[k] = w
			}
		}
		if len(m.params) != len(n.Args) {
			panic(specErr("arguments of " + name))
		}
		for i, q := range m.params {
			f.binds[q] = e.eval(n.Args[i])
		}
		return f.eval(m.expr)
	}
	if g, ok := x.P.ghosts[name]; ok {
		sort := g.sort
		for range g.args {
			sort = "(Array Int " + sort + ")"
		}
		t := x.hget(e.st, "Z|"+name, sort)
		for _, a := range n.Args {
			t = app("select", t, e.eval(a).L[0])
		}
		return V{T: sortType(g.sort), L: []string{t}}
	}
	if s, ok := x.P.specs[name]; ok {
		var a []string
		for _, q := range n.Args {
			a = append(a, e.flat(e.eval(q))...)
		}
		if len(a) != len(s.args) {
			panic(specErr(fmt.Sprintf("%s takes %d terms, got %d", name, len(s.args), len(a))))
		}
		if len(a) == 0 {
			return V{T: sortType(s.ret), L: []string{name}}
		}
		return V{T: sortType(s.ret), L: []string{app(name, a...)}}
	}
	panic(specErr("unknown function " + name + " in " + exprStr(n)))
}

func (e *Env) typeArg(a ast.Expr) types.Type {
	s := constant.StringVal(constant.MakeFromLiteral(a.(*ast.BasicLit).Value, token.STRING, 0))
	T := e.x.P.typeByName(s)
	if T == nil {
		panic(specErr("unknown type " + s))
	}
	return T
}

func (p *Prog) typeByName(s string) types.Type {
	switch {
	case strings.HasPrefix(s, "*"):
		if T := p.typeByName(s[1:]); T != nil {
			return types.NewPointer(T)
		}
		return nil
	case strings.HasPrefix(s, "[]"):
		if T := p.typeByName(s[2:]); T != nil {
			return types.NewSlice(T)
		}
		return nil
	}
	if !strings.Contains(s, ".") {
		if o := types.Universe.Lookup(s); o != nil {
			return o.Type()
		}
		return nil
	}
	i := strings.Index(s, ".")
	pkg := p.pkgs[s[:i]]
	if pkg == nil {
		return nil
	}
	o := pkg.Scope().Lookup(s[i+1:])
	if o == nil {
		return nil
	}
	return o.Type()
}

// constOf looks a constant up in the package, then in package formula.
func (p *Prog) constOf(pkg, name string) (V, bool) {
	for _, q := range []string{pkg, "formula"} {
		P := p.pkgs[q]
		if P == nil {
			continue
		}
		if c, ok := P.Scope().Lookup(name).(*types.Const); ok {
			s := c.Val().ExactString()
			if c.Val().Kind() == constant.Bool {
				return boolV(s), true
			}
			if c.Val().Kind() == constant.Int {
				if strings.HasPrefix(s, "-") {
					s = "(- " + s[1:] + ")"
				}
				return V{T: types.Typ[types.Int], L: []string{s}}, true
			}
		}
	}
	return V{}, false
}

type region struct {
	key, sort, ref string
}

// regions evaluates a modifies expression.
func (e *Env) regions(ex ast.Expr) []region {
	x := e.x
	switch n := ex.(type) {
	case *ast.CallExpr:
		name := n.Fun.(*ast.Ident).Name
		switch name {
		case "elems":
			v := e.eval(n.Args[0])
			E := v.T.Underlying().(*types.Slice).Elem()
			var r []region
			for i, l := range leaves(E) {
				r = append(r, region{hkey('E', E, i), "(Array Int (Array Int " + l.sort + "))", app("ite", eq(v.L[3], "0"), add(e.st.alloc, "1"), v.L[0])})
			}
			return r
		case "mapof":
			v := e.eval(n.Args[0])
			dom, ln, vals, _, ds, vs := mapKeys(v.T)
			r := []region{{dom, ds, v.L[0]}, {ln, "(Array Int Int)", v.L[0]}}
			for i := range vals {
				r = append(r, region{vals[i], vs[i], v.L[0]})
			}
			return r
		case "anyref": // the whole heap components of a region
			var r []region
			for _, q := range e.regions(n.Args[0]) {
				q.ref = ""
				r = append(r, q)
			}
			return r
		case "fieldsof": // fieldsof("pkg.T"): all fields of all objects of the type
			T := e.typeArg(n.Args[0])
			var r []region
			for i, l := range leaves(T) {
				r = append(r, region{hkey('o', T, i), "(Array Int " + l.sort + ")", ""})
			}
			return r
		case "elemsof": // elemsof("T"): all backing arrays of the element type
			T := e.typeArg(n.Args[0])
			var r []region
			for i, l := range leaves(T) {
				r = append(r, region{hkey('E', T, i), "(Array Int (Array Int " + l.sort + "))", ""})
			}
			return r
		}
		if g, ok := x.P.ghosts[name]; ok {
			sort := g.sort
			for range g.args {
				sort = "(Array Int " + sort + ")"
			}
			ref := ""
			if len(n.Args) > 0 {
				ref = e.eval(n.Args[0]).L[0]
			}
			return []region{{"Z|" + name, sort, ref}}
		}
	case *ast.Ident:
		if g, ok := x.P.ghosts[n.Name]; ok {
			sort := g.sort
			for range g.args {
				sort = "(Array Int " + sort + ")"
			}
			return []region{{"Z|" + n.Name, sort, ""}}
		}
		v := e.eval(n)
		return x.addrRegions(x.addrOf(v))
	case *ast.StarExpr:
		return x.addrRegions(x.addrOf(e.eval(n.X)))
	case *ast.SelectorExpr:
		v := e.eval(n.X)
		a := x.addrOf(v)
		pt := v.T.Underlying().(*types.Pointer)
		st := pt.Elem().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n.Sel.Name {
				off, cnt, ft := fieldRange(pt.Elem(), i)
				b := *a
				b.off += off
				b.n = cnt
				b.T = ft
				return x.addrRegions(&b)
			}
		}
	}
	panic(specErr("modifies " + exprStr(ex)))
}

func (x *Exec) addrRegions(a *Addr) []region {
	var r []region
	ls := leaves(a.base)
	switch a.kind {
	case 'o', 'c':
		for i := a.off; i < a.off+a.n; i++ {
			r = append(r, region{hkey(a.kind, a.base, i), "(Array Int " + ls[i].sort + ")", a.ref})
		}
	case 'E', 'e':
		for i := range ls {
			r = append(r, region{hkey('E', a.base, i), "(Array Int (Array Int " + ls[i].sort + "))", a.ref})
		}
	default:
		panic(specErr("modifies region"))
	}
	return r
}

// defHook handles inserts into the defining maps of the formula factory.
func (x *Exec) defHook(st *State, fr *Frame, in *ssa.MapUpdate, m, k, v V) {
	if len(x.ct.defs) == 0 {
		return
	}
	field := ""
	if u, ok := in.Map.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			S := fa.X.Type().Underlying().(*types.Pointer).Elem()
			field = short(S) + "." + S.Underlying().(*types.Struct).Field(fa.Field).Name()
		}
	}
	for _, d := range x.ct.defs {
		if d.field != field {
			continue
		}
		k.T = m.T.Underlying().(*types.Map).Key()
		v.T = m.T.Underlying().(*types.Map).Elem()
		b := map[string]V{}
		for n, w := range x.binds {
			b[n] = w
		}
		b["key"], b["value"], b["m"] = k, v, m
		env := &Env{x: x, st: st, old: x.old, binds: b, pkg: x.ct.pkg}
		for _, q := range conjuncts(d.req) {
			x.oblig(st, "def", "definition through "+field+" requires "+exprStr(q), env.boolean(q))
		}
		x.assume(st, env.boolean(d.def))
	}
}

func (x *Exec) loadHook(st *State, a *Addr, v V) {}

func conjuncts(e ast.Expr) []ast.Expr {
	if b, ok := e.(*ast.BinaryExpr); ok && b.Op == token.LAND {
		return append(conjuncts(b.X), conjuncts(b.Y)...)
	}
	if p, ok := e.(*ast.ParenExpr); ok {
		return conjuncts(p.X)
	}
	return []ast.Expr{e}
}

// globalOf finds a package-level variable.
func (p *Prog) globalOf(pkg, name string) *ssa.Global {
	if p.pkgs[pkg] == nil {
		return nil
	}
	q := p.prog.Package(p.pkgs[pkg])
	if q == nil {
		return nil
	}
	g, _ := q.Members[name].(*ssa.Global)
	return g
}

var frozenOnce sync.Once
var notFrozen = map[*ssa.Global]bool{}

// frozen reports whether the variable is only read outside of package initialisation.
func (p *Prog) frozen(g *ssa.Global) bool {
	frozenOnce.Do(func() {
		for fn := range ssautil.AllFunctions(p.prog) {
			init := strings.HasPrefix(fn.Name(), "init")
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						w, ok := (*op).(*ssa.Global)
						if !ok {
							continue
						}
						if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
							continue
						}
						if s, ok := in.(*ssa.Store); ok && s.Addr == *op && init {
							continue
						}
						notFrozen[w] = true
					}
				}
			}
		}
	})
	return !notFrozen[g]
}

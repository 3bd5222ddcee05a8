package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// V is a symbolic value: the flattened SMT terms of a Go value plus, where it is
// known, the interior address, the closure or the tuple it stands for.
type V struct {
	T   types.Type
	L   []string
	A   *Addr
	C   *Closure
	Tup []V
	It  *Iter
}

// Addr is the address of a memory region: leaves [off, off+n) of an object.
type Addr struct {
	kind byte // 'o' struct object, 'c' cell, 'e' element of a backing array, 'g' global, 'E' whole array object
	ref  string
	idx  string     // element index (kind 'e'): offset and position
	off0 string     // offset part of the element index
	base types.Type // struct type, cell type, element type
	glob *ssa.Global
	off  int
	n    int
	aidx string // index into an array-valued leaf
	T    types.Type
}

type Closure struct {
	fn *ssa.Function
	fv []V
}

type Iter struct {
	m       V
	visited string
	dom0    string // domain and size of the map when the iteration started
	len0    string
	isStr   bool
}

type leaf struct {
	name string
	sort string
	kind byte // 'i' int, 'u' unsigned, 'b', 's', 'f', 'r' reference, 'R' slice ref, 'o' off, 'l' len, 'c' cap, 'a' array
	bits int
}

var leafCache = map[string][]leaf{}

// tstr names a type with all aliases resolved.
func tstr(T types.Type) string {
	switch t := types.Unalias(T).(type) {
	case *types.Pointer:
		return "*" + tstr(t.Elem())
	case *types.Slice:
		return "[]" + tstr(t.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", t.Len(), tstr(t.Elem()))
	case *types.Map:
		return "map[" + tstr(t.Key()) + "]" + tstr(t.Elem())
	case *types.Named:
		s := t.Obj().Name()
		if p := t.Obj().Pkg(); p != nil {
			s = p.Path() + "." + s
		}
		if n := t.TypeArgs().Len(); n > 0 {
			s += "["
			for i := 0; i < n; i++ {
				if i > 0 {
					s += ","
				}
				s += tstr(t.TypeArgs().At(i))
			}
			s += "]"
		}
		return s
	default:
		return types.TypeString(t, nil)
	}
}

func short(T types.Type) string {
	return types.TypeString(T, func(p *types.Package) string { return p.Name() })
}

func leaves(T types.Type) []leaf {
	key := tstr(T)
	mu.Lock()
	l, ok := leafCache[key]
	mu.Unlock()
	if ok {
		return l
	}
	l = leaves0(T)
	mu.Lock()
	leafCache[key] = l
	mu.Unlock()
	return l
}

func leaves0(T types.Type) []leaf {
	switch u := T.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []leaf{{"", "Bool", 'b', 0}}
		case u.Info()&types.IsUnsigned != 0:
			bits := 64
			switch u.Kind() {
			case types.Uint8:
				bits = 8
			case types.Uint16:
				bits = 16
			case types.Uint32:
				bits = 32
			}
			return []leaf{{"", "Int", 'u', bits}}
		case u.Info()&types.IsInteger != 0:
			return []leaf{{"", "Int", 'i', 64}}
		case u.Info()&types.IsString != 0:
			return []leaf{{"", "Str", 's', 0}}
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			return []leaf{{"", "F64", 'f', 0}}
		}
		return []leaf{{"", "Int", 'r', 0}}
	case *types.Struct:
		var r []leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, x := range leaves(f.Type()) {
				x.name = "." + f.Name() + x.name
				r = append(r, x)
			}
		}
		return r
	case *types.Slice:
		return []leaf{{".ref", "Int", 'R', 0}, {".off", "Int", 'o', 0}, {".len", "Int", 'l', 0}, {".cap", "Int", 'c', 0}}
	case *types.Array:
		var r []leaf
		for _, x := range leaves(u.Elem()) {
			x.name = "[]" + x.name
			x.sort = "(Array Int " + x.sort + ")"
			x.kind = 'a'
			r = append(r, x)
		}
		return r
	case *types.Tuple:
		var r []leaf
		for i := 0; i < u.Len(); i++ {
			r = append(r, leaves(u.At(i).Type())...)
		}
		return r
	}
	return []leaf{{"", "Int", 'r', 0}}
}

func zeroOf(l leaf) string {
	switch l.sort {
	case "Int":
		return "0"
	case "Bool":
		return "false"
	case "Str":
		return "str_empty"
	case "F64":
		return "f64_zero"
	}
	in := strings.TrimSuffix(strings.TrimPrefix(l.sort, "(Array Int "), ")")
	return "((as const " + l.sort + ") " + zeroOf(leaf{sort: in}) + ")"
}

func zero(T types.Type) V {
	v := V{T: T}
	for _, l := range leaves(T) {
		v.L = append(v.L, zeroOf(l))
	}
	return v
}

// fieldRange returns the leaf range of field i of struct type T.
func fieldRange(T types.Type, i int) (off, n int, ft types.Type) {
	s := T.Underlying().(*types.Struct)
	for j := 0; j < i; j++ {
		off += len(leaves(s.Field(j).Type()))
	}
	ft = s.Field(i).Type()
	return off, len(leaves(ft)), ft
}

var heapKind = map[string]byte{}

func hkey(kind byte, base types.Type, i int) string {
	k := fmt.Sprintf("%c|%s|%d", kind, tstr(base), i)
	ls := leaves(base)
	mu.Lock()
	heapKind[k] = ls[i].kind
	mu.Unlock()
	return k
}

var keySorts = map[string][]string{}

func keyName(T types.Type) string {
	var p []string
	for _, l := range leaves(T) {
		p = append(p, l.sort)
	}
	n := strings.Join(p, "_")
	mu.Lock()
	keySorts[n] = p
	mu.Unlock()
	return n
}

// keySort returns the SMT sort of map keys of type K.
func keySort(K types.Type) string {
	ls := leaves(K)
	if len(ls) == 1 {
		return ls[0].sort
	}
	return "Key_" + keyName(K)
}

func keyTerm(v V) string {
	if len(v.L) == 1 {
		return v.L[0]
	}
	return app("mkkey_"+keyName(v.T), v.L...)
}

func keyParts(K types.Type, term string) []string {
	ls := leaves(K)
	if len(ls) == 1 {
		return []string{term}
	}
	var r []string
	n := keyName(K)
	for i := range ls {
		r = append(r, fmt.Sprintf("(kk%d_%s %s)", i, n, term))
	}
	return r
}

func app(f string, a ...string) string {
	if f == "select" && len(a) == 2 {
		a = []string{a[0], a[1]}
		// select over store, where equality of the indices is decided by their form:
		// identical terms, or a fresh reference against a parameter or an initial heap cell of a parameter
		for strings.HasPrefix(a[0], "(store ") {
			t := splitApp(a[0])
			if len(t) != 4 {
				break
			}
			if t[2] == a[1] {
				return t[3]
			}
			if !freshRef.MatchString(t[2]) || !entryTerm.MatchString(a[1]) {
				break
			}
			a[0] = t[1]
		}
	}
	return "(" + f + " " + strings.Join(a, " ") + ")"
}

var freshRef = regexp.MustCompile(`^ref!\d+$`)
var entryTerm = regexp.MustCompile(`^(\w+!p!\d+|\(select h\d+ \w+!p!\d+\))$`)

// splitApp splits an application into its function and arguments.
func splitApp(t string) []string {
	t = t[1 : len(t)-1]
	var r []string
	depth, start, quoted := 0, 0, false
	for i := 0; i < len(t); i++ {
		switch c := t[i]; {
		case c == '|' || c == '"':
			quoted = !quoted
		case quoted:
		case c == '(':
			depth++
		case c == ')':
			depth--
		case c == ' ' && depth == 0:
			if i > start {
				r = append(r, t[start:i])
			}
			start = i + 1
		}
	}
	if start < len(t) {
		r = append(r, t[start:])
	}
	return r
}

func and(a ...string) string {
	var r []string
	for _, x := range a {
		if x == "false" {
			return "false"
		}
		if x != "true" && x != "" {
			r = append(r, x)
		}
	}
	switch len(r) {
	case 0:
		return "true"
	case 1:
		return r[0]
	}
	return app("and", r...)
}

func or(a ...string) string {
	var r []string
	for _, x := range a {
		if x == "true" {
			return "true"
		}
		if x != "false" && x != "" {
			r = append(r, x)
		}
	}
	switch len(r) {
	case 0:
		return "false"
	case 1:
		return r[0]
	}
	return app("or", r...)
}

func not(a string) string {
	switch a {
	case "true":
		return "false"
	case "false":
		return "true"
	}
	if strings.HasPrefix(a, "(not ") {
		return a[5 : len(a)-1]
	}
	return app("not", a)
}

func imp(a, b string) string {
	if a == "true" {
		return b
	}
	if a == "false" || b == "true" {
		return "true"
	}
	return app("=>", a, b)
}

func isNum(s string) bool {
	if s == "" {
		return false
	}
	for _, c := range s {
		if c < '0' || c > '9' {
			return false
		}
	}
	return true
}

func eq(a, b string) string {
	if a == b {
		return "true"
	}
	if isNum(a) && isNum(b) {
		return "false"
	}
	if a == "true" {
		return b
	}
	if b == "true" {
		return a
	}
	if a == "false" {
		return not(b)
	}
	if b == "false" {
		return not(a)
	}
	return app("=", a, b)
}

func add(a, b string) string {
	if a == "0" {
		return b
	}
	if b == "0" {
		return a
	}
	if isNum(a) && isNum(b) {
		var x, y int64
		fmt.Sscan(a, &x)
		fmt.Sscan(b, &y)
		return fmt.Sprint(x + y)
	}
	return app("+", a, b)
}

func sub(a, b string) string {
	if b == "0" {
		return a
	}
	if isNum(a) && isNum(b) {
		var x, y int64
		fmt.Sscan(a, &x)
		fmt.Sscan(b, &y)
		return num(x - y)
	}
	return app("-", a, b)
}

func num(x int64) string {
	if x < 0 {
		return fmt.Sprintf("(- %d)", -x)
	}
	return fmt.Sprint(x)
}

func eqV(a, b V) string {
	var r []string
	for i := range a.L {
		r = append(r, eq(a.L[i], b.L[i]))
	}
	return and(r...)
}

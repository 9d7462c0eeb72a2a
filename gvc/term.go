package main

// Hash-consed SMT terms with a simplifying constructor layer.

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

type Kind uint8

const (
	KConst Kind = iota // free constant (declared)
	KBound             // bound variable
	KInt
	KStr // string literal
	KBool
	KApp // application of builtin or uninterpreted function
	KQuant
	KConstArr // ((as const S) v)
)

type T struct {
	id    int
	k     Kind
	op    string // name / operator / literal text
	args  []*T
	sort  string
	bound []*T // for KQuant (op = forall/exists) and pats
	pats  [][]*T
	n     int64 // KInt
	quant bool // a quantifier occurs in it
	open  bool  // contains bound variables free
}

const (
	SInt  = "Int"
	SBool = "Bool"
	SStr  = "Str"
	SFlt  = "Flt"
	SVal  = "Val"
)

func arrSort(i, e string) string { return "(Array " + i + " " + e + ")" }

func arrParts(s string) (string, string) {
	// s = (Array I E)
	in := s[len("(Array ") : len(s)-1]
	d := 0
	for i, c := range in {
		if c == '(' {
			d++
		} else if c == ')' {
			d--
		} else if c == ' ' && d == 0 {
			return in[:i], in[i+1:]
		}
	}
	panic("arrParts " + s)
}
func isArr(s string) bool { return strings.HasPrefix(s, "(Array ") }

var (
	tab   = map[string]*T{}
	tlist []*T
)

// uninterpreted function signatures
type UF struct {
	name string
	args []string
	ret  string
}

var ufs = map[string]*UF{}

func mk(k Kind, op string, sort string, n int64, args []*T, bound []*T, pats [][]*T) *T {
	var sb strings.Builder
	sb.WriteByte(byte('0' + k))
	sb.WriteString(op)
	sb.WriteByte('|')
	if k == KConst || k == KBound || k == KConstArr {
		sb.WriteString(sort)
	}
	if k == KInt {
		sb.WriteString(strconv.FormatInt(n, 10))
	}
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	for _, b := range bound {
		sb.WriteByte(';')
		sb.WriteString(strconv.Itoa(b.id))
	}
	for _, p := range pats {
		sb.WriteByte('!')
		for _, b := range p {
			sb.WriteByte(';')
			sb.WriteString(strconv.Itoa(b.id))
		}
	}
	key := sb.String()
	if t, ok := tab[key]; ok {
		return t
	}
	t := &T{id: len(tlist), k: k, op: op, args: args, sort: sort, bound: bound, pats: pats, n: n}
	if k == KBound {
		t.open = true
	}
	for _, a := range args {
		if a.open {
			t.open = true
		}
		if a.quant {
			t.quant = true
		}
	}
	if k == KQuant {
		t.quant = true
		t.open = len(freeBound(t)) > 0
	}
	tab[key] = t
	tlist = append(tlist, t)
	return t
}

func freeBound(t *T) map[int]bool {
	res := map[int]bool{}
	var walk func(t *T, b map[int]bool)
	walk = func(t *T, b map[int]bool) {
		switch t.k {
		case KBound:
			if !b[t.id] {
				res[t.id] = true
			}
		case KQuant:
			nb := map[int]bool{}
			for k := range b {
				nb[k] = true
			}
			for _, v := range t.bound {
				nb[v.id] = true
			}
			for _, a := range t.args {
				walk(a, nb)
			}
		default:
			for _, a := range t.args {
				walk(a, b)
			}
		}
	}
	walk(t, map[int]bool{})
	return res
}

var freshCtr = map[string]int{}

func Fresh(name, sort string) *T {
	name = cleanName(name)
	freshCtr[name]++
	return mk(KConst, fmt.Sprintf("%s!%d", name, freshCtr[name]), sort, 0, nil, nil, nil)
}
func Const(name, sort string) *T { return mk(KConst, cleanName(name), sort, 0, nil, nil, nil) }
// Bound variables have canonical names (per nesting depth), so that equal
// formulas are the same hash-consed term.
func Bound(name, sort string) *T { return BoundAt(name, sort, 0) }

func BoundAt(name, sort string, depth int) *T {
	return mk(KBound, fmt.Sprintf("%s?%d", cleanName(name), depth), sort, 0, nil, nil, nil)
}

func cleanName(s string) string {
	return strings.Map(func(r rune) rune {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9':
			return r
		case strings.ContainsRune("_.!$*[]/-#:<>{}~?@", r):
			if r == '|' {
				return '_'
			}
			return r
		}
		return '_'
	}, s)
}

func Int(n int64) *T { return mk(KInt, "", SInt, n, nil, nil, nil) }
func BigInt(s string) *T {
	if n, err := strconv.ParseInt(s, 10, 64); err == nil {
		return Int(n)
	}
	return mk(KApp, "lit:"+s, SInt, 0, nil, nil, nil)
}
func StrLit(s string) *T { return mk(KStr, s, SStr, 0, nil, nil, nil) }

var (
	True  = mk(KBool, "true", SBool, 0, nil, nil, nil)
	False = mk(KBool, "false", SBool, 0, nil, nil, nil)
	Zero  = Int(0)
	One   = Int(1)
	VNil  = mk(KApp, "VNil", SVal, 0, nil, nil, nil)
)

func B(b bool) *T {
	if b {
		return True
	}
	return False
}

func app(op, sort string, args ...*T) *T { return mk(KApp, op, sort, 0, args, nil, nil) }

// Fn applies an uninterpreted function, declaring it on first use.
func Fn(name, ret string, args ...*T) *T {
	name = cleanName(name)
	u := ufs[name]
	if u == nil {
		u = &UF{name: name, ret: ret}
		for _, a := range args {
			u.args = append(u.args, a.sort)
		}
		ufs[name] = u
	} else {
		if len(u.args) != len(args) || u.ret != ret {
			panic(fmt.Sprintf("UF %s used with different signature: %v %s vs %v %s", name, u.args, u.ret, args, ret))
		}
		for i := range args {
			if args[i].sort != u.args[i] {
				panic(fmt.Sprintf("UF %s arg %d sort %s want %s", name, i, args[i].sort, u.args[i]))
			}
		}
	}
	if len(args) == 0 {
		return Const(name, ret)
	}
	return mk(KApp, "uf:"+name, ret, 0, args, nil, nil)
}

func And(ts ...*T) *T {
	var out []*T
	seen := map[int]bool{}
	var add func(t *T) bool
	add = func(t *T) bool {
		if t == True {
			return true
		}
		if t == False {
			return false
		}
		if t.k == KApp && t.op == "and" {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if !seen[t.id] {
			seen[t.id] = true
			out = append(out, t)
		}
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return False
		}
	}
	for _, t := range out {
		if t.k == KApp && t.op == "not" && seen[t.args[0].id] {
			return False
		}
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return app("and", SBool, out...)
}

func Or(ts ...*T) *T {
	var out []*T
	seen := map[int]bool{}
	for _, t := range ts {
		if t == True {
			return True
		}
		if t == False {
			continue
		}
		if t.k == KApp && t.op == "or" {
			for _, a := range t.args {
				if !seen[a.id] {
					seen[a.id] = true
					out = append(out, a)
				}
			}
			continue
		}
		if !seen[t.id] {
			seen[t.id] = true
			out = append(out, t)
		}
	}
	for _, t := range out {
		if t.k == KApp && t.op == "not" && seen[t.args[0].id] {
			return True
		}
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	return app("or", SBool, out...)
}

func Not(t *T) *T {
	if t == True {
		return False
	}
	if t == False {
		return True
	}
	if t.k == KApp && t.op == "not" {
		return t.args[0]
	}
	if t.k == KApp && t.op == "<" {
		return app("<=", SBool, t.args[1], t.args[0])
	}
	if t.k == KApp && t.op == "<=" {
		return app("<", SBool, t.args[1], t.args[0])
	}
	return app("not", SBool, t)
}
func Imp(a, b *T) *T { 
	if a == b { return True }
	return Or(Not(a), b) }
func Iff(a, b *T) *T { return Eq(a, b) }

// linear form: base + const
func linear(t *T) (*T, int64) {
	if t.k == KInt {
		return nil, t.n
	}
	if t.k == KApp && t.op == "+" && t.args[1].k == KInt {
		return t.args[0], t.args[1].n
	}
	return t, 0
}

// distinctness decidable syntactically
func surelyNe(a, b *T) bool {
	if a == b {
		return false
	}
	lit := func(t *T) bool { return t.k == KInt || t.k == KStr || t.k == KBool }
	if lit(a) && lit(b) {
		return true
	}
	if a.sort == SInt {
		ba, ca := linear(a)
		bb, cb := linear(b)
		if ba == bb && ca != cb {
			return true
		}
		// addresses: alloc base facts
		if refClass(a) == clFresh && refClass(b) == clOld || refClass(a) == clOld && refClass(b) == clFresh {
			return true
		}
		if freshDistinct(a, b) {
			return true
		}
		return false
	}
	if a.sort == SVal && a.k == KApp && b.k == KApp {
		ca, cb := valCtor(a), valCtor(b)
		if ca != "" && cb != "" {
			if ca != cb {
				return true
			}
			for i := range a.args {
				if surelyNe(a.args[i], b.args[i]) {
					return true
				}
			}
		}
	}
	if a.sort == SStr {
		return strNe(a, b)
	}
	return false
}

// reference classes: constants marked old (allocated before function entry)
const (
	clNone = iota
	clOld
	clFresh
)

var oldRefs = map[int]bool{}
var alloc0 *T

// allocParent records, for an allocation counter introduced by a havoc, the
// counter value it is known to be at least.
var allocParent = map[*T]*T{}

// freshDistinct: two allocated references with different counter bases
func freshDistinct(a, b *T) bool {
	lt := func(a, b *T) bool { // a allocated before base of b was introduced
		ba, ca := linear(a)
		bb, cb := linear(b)
		if ba == nil || bb == nil || cb <= 0 {
			return false
		}
		for p := allocParent[bb]; p != nil; {
			pb, pc := linear(p)
			if pb == ba {
				return ca <= pc
			}
			if pb == nil {
				return false
			}
			p = allocParent[pb]
		}
		return false
	}
	return lt(a, b) || lt(b, a)
}

func refClass(t *T) int {
	if oldRefs[t.id] {
		return clOld
	}
	if t.k == KInt && t.n >= 0 && t.n < 100000 {
		return clOld
	}
	b, c := linear(t)
	if b != nil && c > 0 && (b == alloc0 || allocParent[b] != nil) {
		return clFresh
	}
	return clNone
}

func valCtor(t *T) string {
	if t.k != KApp {
		return ""
	}
	switch t.op {
	case "VNil", "VI", "VS", "VB", "VF":
		return t.op
	}
	return ""
}

func Eq(a, b *T) *T {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %s:%s vs %s:%s", Show(a), a.sort, Show(b), b.sort))
	}
	if surelyNe(a, b) {
		return False
	}
	if a.sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if a.sort == SVal {
		ca, cb := valCtor(a), valCtor(b)
		if ca != "" && ca == cb {
			var cs []*T
			for i := range a.args {
				cs = append(cs, Eq(a.args[i], b.args[i]))
			}
			return And(cs...)
		}
	}
	if a.sort == SStr {
		if r := strEq(a, b); r != nil {
			return r
		}
	}
	if a.k == KApp && a.op == "ite" && (a.args[1].k != KApp || true) {
		if lit(b) && (lit(a.args[1]) || lit(a.args[2])) {
			return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
		}
	}
	if b.k == KApp && b.op == "ite" && lit(a) && (lit(b.args[1]) || lit(b.args[2])) {
		return Ite(b.args[0], Eq(b.args[1], a), Eq(b.args[2], a))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return app("=", SBool, a, b)
}

func lit(t *T) bool {
	return t.k == KInt || t.k == KStr || t.k == KBool || t == VNil || valCtor(t) != ""
}

func Ne(a, b *T) *T { return Not(Eq(a, b)) }

func Ite(c, a, b *T) *T {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.sort == SBool {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	return app("ite", a.sort, c, a, b)
}

func Add(a, b *T) *T {
	ba, ca := linear(a)
	bb, cb := linear(b)
	c := ca + cb
	var base *T
	switch {
	case ba == nil && bb == nil:
		return Int(c)
	case ba == nil:
		base = bb
	case bb == nil:
		base = ba
	default:
		if ba.id > bb.id {
			ba, bb = bb, ba
		}
		base = app("++", SInt, ba, bb)
	}
	if c == 0 {
		return base
	}
	return app("+", SInt, base, Int(c))
}
func Neg(a *T) *T {
	if a.k == KInt {
		return Int(-a.n)
	}
	b, c := linear(a)
	if c != 0 {
		return Add(Neg(b), Int(-c))
	}
	if a.k == KApp && a.op == "neg" {
		return a.args[0]
	}
	return app("neg", SInt, a)
}
func Sub(a, b *T) *T {
	ba, ca := linear(a)
	bb, cb := linear(b)
	if ba == bb {
		return Int(ca - cb)
	}
	if bb == nil {
		return Add(a, Int(-cb))
	}
	return Add(a, Neg(b))
}
func Mul(a, b *T) *T {
	if a.k == KInt && b.k == KInt {
		return Int(a.n * b.n)
	}
	if a == One {
		return b
	}
	if b == One {
		return a
	}
	if a == Zero || b == Zero {
		return Zero
	}
	return app("*", SInt, a, b)
}
func Lt(a, b *T) *T {
	ba, ca := linear(a)
	bb, cb := linear(b)
	if ba == bb {
		return B(ca < cb)
	}
	return app("<", SBool, a, b)
}
func Le(a, b *T) *T {
	ba, ca := linear(a)
	bb, cb := linear(b)
	if ba == bb {
		return B(ca <= cb)
	}
	return app("<=", SBool, a, b)
}

func Select(a, i *T) *T {
	_, es := arrParts(a.sort)
	for {
		if a.k == KConstArr {
			return a.args[0]
		}
		if a.k == KApp && a.op == "store" {
			if a.args[1] == i {
				return a.args[2]
			}
			if surelyNe(a.args[1], i) {
				a = a.args[0]
				continue
			}
		}
		break
	}
	if a.k == KApp && a.op == "ite" {
		x, y := Select(a.args[1], i), Select(a.args[2], i)
		return Ite(a.args[0], x, y)
	}
	return app("select", es, a, i)
}

func Store(a, i, v *T) *T {
	is, es := arrParts(a.sort)
	if i.sort != is || v.sort != es {
		panic(fmt.Sprintf("Store sort mismatch: %s [%s:%s] = %s:%s", a.sort, Show(i), i.sort, Show(v), v.sort))
	}
	if v.k == KApp && v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	if a.k == KApp && a.op == "store" && a.args[1] == i {
		return Store(a.args[0], i, v)
	}
	return app("store", a.sort, a, i, v)
}

func ConstArr(sort string, v *T) *T { return mk(KConstArr, "", sort, 0, []*T{v}, nil, nil) }

func Quant(q string, vars []*T, body *T, pats ...[]*T) *T {
	if body == True || body == False {
		return body
	}
	if len(vars) == 0 {
		return body
	}
	return mk(KQuant, q, SBool, 0, []*T{body}, vars, pats)
}
func Forall(vars []*T, body *T, pats ...[]*T) *T { return Quant("forall", vars, body, pats...) }
func Exists(vars []*T, body *T) *T              { return Quant("exists", vars, body) }

func VI(tag, v *T) *T { return app("VI", SVal, tag, v) }
func VS(tag, v *T) *T { return app("VS", SVal, tag, v) }
func VB(tag, v *T) *T { return app("VB", SVal, tag, v) }
func VF(tag, v *T) *T { return app("VF", SVal, tag, v) }

func isCtor(c string, t *T) *T {
	if k := valCtor(t); k != "" {
		return B(k == c)
	}
	if t.k == KApp && t.op == "ite" {
		return Ite(t.args[0], isCtor(c, t.args[1]), isCtor(c, t.args[2]))
	}
	return app("is-"+c, SBool, t)
}

var ctorFields = map[string][2]string{"VI": {"vi_tag", "vi"}, "VS": {"vs_tag", "vs"}, "VB": {"vb_tag", "vb"}, "VF": {"vf_tag", "vf"}}
var ctorSort = map[string]string{"VI": SInt, "VS": SStr, "VB": SBool, "VF": SFlt}

func ctorTag(c string, t *T) *T {
	if valCtor(t) == c {
		return t.args[0]
	}
	return app(ctorFields[c][0], SInt, t)
}
func ctorPay(c string, t *T) *T {
	if valCtor(t) == c {
		return t.args[1]
	}
	if t.k == KApp && t.op == "ite" && valCtor(t.args[1]) == c && valCtor(t.args[2]) == c {
		return Ite(t.args[0], ctorPay(c, t.args[1]), ctorPay(c, t.args[2]))
	}
	return app(ctorFields[c][1], ctorSort[c], t)
}

// tagOf: dynamic type tag of an interface value (0 for nil)
func tagOf(t *T) *T {
	switch valCtor(t) {
	case "VNil":
		return Zero
	case "VI", "VS", "VB", "VF":
		return t.args[0]
	}
	return Ite(isCtor("VI", t), ctorTag("VI", t), Ite(isCtor("VS", t), ctorTag("VS", t), Ite(isCtor("VB", t), ctorTag("VB", t), Ite(isCtor("VF", t), ctorTag("VF", t), Zero))))
}

// ---------- strings ----------
// A concatenation is a "cat" application whose operator records the literal
// shape: parts are either literals (in the op) or argument terms.
// op = "cat:" + shape where shape uses \x00 for holes.

func catParts(t *T) []*T {
	if t.k == KStr {
		if t.op == "" {
			return nil
		}
		return []*T{t}
	}
	if t.k == KApp && strings.HasPrefix(t.op, "cat:") {
		var out []*T
		lits := strings.Split(t.op[4:], "\x00")
		for i, l := range lits {
			if l != "" {
				out = append(out, StrLit(l))
			}
			if i < len(t.args) {
				out = append(out, t.args[i])
			}
		}
		return out
	}
	return []*T{t}
}

func Cat(ts ...*T) *T {
	var parts []*T
	for _, t := range ts {
		for _, p := range catParts(t) {
			if n := len(parts); n > 0 && parts[n-1].k == KStr && p.k == KStr {
				parts[n-1] = StrLit(parts[n-1].op + p.op)
			} else {
				parts = append(parts, p)
			}
		}
	}
	if len(parts) == 0 {
		return StrLit("")
	}
	if len(parts) == 1 {
		return parts[0]
	}
	shape := ""
	var args []*T
	for _, p := range parts {
		if p.k == KStr {
			shape += p.op
		} else {
			shape += "\x00"
			args = append(args, p)
		}
	}
	return app("cat:"+shape, SStr, args...)
}

func litPrefix(t *T) string {
	if t.k == KStr {
		return t.op
	}
	if t.k == KApp && strings.HasPrefix(t.op, "cat:") {
		s := t.op[4:]
		return s[:strings.IndexByte(s, 0)]
	}
	return ""
}
func litSuffix(t *T) string {
	if t.k == KStr {
		return t.op
	}
	if t.k == KApp && strings.HasPrefix(t.op, "cat:") {
		s := t.op[4:]
		return s[strings.LastIndexByte(s, 0)+1:]
	}
	return ""
}

func prefIncompat(a, b string) bool {
	return !strings.HasPrefix(a, b) && !strings.HasPrefix(b, a)
}
func sufIncompat(a, b string) bool {
	return !strings.HasSuffix(a, b) && !strings.HasSuffix(b, a)
}
func isCat(t *T) bool { return t.k == KApp && strings.HasPrefix(t.op, "cat:") }
func catMinLen(t *T) int {
	n := 0
	for _, p := range catParts(t) {
		if p.k == KStr {
			n += len(p.op)
		}
	}
	return n
}

func strNe(a, b *T) bool {
	if !(a.k == KStr || isCat(a)) || !(b.k == KStr || isCat(b)) {
		return false
	}
	if a.k == KStr && b.k == KStr {
		return a.op != b.op
	}
	if a.k == KStr && catMinLen(b) > len(a.op) || b.k == KStr && catMinLen(a) > len(b.op) {
		return true
	}
	pa, pb := litPrefix(a), litPrefix(b)
	if a.k == KStr {
		if !strings.HasPrefix(a.op, pb) || !strings.HasSuffix(a.op, litSuffix(b)) {
			return true
		}
		return false
	}
	if b.k == KStr {
		if !strings.HasPrefix(b.op, pa) || !strings.HasSuffix(b.op, litSuffix(a)) {
			return true
		}
		return false
	}
	return prefIncompat(pa, pb) || sufIncompat(litSuffix(a), litSuffix(b))
}

// strEq rewrites equalities between concatenations; nil when no rewrite applies.
func strEq(a, b *T) *T {
	if a.k == KStr && isCat(b) {
		a, b = b, a
	}
	if isCat(a) && b.k == KStr && len(a.args) == 1 {
		p, s := litPrefix(a), litSuffix(a)
		mid := b.op[len(p) : len(b.op)-len(s)]
		return Eq(a.args[0], StrLit(mid))
	}
	if isCat(a) && isCat(b) && a.op == b.op && len(a.args) == 1 {
		return Eq(a.args[0], b.args[0])
	}
	return nil
}

// Substring from constant offset to the end
func StrFrom(s *T, lo *T) *T {
	if lo == Zero {
		return s
	}
	if lo.k == KInt {
		if s.k == KStr && int(lo.n) <= len(s.op) {
			return StrLit(s.op[lo.n:])
		}
		p := litPrefix(s)
		if isCat(s) && int(lo.n) <= len(p) {
			parts := catParts(s)
			rest := append([]*T{StrLit(p[lo.n:])}, parts[1:]...)
			return Cat(rest...)
		}
	}
	return Fn("ssub", SStr, s, lo, SLen(s))
}
func StrSub(s, lo, hi *T) *T {
	if lo == Zero && (hi == SLen(s)) {
		return s
	}
	if hi == SLen(s) {
		return StrFrom(s, lo)
	}
	if s.k == KStr && lo.k == KInt && hi.k == KInt && lo.n <= hi.n && int(hi.n) <= len(s.op) {
		return StrLit(s.op[lo.n:hi.n])
	}
	return Fn("ssub", SStr, s, lo, hi)
}

func SLen(s *T) *T {
	if s.k == KStr {
		return Int(int64(len(s.op)))
	}
	if isCat(s) {
		r := Zero
		for _, p := range catParts(s) {
			r = Add(r, SLen(p))
		}
		return r
	}
	return Fn("slen", SInt, s)
}

// ---------- substitution ----------
func Subst(t *T, m map[*T]*T) *T {
	memo := map[*T]*T{}
	var f func(t *T) *T
	f = func(t *T) *T {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*T, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = f(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args, f)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func rebuild(t *T, args []*T, f func(*T) *T) *T {
	switch t.k {
	case KQuant:
		var pats [][]*T
		for _, p := range t.pats {
			var np []*T
			for _, x := range p {
				np = append(np, f(x))
			}
			pats = append(pats, np)
		}
		return Quant(t.op, t.bound, args[0], pats...)
	case KConstArr:
		return ConstArr(t.sort, args[0])
	}
	switch t.op {
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "not":
		return Not(args[0])
	case "=":
		return Eq(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "+", "++":
		return Add(args[0], args[1])
	case "neg":
		return Neg(args[0])
	case "*":
		return Mul(args[0], args[1])
	case "<":
		return Lt(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "is-VI", "is-VS", "is-VB", "is-VF", "is-VNil":
		return isCtor(t.op[3:], args[0])
	case "vi_tag", "vs_tag", "vb_tag", "vf_tag":
		return ctorTag(strings.ToUpper(t.op[:2]), args[0])
	case "vi", "vs", "vb", "vf":
		return ctorPay(strings.ToUpper(t.op[:2]), args[0])
	case "uf:slen":
		return SLen(args[0])
	}
	if strings.HasPrefix(t.op, "cat:") {
		lits := strings.Split(t.op[4:], "\x00")
		var parts []*T
		for i, l := range lits {
			if l != "" {
				parts = append(parts, StrLit(l))
			}
			if i < len(args) {
				parts = append(parts, args[i])
			}
		}
		return Cat(parts...)
	}
	return mk(t.k, t.op, t.sort, t.n, args, t.bound, t.pats)
}

// ---------- printing ----------

func Show(t *T) string {
	var sb strings.Builder
	show(&sb, t, 0)
	s := sb.String()
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}
func show(sb *strings.Builder, t *T, d int) {
	if d > 12 || sb.Len() > 500 {
		sb.WriteString("…")
		return
	}
	switch t.k {
	case KInt:
		sb.WriteString(strconv.FormatInt(t.n, 10))
	case KStr:
		sb.WriteString(strconv.Quote(t.op))
	case KConst, KBound, KBool:
		sb.WriteString(t.op)
	case KConstArr:
		sb.WriteString("K(")
		show(sb, t.args[0], d+1)
		sb.WriteString(")")
	case KQuant:
		sb.WriteString("(" + t.op)
		for _, b := range t.bound {
			sb.WriteString(" " + b.op)
		}
		sb.WriteString(". ")
		show(sb, t.args[0], d+1)
		sb.WriteString(")")
	default:
		if len(t.args) == 0 {
			sb.WriteString(t.op)
			return
		}
		sb.WriteString("(" + strings.ReplaceAll(t.op, "\x00", "%"))
		for _, a := range t.args {
			sb.WriteString(" ")
			show(sb, a, d+1)
		}
		sb.WriteString(")")
	}
}

func qn(s string) string { return "|" + s + "|" }

// Script renders assertions (conjoined) as a full SMT-LIB script.
type Script struct {
	sb    strings.Builder
	named map[int]string
	refs  map[int]int
	seen  map[int]bool
}

func collect(ts []*T) []*T {
	seen := map[int]bool{}
	var out []*T
	var walk func(t *T)
	walk = func(t *T) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.args {
			walk(a)
		}
		for _, p := range t.pats {
			for _, a := range p {
				walk(a)
			}
		}
		for _, b := range t.bound {
			walk(b)
		}
		out = append(out, t)
	}
	for _, t := range ts {
		walk(t)
	}
	return out
}

func buildScript(asserts []*T) string {
	all := collect(asserts)
	// extra axioms by ground/quantified instantiation for strings
	ax := stringAxioms(all)
	ax = append(ax, extraAxioms(all)...)
	if len(ax) > 0 {
		asserts = append(append([]*T{}, ax...), asserts...)
		all = collect(asserts)
	}
	var sb strings.Builder
	sb.WriteString("(declare-sort Str 0)\n(declare-sort Flt 0)\n(declare-datatypes ((Val 0)) (((VNil) (VI (vi_tag Int) (vi Int)) (VS (vs_tag Int) (vs Str)) (VB (vb_tag Int) (vb Bool)) (VF (vf_tag Int) (vf Flt)))))\n")
	usedUF := map[string]bool{}
	cats := map[string]int{}
	lits := map[string]string{}
	var litNames []string
	refs := map[int]int{}
	for _, t := range all {
		for _, a := range t.args {
			refs[a.id]++
		}
		switch t.k {
		case KConst:
			fmt.Fprintf(&sb, "(declare-const %s %s)\n", qn(t.op), t.sort)
		case KStr:
			n := fmt.Sprintf("str%d_%s", t.id, cleanName(trunc(t.op, 30)))
			lits[t.op] = qn(n)
			litNames = append(litNames, qn(n))
			fmt.Fprintf(&sb, "(declare-const %s Str)\n", qn(n))
		case KApp:
			if strings.HasPrefix(t.op, "uf:") {
				usedUF[t.op[3:]] = true
			} else if strings.HasPrefix(t.op, "cat:") {
				if _, ok := cats[t.op]; !ok {
					cats[t.op] = len(t.args)
				}
			}
		}
	}
	var un []string
	for u := range usedUF {
		un = append(un, u)
	}
	sort.Strings(un)
	for _, u := range un {
		f := ufs[u]
		fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", qn(u), strings.Join(f.args, " "), f.ret)
	}
	var cn []string
	for c := range cats {
		cn = append(cn, c)
	}
	sort.Strings(cn)
	for _, c := range cn {
		fmt.Fprintf(&sb, "(declare-fun %s (%s) Str)\n", catName(c), strings.TrimSpace(strings.Repeat("Str ", cats[c])))
	}
	if len(litNames) > 1 {
		fmt.Fprintf(&sb, "(assert (distinct %s))\n", strings.Join(litNames, " "))
	}
	p := &printer{named: map[int]string{}, lits: lits}
	for _, t := range all {
		if !t.open && len(t.args) > 0 && refs[t.id] > 1 && t.k != KBound {
			s := p.str(t)
			if len(s) > 24 {
				n := fmt.Sprintf("t%d", t.id)
				fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, t.sort, s)
				p.named[t.id] = n
			}
		}
	}
	for _, a := range asserts {
		fmt.Fprintf(&sb, "(assert %s)\n", p.str(a))
	}
	return sb.String()
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}
func catName(op string) string {
	return qn("cat_" + cleanName(strings.ReplaceAll(op[4:], "\x00", "%")) + fmt.Sprintf("_%x", hash(op)))
}
func hash(s string) uint32 {
	var h uint32 = 2166136261
	for i := 0; i < len(s); i++ {
		h ^= uint32(s[i])
		h *= 16777619
	}
	return h
}

type printer struct {
	named map[int]string
	lits  map[string]string
}

func (p *printer) str(t *T) string {
	var sb strings.Builder
	p.w(&sb, t)
	return sb.String()
}
func (p *printer) w(sb *strings.Builder, t *T) {
	if n, ok := p.named[t.id]; ok {
		sb.WriteString(n)
		return
	}
	switch t.k {
	case KInt:
		if t.n < 0 {
			fmt.Fprintf(sb, "(- %s)", strings.TrimPrefix(strconv.FormatInt(t.n, 10), "-"))
		} else {
			sb.WriteString(strconv.FormatInt(t.n, 10))
		}
	case KStr:
		sb.WriteString(p.lits[t.op])
	case KBool:
		sb.WriteString(t.op)
	case KConst, KBound:
		sb.WriteString(qn(t.op))
	case KConstArr:
		sb.WriteString("((as const " + t.sort + ") ")
		p.w(sb, t.args[0])
		sb.WriteString(")")
	case KQuant:
		sb.WriteString("(" + t.op + " (")
		for _, b := range t.bound {
			fmt.Fprintf(sb, "(%s %s)", qn(b.op), b.sort)
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		p.w(sb, t.args[0])
		if len(t.pats) > 0 {
			for _, pt := range t.pats {
				sb.WriteString(" :pattern (")
				for i, x := range pt {
					if i > 0 {
						sb.WriteString(" ")
					}
					p.w(sb, x)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
	case KApp:
		op := t.op
		if strings.HasPrefix(op, "lit:") {
			s := op[4:]
			if s[0] == '-' {
				sb.WriteString("(- " + s[1:] + ")")
			} else {
				sb.WriteString(s)
			}
			return
		}
		switch {
		case strings.HasPrefix(op, "uf:"):
			op = qn(op[3:])
		case strings.HasPrefix(op, "cat:"):
			op = catName(op)
		case op == "++":
			op = "+"
		case op == "neg":
			op = "-"
		case strings.HasPrefix(op, "is-"):
			op = "(_ is " + op[3:] + ")"
		}
		if len(t.args) == 0 {
			sb.WriteString(op)
			return
		}
		sb.WriteString("(" + op)
		for _, a := range t.args {
			sb.WriteByte(' ')
			p.w(sb, a)
		}
		sb.WriteByte(')')
	}
}

// rawSubst replaces without simplifying (the facts stated here are what simplification knows)
func rawSubst(t *T, m map[*T]*T) *T {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	args := make([]*T, len(t.args))
	for i, a := range t.args {
		args[i] = rawSubst(a, m)
	}
	return mk(t.k, t.op, t.sort, t.n, args, nil, nil)
}

// stringAxioms: facts about literals, lengths and concatenation shapes that occur.
func stringAxioms(all []*T) []*T {
	var ax []*T
	shapes := map[string]*T{}
	// the applications that occur without bound variables: where all of a shape's do, the
	// facts below are stated for those only, so that no quantifier is needed
	ground := map[string][]*T{}
	open := map[string]bool{}
	var lits []*T
	forall := func(vs []*T, body *T, pat []*T, over ...string) {
		tuples := [][]*T{nil}
		for _, n := range over {
			var nt [][]*T
			for _, t := range ground[n] {
				for _, u := range tuples {
					nt = append(nt, append(append([]*T{}, u...), t.args...))
				}
			}
			tuples = nt
			if open[n] || len(tuples) > 64 {
				ax = append(ax, Forall(vs, body, pat))
				return
			}
		}
		for _, u := range tuples {
			m := map[*T]*T{}
			for i, v := range vs {
				m[v] = u[i]
			}
			ax = append(ax, rawSubst(body, m))
		}
	}
	seenLen := false
	for _, t := range all {
		if t.k == KStr {
			lits = append(lits, t)
		}
		if isCat(t) {
			if _, ok := shapes[t.op]; !ok {
				shapes[t.op] = t
			}
			if t.open {
				open[t.op] = true
			} else {
				ground[t.op] = append(ground[t.op], t)
			}
		}
		if t.k == KApp && t.op == "uf:slen" {
			seenLen = true
			if !t.open {
				s := t.args[0]
				ax = append(ax, Le(Zero, t))
				ax = append(ax, Eq(Eq(t, Zero), Eq(s, StrLit(""))))
			}
		}
	}
	_ = seenLen
	if len(shapes) == 0 {
		return ax
	}
	var names []string
	for n := range shapes {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		t := shapes[n]
		vs := make([]*T, len(t.args))
		for i := range vs {
			vs[i] = mk(KBound, fmt.Sprintf("cs%d", i), SStr, 0, nil, nil, nil)
		}
		ct := mk(KApp, n, SStr, 0, vs, nil, nil)
		if len(vs) == 1 {
			inv := Fn("uncat_"+fmt.Sprintf("%x", hash(n)), SStr, ct)
			forall(vs, app("=", SBool, inv, vs[0]), []*T{ct}, n)
		}
		// distinct from literals / literal matches
		for _, l := range lits {
			e := Eq(ct, l)
			if e == False {
				forall(vs, app("not", SBool, app("=", SBool, ct, l)), []*T{ct}, n)
			} else if e.k == KApp && e.op == "=" && e.args[0].sort == SStr && len(vs) == 1 {
				forall(vs, app("=", SBool, app("=", SBool, ct, l), e), []*T{ct}, n)
			}
		}
	}
	for i, n := range names {
		for _, m := range names[i+1:] {
			a, b := shapes[n], shapes[m]
			va := make([]*T, len(a.args))
			vb := make([]*T, len(b.args))
			for i := range va {
				va[i] = mk(KBound, fmt.Sprintf("cs%d", i), SStr, 0, nil, nil, nil)
			}
			for i := range vb {
				vb[i] = mk(KBound, fmt.Sprintf("ct%d", i), SStr, 0, nil, nil, nil)
			}
			ca := mk(KApp, n, SStr, 0, va, nil, nil)
			cb := mk(KApp, m, SStr, 0, vb, nil, nil)
			if strNe(ca, cb) {
				forall(append(append([]*T{}, va...), vb...), app("not", SBool, app("=", SBool, ca, cb)), []*T{ca, cb}, n, m)
			}
		}
	}
	return ax
}

// hook: axioms registered for uninterpreted functions, instantiated when the function occurs
var ufAxioms = map[string][]*T{} // uf name -> closed axioms

func extraAxioms(all []*T) []*T {
	used := map[string]bool{}
	var ax []*T
	done := map[int]bool{}
	work := all
	for len(work) > 0 {
		var newAx []*T
		for _, t := range work {
			if t.k == KApp && strings.HasPrefix(t.op, "uf:") && !used[t.op] {
				used[t.op] = true
				for _, a := range ufAxioms[t.op[3:]] {
					if !done[a.id] {
						done[a.id] = true
						newAx = append(newAx, a)
					}
				}
			}
		}
		ax = append(ax, newAx...)
		work = collect(newAx)
	}
	return ax
}

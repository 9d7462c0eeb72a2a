package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Clause is one requires/ensures/final/loop clause of a contract.
type Clause struct {
	kind  string
	label string
	props []string
	text  string
	e     ast.Expr
	vars  []LVar // loop template metavariables
	lhs   ast.Expr
	file  string
	line  int
	nth   int
	// apply: the function applied, its condition, the application it follows
	e2    ast.Expr
	after string
	// at: the call it is attached to
	callee  string
	npar    int
	nopanic bool
	assume  bool
	join    bool // at chan.recv: the goroutines started so far are done when the receive is
}

type LVar struct{ name, typ string }

type Contract struct {
	kind    string // func extern iface functype
	name    string // canonical
	pkg     string // package whose scope resolves names
	params  []string
	results []string
	clauses []*Clause
	modAll  bool
	mods    []*Clause
	keeps   []*Clause
	locked  []*Clause // locks the caller holds (kind "locked" exclusively, "rlocked" shared)
	starts   []*Clause
	sets    []*Clause
	flags   map[string]bool
	file    string
	line    int
	imports map[string]string
	props   []string
}

func (c *Contract) byKind(k string) []*Clause {
	var out []*Clause
	for _, cl := range c.clauses {
		if cl.kind == k {
			out = append(out, cl)
		}
	}
	return out
}

type GhostDecl struct {
	name string
	sort string
}

type Monitor struct {
	owner  string // type key of the owner struct
	lock   string // field path of the lock
	fields []string
	props  []string
	rw     bool
}

type Macro struct {
	name   string
	params []string
	e      ast.Expr
	pkg    string
	imports map[string]string
}

type UFDecl struct {
	name string
	args []string
	ret  string
}

type Axiom struct {
	name string
	e    ast.Expr
	pkg  string
	imports map[string]string
	text string
	props []string
	file string
	line int
}

type Spec struct {
	globals   []*Axiom
	atomics   map[string]bool
	atomicProps map[string][]string
	contracts map[string]*Contract
	functypes map[string]*Contract
	ghosts    map[string]*GhostDecl
	tghosts   []string
	macros    map[string]*Macro
	ufs       map[string]*UFDecl
	axioms    []*Axiom
	guards    map[string]*Monitor
	monitors  []*Monitor
	stable    map[string][]string // heap key prefix -> allowed writer functions
	chans     map[string]string
	trusted   []string // name patterns
	unlisted map[string][]string
	trustedWhy map[string]string
	titles    map[string]string
	files     []string
	propNotes map[string][]string
	hasFinal  map[string]bool
}

func sortOf(s string) string {
	s = strings.TrimSpace(s)
	switch s {
	case "int", "ref":
		return SInt
	case "bool":
		return SBool
	case "string", "str":
		return SStr
	case "val", "any", "error":
		return SVal
	case "flt":
		return SFlt
	}
	if strings.HasPrefix(s, "[") {
		i := strings.Index(s, "]")
		return arrSort(sortOf(s[1:i]), sortOf(s[i+1:]))
	}
	panic("unknown sort " + s)
}

// rewriteImp turns a ==> b and a <==> b into calls imp(a,b) / iff(a,b).
func rewriteImp(s string) string {
	var out strings.Builder
	// process groups first
	depth := 0
	start := -1
	var q byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		if q != 0 {
			if depth == 0 {
				out.WriteByte(c)
			}
			if c == '\\' && q != '`' {
				i++
				if depth == 0 {
					out.WriteByte(s[i])
				}
				continue
			}
			if c == q {
				q = 0
			}
			continue
		}
		switch c {
		case '"', '`', '\'':
			q = c
			if depth == 0 {
				out.WriteByte(c)
			}
		case '(', '[', '{':
			if depth == 0 {
				out.WriteByte(c)
				start = i + 1
			}
			depth++
		case ')', ']', '}':
			depth--
			if depth == 0 {
				inner := s[start:i]
				parts := splitTop(inner, ",")
				for j, p := range parts {
					if j > 0 {
						out.WriteString(", ")
					}
					out.WriteString(rewriteImp(p))
				}
				out.WriteByte(c)
			}
		default:
			if depth == 0 {
				out.WriteByte(c)
			}
		}
	}
	t := out.String()
	if ps := splitTop(t, "<==>"); len(ps) == 2 {
		return "iff(" + impOnly(ps[0]) + ", " + impOnly(ps[1]) + ")"
	}
	return impOnly(t)
}

func impOnly(t string) string {
	ps := splitTop(t, "==>")
	if len(ps) == 1 {
		return t
	}
	r := ps[len(ps)-1]
	for i := len(ps) - 2; i >= 0; i-- {
		r = "imp(" + ps[i] + ", " + r + ")"
	}
	return r
}

func splitTop(s, sep string) []string {
	var out []string
	d := 0
	last := 0
	var q byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		if q != 0 {
			if c == '\\' && q != '`' {
				i++
			} else if c == q {
				q = 0
			}
			continue
		}
		switch c {
		case '"', '`', '\'':
			q = c
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		default:
			if d == 0 && strings.HasPrefix(s[i:], sep) {
				if sep == "==>" && i > 0 && s[i-1] == '<' {
					continue
				}
				out = append(out, s[last:i])
				i += len(sep) - 1
				last = i + 1
			}
		}
	}
	return append(out, s[last:])
}

func parseExpr(s string) (ast.Expr, error) {
	return parser.ParseExpr(rewriteImp(s))
}

func NewSpec() *Spec {
	return &Spec{contracts: map[string]*Contract{}, functypes: map[string]*Contract{}, ghosts: map[string]*GhostDecl{}, macros: map[string]*Macro{},
		ufs: map[string]*UFDecl{}, atomics: map[string]bool{}, atomicProps: map[string][]string{}, guards: map[string]*Monitor{}, stable: map[string][]string{}, chans: map[string]string{}, unlisted: map[string][]string{}, trustedWhy: map[string]string{}, titles: map[string]string{}, propNotes: map[string][]string{}}
}

func LoadSpec(dir string) (*Spec, error) {
	sp := NewSpec()
	fs, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(fs)
	if len(fs) == 0 {
		return nil, fmt.Errorf("no contracts in %s", dir)
	}
	for _, f := range fs {
		if err := sp.parseFile(f); err != nil {
			return nil, err
		}
	}
	sp.initContracts()
	return sp, nil
}

func (sp *Spec) parseFile(file string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	sp.files = append(sp.files, file)
	raw := strings.Split(string(b), "\n")
	// logical lines: a line indented by >= 6 spaces continues the previous one
	type ll struct {
		s string
		n int
	}
	var lines []ll
	for i, l := range raw {
		if j := strings.Index(l, "//"); j >= 0 && (j == 0 || l[j-1] == ' ' || l[j-1] == '\t') {
			l = l[:j]
		}
		l = strings.TrimRight(l, " \t\r")
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "      ") && len(lines) > 0 {
			lines[len(lines)-1].s += " " + strings.TrimSpace(l)
			continue
		}
		lines = append(lines, ll{l, i + 1})
	}
	pkg := ""
	imports := map[string]string{}
	var cur *Contract
	fail := func(n int, f string, a ...interface{}) error {
		return fmt.Errorf("%s:%d: %s", filepath.Base(file), n, fmt.Sprintf(f, a...))
	}
	for _, l := range lines {
		s := l.s
		indented := strings.HasPrefix(s, " ")
		s = strings.TrimSpace(s)
		word, rest, _ := strings.Cut(s, " ")
		rest = strings.TrimSpace(rest)
		if !indented {
			cur = nil
			switch word {
			case "package":
				pkg = rest
				imports = map[string]string{}
			case "import":
				fs := strings.Fields(rest)
				if len(fs) != 2 {
					return fail(l.n, "import alias path")
				}
				imports[fs[0]] = fs[1]
			case "threadghost":
				// a ghost each goroutine has of its own; it starts with its parent's value
				fs := strings.Fields(rest)
				if why := sp.taken(fs[0]); why != "" {
					return fail(l.n, "%s", why)
				}
				sp.ghosts[fs[0]] = &GhostDecl{fs[0], sortOf(strings.Join(fs[1:], ""))}
				sp.tghosts = append(sp.tghosts, fs[0])
			case "ghost":
				fs := strings.Fields(rest)
				if why := sp.taken(fs[0]); why != "" {
					return fail(l.n, "%s", why)
				}
				sp.ghosts[fs[0]] = &GhostDecl{fs[0], sortOf(strings.Join(fs[1:], ""))}
			case "ufun":
				i, j := strings.Index(rest, "("), strings.Index(rest, ")")
				u := &UFDecl{name: strings.TrimSpace(rest[:i]), ret: sortOf(rest[j+1:])}
				for _, a := range strings.Split(rest[i+1:j], ",") {
					if strings.TrimSpace(a) != "" {
						u.args = append(u.args, sortOf(a))
					}
				}
				if why := sp.taken(u.name); why != "" {
					return fail(l.n, "%s", why)
				}
				sp.ufs[u.name] = u
			case "define":
				lhs, rhs, ok := strings.Cut(rest, " = ")
				if !ok {
					return fail(l.n, "define name(params) = expr")
				}
				i, j := strings.Index(lhs, "("), strings.LastIndex(lhs, ")")
				m := &Macro{name: strings.TrimSpace(lhs[:i]), pkg: pkg, imports: imports}
				for _, a := range strings.Split(lhs[i+1:j], ",") {
					if strings.TrimSpace(a) != "" {
						m.params = append(m.params, strings.TrimSpace(a))
					}
				}
				e, err := parseExpr(rhs)
				if err != nil {
					return fail(l.n, "%v in %s", err, rhs)
				}
				m.e = e
				if why := sp.taken(m.name); why != "" {
					return fail(l.n, "%s", why)
				}
				sp.macros[m.name] = m
			case "axiom":
				nm, rhs, ok := strings.Cut(rest, ":")
				if !ok {
					return fail(l.n, "axiom name: expr")
				}
				e, err := parseExpr(rhs)
				if err != nil {
					return fail(l.n, "%v", err)
				}
				sp.axioms = append(sp.axioms, &Axiom{name: strings.TrimSpace(nm), e: e, pkg: pkg, imports: imports, text: strings.TrimSpace(rhs)})
			case "global":
				// global name [P..]: invariant of package-level variables set once by the package initialiser
				nm, rhs, ok := strings.Cut(rest, ":")
				if !ok {
					return fail(l.n, "global name: expr")
				}
				e, err := parseExpr(rhs)
				if err != nil {
					return fail(l.n, "%v", err)
				}
				props, nm := takeProps(nm)
				sp.globals = append(sp.globals, &Axiom{name: strings.TrimSpace(nm), e: e, pkg: pkg, imports: imports, text: strings.TrimSpace(rhs), props: props, file: filepath.Base(file), line: l.n})
			case "stable":
				// stable Type.field Type.field : writer writer
				l1, l2, _ := strings.Cut(rest, ":")
				ws := strings.Fields(l2)
				for _, f := range strings.Fields(l1) {
					if strings.HasPrefix(f, "[]") {
						sp.stable["[]"+pkg+"."+f[2:]] = ws
						continue
					}
					sp.stable[pkg+"."+f] = ws
				}
			case "monitor":
				// monitor Type.lock guards f1 f2 [P32]
				props, r := takeProps(rest)
				l1, l2, ok := strings.Cut(r, " guards ")
				if !ok {
					return fail(l.n, "monitor T.lock guards fields")
				}
				i := strings.Index(l1, ".")
				m := &Monitor{lock: strings.TrimSpace(l1[i+1:]), fields: strings.Fields(l2), props: props}
				if i < 0 {
					// a package-level lock guarding package-level variables
					m.owner = "g:" + pkg
				} else {
					m.owner = pkg + "." + l1[:i]
				}
				sp.monitors = append(sp.monitors, m)
				for _, f := range m.fields {
					sp.guards[m.owner+"."+f] = m
				}
			case "atomic":
				// atomic T.f [P..]: accessed by atomic operations only
				props, r := takeProps(rest)
				for _, f := range strings.Fields(r) {
					sp.atomics[pkg+"."+f] = true
					sp.atomicProps[pkg+"."+f] = props
				}
			case "chan":
				// chan exact Type.field
				fs := strings.Fields(rest)
				for _, f := range fs[1:] {
					sp.chans[pkg+"."+f] = fs[0]
				}
			case "trusted":
				nm, why, _ := strings.Cut(rest, ":")
				for _, f := range strings.Fields(nm) {
					sp.trusted = append(sp.trusted, f)
					sp.trustedWhy[f] = strings.TrimSpace(why)
				}
			case "unlisted":
				// unlisted g1 g2 : alias.Type ...  (functions of these types without
				// a contract leave the ghosts with unknown values)
				gs, ts, ok := strings.Cut(rest, ":")
				if !ok {
					return fail(l.n, "unlisted ghosts : types")
				}
				for _, t := range strings.Fields(ts) {
					al, r, _ := strings.Cut(t, ".")
					if p, ok := imports[al]; ok {
						t = strings.TrimPrefix(p, "github.com/pojol/braid/") + "." + r
					}
					sp.unlisted[t+"."] = append(sp.unlisted[t+"."], strings.Fields(gs)...)
				}
			case "note":
				fs := strings.SplitN(rest, ":", 2)
				sp.propNotes[strings.TrimSpace(fs[0])] = append(sp.propNotes[strings.TrimSpace(fs[0])], strings.TrimSpace(fs[1]))
			case "func", "extern", "iface", "functype":
				c := &Contract{kind: word, pkg: pkg, flags: map[string]bool{}, file: filepath.Base(file), line: l.n, imports: imports}
				name := rest
				if word == "functype" {
					// functype "typekey" (params) (results)
					if !strings.HasPrefix(rest, "\"") {
						return fail(l.n, "functype needs a quoted type")
					}
					j := strings.Index(rest[1:], "\"") + 1
					c.name = rest[1:j]
					name = rest[j+1:]
				} else {
					i := strings.Index(rest, "(")
					if i < 0 {
						return fail(l.n, "missing parameter list")
					}
					c.name = strings.TrimSpace(rest[:i])
					name = rest[i:]
				}
				groups := parenGroups(name)
				if len(groups) > 0 {
					c.params = idents(groups[0])
				}
				if len(groups) > 1 {
					c.results = idents(groups[1])
				}
				switch word {
				case "func":
					c.name = pkg + "." + c.name
				case "extern", "iface":
					al, r, _ := strings.Cut(c.name, ".")
					if p, ok := imports[al]; ok {
						c.name = strings.TrimPrefix(p, "github.com/pojol/braid/") + "." + r
					} 
				}
				if word == "functype" {
					sp.functypes[c.name] = c
				} else {
					if sp.contracts[c.name] != nil {
						return fail(l.n, "duplicate contract %s", c.name)
					}
					sp.contracts[c.name] = c
				}
				cur = c
			default:
				return fail(l.n, "unknown directive %q", word)
			}
			continue
		}
		if cur == nil {
			return fail(l.n, "clause outside a contract")
		}
		kw := word
		if i := strings.Index(s, "("); i > 0 && strings.HasPrefix(s, "loop") {
			kw = "loop"
			rest = s[4:]
		}
		switch kw {
		case "requires", "inv", "ensures", "final", "threadend", "panics", "assert", "applied", "appliedpanics", "given":
			cl := &Clause{kind: kw, file: filepath.Base(file), line: l.n}
			lab, ex, ok := cutLabel(rest)
			if !ok {
				return fail(l.n, "%s label: expr", kw)
			}
			props, lab2 := takeProps(lab)
			cl.props, cl.label, cl.text = props, lab2, strings.TrimSpace(ex)
			e, err := parseExpr(ex)
			if err != nil {
				return fail(l.n, "%v in %q", err, rewriteImp(ex))
			}
			cl.e = e
			cur.clauses = append(cur.clauses, cl)
			for _, p := range props {
				if !contains(cur.props, p) {
					cur.props = append(cur.props, p)
				}
			}
		case "modifies":
			for _, p := range splitTop(rest, ",") {
				p = strings.TrimSpace(p)
				if p == "all" {
					cur.modAll = true
					continue
				}
				e, err := parseExpr(p)
				if err != nil {
					return fail(l.n, "%v", err)
				}
				cur.mods = append(cur.mods, &Clause{kind: "modifies", text: p, e: e, line: l.n})
			}
		case "locked", "rlocked":
			// locks the caller holds on entry, and still holds on exit
			for _, p := range splitTop(rest, ",") {
				e, err := parseExpr(strings.TrimSpace(p))
				if err != nil {
					return fail(l.n, "%v", err)
				}
				cur.locked = append(cur.locked, &Clause{kind: kw, text: strings.TrimSpace(p), e: e, line: l.n})
			}
		case "keeps":
			// locations no other code writes while this function and its goroutines run
			for _, p := range splitTop(rest, ",") {
				e, err := parseExpr(strings.TrimSpace(p))
				if err != nil {
					return fail(l.n, "%v", err)
				}
				cur.keeps = append(cur.keeps, &Clause{kind: "keeps", text: strings.TrimSpace(p), e: e, line: l.n})
			}
		case "start":
			// start g := e: a ghost assignment at the function's entry (g must be listed under modifies)
			lhs, rhs, ok := strings.Cut(rest, ":=")
			if !ok {
				return fail(l.n, "start g := e")
			}
			le, err := parseExpr(lhs)
			if err != nil {
				return fail(l.n, "%v", err)
			}
			re, err := parseExpr(rhs)
			if err != nil {
				return fail(l.n, "%v", err)
			}
			cur.starts = append(cur.starts, &Clause{kind: "start", text: rest, lhs: le, e: re, line: l.n})
		case "set":
			lhs, rhs, ok := strings.Cut(rest, ":=")
			if !ok {
				return fail(l.n, "set g := e")
			}
			le, err := parseExpr(lhs)
			if err != nil {
				return fail(l.n, "%v", err)
			}
			re, err := parseExpr(rhs)
			if err != nil {
				return fail(l.n, "%v in %q", err, rewriteImp(rhs))
			}
			cur.sets = append(cur.sets, &Clause{kind: "set", text: rest, lhs: le, e: re, line: l.n})
		case "loop":
			// loop(_k int, _s string): expr
			g := parenGroups(rest)
			cl := &Clause{kind: "loop", line: l.n}
			i := strings.Index(rest, ")")
			tail := strings.TrimSpace(rest[i+1:])
			tail = strings.TrimPrefix(tail, ":")
			for _, p := range strings.Split(g[0], ",") {
				fs := strings.Fields(p)
				if len(fs) >= 2 {
					cl.vars = append(cl.vars, LVar{fs[0], strings.Join(fs[1:], "")})
				}
			}
			cl.text = strings.TrimSpace(tail)
			e, err := parseExpr(tail)
			if err != nil {
				return fail(l.n, "%v", err)
			}
			cl.e = e
			cur.clauses = append(cur.clauses, cl)
		case "apply":
			// apply f(p, q) [after g] [is EXPR] [when COND]: the postconditions "applied" that follow speak about
			// calling f (a result, or the function EXPR denotes) with arbitrary p, q
			g := parenGroups(rest)
			cl := &Clause{kind: "apply", file: filepath.Base(file), line: l.n, text: rest, label: strings.TrimSpace(rest[:strings.Index(rest, "(")])}
			for _, n := range idents(g[0]) {
				cl.vars = append(cl.vars, LVar{n, ""})
			}
			tail := strings.TrimSpace(rest[strings.Index(rest, ")")+1:])
			if i := strings.Index(tail, "when "); i >= 0 {
				e, err := parseExpr(tail[i+5:])
				if err != nil {
					return fail(l.n, "%v", err)
				}
				cl.e2, tail = e, strings.TrimSpace(tail[:i])
			}
			if i := strings.Index(tail, "is "); i >= 0 {
				e, err := parseExpr(tail[i+3:])
				if err != nil {
					return fail(l.n, "%v", err)
				}
				cl.e, tail = e, strings.TrimSpace(tail[:i])
			}
			cl.after = strings.TrimSpace(strings.TrimPrefix(tail, "after "))
			cur.clauses = append(cur.clauses, cl)
		case "at":
			// at [after] callee(params) [(results)] (label [P]: e | set g := e | assume label: e)
			cl := &Clause{kind: "at", file: filepath.Base(file), line: l.n, text: rest}
			r := rest
			if strings.HasPrefix(r, "after ") {
				cl.kind, r = "atafter", strings.TrimSpace(r[6:])
			}
			i := strings.Index(r, "(")
			if r[0] == '"' {
				i = strings.Index(r[1:], "\"") + 2
			}
			nm := strings.Trim(strings.TrimSpace(r[:i]), "\"")
			if r[0] != '"' {
				al, q, _ := strings.Cut(nm, ".")
				if p, ok := imports[al]; ok {
					nm = strings.TrimPrefix(p, "github.com/pojol/braid/") + "." + q
				} else if !strings.Contains(nm, "/") && al != "chan" {
					nm = pkg + "." + nm
				}
			}
			cl.callee = nm
			for r = strings.TrimSpace(r[i:]); strings.HasPrefix(r, "("); {
				j := strings.Index(r, ")")
				for _, n := range idents(r[1:j]) {
					cl.vars = append(cl.vars, LVar{n, ""})
				}
				if cl.npar == 0 {
					cl.npar = len(cl.vars) + 1
				}
				r = strings.TrimSpace(r[j+1:])
			}
			if q, ok := strings.CutPrefix(r, "set "); ok {
				lhs, rhs, ok := strings.Cut(q, ":=")
				if !ok {
					return fail(l.n, "set g := e")
				}
				le, err := parseExpr(lhs)
				if err != nil {
					return fail(l.n, "%v", err)
				}
				re, err := parseExpr(rhs)
				if err != nil {
					return fail(l.n, "%v", err)
				}
				cl.lhs, cl.e = le, re
			} else {
				if q, ok := strings.CutPrefix(r, "nopanic "); ok {
					cl.nopanic, cl.label = true, strings.TrimSpace(q)
					cur.clauses = append(cur.clauses, cl)
					break
				}
				if q, ok := strings.CutPrefix(r, "assume "); ok {
					cl.assume, r = true, q
				} else if q, ok := strings.CutPrefix(r, "join "); ok {
					cl.join, r = true, q
				}
				lab, ex, ok := cutLabel(r)
				if !ok {
					return fail(l.n, "at callee(params) label: expr")
				}
				props, lab2 := takeProps(lab)
				cl.props, cl.label = props, lab2
				e, err := parseExpr(ex)
				if err != nil {
					return fail(l.n, "%v in %q", err, rewriteImp(ex))
				}
				cl.e = e
				for _, p := range props {
					if !contains(cur.props, p) {
						cur.props = append(cur.props, p)
					}
				}
			}
			cur.clauses = append(cur.clauses, cl)
		case "calls":
			// calls [after] f(args) (results): the function calls back
			cl := &Clause{kind: "calls", line: l.n, text: rest}
			r := rest
			if strings.HasPrefix(r, "after ") {
				cl.kind, r = "callsafter", r[6:]
			}
			g := parenGroups(r)
			if len(g) > 1 {
				for _, n := range idents(g[len(g)-1]) {
					cl.vars = append(cl.vars, LVar{n, ""})
				}
			}
			r = r[:strings.Index(r, ")")+1]
			e, err := parseExpr(r)
			if err != nil {
				return fail(l.n, "%v", err)
			}
			cl.e = e
			cur.clauses = append(cur.clauses, cl)
		case "prop":
			for _, p := range strings.Fields(rest) {
				if !contains(cur.props, p) {
					cur.props = append(cur.props, p)
				}
			}
		default:
			for _, f := range strings.Fields(s) {
				cur.flags[f] = true
			}
		}
	}
	return nil
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// label [P01 P02]: expr
func cutLabel(s string) (string, string, bool) {
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '[', '(':
			d++
		case ']', ')':
			d--
		case ':':
			if d == 0 {
				return s[:i], s[i+1:], true
			}
		}
	}
	return "", "", false
}

func takeProps(s string) ([]string, string) {
	i, j := strings.Index(s, "["), strings.Index(s, "]")
	if i < 0 || j < i {
		return nil, strings.TrimSpace(s)
	}
	return strings.Fields(strings.ReplaceAll(s[i+1:j], ",", " ")), strings.TrimSpace(s[:i] + s[j+1:])
}

func parenGroups(s string) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			if d == 0 {
				st = i + 1
			}
			d++
		case ')':
			d--
			if d == 0 {
				out = append(out, s[st:i])
			}
		}
	}
	return out
}

func idents(s string) []string {
	var out []string
	for _, p := range strings.Split(s, ",") {
		f := strings.Fields(p)
		if len(f) > 0 {
			out = append(out, f[0])
		}
	}
	return out
}

func (sp *Spec) isTrusted(name string) (string, bool) {
	for _, t := range sp.trusted {
		if t == name || strings.HasSuffix(t, "*") && strings.HasPrefix(name, t[:len(t)-1]) {
			return t, true
		}
	}
	return "", false
}

// initContracts gives the initialiser of every package with global invariants
// a contract that establishes them.
func (sp *Spec) initContracts() {
	for _, g := range sp.globals {
		if strings.HasPrefix(g.name, "extern ") {
			continue
		}
		n := g.pkg + ".init"
		c := sp.contracts[n]
		if c == nil {
			c = &Contract{kind: "func", name: n, pkg: g.pkg, flags: map[string]bool{"maypanic": true, "mayrtpanic": true, "auto": true}, modAll: true, file: g.file, line: g.line, imports: g.imports}
			sp.contracts[n] = c
		}
		c.clauses = append(c.clauses, &Clause{kind: "ensures", label: "global " + g.name, props: g.props, text: g.text, e: g.e, file: g.file, line: g.line})
	}
}

// taken: ghosts, logic functions and macros share one name space across files
func (sp *Spec) taken(n string) string {
	if sp.ghosts[n] != nil || sp.ufs[n] != nil || sp.macros[n] != nil {
		return "the name " + n + " is declared twice"
	}
	return ""
}

package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type FnResult struct {
	name     string
	obls     []*Obl
	used     []string
	assumed  []string
	unsup    []string
	abort    string
	retPaths int
	panicPaths int
	steps    int
	queries  int
	missing  bool
	facts    int
	guards   []string
}

// resetTerms gives every function a fresh solver-term universe, so that the
// obligations of one function do not depend on what was verified before it.
func resetTerms() {
	oldRefs = map[int]bool{}
	allocParent = map[*T]*T{}
	alloc0 = nil
	epochCtr = 0
}

func VerifyFn(p *Prog, spec *Spec, feas *Feas, c *Contract) (res *FnResult, err error) {
	res = &FnResult{name: c.name}
	fn := p.funcs[baseName(c.name)]
	if fn == nil {
		res.missing = true
		return res, nil
	}
	resetTerms()
	x := NewExec(p, spec, feas)
	x.c = c
	x.fn = fn
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				err = fmt.Errorf("%s", s.msg)
				return
			}
			panic(r)
		}
	}()
	x.verify()
	res.obls = x.obls
	res.abort = x.abort
	res.retPaths, res.panicPaths, res.steps = x.retPaths, x.panicPaths, x.steps
	for k := range x.used {
		res.used = append(res.used, k)
	}
	for k := range x.assumed {
		res.assumed = append(res.assumed, k)
	}
	for k := range x.unsupPaths {
		res.unsup = append(res.unsup, k)
	}
	for k := range x.guardSeen {
		res.guards = append(res.guards, k)
	}
	sort.Strings(res.used)
	sort.Strings(res.assumed)
	sort.Strings(res.unsup)
	sort.Strings(res.guards)
	return res, nil
}

func (x *Exec) initState() *State {
	alloc0 = Const("alloc0", SInt)
	st := &State{heap: map[string]*T{}, ghost: map[string]*T{}, alloc: alloc0, locks: map[*T]int{}, lockName: map[*T]string{},
		chOrig: map[*T]string{}, guard: map[*T]guardRef{}, acq: map[string]*State{}, rel: map[string]*State{}, notes: map[string]bool{}}
	x.facts = append(x.facts, Le(Int(100000), alloc0))
	return st
}

func (x *Exec) paramV(st *State, t types.Type, name string) V {
	v := x.freshV(st, t, "in:"+name)
	x.markOldV(v, t)
	return v
}

func (x *Exec) markOldV(v V, t types.Type) {
	cs := x.flatten(v, t)
	for i, c := range flat(t) {
		if c.sort != SInt || strings.HasSuffix(c.path, ".len") || strings.HasSuffix(c.path, ".off") {
			continue
		}
		switch c.t.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Chan, *types.Slice:
			oldRefs[cs[i].id] = true
		}
	}
}

func (x *Exec) verify() {
	c, fn := x.c, x.fn
	st := x.initState()
	for _, a := range x.spec.axioms {
		e := &Eval{x: x, st: st, pkg: a.pkg, imports: a.imports, vars: map[string]SV{}}
		t := e.boolean(a.e)
		registerAxiom(a.name, t)
	}
	if fn.Synthetic == "" || fn.Name() != "init" {
		for _, g := range x.spec.globals {
			if fn.Pkg == nil || !x.p.importsPkg(fn.Pkg.Pkg, g.pkg) {
				continue
			}
			e := &Eval{x: x, st: st, pkg: g.pkg, imports: g.imports, vars: map[string]SV{}}
			x.assume(st, e.boolean(g.e))
			if strings.HasPrefix(g.name, "extern ") {
				x.assumed["package variable of a dependency: "+g.text] = true
			} else {
				x.used[g.pkg+".init"] = true
			}
		}
	} else {
		x.assume(st, Not(x.load(st, &Addr{key: "g:" + pkgOf(c.name) + ".init$guard", ref: One, t: types.Typ[types.Bool]}).(*T)))
	}
	vars := map[string]SV{}
	var args []V
	for i, p := range fn.Params {
		v := x.paramV(st, p.Type(), p.Name())
		args = append(args, v)
		if i < len(c.params) {
			vars[c.params[i]] = SV{v: v, t: p.Type()}
		}
	}
	if len(c.params) > len(fn.Params) {
		serr("%s:%d: contract of %s names %d parameters, the function has %d", c.file, c.line, c.name, len(c.params), len(fn.Params))
	}
	var binds []V
	for _, fv := range fn.FreeVars {
		binds = append(binds, x.paramV(st, fv.Type(), fv.Name()))
	}
	x.vars = vars
	for _, cl := range c.byKind("requires") {
		x.assume(st, x.evalBool(st, st, vars, c, cl))
	}
	for _, cl := range c.byKind("inv") {
		x.assume(st, x.evalBool(st, st, vars, c, cl))
		x.assumed["type invariant of "+c.name+"'s receiver, assumed on entry and proved on every exit (callers do not see it): "+cl.text] = true
	}
	for _, s := range c.byKind("assert") {
		x.assume(st, x.evalBool(st, st, vars, c, s))
	}
	for _, cl := range c.keeps {
		e := &Eval{x: x, st: st, old: st, vars: vars, pkg: c.pkg, imports: c.imports}
		x.keeps = append(x.keeps, e.addrOf(cl.e))
		x.assumed["assumed in "+c.name+": no other code writes "+cl.text+" until the function and the goroutines it starts are done"] = true
	}
	for _, cl := range c.locked {
		e := &Eval{x: x, st: st, old: st, vars: vars, pkg: c.pkg, imports: c.imports}
		a := e.addrOf(cl.e)
		l := x.addrTerm(a)
		st.lockName = cm(st.lockName)
		if st.lockName == nil {
			st.lockName = map[*T]string{}
		}
		st.lockName[l] = a.key
		st.locks[l] = heldCount(cl)
		if x.lockBase == nil {
			x.lockBase = map[*T]int{}
		}
		x.lockBase[l] = heldCount(cl)
		st.acq[a.key] = st.snap()
	}
	for _, cl := range c.starts {
		g := ""
		switch l := cl.lhs.(type) {
		case *ast.Ident:
			g = l.Name
		}
		listed := false
		for _, m := range c.mods {
			if id, ok := m.e.(*ast.Ident); ok && id.Name == g {
				listed = true
			}
		}
		if !listed {
			serr("%s: start %s: not a ghost listed under modifies", c.name, cl.text)
		}
		x.applySet(st, st, c, vars, cl)
	}
	x.entry = st.snap()
	x.entry.pc = nil
	if !x.feasible(st) {
		x.oblige(st, "vacuity", "precondition is satisfiable", nil, True, "")
		x.abort = "precondition is unsatisfiable"
		return
	}
	mods := x.modLocs(x.entry, c, vars)
	frame := &Frame{fn: fn, env: map[ssa.Value]V{}, k: func(st *State, res []V, pan *T) {
		x.atExit(st, res, pan, mods)
	}}
	for i, p := range fn.Params {
		frame.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		frame.env[fv] = binds[i]
	}
	st.fr = frame
	x.goBlock(st, fn.Blocks[0], nil)
}

func (x *Exec) atExit(st *State, res []V, pan *T, mods []modLoc) {
	c, fn := x.c, x.fn
	for l, n := range st.locks {
		if n != x.lockBase[l] {
			x.oblige(st, "lock", "every lock taken is released: "+st.lockName[l], nil, False, "")
		}
	}
	if pan != nil {
		x.panicPaths++
		if c.flags["maypanic"] && !c.flags["mayrtpanic"] && valCtor(pan) == "VI" && pan.args[0] == Int(tagNamed("runtime.Error")) {
			x.oblige(st, "nopanic", "no runtime panic", nil, False, "")
			return
		}
		if !c.flags["maypanic"] {
			x.oblige(st, "nopanic", "does not panic", nil, False, "")
			return
		}
		for _, cl := range c.byKind("inv") {
			x.oblige(st, "inv", cl.label, cl.props, x.evalBool(st, x.entry, x.vars, c, cl), cl.text)
		}
		for _, cl := range c.byKind("panics") {
			x.oblige(st, "panics", cl.label, cl.props, x.evalBool(st, x.entry, x.vars, c, cl), cl.text)
		}
		x.frameObls(st, mods)
		return
	}
	x.retPaths++
	vars := cm(x.vars)
	x.bindResults(c, vars, res, fn.Signature)
	for _, k := range []string{"ensures", "inv"} {
		for _, cl := range c.byKind(k) {
			g := x.evalBool(st, x.entry, vars, c, cl)
			x.oblige(st, k, cl.label, cl.props, g, cl.text)
		}
	}
	x.frameObls(st, mods)
	for _, ap := range c.byKind("apply") {
		if ap.after == "" {
			x.applyResult(st.clone(), ap, vars)
		}
	}
	finals := c.byKind("final")
	if len(st.spawned) > 0 || len(finals) > 0 {
		x.runThreads(st, func(st *State) {
			for _, cl := range finals {
				g := x.evalBool(st, x.entry, vars, c, cl)
				x.oblige(st, "final", cl.label, cl.props, g, cl.text)
			}
		})
	}
}

// applyResult calls the function the contract's subject returned, on arbitrary
// arguments, and checks the "applied" postconditions ("given" constrains the arguments).
func (x *Exec) applyResult(st *State, ap *Clause, vars map[string]SV) {
	c := x.c
	f, ok := vars[ap.label]
	if ap.e2 != nil {
		e := &Eval{x: x, st: st, old: x.entry, vars: vars, pkg: c.pkg, imports: c.imports}
		x.assume(st, e.boolean(ap.e2))
		if !x.feasible(st) {
			return
		}
	}
	if ap.e != nil {
		e := &Eval{x: x, st: st, old: x.entry, vars: vars, pkg: c.pkg, imports: c.imports}
		f, ok = e.eval(ap.e), true
	}
	if !ok {
		serr("%s: apply %s: no such result", c.name, ap.label)
	}
	sig, ok := f.t.Underlying().(*types.Signature)
	if !ok {
		serr("%s: apply %s: not a function", c.name, ap.label)
	}
	// the clauses that belong to this application follow it
	mine := func(kind string) []*Clause {
		var out []*Clause
		in := false
		for _, cl := range c.clauses {
			if cl.kind == "apply" {
				in = cl == ap
			} else if in && cl.kind == kind {
				out = append(out, cl)
			}
		}
		return out
	}
	// the application happens later: other code may have run
	x.havocAll(st)
	vars = cm(vars)
	var args []V
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		v := x.paramV(st, p.Type(), "ap:"+p.Name())
		args = append(args, v)
		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
			if t, ok := v.(*T); ok {
				x.assume(st, Lt(Zero, t))
				x.assume(st, Le(t, alloc0))
			}
		}
		if i < len(ap.vars) {
			vars[ap.vars[i].name] = SV{v: v, t: p.Type()}
		}
	}
	for _, cl := range mine("given") {
		x.assume(st, x.evalBool(st, st, vars, c, cl))
	}
	old := st.snap()
	old.pc = nil
	st.fr = nil
	saveE, saveV := x.entry, x.vars
	x.entry, x.vars = old, vars
	defer func() { x.entry, x.vars = saveE, saveV }()
	k := func(st *State, res []V, pan *T) {
		if pan != nil && c.flags["applymaypanic"] {
			for _, cl := range mine("appliedpanics") {
				x.oblige(st, "appliedpanics", cl.label, cl.props, x.evalBool(st, old, vars, c, cl), cl.text)
			}
			return
		}
		if pan != nil {
			x.oblige(st, "nopanic", "the returned function does not panic", nil, False, "")
			return
		}
		v2 := cm(vars)
		for i, r := range res {
			v2[fmt.Sprintf("applied%d", i)] = SV{v: r, t: sig.Results().At(i).Type()}
		}
		for _, cl := range mine("applied") {
			x.oblige(st, "applied", cl.label, cl.props, x.evalBool(st, old, v2, c, cl), cl.text)
		}
		for _, nx := range c.byKind("apply") {
			if nx.after == ap.label {
				s2 := st.clone()
				x.entry = saveE
				x.applyResult(s2, nx, v2)
				x.entry = old
			}
		}
	}
	switch fv := f.v.(type) {
	case *Clo:
		x.callFn(st, fv.fn, fv.binds, args, "(returned function)", false, k)
	case *T:
		if f.t != nil {
			if fc := x.functypeContract(f.t); fc != nil && ap.e != nil {
				x.callUnknown(st, fv, f.t, args, "(applied function)", k)
				return
			}
		}
		x.oblige(st, "applied", "the returned function is known", nil, False, "")
	}
}

func (x *Exec) frameObls(st *State, mods []modLoc) {
	c := x.c
	gAllowed := map[string][]*T{}
	gAll := map[string]bool{}
	for _, m := range mods {
		if m.ghost != "" {
			if m.gidx == nil {
				gAll[m.ghost] = true
			} else {
				gAllowed[m.ghost] = append(gAllowed[m.ghost], m.gidx)
			}
		}
	}
	for _, g := range sortedKeys(x.spec.ghosts) {
		cur, ok := st.ghost[g]
		if !ok || gAll[g] {
			continue
		}
		ent := Const("G0:"+g, x.spec.ghosts[g].sort)
		if cur == ent {
			continue
		}
		want := ent
		for _, i := range gAllowed[g] {
			want = Store(want, i, Select(cur, i))
		}
		x.oblige(st, "frame", "modifies: ghost "+g, nil, Eq(cur, want), "")
	}
	if c.modAll {
		return
	}
	if st.epoch != 0 {
		x.oblige(st, "frame", "modifies: calls code that may change anything", nil, False, "")
		return
	}
	for _, k := range sortedKeys(st.heap) {
		if strings.HasPrefix(k, "loc:") || strings.HasPrefix(k, "delta.") || strings.HasPrefix(k, "chanitem.") {
			continue
		}
		cur := st.heap[k]
		ent := Const("H0:"+k, cur.sort)
		if cur == ent {
			continue
		}
		all, refs, idxs := x.frameAllows(mods, k)
		if all {
			continue
		}
		// strip stores to fresh objects
		t := cur
		for t.k == KApp && t.op == "store" && (refClass(t.args[1]) == clFresh || containsT(refs, t.args[1])) {
			t = t.args[0]
		}
		if t == ent {
			continue
		}
		r := Bound("r", SInt)
		var ex []*T
		ex = append(ex, Le(r, alloc0))
		ex = append(ex, Lt(Zero, r))
		for _, q := range refs {
			ex = append(ex, Ne(r, q))
		}
		a, b := Select(cur, r), Select(ent, r)
		if len(idxs) > 0 {
			for q, is := range idxs {
				want := Select(ent, q)
				for _, i := range is {
					want = Store(want, i, Select(Select(cur, q), i))
				}
				x.oblige(st, "frame", "modifies: "+k, nil, Eq(Select(cur, q), want), "")
				ex = append(ex, Ne(r, q))
			}
		}
		x.oblige(st, "frame", "modifies: "+k, nil, Forall([]*T{r}, Imp(And(ex...), app("=", SBool, a, b))), "")
	}
}

func containsT(l []*T, t *T) bool {
	for _, y := range l {
		if y == t {
			return true
		}
	}
	return false
}

var axiomSeen = map[string]bool{}

func registerAxiom(name string, t *T) {
	key := fmt.Sprintf("%s#%d", name, t.id)
	if axiomSeen[name] {
		return
	}
	_ = key
	axiomSeen[name] = true
	for _, s := range collect([]*T{t}) {
		if s.k == KApp && strings.HasPrefix(s.op, "uf:") {
			ufAxioms[s.op[3:]] = append(ufAxioms[s.op[3:]], t)
		}
	}
}

// baseName strips the variant of a contract: "pkg.F@variant" is a second
// contract of pkg.F, checked on its own and never used for callers.
func baseName(n string) string {
	if i := strings.Index(n, "@"); i >= 0 {
		return n[:i]
	}
	return n
}

func heldCount(cl *Clause) int {
	if cl.kind == "rlocked" {
		return 1
	}
	return 1000
}

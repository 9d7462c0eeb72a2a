package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxDepth = 40

func (x *Exec) callOperands(st *State, c *ssa.CallCommon) (V, []V) {
	var fnv V
	if _, ok := c.Value.(*ssa.Builtin); !ok {
		fnv = x.val(st, c.Value)
	}
	var args []V
	for _, a := range c.Args {
		args = append(args, x.val(st, a))
	}
	return fnv, args
}

func (x *Exec) call(st *State, c *ssa.CallCommon, in *ssa.Call, k func(st *State, res []V)) {
	fnv, args := x.callOperands(st, c)
	x.invoke(st, c, fnv, args, in, false, func(st *State, res []V, pan *T) {
		if pan != nil {
			x.raise(st, pan)
			return
		}
		k(st, res)
	})
}

func argTypes(c *ssa.CallCommon) []types.Type {
	var ts []types.Type
	for _, a := range c.Args {
		ts = append(ts, a.Type())
	}
	return ts
}

type kont func(st *State, res []V, pan *T)

func (x *Exec) invoke(st *State, c *ssa.CallCommon, fnv V, args []V, in ssa.Instruction, isDefer bool, k kont) {
	at := x.pos(in)
	if b, ok := c.Value.(*ssa.Builtin); ok {
		x.builtin(st, b.Name(), c, args, in, isDefer, k)
		return
	}
	if c.IsInvoke() {
		x.invokeIface(st, c, fnv.(*T), args, at, k)
		return
	}
	switch f := fnv.(type) {
	case *Clo:
		x.callFn(st, f.fn, f.binds, args, at, isDefer, k)
	case *T:
		x.branch(st, Eq(f, Zero), "", func(st *State) {
			x.trace(st, "call of nil function "+at)
			k(st, nil, x.rtErr("nil function"))
		}, func(st *State) {
			x.callUnknown(st, f, c.Value.Type(), args, at, k)
		})
	default:
		panic(fmt.Sprintf("invoke %T", fnv))
	}
}

func funcTypeKeys(t types.Type) []string {
	return []string{typeKey(t), typeKey(t.Underlying()), typeKey(nameless(t.Underlying()))}
}

// nameless drops the parameter names of a function type
func nameless(t types.Type) types.Type {
	s, ok := t.(*types.Signature)
	if !ok {
		return t
	}
	tup := func(u *types.Tuple) *types.Tuple {
		var vs []*types.Var
		for i := 0; i < u.Len(); i++ {
			vs = append(vs, types.NewVar(0, nil, "", u.At(i).Type()))
		}
		return types.NewTuple(vs...)
	}
	return types.NewSignatureType(nil, nil, nil, tup(s.Params()), tup(s.Results()), s.Variadic())
}

func (x *Exec) functypeContract(t types.Type) *Contract {
	for _, kx := range funcTypeKeys(t) {
		if c := x.spec.functypes[kx]; c != nil {
			return c
		}
	}
	return nil
}

// call of a function value about which nothing but its type is known
func (x *Exec) callUnknown(st *State, f *T, t types.Type, args []V, at string, k kont) {
	sig := t.Underlying().(*types.Signature)
	var svs []SV
	svs = append(svs, SV{v: f, t: t})
	for i, a := range args {
		svs = append(svs, SV{v: a, t: sig.Params().At(i).Type()})
	}
	if c := x.functypeContract(t); c != nil {
		if x.hasAt(c.name) {
			k = x.atHooks(st, c.name, svs[1:], sig, at, k, svs[0])
		}
		x.applyContract(st, c, svs, sig, at, k)
		return
	}
	x.unsupported(st, "call of unknown function value of type "+typeKey(t)+" at "+at)
	x.havocAll(st)
	x.returnFresh(st, sig, k)
}

func (x *Exec) returnFresh(st *State, sig *types.Signature, k kont) {
	var res []V
	for i := 0; i < sig.Results().Len(); i++ {
		res = append(res, x.freshV(st, sig.Results().At(i).Type(), "ret"))
	}
	k(st, res, nil)
}

func (x *Exec) invokeIface(st *State, c *ssa.CallCommon, recv *T, args []V, at string, k kont) {
	x.branch(st, Eq(recv, VNil), "", func(st *State) {
		x.trace(st, "method call on nil interface "+at)
		k(st, nil, x.rtErr("nil interface"))
	}, func(st *State) {
		x.dispatch(st, c, recv, args, at, k)
	})
}

func (x *Exec) dispatch(st *State, c *ssa.CallCommon, recv *T, args []V, at string, k kont) {
	name := objName(c.Method)
	if x.hasAt(name) {
		svs := []SV{{v: recv, t: c.Value.Type()}}
		for i, a := range args {
			svs = append(svs, SV{v: a, t: c.Signature().Params().At(i).Type()})
		}
		k = x.atHooks(st, name, svs, c.Signature(), at, k)
	}
	if ic := x.spec.contracts[name]; ic != nil && ic.flags["opaque"] {
		x.ifaceContract(st, ic, c, recv, args, at, k)
		return
	}
	tag := knownTag(st, recv)
	if tag.k == KInt {
		if dt := tagTypes[tag.n]; dt != nil {
			if sel := x.p.prog.MethodSets.MethodSet(dt).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
				if f := x.p.prog.MethodValue(sel); f != nil {
					all := append([]V{x.unbox(st, recv, dt)}, args...)
					x.callFn(st, f, nil, all, at, false, k)
					return
				}
			}
		}
	}
	if ic := x.spec.contracts[name]; ic != nil {
		x.ifaceContract(st, ic, c, recv, args, at, k)
		return
	}
	if n, ok := types.Unalias(c.Value.Type()).(*types.Named); ok && n.Obj().Name() == "error" && c.Method.Name() == "Error" || name == ".Error" || name == "error.Error" {
		k(st, []V{Fn("errmsg", SStr, recv)}, nil)
		return
	}
	// a small closed world: try the module's implementations? no: unknown
	x.externDefault(st, name, append([]V{recv}, args...), append([]types.Type{c.Value.Type()}, argTypes(c)...), c.Signature(), at, k)
}

// knownTag is the dynamic type of v, as a literal when the path condition fixes it.
func knownTag(st *State, v *T) *T {
	tag := tagOf(v)
	if tag.k == KInt {
		return tag
	}
	for _, p := range st.pc {
		if p.k != KApp || p.op != "=" || len(p.args) != 2 {
			continue
		}
		for i := 0; i < 2; i++ {
			if p.args[i].k != KInt {
				continue
			}
			for _, c := range []string{"VI", "VS", "VB", "VF"} {
				if p.args[1-i] == ctorTag(c, v) {
					return p.args[i]
				}
			}
		}
	}
	return tag
}

func (x *Exec) ifaceContract(st *State, ic *Contract, c *ssa.CallCommon, recv *T, args []V, at string, k kont) {
	svs := []SV{{v: recv, t: c.Value.Type()}}
	for i, a := range args {
		svs = append(svs, SV{v: a, t: c.Signature().Params().At(i).Type()})
	}
	x.applyContract(st, ic, svs, c.Signature(), at, k)
}

func (x *Exec) callFn(st *State, f *ssa.Function, binds, args []V, at string, isDefer bool, k kont) {
	name := fnName(f)
	if org := f.Origin(); org != nil && org != f {
		// generic instance: contract of the origin applies
	}
	if x.hasAt(name) {
		k = x.atHooks(st, name, func() []SV {
			var svs []SV
			for i, a := range args {
				sv := SV{v: a}
				if len(f.Params) == len(args) {
					sv.t = f.Params[i].Type()
				} else if r := f.Signature.Recv(); r != nil {
					if i == 0 {
						sv.t = r.Type()
					} else {
						sv.t = f.Signature.Params().At(i - 1).Type()
					}
				} else {
					sv.t = f.Signature.Params().At(i).Type()
				}
				svs = append(svs, sv)
			}
			return svs
		}(), f.Signature, at, k)
	}
	if h := intrinsics[name]; h != nil {
		h(x, st, f, args, at, k)
		return
	}
	if f.Name() == "init" && f.Signature.Recv() == nil && f.Signature.Params().Len() == 0 && f.Parent() == nil && (f.Synthetic != "" || len(f.Blocks) == 0) {
		// initialiser of an imported package
		k(st, nil, nil)
		return
	}
	c := x.spec.contracts[name]
	if c == nil && f.Origin() != nil && f.Origin() != f {
		if oc := x.spec.contracts[genericBase(name)]; oc != nil {
			c = oc
		}
	}
	sig := f.Signature
	mkSVs := func() []SV {
		var svs []SV
		if len(f.Params) == len(args) && len(args) > 0 {
			for i, p := range f.Params {
				svs = append(svs, SV{v: args[i], t: p.Type()})
			}
			return svs
		}
		i := 0
		if r := sig.Recv(); r != nil {
			svs = append(svs, SV{v: args[0], t: r.Type()})
			i = 1
		}
		for j := 0; i < len(args); i, j = i+1, j+1 {
			svs = append(svs, SV{v: args[i], t: sig.Params().At(j).Type()})
		}
		return svs
	}
	if c != nil && !c.flags["inline"] && !(f == x.fn && c.flags["unfold"]) {
		x.applyContract(st, c, mkSVs(), sig, at, k)
		return
	}
	if t, ok := x.spec.isTrusted(name); ok {
		x.assumed["trusted to have no effect on the modelled state: "+t+" ("+x.spec.trustedWhy[t]+")"] = true
		x.returnFresh(st, sig, k)
		return
	}
	if len(f.Blocks) == 0 {
		var ts []types.Type
		for _, s := range mkSVs() {
			ts = append(ts, s.t)
		}
		x.externDefault(st, name, args, ts, sig, at, k)
		return
	}
	n := 0
	d := 0
	for fr := st.fr; fr != nil; fr = fr.parent {
		if fr.fn == f {
			n++
		}
		d++
	}
	if n >= 2 || d > maxDepth {
		x.unsupported(st, "recursive call of "+name)
		x.havocAll(st)
		x.returnFresh(st, sig, k)
		return
	}
	x.inlineFn(st, f, binds, args, isDefer, k)
}

func genericBase(n string) string {
	if i := strings.Index(n, "["); i >= 0 {
		return n[:i]
	}
	return n
}

func (x *Exec) inlineFn(st *State, f *ssa.Function, binds, args []V, isDefer bool, k kont) {
	fr := &Frame{fn: f, env: map[ssa.Value]V{}, parent: st.fr, k: k, isDefer: isDefer}
	if st.fr != nil {
		fr.depth = st.fr.depth + 1
	}
	for i, p := range f.Params {
		fr.env[p] = args[i]
	}
	for i, fv := range f.FreeVars {
		fr.env[fv] = binds[i]
	}
	st.fr = fr
	x.goBlock(st, f.Blocks[0], nil)
}

// externDefault models a call to code outside the module that has no contract:
// results are arbitrary, objects it receives by pointer may change.
func (x *Exec) externDefault(st *State, name string, args []V, ts []types.Type, sig *types.Signature, at string, k kont) {
	if t, ok := x.spec.isTrusted(name); ok {
		x.assumed["trusted to have no effect on the modelled state: "+t+" ("+x.spec.trustedWhy[t]+")"] = true
		x.returnFresh(st, sig, k)
		return
	}
	x.assumed["external without contract (arbitrary results, may change objects passed by pointer, does not panic): "+name] = true
	for pre, gs := range x.spec.unlisted {
		if strings.HasPrefix(name, pre) {
			for _, g := range gs {
				x.ghSet(st, g, Fresh("g:"+g, x.spec.ghosts[g].sort))
			}
		}
	}
	cb := false
	for i, a := range args {
		t := ts[i]
		if v, ok := a.(*T); ok && v.sort == SVal {
			// boxed pointer
			if valCtor(v) == "VI" && v.args[0].k == KInt {
				if dt := tagTypes[v.args[0].n]; dt != nil {
					t = dt
					a = x.unbox(st, v, dt)
				}
			}
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			if _, isClo := a.(*Clo); isClo {
				continue
			}
			if r, ok := a.(*T); ok && r == Zero {
				continue
			}
			x.havocAddr(st, x.toAddr(a, u.Elem()))
		case *types.Map:
			if r := a.(*T); r != Zero {
				x.havocMap(st, u, r)
			}
		case *types.Signature:
			if tt, ok := a.(*T); !ok || tt != Zero {
				cb = true
			}
		}
	}
	if cb {
		x.unsupported(st, "callback passed to external "+name)
		x.havocAll(st)
	}
	x.returnFresh(st, sig, k)
}

func (x *Exec) havocAddr(st *State, a *Addr) {
	if isOpaque(a.t) {
		if a.t.String() == "sync.Mutex" || a.t.String() == "sync.RWMutex" {
			return
		}
	}
	x.store(st, a, x.freshV(st, a.t, "hv"))
}

func (x *Exec) havocMap(st *State, m *types.Map, ref *T) {
	ks := keySort(m)
	var vals []*T
	for _, c := range flat(m.Elem()) {
		vals = append(vals, Fresh("hvmap", arrSort(ks, c.sort)))
	}
	ln := Fresh("hvlen", SInt)
	x.assume(st, Le(Zero, ln))
	x.mapSetComps(st, m, ref, Fresh("hvdom", arrSort(ks, SBool)), ln, vals)
}

// isStable: heap locations whose value never changes while other code runs
func (x *Exec) isStable(key string) bool {
	if strings.HasPrefix(key, "g:") {
		n := key[2:]
		// g:<pkg>.<var>[.<component>...]
		i := strings.LastIndex(n, "/")
		j := strings.Index(n[i+1:], ".")
		if j >= 0 {
			v := n[i+1+j+1:]
			if q := strings.IndexAny(v, ".[#"); q >= 0 {
				v = v[:q]
			}
			if !x.p.mutableGlobals[n[:i+1+j+1]+v] {
				return true
			}
		}
	}
	for p := range x.spec.stable {
		if key == p || strings.HasPrefix(key, p+".") && !strings.HasPrefix(key, p+"..") {
			return true
		}
	}
	return false
}

var epochCtr int

// havocAll forgets every heap location that is not stable and not a private cell.
func (x *Exec) havocAll(st *State) {
	epochCtr++
	wasClosed := st.heap["chan.closed"]
	type chst struct{ closed, ln, hd *T }
	priv := make([]chst, len(st.privCh))
	for i, c := range st.privCh {
		priv[i] = chst{x.getCh(st, "closed", c, SBool), x.getCh(st, "len", c, SInt), x.getCh(st, "head", c, SInt)}
	}
	var kept [][]*T
	for _, a := range x.keeps {
		kept = append(kept, x.loadComps(st, a))
	}
	st.epoch = epochCtr
	for key := range st.heap {
		if strings.HasPrefix(key, "loc:") || strings.HasPrefix(key, "delta.") || x.isStable(key) {
			continue
		}
		delete(st.heap, key)
	}
	x.wlog(st, "$all", nil)
	for i, a := range x.keeps {
		x.store(st, a, unflat(x, a.t, kept[i]))
	}
	for i, c := range st.privCh {
		x.setCh(st, "closed", c, priv[i].closed)
		x.setCh(st, "len", c, priv[i].ln)
		x.setCh(st, "head", c, priv[i].hd)
	}
	if wasClosed != nil {
		// a closed channel stays closed
		now := x.hget(st, "chan.closed", wasClosed.sort)
		r := Bound("r", SInt)
		x.assume(st, Forall([]*T{r}, Imp(Select(wasClosed, r), Select(now, r)), []*T{app("select", SBool, now, r)}))
	}
	x.bumpAlloc(st)
}

func (x *Exec) bumpAlloc(st *State) {
	a := Fresh("alloc", SInt)
	allocParent[a] = st.alloc
	x.assumeFact(st, Le(st.alloc, a))
	st.alloc = a
	x.wlog(st, "$alloc", nil)
}

// ---------- clauses attached to calls ----------

func (x *Exec) hasAt(name string) bool {
	if x.c == nil || x.vars == nil {
		return false
	}
	for _, cl := range x.c.clauses {
		if (cl.kind == "at" || cl.kind == "atafter") && cl.callee == name {
			return true
		}
	}
	return false
}

// atHooks evaluates the "at" clauses of the function being verified that speak
// about calls of name, and returns a continuation that does the "at after" ones.
func (x *Exec) atHooks(st *State, name string, args []SV, sig *types.Signature, at string, k kont, self ...SV) kont {
	x.atSeen[name] = true
	nopanic := false
	run := func(st *State, kind string, res []V) {
		for _, cl := range x.c.clauses {
			if cl.kind != kind || cl.callee != name || cl.join {
				continue
			}
			vars := cm(x.vars)
			if len(self) > 0 {
				vars["self"] = self[0]
			}
			for i, v := range cl.vars {
				if i < cl.npar-1 {
					if i < len(args) {
						vars[v.name] = args[i]
					}
				} else if j := i - (cl.npar - 1); j < len(res) {
					vars[v.name] = SV{v: res[j], t: sig.Results().At(j).Type()}
				}
			}
			switch {
			case cl.nopanic:
				x.assumed["assumed in "+x.c.name+": calls of "+name+" do not panic ("+cl.label+")"] = true
				nopanic = true
			case cl.lhs != nil:
				x.applySet(st, x.entry, x.c, vars, cl)
			case cl.assume:
				x.assumed["assumed at calls of "+name+" in "+x.c.name+": "+cl.text] = true
				x.assume(st, x.evalBool(st, x.entry, vars, x.c, cl))
			default:
				x.oblige(st, "at", "call of "+name+" "+cl.label, cl.props, x.evalBool(st, x.entry, vars, x.c, cl), at+" "+cl.text)
			}
		}
	}
	run(st, "at", nil)
	return func(st *State, res []V, pan *T) {
		if pan == nil {
			run(st, "atafter", res)
		} else if nopanic {
			return
		}
		k(st, res, pan)
	}
}

// "at chan.wait() l: waiting(c)": at every receive or select that may block
func (x *Exec) atWait(st *State, chs []*T, at string) {
	if !x.hasAt("chan.wait") {
		return
	}
	x.waitSet = chs
	x.atHooks(st, "chan.wait", nil, nil, at, nil)
	x.waitSet = nil
}

// "at [after] chan.send(c, v) ...": every send that goes through; "at after
// chan.full(c) ...": a send that could not be done at once was given up
func (x *Exec) atChan(st *State, kind, name string, t types.Type, ch *T, v V, at string) {
	if !x.hasAt(name) {
		return
	}
	x.atSeen[name] = true
	for _, cl := range x.c.clauses {
		if cl.kind != kind || cl.callee != name {
			continue
		}
		vars := cm(x.vars)
		for i, p := range cl.vars {
			switch {
			case i == 0:
				vars[p.name] = SV{v: ch, t: t}
			case i == 1 && v != nil:
				vars[p.name] = SV{v: v, t: t.Underlying().(*types.Chan).Elem()}
			}
		}
		switch {
		case cl.lhs != nil:
			x.applySet(st, x.entry, x.c, vars, cl)
		case cl.assume:
			x.assumed["assumed at "+name+" in "+x.c.name+": "+cl.text] = true
			x.assume(st, x.evalBool(st, x.entry, vars, x.c, cl))
		default:
			x.oblige(st, "at", name+" "+cl.label, cl.props, x.evalBool(st, x.entry, vars, x.c, cl), at+" "+cl.text)
		}
	}
}

// "at after chan.recv(c) (v, ok) ...": whenever a value was received, or a
// closed channel was noticed
func (x *Exec) atRecv(st *State, t types.Type, ch *T, v V, ok *T, at string) {
	ename := "chan.recv " + typeKey(t.Underlying().(*types.Chan).Elem())
	if !x.hasAt("chan.recv") && !x.hasAt(ename) {
		return
	}
	ct := t.Underlying().(*types.Chan)
	sig := types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "c", t)), types.NewTuple(types.NewVar(0, nil, "v", ct.Elem()), types.NewVar(0, nil, "ok", types.Typ[types.Bool])), false)
	for _, n := range []string{"chan.recv", ename} {
		x.atHooks(st, n, []SV{{v: ch, t: t}}, sig, at, func(*State, []V, *T) {})(st, []V{v, ok}, nil)
	}
}

// ---------- contracts ----------

func (x *Exec) bindResults(c *Contract, vars map[string]SV, res []V, sig *types.Signature) {
	rs := sig.Results()
	for i, r := range res {
		sv := SV{v: r, t: rs.At(i).Type()}
		vars[fmt.Sprintf("result%d", i)] = sv
		if i == 0 {
			vars["result"] = sv
		}
		if i < len(c.results) {
			vars[c.results[i]] = sv
		}
	}
}

func (x *Exec) applyContract(st *State, c *Contract, args []SV, sig *types.Signature, at string, k kont) {
	x.used[c.name] = true
	vars := map[string]SV{}
	ai := args
	if c.kind == "functype" {
		vars["self"] = args[0]
		ai = args[1:]
	}
	if len(c.params) > len(ai) {
		panic(specErr{fmt.Sprintf("%s: contract %s has %d parameters, call has %d", c.file, c.name, len(c.params), len(ai))})
	}
	for i, p := range c.params {
		vars[p] = ai[i]
	}
	old := st.snap()
	for _, cl := range c.byKind("requires") {
		g := x.evalBool(st, st, vars, c, cl)
		x.oblige(st, "pre", "call of "+c.name+" requires "+cl.label, cl.props, g, at+" "+cl.text)
		x.assume(st, g)
	}
	for _, cl := range c.locked {
		e := &Eval{x: x, st: st, old: st, vars: vars, pkg: c.pkg, imports: c.imports}
		a := e.addrOf(cl.e)
		var props []string
		for _, m := range x.monitorsOf(a.key) {
			props = append(props, m.props...)
		}
		ok := st.locks[x.addrTerm(a)] >= heldCount(cl) || x.holdsAlias(st, a.key, a.ref, cl.kind == "locked")
		x.oblige(st, "guard", "call of "+c.name+" with "+cl.text+" held", props, B(ok), at)
	}
	if c.flags["noreturn"] {
		// the process ends here
		return
	}
	if !c.flags["noalloc"] {
		x.bumpAlloc(st)
	}
	x.runCallbacks(st, c, vars, c.byKind("calls"), at, k, func(st *State) {
		x.applyMods(st, c, vars, old)
		x.runCallbacks(st, c, vars, c.byKind("callsafter"), at, k, func(st *State) {
			x.finishContract(st, old, c, vars, sig, at, k)
		})
	})
}

// runCallbacks executes the calls a contract says the function makes.
func (x *Exec) runCallbacks(st *State, c *Contract, vars map[string]SV, cls []*Clause, at string, k kont, cont func(st *State)) {
	if len(cls) == 0 {
		cont(st)
		return
	}
	cl := cls[0]
	ce := cl.e.(*ast.CallExpr)
	e := &Eval{x: x, st: st, old: st, vars: vars, pkg: c.pkg, imports: c.imports}
	done := func(sig *types.Signature) kont {
		return func(st *State, res []V, pan *T) {
			if pan != nil {
				k(st, nil, pan)
				return
			}
			for i, r := range res {
				if i < len(cl.vars) {
					vars[cl.vars[i].name] = SV{v: r, t: sig.Results().At(i).Type()}
				}
			}
			x.runCallbacks(st, c, vars, cls[1:], at, k, cont)
		}
	}
	mkArgs := func(sig *types.Signature) []V {
		var out []V
		for i, a := range ce.Args {
			t := sig.Params().At(i).Type()
			if id, ok := a.(*ast.Ident); ok && id.Name == "_" {
				out = append(out, x.freshV(st, t, "cb"))
				continue
			}
			out = append(out, e.conv(e.eval(a), t))
		}
		return out
	}
	switch fn := ce.Fun.(type) {
	case *ast.SelectorExpr:
		recv := e.eval(fn.X)
		rt := recv.t
		it, ok := rt.Underlying().(*types.Interface)
		if ok {
			for i := 0; i < it.NumMethods(); i++ {
				m := it.Method(i)
				if m.Name() != fn.Sel.Name {
					continue
				}
				sig := m.Type().(*types.Signature)
				rv := recv.v.(*T)
				tag := tagOf(rv)
				if tag.k == KInt && tagTypes[tag.n] != nil {
					dt := tagTypes[tag.n]
					if sel := x.p.prog.MethodSets.MethodSet(dt).Lookup(m.Pkg(), m.Name()); sel != nil {
						if f := x.p.prog.MethodValue(sel); f != nil {
							x.callFn(st, f, nil, append([]V{x.unbox(st, rv, dt)}, mkArgs(sig)...), at, false, done(sig))
							return
						}
					}
				}
				if ic := x.spec.contracts[objName(m)]; ic != nil {
					svs := []SV{recv}
					for i, a := range mkArgs(sig) {
						svs = append(svs, SV{v: a, t: sig.Params().At(i).Type()})
					}
					x.applyContract(st, ic, svs, sig, at, done(sig))
					return
				}
				x.unsupported(st, "callback "+cl.text+" of unknown type at "+at)
				x.havocAll(st)
				x.returnFresh(st, sig, done(sig))
				return
			}
		}
		serr("%s: callback %s: no such method", c.name, cl.text)
	default:
		f := e.eval(ce.Fun)
		sig := f.t.Underlying().(*types.Signature)
		args := mkArgs(sig)
		switch fv := f.v.(type) {
		case *Clo:
			x.callFn(st, fv.fn, fv.binds, args, at, false, done(sig))
		case *T:
			x.callUnknown(st, fv, f.t, args, at, done(sig))
		}
	}
}

func (x *Exec) finishContract(st, old *State, c *Contract, vars map[string]SV, sig *types.Signature, at string, k kont) {
	run := func(st *State, pan bool) {
		var res []V
		if !pan {
			rs := sig.Results()
			for i := 0; i < rs.Len(); i++ {
				nm := "r:" + c.name
				if i < len(c.results) {
					nm = c.results[i] + ":" + c.name
				}
				res = append(res, x.freshV(st, rs.At(i).Type(), nm))
			}
			v2 := cm(vars)
			x.bindResults(c, v2, res, sig)
			for _, s := range c.sets {
				x.applySet(st, old, c, v2, s)
			}
			for _, cl := range c.byKind("ensures") {
				x.assume(st, x.evalBool(st, old, v2, c, cl))
			}
			if !x.feasible(st) {
				return
			}
			k(st, res, nil)
			return
		}
		for _, s := range c.sets {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(specErr); !ok {
							panic(r)
						}
						// set clause mentions a result: no effect when panicking
					}
				}()
				x.applySet(st, old, c, vars, s)
			}()
		}
		for _, cl := range c.byKind("panics") {
			x.assume(st, x.evalBool(st, old, vars, c, cl))
		}
		p := Fresh("panic", SVal)
		x.assume(st, Ne(p, VNil))
		x.assume(st, Le(Zero, tagOf(p)))
		x.trace(st, "panic in "+c.name+" called at "+at)
		if x.feasible(st) {
			k(st, nil, p)
		}
	}
	if c.flags["maypanic"] {
		s2 := st.clone()
		run(s2, true)
	}
	run(st, false)
}

func (x *Exec) applySet(st, old *State, c *Contract, vars map[string]SV, s *Clause) {
	e := &Eval{x: x, st: st, old: old, vars: vars, pkg: c.pkg, imports: c.imports}
	switch l := s.lhs.(type) {
	case *ast.Ident:
		g := x.spec.ghosts[l.Name]
		if g == nil {
			panic(specErr{c.name + ": set of undeclared ghost " + l.Name})
		}
		x.ghSet(st, l.Name, e.coerce(e.eval(s.e), g.sort))
	case *ast.IndexExpr:
		id := l.X.(*ast.Ident)
		cur, ok := e.ghostGet(id.Name)
		if !ok {
			panic(specErr{c.name + ": set of undeclared ghost " + id.Name})
		}
		is, es := arrParts(cur.sort)
		i := e.coerce(e.eval(l.Index), is)
		v := e.coerce(e.eval(s.e), es)
		x.ghSet(st, id.Name, Store(cur, i, v))
	default:
		panic(specErr{c.name + ": bad set target"})
	}
}

// modified locations
type modLoc struct {
	addr  *Addr
	mapT  *types.Map
	ref   *T
	ghost string
	gidx  *T
	key   string // whole heap array
	elems types.Type
	chanr bool
	bytes bool
}

func (x *Exec) modLocs(st *State, c *Contract, vars map[string]SV) []modLoc {
	var out []modLoc
	e := &Eval{x: x, st: st, old: st, vars: vars, pkg: c.pkg, imports: c.imports}
	for _, m := range c.mods {
		switch ex := m.e.(type) {
		case *ast.Ident:
			if x.spec.ghosts[ex.Name] != nil {
				out = append(out, modLoc{ghost: ex.Name})
				continue
			}
			out = append(out, modLoc{addr: e.addrOf(ex)})
			continue
		case *ast.IndexExpr:
			if id, ok := ex.X.(*ast.Ident); ok && x.spec.ghosts[id.Name] != nil {
				is, _ := arrParts(x.spec.ghosts[id.Name].sort)
				out = append(out, modLoc{ghost: id.Name, gidx: e.coerce(e.eval(ex.Index), is)})
				continue
			}
			b := e.eval(ex.X)
			if b.t != nil {
				if mt, ok := b.t.Underlying().(*types.Map); ok {
					out = append(out, modLoc{mapT: mt, ref: b.v.(*T)})
					continue
				}
			}
			out = append(out, modLoc{addr: e.addrOf(ex)})
			continue
		case *ast.CallExpr:
			if id, ok := ex.Fun.(*ast.Ident); ok {
				switch id.Name {
				case "fields": // fields(p): whole object
					v := e.eval(ex.Args[0])
					out = append(out, modLoc{addr: x.toAddr(v.v, v.t.Underlying().(*types.Pointer).Elem())})
					continue
				case "entries":
					v := e.eval(ex.Args[0])
					out = append(out, modLoc{mapT: v.t.Underlying().(*types.Map), ref: v.v.(*T)})
					continue
				case "elems":
					v := e.eval(ex.Args[0])
					out = append(out, modLoc{elems: v.t.Underlying().(*types.Slice).Elem(), ref: v.v.(*Slc).ref})
					continue
				case "chanstate":
					out = append(out, modLoc{chanr: true, ref: e.asTerm(e.eval(ex.Args[0]))})
					continue
				case "bytesof":
					out = append(out, modLoc{bytes: true, ref: e.asTerm(e.eval(ex.Args[0]))})
					continue
				case "heap": // heap(T, field): the field of every object
					t := e.mustType(ex.Args[0])
					f := ex.Args[1].(*ast.Ident).Name
					out = append(out, modLoc{key: typeKey(t) + "." + f})
					continue
				case "maps": // maps(K, V): every map of that type
					t := types.NewMap(e.mustType(ex.Args[0]), e.mustType(ex.Args[1]))
					out = append(out, modLoc{key: mapKey(t)})
					continue
				}
			}
		}
		out = append(out, modLoc{addr: e.addrOf(m.e)})
	}
	return out
}

func (x *Exec) applyMods(st *State, c *Contract, vars map[string]SV, old *State) {
	if c.modAll {
		x.havocAll(st)
	}
	for _, m := range x.modLocs(old, c, vars) {
		switch {
		case m.ghost != "":
			g := x.spec.ghosts[m.ghost]
			if m.gidx != nil {
				cur, _ := (&Eval{x: x, st: st}).ghostGet(m.ghost)
				_, es := arrParts(g.sort)
				x.ghSet(st, m.ghost, Store(cur, m.gidx, Fresh("g:"+m.ghost, es)))
			} else {
				x.ghSet(st, m.ghost, Fresh("g:"+m.ghost, g.sort))
			}
		case m.mapT != nil:
			x.havocMap(st, m.mapT, m.ref)
		case m.key != "":
			for _, hk := range sortedKeys(st.heap) {
				if hk == m.key || strings.HasPrefix(hk, m.key+".") {
					srt := st.heap[hk].sort
					x.hset(st, hk, nil, Fresh("hv:"+hk, srt))
				}
			}
			if _, ok := st.heap[m.key]; !ok {
				// not read so far: make later reads see a new array
				st.lazyHavoc = append(st.lazyHavoc[:len(st.lazyHavoc):len(st.lazyHavoc)], m.key)
				x.wlog(st, m.key, nil)
			}
		case m.elems != nil:
			for _, cc := range flat(m.elems) {
				hk := "[]" + typeKey(m.elems) + cc.path
				arr := x.hget(st, hk, x.heapSort(hk, cc, true))
				x.hset(st, hk, m.ref, Store(arr, m.ref, Fresh("hv:"+hk, arrSort(SInt, cc.sort))))
			}
		case m.chanr:
			x.setCh(st, "closed", m.ref, Fresh("closed", SBool))
			l := Fresh("chlen", SInt)
			x.assume(st, Le(Zero, l))
			x.setCh(st, "len", m.ref, l)
			x.setCh(st, "head", m.ref, Fresh("chhead", SInt))
		case m.bytes:
			x.setBytes(st, m.ref, Fresh("hvbytes", SStr))
		default:
			x.havocAddr(st, m.addr)
		}
	}
}

// covered: terms describing which refs of a heap key the contract may modify
func (x *Exec) frameAllows(mods []modLoc, key string) (all bool, refs []*T, idxs map[*T][]*T) {
	idxs = map[*T][]*T{}
	for _, m := range mods {
		switch {
		case m.key != "":
			if key == m.key || strings.HasPrefix(key, m.key+".") {
				return true, nil, nil
			}
		case m.mapT != nil:
			if strings.HasPrefix(key, mapKey(m.mapT)+".") {
				refs = append(refs, m.ref)
			}
		case m.elems != nil:
			hk := "[]" + typeKey(m.elems)
			if key == hk || strings.HasPrefix(key, hk+".") {
				refs = append(refs, m.ref)
			}
		case m.chanr:
			if strings.HasPrefix(key, "chan.") {
				refs = append(refs, m.ref)
			}
		case m.bytes:
			if key == "bytes" {
				refs = append(refs, m.ref)
			}
		case m.addr != nil:
			if key == m.addr.key || strings.HasPrefix(key, m.addr.key+".") {
				if m.addr.idx != nil {
					idxs[m.addr.ref] = append(idxs[m.addr.ref], m.addr.idx)
				} else {
					refs = append(refs, m.addr.ref)
				}
			}
		}
	}
	return
}

// ---------- goroutines ----------

func (x *Exec) goStmt(st *State, c *ssa.CallCommon, fnv V, args []V, at string) {
	x.trace(st, "go "+at)
	if f, ok := fnv.(*T); ok && !c.IsInvoke() {
		// unknown function value: its start is recorded by its contract's effects
		if fc := x.functypeContract(c.Value.Type()); fc != nil {
			x.startUnknown(st, fc, f, c, args, at)
			return
		}
		x.unsupported(st, "go of unknown function value of type "+typeKey(c.Value.Type())+" at "+at)
		return
	}
	if x.hasAt("go") {
		x.atHooks(st, "go", nil, nil, at, nil)
	}
	sp := spawn{fnv: fnv, args: args, call: c, at: at, tg: x.threadGhosts(st)}
	st.spawned = append(st.spawned, sp)
}

// startUnknown: go f(args) with f unknown. The ghost effects of the contract
// (which record that f was started) take place; the rest happens elsewhere.
func (x *Exec) startUnknown(st *State, fc *Contract, f *T, c *ssa.CallCommon, args []V, at string) {
	sig := c.Value.Type().Underlying().(*types.Signature)
	x.used[fc.name] = true
	if x.hasAt(fc.name) {
		var svs []SV
		for i, a := range args {
			svs = append(svs, SV{v: a, t: sig.Params().At(i).Type()})
		}
		x.atHooks(st, fc.name, svs, sig, at, nil, SV{v: f, t: c.Value.Type()})
	}
	vars := map[string]SV{"self": {v: f, t: c.Value.Type()}}
	for i, p := range fc.params {
		vars[p] = SV{v: args[i], t: sig.Params().At(i).Type()}
	}
	old := st.snap()
	for _, cl := range fc.byKind("requires") {
		g := x.evalBool(st, st, vars, fc, cl)
		x.oblige(st, "pre", "go "+fc.name+" requires "+cl.label, cl.props, g, at+" "+cl.text)
	}
	for _, s := range fc.sets {
		x.applySet(st, old, fc, vars, s)
	}
}

func (x *Exec) threadGhosts(st *State) map[string]*T {
	var m map[string]*T
	for _, g := range x.spec.tghosts {
		if m == nil {
			m = map[string]*T{}
		}
		m[g], _ = (&Eval{x: x, st: st}).ghostGet(g)
	}
	return m
}

func (x *Exec) setThreadGhosts(st *State, m map[string]*T) {
	for _, g := range sortedKeys(m) {
		x.ghSet(st, g, m[g])
	}
}

// joinAt: "at chan.recv(c) join label: e": a receive for which e holds can only
// go through once the goroutines started so far are done; they run here.
func (x *Exec) joinAt(st *State, ch *T, t types.Type, at string, k func(st *State)) {
	if len(st.spawned) == 0 || !x.hasAt("chan.recv") {
		k(st)
		return
	}
	for _, cl := range x.c.clauses {
		if cl.kind != "at" || cl.callee != "chan.recv" || !cl.join {
			continue
		}
		vars := cm(x.vars)
		if len(cl.vars) > 0 {
			vars[cl.vars[0].name] = SV{v: ch, t: t}
		}
		if !x.valid(st, x.evalBool(st, x.entry, vars, x.c, cl), 300) {
			continue
		}
		x.assumed["assumed in "+x.c.name+": a receive from a channel with "+cl.text[strings.Index(cl.text, "join ")+5:]+" goes through only after the goroutines started before it are done"] = true
		list := st.spawned
		st.spawned = nil
		fr, th, locks, tg := st.fr, st.thread, st.locks, x.threadGhosts(st)
		var step func(st *State, i int)
		step = func(st *State, i int) {
			if i == len(list) {
				st.fr, st.thread, st.locks = fr.clone(), th, locks
				x.setThreadGhosts(st, tg)
				k(st)
				return
			}
			x.runThread(st, list[i], func(st *State) { step(st, i+1) })
		}
		step(st, 0)
		return
	}
	k(st)
}

// runThread runs one goroutine to its end.
func (x *Exec) runThread(st *State, sp spawn, done func(st *State)) {
	x.havocAll(st)
	st.thread = true
	st.locks = map[*T]int{}
	st.fr = nil
	x.setThreadGhosts(st, sp.tg)
	x.trace(st, "goroutine started at "+sp.at)
	x.runRoot(st, sp.call, sp.fnv, sp.args, sp.at, func(st *State, res []V, pan *T) {
		if pan != nil {
			if !x.c.flags["threadmaypanic"] {
				x.oblige(st, "nopanic", "goroutine does not panic", nil, False, sp.at)
			}
			return
		}
		for l, n := range st.locks {
			if n != 0 {
				x.oblige(st, "lock", "goroutine releases "+st.lockName[l], nil, False, sp.at)
			}
		}
		x.threadEnd(st, sp.at)
		done(st)
	})
}

// "threadend l: e" is due at the end of every goroutine started here.
func (x *Exec) threadEnd(st *State, at string) {
	for _, cl := range x.c.byKind("threadend") {
		x.oblige(st, "threadend", cl.label, cl.props, x.evalBool(st, x.entry, x.vars, x.c, cl), at+" "+cl.text)
	}
}

// runThreads runs the spawned goroutines one after the other after the main
// body, each from a state in which other code may have changed everything that
// is not stable and not a private cell.
func (x *Exec) runThreads(st *State, done func(st *State)) {
	if len(st.spawned) == 0 {
		done(st)
		return
	}
	sp := st.spawned[0]
	st.spawned = append([]spawn(nil), st.spawned[1:]...)
	x.havocAll(st)
	st.thread = true
	saved := st.locks
	st.locks = map[*T]int{}
	st.fr = nil
	x.setThreadGhosts(st, sp.tg)
	x.trace(st, "goroutine started at "+sp.at)
	rest := st.clone()
	ended := false
	// a root frame so that invoke has a parent
	x.runRoot(st, sp.call, sp.fnv, sp.args, sp.at, func(st *State, res []V, pan *T) {
		ended = true
		if pan != nil {
			if !x.c.flags["threadmaypanic"] {
				x.oblige(st, "nopanic", "goroutine does not panic", nil, False, sp.at)
			}
			return
		}
		for l, n := range st.locks {
			if n != 0 {
				x.oblige(st, "lock", "goroutine releases "+st.lockName[l], nil, False, sp.at)
			}
		}
		x.threadEnd(st, sp.at)
		st.locks = saved
		x.runThreads(st, done)
	})
	if !ended && len(rest.spawned) > 0 {
		// this goroutine never ends; the others still run
		rest.locks = saved
		x.runThreads(rest, func(*State) {})
	}
}

func (x *Exec) runRoot(st *State, c *ssa.CallCommon, fnv V, args []V, at string, k kont) {
	if c != nil && c.IsInvoke() {
		x.dispatch(st, c, fnv.(*T), args, at, k)
		return
	}
	switch f := fnv.(type) {
	case *Clo:
		x.callFn(st, f.fn, f.binds, args, at, false, k)
	case *T:
		x.callUnknown(st, f, c.Value.Type(), args, at, k)
	}
}

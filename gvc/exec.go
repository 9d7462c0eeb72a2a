package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Exec struct {
	qdepth     int // nesting of quantifiers being evaluated
	p          *Prog
	spec       *Spec
	feas       *Feas
	clos       map[*T]*Clo
	addrs      map[*T]*Addr
	boxes      map[*T][]*T
	facts      []*T
	factSeen   map[*T]bool
	c          *Contract // contract being verified
	fn         *ssa.Function
	entry      *State
	vars       map[string]SV
	obls       []*Obl
	oblSeen    map[string]bool
	paths      int
	steps      int
	used       map[string]bool // contracts relied upon
	assumed    map[string]bool // unmodelled externals etc.
	retPaths   int
	panicPaths int
	maxSteps   int
	loopInfo   map[*ssa.Function]*loops
	captured   map[ssa.Value]*capInfo
	privCh     map[*ssa.MakeChan]bool
	feasSeen   map[string][2]int // by shape: how often refuted, how often not
	stack      []string
	abort      string
	noFeas     bool
	modsPhase  bool // finding out what a loop may change
	dropScope  []map[string]map[string]bool
	lockBase   map[*T]int // locks held on entry
	keeps      []*Addr // locations no other code writes
	waitSet    []*T
	atSeen     map[string]bool // calls that "at" clauses spoke about
	exitStates []*State
	thread     string
	unsupPaths map[string]bool
	guardSeen  map[string]bool
	guardOff   bool
}

type Obl struct {
	fn, label, kind string
	props           []string
	pc              []*T
	goal            *T
	path            []string
	res             SolveRes
	script          string
	src             string
}

func NewExec(p *Prog, spec *Spec, feas *Feas) *Exec {
	return &Exec{p: p, spec: spec, feas: feas, clos: map[*T]*Clo{}, feasSeen: map[string][2]int{}, atSeen: map[string]bool{}, addrs: map[*T]*Addr{}, boxes: map[*T][]*T{},
		factSeen: map[*T]bool{}, oblSeen: map[string]bool{}, used: map[string]bool{}, assumed: map[string]bool{}, maxSteps: 400000,
		loopInfo: map[*ssa.Function]*loops{}, unsupPaths: map[string]bool{}, guardSeen: map[string]bool{}}
}

func (x *Exec) pos(in ssa.Instruction) string {
	p := in.Pos()
	if !p.IsValid() {
		return ""
	}
	ps := x.p.prog.Fset.Position(p)
	f := ps.Filename
	f = strings.TrimPrefix(f, x.p.repo+"/")
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (x *Exec) trace(st *State, s string) { st.path = append(st.path, s) }

func (x *Exec) feasible(st *State) bool {
	for _, t := range st.pc {
		if t == False {
			return false
		}
	}
	if x.noFeas {
		return true
	}
	return x.feasibleMany(st)[0]
}

// feasibleMany: which of the states the solver cannot refute, with the facts
// without quantifiers and then (for a shorter time) with all of them.
func (x *Exec) feasibleMany(sts ...*State) []bool {
	var plain, full [][]*T
	var idx []int
	out := make([]bool, len(sts))
	for i, st := range sts {
		out[i] = true
		var p, a []*T
		for _, t := range append(append([]*T{}, x.facts...), st.pc...) {
			if t == False {
				out[i] = false
			}
			a = append(a, t)
			if !t.quant {
				p = append(p, t)
			}
		}
		if !out[i] || x.noFeas {
			continue
		}
		plain = append(plain, p)
		full = append(full, a)
		idx = append(idx, i)
	}
	var q2 [][]*T
	var i2 []int
	for j, r := range x.feas.CheckMany(plain, 300) {
		if r == "unsat" {
			out[idx[j]] = false
		} else if len(plain[j]) != len(full[j]) {
			q2 = append(q2, full[j])
			i2 = append(i2, idx[j])
		}
	}
	// conditions the solver has never refuted before get a short time only
	limit := make([]int, len(q2))
	for j, q := range q2 {
		limit[j] = 200
		if s := x.feasSeen[shapeOf(q[len(q)-1], 5)]; s[0] == 0 && s[1] >= 12 {
			limit[j] = 40
		}
	}
	for _, ms := range []int{200, 40} {
		var qs [][]*T
		var at []int
		var sigs []string
		for j, q := range q2 {
			if g := shapeOf(q[len(q)-1], 5); limit[j] == ms {
				qs, at, sigs = append(qs, q), append(at, i2[j]), append(sigs, g)
			}
		}
		for j, r := range x.feas.CheckMany(qs, ms) {
			s := x.feasSeen[sigs[j]]
			if r == "unsat" {
				out[at[j]] = false
				s[0]++
			} else {
				s[1]++
			}
			x.feasSeen[sigs[j]] = s
		}
	}
	return out
}

// shapeOf: a term's outline without the numbers that make names unique
func shapeOf(t *T, depth int) string {
	var sb strings.Builder
	var w func(t *T, d int)
	w = func(t *T, d int) {
		for _, r := range t.op {
			if r < '0' || r > '9' {
				sb.WriteRune(r)
			}
		}
		if d == 0 || len(t.args) == 0 {
			return
		}
		sb.WriteByte('(')
		for _, a := range t.args {
			w(a, d-1)
			sb.WriteByte(',')
		}
		sb.WriteByte(')')
	}
	w(t, depth)
	return sb.String()
}

func (x *Exec) valid(st *State, g *T, ms int) bool {
	if g == True {
		return true
	}
	if g == False {
		return !x.feasible(st)
	}
	for _, t := range st.pc {
		if t == g {
			return true
		}
	}
	as := append(append([]*T{}, x.facts...), st.pc...)
	return x.feas.Check(append(as, Not(g)), ms) == "unsat"
}

// validMany decides several goals in one state (distinct goals once each).
// validMany decides which goals hold in st. Goals are first tried without the quantified
// assumptions (fewer assumptions: a proof stays a proof); what that leaves open is tried with
// all of them, generated candidates (not user ones) under a short limit, because refuting
// anything under quantified assumptions runs into the limit.
func (x *Exec) validMany(st *State, goals []*T, user func(i int) bool, ms int) map[*T]bool {
	res := map[*T]bool{}
	isUser := map[*T]bool{}
	for i, g := range goals {
		if g != nil && user(i) {
			isUser[g] = true
		}
	}
	var ask []*T
	var qs [][]*T
	for _, g := range goals {
		if g == nil {
			continue
		}
		if _, known := res[g]; known {
			continue
		}
		res[g] = g == True
		if g == True {
			continue
		}
		in := false
		for _, t := range st.pc {
			in = in || t == g
		}
		if in {
			res[g] = true
			continue
		}
		if g == False {
			res[g] = !x.feasible(st)
			continue
		}
		ask = append(ask, g)
	}
	all := append(append([]*T{}, x.facts...), st.pc...)
	var plain []*T
	for _, t := range all {
		if !t.quant {
			plain = append(plain, t)
		}
	}
	try := func(ask []*T, as []*T, ms int) (open []*T) {
		for _, g := range ask {
			qs = append(qs, append(append([]*T{}, as...), Not(g)))
		}
		for i, r := range x.feas.CheckMany(qs, ms) {
			if res[ask[i]] = r == "unsat"; !res[ask[i]] {
				open = append(open, ask[i])
			}
		}
		qs = nil
		return open
	}
	var open []*T
	if len(plain) == len(all) {
		try(ask, plain, ms)
		return res
	}
	var simple, quant []*T
	for _, g := range ask {
		if g.quant {
			quant = append(quant, g)
		} else {
			simple = append(simple, g)
		}
	}
	open = append(try(simple, plain, ms), try(quant, plain, ms/10)...)
	var auto, users []*T
	for _, g := range open {
		if isUser[g] {
			users = append(users, g)
		} else {
			auto = append(auto, g)
		}
	}
	// with the quantified facts that speak about what the goal speaks about
	near := func(ask []*T, ms int) (open []*T) {
		var q2 []*T
		for _, g := range ask {
			as, cut := nearFacts(all, g, 1)
			if !cut {
				open = append(open, g)
				continue
			}
			q2 = append(q2, g)
			qs = append(qs, append(as, Not(g)))
		}
		for i, r := range x.feas.CheckMany(qs, ms) {
			if res[q2[i]] = r == "unsat"; !res[q2[i]] {
				open = append(open, q2[i])
			}
		}
		qs = nil
		return open
	}
	users = near(users, ms/3)
	auto = near(auto, ms/10)
	try(users, all, ms)
	try(auto, all, ms/8)
	return res
}

// nearFacts keeps of the quantified facts only those that share an array with
// the goal (in up to hops steps). Leaving facts out can only lose proofs.
func nearFacts(pc []*T, goal *T, hops int) (out []*T, cut bool) {
	have := arrays(goal)
	keep := map[*T]bool{}
	for h := 0; h < hops; h++ {
		next := map[int]bool{}
		for _, t := range pc {
			if !t.quant || keep[t] {
				continue
			}
			a := arrays(t)
			for id := range a {
				if have[id] {
					keep[t] = true
					break
				}
			}
			if keep[t] {
				for id := range a {
					next[id] = true
				}
			}
		}
		for id := range next {
			have[id] = true
		}
	}
	for _, t := range pc {
		if !t.quant || keep[t] {
			out = append(out, t)
		} else {
			cut = true
		}
	}
	return
}

var arraysMemo = map[*T]map[int]bool{}
var arraysMu sync.Mutex

func arrays(t *T) map[int]bool {
	arraysMu.Lock()
	defer arraysMu.Unlock()
	if m, ok := arraysMemo[t]; ok {
		return m
	}
	m := map[int]bool{}
	for _, u := range collect([]*T{t}) {
		if u.k == KConst && strings.HasPrefix(u.sort, "(Array") {
			m[u.id] = true
		}
	}
	arraysMemo[t] = m
	return m
}

func (x *Exec) oblige(st *State, kind, label string, props []string, goal *T, src string) {
	if st.trial {
		return
	}
	pc := append(append([]*T{}, x.facts...), st.pc...)
	var kb strings.Builder
	kb.WriteString(label)
	for _, t := range pc {
		fmt.Fprintf(&kb, ",%d", t.id)
	}
	fmt.Fprintf(&kb, "=>%d", goal.id)
	if x.oblSeen[kb.String()] {
		return
	}
	x.oblSeen[kb.String()] = true
	path := append([]string{}, st.path...)
	if len(st.unsup) > 0 {
		path = append(path, "note: path uses over-approximated constructs: "+strings.Join(st.unsup, "; "))
	}
	x.obls = append(x.obls, &Obl{fn: x.c.name, label: label, kind: kind, props: props, pc: pc, goal: goal, path: path, src: src})
}

func (x *Exec) unsupported(st *State, what string) {
	st.unsup = append(st.unsup, what)
	x.unsupPaths[what] = true
}

// ---------- values ----------

func (x *Exec) val(st *State, v ssa.Value) V {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constV(v)
	case *ssa.Function:
		return &Clo{fn: v, term: nil}
	case *ssa.Global:
		return &Addr{key: "g:" + shortPkg(v.Pkg.Pkg.Path()) + "." + v.Name(), ref: One, t: v.Type().(*types.Pointer).Elem()}
	case *ssa.Builtin:
		return nil
	}
	if r, ok := st.fr.env[v]; ok {
		return r
	}
	panic(fmt.Sprintf("no value for %s (%T) in %s", v.Name(), v, st.fr.fn))
}

func (x *Exec) constV(c *ssa.Const) V {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return B(constant.BoolVal(c.Value))
		case u.Info()&types.IsString != 0:
			return StrLit(constant.StringVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			return BigInt(constant.ToInt(c.Value).ExactString())
		case u.Info()&types.IsFloat != 0, u.Info()&types.IsComplex != 0:
			return Const("flt:"+c.Value.ExactString(), SFlt)
		}
	}
	panic("const " + c.String())
}

func (x *Exec) set(st *State, in ssa.Value, v V) { st.fr.env[in] = v }

// ---------- block execution ----------

func (x *Exec) goBlock(st *State, b, pred *ssa.BasicBlock) {
	if x.abort != "" {
		return
	}
	fr := st.fr
	// leaving loops
	for len(fr.loops) > 0 {
		l := fr.loops[len(fr.loops)-1]
		if l.body[b] {
			break
		}
		if l.trial {
			return // exits are not followed in trial mode
		}
		fr.loops = fr.loops[:len(fr.loops)-1]
	}
	li := x.loopsOf(fr.fn)
	if body, ok := li.headers[b]; ok {
		if n := len(fr.loops); n > 0 && fr.loops[n-1].header == b {
			l := fr.loops[n-1]
			var phis []V
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				phis = append(phis, x.phiVal(st, ph, b, pred))
			}
			l.onBack(st, phis)
			return
		}
		x.enterLoop(st, b, pred, body)
		return
	}
	// phis in parallel
	var phis []*ssa.Phi
	var vals []V
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, x.phiVal(st, ph, b, pred))
	}
	for i, ph := range phis {
		x.set(st, ph, vals[i])
	}
	x.step(st, b, len(phis))
}

func (x *Exec) phiVal(st *State, ph *ssa.Phi, b, pred *ssa.BasicBlock) V {
	for i, p := range b.Preds {
		if p == pred {
			return x.val(st, ph.Edges[i])
		}
	}
	panic("phi pred")
}

func (x *Exec) branch(st *State, cond *T, at string, yes, no func(st *State)) {
	if cond == True {
		yes(st)
		return
	}
	if cond == False {
		no(st)
		return
	}
	s1 := st.clone()
	x.assume(s1, cond)
	x.assume(st, Not(cond))
	ok := x.feasibleMany(s1, st)
	if ok[0] {
		if at != "" {
			x.trace(s1, at+" taken")
		}
		yes(s1)
	}
	if ok[1] {
		if at != "" {
			x.trace(st, at+" not taken")
		}
		no(st)
	}
}

func (x *Exec) step(st *State, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		x.steps++
		if x.steps > x.maxSteps && x.abort == "" {
			x.abort = "step budget exceeded"
		}
		if x.abort != "" {
			return
		}
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Jump:
			x.goBlock(st, b.Succs[0], b)
			return
		case *ssa.If:
			c := x.val(st, in.Cond).(*T)
			at := x.condPos(in)
			x.branch(st, c, at,
				func(s *State) { x.goBlock(s, b.Succs[0], b) },
				func(s *State) { x.goBlock(s, b.Succs[1], b) })
			return
		case *ssa.Return:
			var res []V
			for _, r := range in.Results {
				res = append(res, x.val(st, r))
			}
			x.trace(st, "return "+x.pos(in))
			fr := st.fr
			k := fr.k
			st.fr = fr.parent
			k(st, res, nil)
			return
		case *ssa.Panic:
			v := x.val(st, in.X).(*T)
			x.trace(st, "panic "+x.pos(in))
			x.raise(st, v)
			return
		case *ssa.RunDefers:
			ii := i
			x.runDefers(st, func(st *State) {
				fr := st.fr
				if fr.panicking != nil {
					pv, k := fr.panicking, fr.k
					st.fr = fr.parent
					k(st, nil, pv)
					return
				}
				if fr.recovered && fr.fn.Recover != nil {
					fr.recovered = false
					fr.loops = nil
					x.goBlock(st, fr.fn.Recover, nil)
					return
				}
				x.step(st, b, ii+1)
			})
			return
		case *ssa.Call:
			ii := i
			x.trace(st, "call "+x.pos(in))
			x.call(st, &in.Call, in, func(st *State, res []V) {
				x.bindCall(st, in, res)
				x.step(st, b, ii+1)
			})
			return
		case *ssa.Defer:
			d := deferred{call: &in.Call, in: in}
			d.fnv, d.args = x.callOperands(st, &in.Call)
			st.fr.defers = append(st.fr.defers, d)
		case *ssa.Go:
			fnv, args := x.callOperands(st, &in.Call)
			x.goStmt(st, &in.Call, fnv, args, x.pos(in))
		case *ssa.Select:
			ii := i
			x.selectInstr(st, in, func(st *State, v V) {
				x.set(st, in, v)
				x.step(st, b, ii+1)
			})
			return
		case *ssa.Send:
			ii := i
			x.sendInstr(st, x.val(st, in.Chan).(*T), in.Chan.Type().Underlying().(*types.Chan), x.val(st, in.X), x.pos(in), func(st *State) {
				x.step(st, b, ii+1)
			})
			return
		case *ssa.UnOp:
			if in.Op == token.ARROW {
				ii := i
				x.recvInstr(st, in, func(st *State, v V) {
					x.set(st, in, v)
					x.step(st, b, ii+1)
				})
				return
			}
			if in.Op == token.MUL {
				a := x.toAddr(x.val(st, in.X), in.Type())
				ii := i
				x.deref(st, a, x.pos(in), func(st *State) {
					x.checkGuard(st, a, false, x.pos(in))
					x.set(st, in, x.load(st, a))
					x.step(st, b, ii+1)
				})
				return
			}
			x.set(st, in, x.unop(st, in))
		case *ssa.Store:
			a := x.toAddr(x.val(st, in.Addr), in.Val.Type())
			ii := i
			x.deref(st, a, x.pos(in), func(st *State) {
				x.checkGuard(st, a, true, x.pos(in))
				v := x.val(st, in.Val)
				x.store(st, a, v)
				x.step(st, b, ii+1)
			})
			return
		case *ssa.MapUpdate:
			m := x.val(st, in.Map).(*T)
			mt := in.Map.Type().Underlying().(*types.Map)
			ii := i
			x.branch(st, Eq(m, Zero), "", func(st *State) {
				x.trace(st, "write to nil map "+x.pos(in))
				x.raise(st, x.rtErr("assignment to entry in nil map"))
			}, func(st *State) {
				x.checkMapGuard(st, m, true, x.pos(in))
				x.mapUpdate(st, mt, m, x.val(st, in.Key), x.val(st, in.Value))
				x.step(st, b, ii+1)
			})
			return
		case *ssa.TypeAssert:
			ii := i
			x.typeAssert(st, in, func(st *State, v V) {
				x.set(st, in, v)
				x.step(st, b, ii+1)
			})
			return
		case *ssa.Next:
			ii := i
			x.next(st, in, func(st *State, v V) {
				x.set(st, in, v)
				x.step(st, b, ii+1)
			})
			return
		case *ssa.FieldAddr:
			pt := in.X.Type().Underlying().(*types.Pointer).Elem()
			stt := pt.Underlying().(*types.Struct)
			a := x.toAddr(x.val(st, in.X), pt)
			ii := i
			f := stt.Field(in.Field)
			x.deref(st, a, x.pos(in), func(st *State) {
				x.set(st, in, &Addr{key: a.key + "." + f.Name(), ref: a.ref, idx: a.idx, t: f.Type(), priv: a.priv})
				x.step(st, b, ii+1)
			})
			return
		case *ssa.IndexAddr:
			ii := i
			x.indexAddr(st, in, func(st *State, v V) {
				x.set(st, in, v)
				x.step(st, b, ii+1)
			})
			return
		case *ssa.Slice:
			ii := i
			x.sliceInstr(st, in, func(st *State, v V) {
				x.set(st, in, v)
				x.step(st, b, ii+1)
			})
			return
		case *ssa.Index:
			ii := i
			x.indexInstr(st, in, func(st *State, v V) {
				x.set(st, in, v)
				x.step(st, b, ii+1)
			})
			return
		default:
			if v, ok := in.(ssa.Value); ok {
				x.set(st, v, x.pure(st, v, in))
			} else {
				x.unsupported(st, fmt.Sprintf("instruction %T at %s", in, x.pos(in)))
			}
		}
	}
}

func (x *Exec) condPos(in *ssa.If) string {
	if ci, ok := in.Cond.(ssa.Instruction); ok {
		if p := x.pos(ci); p != "" {
			return "if " + p
		}
	}
	return ""
}

func (x *Exec) bindCall(st *State, in *ssa.Call, res []V) {
	switch len(res) {
	case 0:
		st.fr.env[in] = &Agg{}
	case 1:
		st.fr.env[in] = res[0]
		if tup, ok := in.Type().(*types.Tuple); ok && tup.Len() == 1 {
			st.fr.env[in] = res[0]
		}
	default:
		st.fr.env[in] = &Agg{vals: res}
	}
}

func (x *Exec) rtErr(what string) *T {
	return VI(Int(tagNamed("runtime.Error")), Const("rterr:"+what, SInt))
}

// deref continues when the base object is non-nil and raises a nil-dereference panic otherwise
func (x *Exec) deref(st *State, a *Addr, at string, k func(st *State)) {
	if a.priv || a.ref.k == KInt && a.ref.n > 0 || refClass(a.ref) == clFresh {
		k(st)
		return
	}
	c := Eq(a.ref, Zero)
	if c == False {
		k(st)
		return
	}
	nz := Lt(Zero, a.ref)
	for _, t := range st.pc {
		if t == Not(c) || t == nz {
			k(st)
			return
		}
	}
	s1 := st.clone()
	x.assume(s1, c)
	x.assume(st, Not(c))
	if x.feasible(s1) {
		x.trace(s1, "nil dereference "+at)
		x.raise(s1, x.rtErr("nil dereference"))
	}
	k(st)
}

// ---------- panics and defers ----------

func (x *Exec) raise(st *State, v *T) {
	fr := st.fr
	for _, l := range fr.loops {
		if l.trial {
			return
		}
	}
	if fr.depth == 0 && len(fr.defers) == 0 && fr.fn.Recover == nil {
		// fallthrough to generic handling
	}
	fr.panicking = v
	fr.loops = nil
	x.runDefers(st, func(st *State) {
		fr := st.fr
		if fr.panicking == nil && fr.recovered {
			if fr.fn.Recover != nil {
				x.goBlock(st, fr.fn.Recover, nil)
				return
			}
			var res []V
			rs := fr.fn.Signature.Results()
			for i := 0; i < rs.Len(); i++ {
				res = append(res, x.zero(rs.At(i).Type()))
			}
			k := fr.k
			st.fr = fr.parent
			k(st, res, nil)
			return
		}
		pv := fr.panicking
		k := fr.k
		st.fr = fr.parent
		k(st, nil, pv)
	})
}

func (x *Exec) runDefers(st *State, k func(st *State)) {
	fr := st.fr
	n := len(fr.defers)
	if n == 0 {
		k(st)
		return
	}
	d := fr.defers[n-1]
	fr.defers = fr.defers[:n-1]
	x.invoke(st, d.call, d.fnv, d.args, d.in, true, func(st *State, res []V, pan *T) {
		if pan != nil {
			st.fr.panicking = pan
			st.fr.recovered = false
		}
		x.runDefers(st, k)
	})
}

// ---------- simple instructions ----------

func (x *Exec) pure(st *State, v ssa.Value, in ssa.Instruction) V {
	switch in := in.(type) {
	case *ssa.Alloc:
		et := in.Type().Underlying().(*types.Pointer).Elem()
		if ci := x.capOf(in); ci.private {
			// a private cell: only loads, stores and closures see it
			st.alloc = Add(st.alloc, One)
			x.wlog(st, "$alloc", nil)
			a := &Addr{key: "loc:" + fnName(in.Parent()) + ":" + in.Name() + ":" + in.Comment, ref: st.alloc, t: et, priv: true}
			x.store(st, a, x.zero(et))
			return a
		}
		return x.newObj(st, et)
	case *ssa.BinOp:
		return x.binop(st, in)
	case *ssa.ChangeInterface:
		return x.val(st, in.X)
	case *ssa.ChangeType:
		return x.val(st, in.X)
	case *ssa.Convert:
		return x.convert(st, x.val(st, in.X), in.X.Type(), in.Type())
	case *ssa.Extract:
		return x.val(st, in.Tuple).(*Agg).vals[in.Index]
	case *ssa.Field:
		xv := x.val(st, in.X)
		if a, ok := xv.(*Agg); ok {
			return a.vals[in.Field]
		}
	case *ssa.Lookup:
		if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
			m := x.val(st, in.X).(*T)
			x.checkMapGuard(st, m, false, x.pos(in))
			r, okv := x.mapLookup(st, mt, m, x.val(st, in.Index))
			if in.CommaOk {
				return &Agg{vals: []V{r, okv}}
			}
			return r
		}
		return x.freshV(st, in.Type(), "strindex")
	case *ssa.MakeChan:
		r := x.newRef(st)
		x.setCh(st, "closed", r, False)
		x.setCh(st, "len", r, Zero)
		x.setCh(st, "cap", r, x.val(st, in.Size).(*T))
		x.setCh(st, "head", r, Zero)
		if x.chanPrivate(in) {
			st.privCh = append(st.privCh[:len(st.privCh):len(st.privCh)], r)
		}
		return r
	case *ssa.MakeClosure:
		c := &Clo{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.binds = append(c.binds, x.val(st, b))
		}
		return c
	case *ssa.MakeInterface:
		return x.box(st, x.val(st, in.X), in.X.Type())
	case *ssa.MakeMap:
		return x.newMap(st, in.Type().Underlying().(*types.Map))
	case *ssa.MakeSlice:
		r := x.newRef(st)
		et := in.Type().Underlying().(*types.Slice).Elem()
		if isByteSlice(in.Type()) {
			x.setBytes(st, r, Fresh("mkbytes", SStr))
			ln := x.val(st, in.Len).(*T)
			x.assume(st, Eq(SLen(x.bytesOf(st, r)), ln))
			return &Slc{r, Zero, ln}
		}
		for _, c := range flat(et) {
			k := "[]" + typeKey(et) + c.path
			arr := x.hget(st, k, x.heapSort(k, c, true))
			x.hset(st, k, r, Store(arr, r, ConstArr(arrSort(SInt, c.sort), zeroComp(c))))
		}
		return &Slc{r, Zero, x.val(st, in.Len).(*T)}
	case *ssa.Range:
		if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
			m := x.val(st, in.X).(*T)
			x.checkMapGuard(st, m, false, x.pos(in))
			it := &Iter{mapRef: m, mt: mt, vis: "visited:" + fnName(in.Parent()) + ":" + in.Name()}
			it.dom0 = Ite(Eq(m, Zero), ConstArr(arrSort(keySort(mt), SBool), False), x.mapDom(st, mt, m))
			x.ghSet(st, it.vis, ConstArr(arrSort(keySort(mt), SBool), False))
			return it
		}
		return &Iter{str: true}
	case *ssa.MultiConvert:
	}
	x.unsupported(st, fmt.Sprintf("instruction %T at %s", in, x.pos(in)))
	return x.freshV(st, v.Type(), "unsup")
}

func (x *Exec) ghSet(st *State, name string, v *T) {
	for _, w := range st.wlogs {
		w.gh[name] = true
	}
	st.ghost[name] = v
}

func (x *Exec) unop(st *State, in *ssa.UnOp) V {
	v := x.val(st, in.X)
	switch in.Op {
	case token.NOT:
		return Not(v.(*T))
	case token.SUB:
		if t := v.(*T); t.sort == SInt {
			return Neg(t)
		} else {
			return Fn("fneg", SFlt, t)
		}
	case token.XOR:
		return Fn("bitnot", SInt, v.(*T))
	}
	x.unsupported(st, "unop "+in.Op.String())
	return x.freshV(st, in.Type(), "unop")
}

func (x *Exec) eqV(st *State, a, b V, t types.Type) *T {
	ca, cb := x.flatten(a, t), x.flatten(b, t)
	if _, ok := t.Underlying().(*types.Slice); ok {
		return Eq(ca[0], cb[0]) // only comparison with nil is legal
	}
	var es []*T
	for i := range ca {
		es = append(es, Eq(ca[i], cb[i]))
	}
	return And(es...)
}

func (x *Exec) binop(st *State, in *ssa.BinOp) V {
	a, b := x.val(st, in.X), x.val(st, in.Y)
	t := in.X.Type()
	switch in.Op {
	case token.EQL, token.NEQ:
		if !types.Identical(in.X.Type(), in.Y.Type()) {
			if _, ok := in.X.Type().Underlying().(*types.Interface); ok {
				b = x.box(st, b, in.Y.Type())
			} else if _, ok := in.Y.Type().Underlying().(*types.Interface); ok {
				a = x.box(st, a, in.X.Type())
				t = in.Y.Type()
			}
		}
		e := x.eqV(st, a, b, t)
		if in.Op == token.NEQ {
			return Not(e)
		}
		return e
	}
	at, ok1 := a.(*T)
	bt, ok2 := b.(*T)
	if ok1 && ok2 {
		if r := x.arith(in.Op, at, bt); r != nil {
			return r
		}
	}
	x.unsupported(st, "binop "+in.Op.String()+" at "+x.pos(in))
	return x.freshV(st, in.Type(), "binop")
}

func (x *Exec) arith(op token.Token, a, b *T) *T {
	switch a.sort {
	case SStr:
		switch op {
		case token.ADD:
			return Cat(a, b)
		case token.LSS:
			return Fn("slt", SBool, a, b)
		case token.GTR:
			return Fn("slt", SBool, b, a)
		case token.LEQ:
			return Not(Fn("slt", SBool, b, a))
		case token.GEQ:
			return Not(Fn("slt", SBool, a, b))
		}
	case SFlt:
		switch op {
		case token.LSS:
			return Fn("flt_lt", SBool, a, b)
		case token.GTR:
			return Fn("flt_lt", SBool, b, a)
		case token.LEQ:
			return Fn("flt_le", SBool, a, b)
		case token.GEQ:
			return Fn("flt_le", SBool, b, a)
		case token.ADD, token.SUB, token.MUL, token.QUO:
			return Fn("flt"+op.String(), SFlt, a, b)
		}
	case SBool:
		switch op {
		case token.AND, token.LAND:
			return And(a, b)
		case token.OR, token.LOR:
			return Or(a, b)
		}
	case SInt:
		switch op {
		case token.ADD:
			return Add(a, b)
		case token.SUB:
			return Sub(a, b)
		case token.MUL:
			return Mul(a, b)
		case token.LSS:
			return Lt(a, b)
		case token.GTR:
			return Lt(b, a)
		case token.LEQ:
			return Le(a, b)
		case token.GEQ:
			return Le(b, a)
		case token.QUO:
			if a.k == KInt && b.k == KInt && b.n != 0 {
				return Int(a.n / b.n)
			}
			return Fn("quo", SInt, a, b)
		case token.REM:
			if a.k == KInt && b.k == KInt && b.n != 0 {
				return Int(a.n % b.n)
			}
			return Fn("rem", SInt, a, b)
		case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
			return Fn("bit"+op.String(), SInt, a, b)
		}
	}
	return nil
}

func intRange(b *types.Basic) (string, string, bool) {
	switch b.Kind() {
	case types.Int8:
		return "-128", "127", true
	case types.Int16:
		return "-32768", "32767", true
	case types.Int32:
		return "-2147483648", "2147483647", true
	case types.Uint8:
		return "0", "255", true
	case types.Uint16:
		return "0", "65535", true
	case types.Uint32:
		return "0", "4294967295", true
	}
	return "", "", false
}

func rangeWithin(lo, hi, tlo, thi string) bool {
	n := func(s string) int64 { v, _ := strconv.ParseInt(s, 10, 64); return v }
	return n(lo) >= n(tlo) && n(hi) <= n(thi)
}

func (x *Exec) convert(st *State, v V, from, to types.Type) V {
	fu, tu := from.Underlying(), to.Underlying()
	if types.Identical(fu, tu) {
		return v
	}
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok {
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			t := v.(*T)
			if fb.Kind() == types.UnsafePointer || tb.Kind() == types.UnsafePointer {
				return v
			}
			if t.k == KInt {
				return t
			}
			if lo, hi, narrow := intRange(tb); narrow {
				flo, fhi, known := intRange(fb)
				if !(known && rangeWithin(flo, fhi, lo, hi)) {
					// wraps around outside the target's range, the identity inside it
					r := Fn("wrap_"+tb.Name(), SInt, t)
					in := And(Le(BigInt(lo), t), Le(t, BigInt(hi)))
					x.assume(st, And(Imp(in, Eq(r, t)), Le(BigInt(lo), r), Le(r, BigInt(hi))))
					return r
				}
			}
			return t
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return v
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			return Fn("f2i_"+tb.Name(), SInt, v.(*T))
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			return Fn("i2f_"+tb.Name(), SFlt, v.(*T))
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			if fb.Kind() == tb.Kind() {
				return v
			}
			return Fn("f2f_"+tb.Name(), SFlt, v.(*T))
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			return Fn("rune2s", SStr, v.(*T))
		case tb.Kind() == types.UnsafePointer || fb.Kind() == types.UnsafePointer:
			return v
		}
	}
	if tok && tb.Info()&types.IsString != 0 && isByteSlice(from) {
		return x.bytesOf(st, v.(*Slc).ref)
	}
	if fok && fb.Info()&types.IsString != 0 && isByteSlice(to) {
		return x.newBytes(st, v.(*T))
	}
	if tok && tb.Kind() == types.UnsafePointer || fok && fb.Kind() == types.UnsafePointer {
		return v
	}
	x.unsupported(st, fmt.Sprintf("conversion %s to %s", from, to))
	return x.freshV(st, to, "conv")
}

func (x *Exec) sizeof(b *types.Basic) int64 { return types.SizesFor("gc", "amd64").Sizeof(b) }

func (x *Exec) typeAssert(st *State, in *ssa.TypeAssert, k func(st *State, v V)) {
	v := x.val(st, in.X).(*T)
	is := x.typeIs(v, in.AssertedType)
	if in.CommaOk {
		x.branch(st, is, "", func(st *State) {
			k(st, &Agg{vals: []V{x.unbox(st, v, in.AssertedType), True}})
		}, func(st *State) {
			k(st, &Agg{vals: []V{x.zero(in.AssertedType), False}})
		})
		return
	}
	x.branch(st, is, "", func(st *State) {
		k(st, x.unbox(st, v, in.AssertedType))
	}, func(st *State) {
		x.trace(st, "failed type assertion "+x.pos(in))
		x.raise(st, x.rtErr("type assertion"))
	})
}

func (x *Exec) next(st *State, in *ssa.Next, k func(st *State, v V)) {
	it := x.val(st, in.Iter).(*Iter)
	if in.IsString || it.str {
		x.unsupported(st, "range over string")
		tup := in.Type().(*types.Tuple)
		k(st, &Agg{vals: []V{Fresh("ok", SBool), x.freshV(st, tup.At(1).Type(), "k"), x.freshV(st, tup.At(2).Type(), "v")}})
		return
	}
	vis := st.ghost[it.vis]
	x.checkMapGuard(st, it.mapRef, false, x.pos(in))
	dom := Ite(Eq(it.mapRef, Zero), it.dom0, x.mapDom(st, it.mt, it.mapRef))
	tup := in.Type().(*types.Tuple)
	// done
	s1 := st.clone()
	kb := Bound("k", keySort(it.mt))
	if dom == it.dom0 {
		x.assume(s1, Forall([]*T{kb}, Eq(Select(dom, kb), Select(vis, kb)), []*T{app("select", SBool, vis, kb)}, []*T{app("select", SBool, dom, kb)}))
	} else {
		x.assume(s1, Forall([]*T{kb}, Imp(And(Select(dom, kb), Select(it.dom0, kb)), Select(vis, kb))))
	}
	// a next element
	kt := Fresh("key", keySort(it.mt))
	x.assume(st, Select(dom, kt))
	x.assume(st, Not(Select(vis, kt)))
	kc := flat(it.mt.Key())
	var kv V
	if len(kc) == 1 {
		x.wfComp(st, kc[0], kt)
		kv = unflat(x, it.mt.Key(), []*T{kt})
	} else {
		kv = x.freshV(st, it.mt.Key(), "key")
	}
	vs := x.mapVals(st, it.mt, it.mapRef)
	var cs []*T
	for i, c := range flat(it.mt.Elem()) {
		r := Select(vs[i], kt)
		x.wfComp(st, c, r)
		cs = append(cs, r)
	}
	vv := unflat(x, it.mt.Elem(), cs)
	x.ghSet(st, it.vis, Store(vis, kt, True))
	inval := func(t types.Type) bool { b, ok := t.(*types.Basic); return ok && b.Kind() == types.Invalid }
	if x.feasible(st) {
		a := &Agg{vals: []V{True, kv, vv}}
		if inval(tup.At(1).Type()) {
			a.vals[1] = Zero
		}
		if inval(tup.At(2).Type()) {
			a.vals[2] = Zero
		}
		k(st, a)
	}
	if x.feasible(s1) {
		var kz, vz V = Zero, Zero
		if !inval(tup.At(1).Type()) {
			kz = x.zero(it.mt.Key())
		}
		if !inval(tup.At(2).Type()) {
			vz = x.zero(it.mt.Elem())
		}
		k(s1, &Agg{vals: []V{False, kz, vz}})
	}
}

func (x *Exec) inBounds(st *State, i, n *T, at string, k func(st *State)) {
	ok := And(Le(Zero, i), Lt(i, n))
	if ok == True {
		k(st)
		return
	}
	s1 := st.clone()
	x.assume(s1, Not(ok))
	x.assume(st, ok)
	if x.feasible(s1) {
		x.trace(s1, "index out of range "+at)
		x.raise(s1, x.rtErr("index out of range"))
	}
	if x.feasible(st) {
		k(st)
	}
}

func (x *Exec) indexAddr(st *State, in *ssa.IndexAddr, k func(st *State, v V)) {
	i := x.val(st, in.Index).(*T)
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		s := x.val(st, in.X).(*Slc)
		if isByteSlice(in.X.Type()) {
			x.inBounds(st, i, SLen(x.bytesOf(st, s.ref)), x.pos(in), func(st *State) {
				x.assume(st, Lt(Zero, s.ref))
				k(st, &Addr{key: "byteat", ref: s.ref, idx: i, t: u.Elem()})
			})
			return
		}
		x.inBounds(st, i, s.len, x.pos(in), func(st *State) {
			x.assume(st, Lt(Zero, s.ref)) // in bounds of a slice: it has storage
			k(st, &Addr{key: "[]" + typeKey(u.Elem()), ref: s.ref, idx: Add(s.off, i), t: u.Elem()})
		})
		return
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		a := x.toAddr(x.val(st, in.X), u.Elem())
		key := a.key
		ref := a.ref
		if a.key != rootKey(u.Elem()) || a.idx != nil {
			ref = x.addrTerm(a)
			key = rootKey(u.Elem())
		}
		x.inBounds(st, i, Int(at.Len()), x.pos(in), func(st *State) {
			k(st, &Addr{key: key, ref: ref, idx: i, t: at.Elem()})
		})
		return
	}
	x.unsupported(st, "indexaddr")
	k(st, x.freshV(st, in.Type(), "ia"))
}

func (x *Exec) indexInstr(st *State, in *ssa.Index, k func(st *State, v V)) {
	if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		s := x.val(st, in.X).(*T)
		i := x.val(st, in.Index).(*T)
		x.inBounds(st, i, SLen(s), x.pos(in), func(st *State) {
			r := Fn("sat", SInt, s, i)
			x.assume(st, Le(Zero, r))
			x.assume(st, Le(r, Int(255)))
			k(st, r)
		})
		return
	}
	x.unsupported(st, "index of array value")
	k(st, x.freshV(st, in.Type(), "index"))
}

func (x *Exec) sliceInstr(st *State, in *ssa.Slice, k func(st *State, v V)) {
	opt := func(v ssa.Value) *T {
		if v == nil {
			return nil
		}
		return x.val(st, v).(*T)
	}
	lo, hi := opt(in.Low), opt(in.High)
	if lo == nil {
		lo = Zero
	}
	check := func(st *State, n *T, k func(st *State)) {
		h := hi
		if h == nil {
			h = n
		}
		ok := And(Le(Zero, lo), Le(lo, h), Le(h, n))
		if ok == True {
			k(st)
			return
		}
		s1 := st.clone()
		x.assume(s1, Not(ok))
		x.assume(st, ok)
		if x.feasible(s1) {
			x.trace(s1, "slice bounds out of range "+x.pos(in))
			x.raise(s1, x.rtErr("slice bounds"))
		}
		if x.feasible(st) {
			k(st)
		}
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic:
		s := x.val(st, in.X).(*T)
		check(st, SLen(s), func(st *State) {
			h := hi
			if h == nil {
				h = SLen(s)
			}
			k(st, StrSub(s, lo, h))
		})
		return
	case *types.Slice:
		s := x.val(st, in.X).(*Slc)
		if isByteSlice(in.X.Type()) {
			c := x.bytesOf(st, s.ref)
			check(st, SLen(c), func(st *State) {
				h := hi
				if h == nil {
					h = SLen(c)
				}
				if lo == Zero && h == SLen(c) {
					k(st, s)
					return
				}
				k(st, x.newBytes(st, StrSub(c, lo, h)))
			})
			return
		}
		// re-slicing up to capacity is legal in Go; only slicing within the length is modelled
		check(st, s.len, func(st *State) {
			h := hi
			if h == nil {
				h = s.len
			}
			k(st, &Slc{s.ref, Add(s.off, lo), Sub(h, lo)})
		})
		return
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		a := x.toAddr(x.val(st, in.X), u.Elem())
		h := hi
		if h == nil {
			h = Int(at.Len())
		}
		if isByteSlice(in.Type()) {
			bs := Fresh("arrbytes", SStr)
			x.assume(st, Eq(SLen(bs), Sub(h, lo)))
			k(st, x.newBytes(st, bs))
			return
		}
		k(st, &Slc{a.ref, lo, Sub(h, lo)})
		return
	}
	x.unsupported(st, "slice")
	k(st, x.freshV(st, in.Type(), "slice"))
}

// ---------- captured cells ----------

type capInfo struct {
	private       bool
	captured      bool
	stores        int
	closureStores int
}

// capOf classifies an Alloc: private when its address is only used by loads,
// stores (as the address), and closures that do the same.
func (x *Exec) capOf(a *ssa.Alloc) *capInfo {
	if x.captured == nil {
		x.captured = map[ssa.Value]*capInfo{}
	}
	if c, ok := x.captured[a]; ok {
		return c
	}
	ci := &capInfo{private: true}
	et := a.Type().Underlying().(*types.Pointer).Elem()
	if isStruct(et) {
		ci.private = false
	}
	if _, ok := et.Underlying().(*types.Array); ok {
		ci.private = false
	}
	if isOpaque(et) {
		ci.private = false
	}
	var scan func(v ssa.Value, depth int)
	scan = func(v ssa.Value, depth int) {
		refs := v.Referrers()
		if refs == nil {
			ci.private = false
			return
		}
		for _, r := range *refs {
			switch r := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				if r.Addr == v && r.Val != v {
					ci.stores++
					if depth > 0 {
						ci.closureStores++
					}
				} else {
					ci.private = false
				}
			case *ssa.MakeClosure:
				ci.captured = true
				f := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == v {
						scan(f.FreeVars[i], depth+1)
					}
				}
			default:
				ci.private = false
			}
		}
	}
	scan(a, 0)
	x.captured[a] = ci
	return ci
}

// chanPrivate: the channel made here is only ever used by this function and the
// closures it makes (kept in private variables, used for receives, sends, close).
func (x *Exec) chanPrivate(mk *ssa.MakeChan) bool {
	if r, ok := x.privCh[mk]; ok {
		return r
	}
	if x.privCh == nil {
		x.privCh = map[*ssa.MakeChan]bool{}
	}
	ok := true
	var use func(v ssa.Value)  // v is the channel
	var cell func(v ssa.Value) // v is the address of a variable that holds it
	use = func(v ssa.Value) {
		refs := v.Referrers()
		if refs == nil {
			ok = false
			return
		}
		for _, r := range *refs {
			switch r := r.(type) {
			case *ssa.DebugRef, *ssa.Select:
				if sl, is := r.(*ssa.Select); is {
					for _, s := range sl.States {
						if s.Send == v {
							ok = false
						}
					}
				}
			case *ssa.UnOp:
				if r.Op != token.ARROW {
					ok = false
				}
			case *ssa.Send:
				if r.X == v {
					ok = false
				}
			case *ssa.Store:
				a, is := r.Addr.(*ssa.Alloc)
				if !is || r.Val != v || !x.capOf(a).private || x.capOf(a).stores != 1 {
					ok = false
					continue
				}
				cell(a)
			case *ssa.MakeClosure:
				for i, b := range r.Bindings {
					if b == v {
						use(r.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			case *ssa.Call:
				b, is := r.Call.Value.(*ssa.Builtin)
				if !is || b.Name() != "close" && b.Name() != "len" && b.Name() != "cap" {
					ok = false
				}
			case *ssa.Defer:
				b, is := r.Call.Value.(*ssa.Builtin)
				if !is || b.Name() != "close" {
					ok = false
				}
			case *ssa.ChangeType:
				use(r)
			default:
				ok = false
			}
		}
	}
	cell = func(v ssa.Value) {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.UnOp:
				use(r)
			case *ssa.MakeClosure:
				for i, b := range r.Bindings {
					if b == v {
						cell(r.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			}
		}
	}
	use(mk)
	x.privCh[mk] = ok
	return ok
}

func debugf(f string, a ...interface{}) {
	if os.Getenv("GVC_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

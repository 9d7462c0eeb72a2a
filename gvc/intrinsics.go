package main

import (
	"reflect"
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(x *Exec, st *State, f *ssa.Function, args []V, at string, k kont)

var intrinsics map[string]intrinsic

func recvElem(f *ssa.Function) types.Type {
	return f.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
}

func (x *Exec) lockAddr(f *ssa.Function, v V) *Addr { return x.toAddr(v, recvElem(f)) }

func (x *Exec) lockOp(op string) intrinsic {
	return func(x *Exec, st *State, f *ssa.Function, args []V, at string, k kont) {
		a := x.lockAddr(f, args[0])
		x.deref(st, a, at, func(st *State) {
			l := x.addrTerm(a)
			if st.lockName == nil {
				st.lockName = map[*T]string{}
			} else {
				st.lockName = cm(st.lockName)
			}
			st.lockName[l] = a.key
			cur := st.locks[l]
			switch op {
			case "lock":
				if cur > 0 {
					x.oblige(st, "lock", "no self-deadlock on "+a.key, nil, False, at)
					return
				}
				x.onAcquire(st, a)
				st.locks[l] = 1000
			case "rlock":
				if cur >= 1000 {
					x.oblige(st, "lock", "no self-deadlock on "+a.key, nil, False, at)
					return
				}
				x.onAcquire(st, a)
				st.locks[l] = cur + 1
			case "unlock":
				if cur < 1000 {
					x.oblige(st, "lock", "unlock of a held lock "+a.key, nil, False, at)
					return
				}
				st.locks[l] = 0
				x.onRelease(st, a)
			case "runlock":
				if cur <= 0 || cur >= 1000 {
					x.oblige(st, "lock", "read-unlock of a held lock "+a.key, nil, False, at)
					return
				}
				st.locks[l] = cur - 1
				x.onRelease(st, a)
			case "trylock":
				s2 := st.clone()
				x.onAcquire(st, a)
				st.locks[l] = 1000
				k(st, []V{True}, nil)
				k(s2, []V{False}, nil)
				return
			}
			k(st, nil, nil)
		})
	}
}

func (x *Exec) monitorsOf(key string) []*Monitor {
	var out []*Monitor
	for _, m := range x.spec.monitors {
		if m.owner+"."+m.lock == key {
			out = append(out, m)
		}
	}
	return out
}

func (x *Exec) onAcquire(st *State, a *Addr) {
	if x.c != nil && x.c.flags["concurrent"] && refClass(a.ref) != clFresh {
		// other goroutines may have changed everything the lock guards
		for _, m := range x.monitorsOf(a.key) {
			stt := x.structOf(m.owner)
			if stt == nil {
				continue
			}
			for i := 0; i < stt.NumFields(); i++ {
				f := stt.Field(i)
				if contains(m.fields, f.Name()+"!") && x.spec.chans[m.owner+"."+f.Name()] == "signal" {
					// somebody else may have closed it
					ch := x.load(st, &Addr{key: m.owner + "." + f.Name(), ref: a.ref, t: f.Type()}).(*T)
					cl := Fresh("closed", SBool)
					x.assume(st, Imp(x.getCh(st, "closed", ch, SBool), cl))
					x.setCh(st, "closed", ch, cl)
				}
				if !contains(m.fields, f.Name()) {
					continue
				}
				fa := &Addr{key: m.owner + "." + f.Name(), ref: a.ref, t: f.Type()}
				if mt, ok := f.Type().Underlying().(*types.Map); ok {
					x.havocMap(st, mt, x.load(st, fa).(*T))
				} else {
					x.store(st, fa, x.freshV(st, f.Type(), "conc"))
				}
			}
		}
	}
	st.acq[a.key] = st.snap()
}

func (x *Exec) onRelease(st *State, a *Addr) { st.rel[a.key] = st.snap() }

func (x *Exec) structOf(key string) *types.Struct {
	i := strings.LastIndex(key, ".")
	if strings.HasPrefix(key, "g:") {
		return nil
	}
	p := x.p.types[modPath+"/"+key[:i]]
	if p == nil {
		return nil
	}
	o := p.Scope().Lookup(key[i+1:])
	if o == nil {
		return nil
	}
	s, _ := o.Type().Underlying().(*types.Struct)
	return s
}

// Fields declared "atomic": in functions verified as concurrent, any other
// goroutine may change the field between two atomic operations; the function's
// own contribution is accumulated in a ghost, readable as delta(p.f).
func (x *Exec) atomicPre(st *State, a *Addr) {
	defer func() {
		if n, ok := a.t.(*types.Named); ok && n.Obj().Name() == "Bool" {
			if v, ok := x.load(st, a).(*T); ok && v.sort == SInt {
				x.assume(st, Or(Eq(v, Zero), Eq(v, One)))
			}
		}
	}()
	if x.c == nil || !x.c.flags["concurrent"] || !x.spec.atomics[a.key] || refClass(a.ref) == clFresh {
		return
	}
	x.store(st, a, x.freshV(st, a.t, "conc"))
}

func deltaAddr(a *Addr) *Addr {
	return &Addr{key: "delta." + a.key, ref: a.ref, t: types.Typ[types.Int]}
}

func (x *Exec) atomicSet(st *State, a *Addr, v V) {
	if x.spec.atomics[a.key] {
		if o, ok := x.load(st, a).(*T); ok && o.sort == SInt {
			if n, ok := v.(*T); ok {
				d := deltaAddr(a)
				x.store(st, d, Add(x.load(st, d).(*T), Sub(n, o)))
			}
		}
	}
	x.store(st, a, v)
}

// guard discipline: an access to a guarded field needs its lock
func (x *Exec) checkGuard(st *State, a *Addr, write bool, at string) {
	m := x.spec.guards[a.key]
	if m == nil || refClass(a.ref) == clFresh {
		return
	}
	if strings.HasPrefix(a.key, "g:") && x.fn != nil && x.fn.Synthetic != "" && x.fn.Name() == "init" {
		return // package initialisation happens before anything else runs
	}
	x.guardHeld(st, m, a.ref, a.key, write, at)
}

func (x *Exec) guardHeld(st *State, m *Monitor, own *T, what string, write bool, at string) {
	la := &Addr{key: m.owner + "." + m.lock, ref: own, t: types.Typ[types.Int]}
	l := Fn("addr:"+la.key, SInt, own)
	n := st.locks[l]
	ok := n > 0
	if write {
		ok = n >= 1000
	}
	if !ok && x.holdsAlias(st, la.key, own, write) {
		ok = true
	}
	w := "read"
	if write {
		w = "write"
	}
	x.guardSeen[what+" "+w] = true
	if x.guardOff {
		return
	}
	x.oblige(st, "guard", w+" of "+what+" under "+m.lock, m.props, B(ok), at)
}

func (x *Exec) holdsAlias(st *State, key string, own *T, write bool) bool {
	for l, n := range st.locks {
		if n <= 0 || write && n < 1000 || st.lockName[l] != key {
			continue
		}
		if a := x.addrs[l]; a != nil && x.valid(st, Eq(a.ref, own), 300) {
			return true
		}
	}
	return false
}

func (x *Exec) checkMapGuard(st *State, m *T, write bool, at string) {
	g, ok := st.guard[m]
	if !ok || refClass(g.own) == clFresh {
		return
	}
	x.guardHeld(st, g.mon, g.own, "contents of "+g.mon.owner+" table", write, at)
}

// ---------- channels ----------

func (x *Exec) getCh(st *State, f string, ch *T, sort string) *T {
	t := Select(x.hget(st, "chan."+f, arrSort(SInt, sort)), ch)
	return t
}
func (x *Exec) setCh(st *State, f string, ch *T, v *T) {
	arr := x.hget(st, "chan."+f, arrSort(SInt, v.sort))
	x.hset(st, "chan."+f, ch, Store(arr, ch, v))
}

func (x *Exec) chanClass(st *State, ch *T) string {
	if o, ok := st.chOrig[ch]; ok {
		if c := x.spec.chans[o]; c != "" {
			return c
		}
	}
	return ""
}

func chKey(ct *types.Chan) string { return "chanitem." + typeKey(ct.Elem()) }

func (x *Exec) chItem(st *State, ct *types.Chan, ch, i *T) V {
	return x.load(st, &Addr{key: chKey(ct), ref: ch, idx: i, t: ct.Elem()})
}

// In functions verified as concurrent the reader of an exact channel may take
// items at any time; nobody else sends while this function may (see the guard on sends).
func (x *Exec) chanInterfere(st *State, ch *T) {
	if x.c == nil || !x.c.flags["concurrent"] || refClass(ch) == clFresh {
		return
	}
	ln, hd := x.getCh(st, "len", ch, SInt), x.getCh(st, "head", ch, SInt)
	h2 := Fresh("chhead", SInt)
	x.assume(st, Le(Zero, ln))
	x.assume(st, Le(hd, h2))
	x.assume(st, Le(h2, Add(hd, ln)))
	x.setCh(st, "head", ch, h2)
	x.setCh(st, "len", ch, Sub(Add(hd, ln), h2))
}

// channels guarded with "!": sends and close happen under the lock
func (x *Exec) chanGuard(st *State, ch *T, what, at string) {
	o := st.chOrig[ch]
	if o == "" {
		return
	}
	if m := x.spec.guards[o+"!"]; m != nil && refClass(ch) != clFresh {
		ok := false
		for l, n := range st.locks {
			if n >= 1000 && st.lockName[l] == m.owner+"."+m.lock {
				ok = true
			}
		}
		x.guardSeen[o+" send"] = true
		x.oblige(st, "guard", what+" "+o+" under "+m.lock, m.props, B(ok), at)
	}
}

// can a send proceed now / effect
func (x *Exec) doSend(st *State, ct *types.Chan, ch *T, v V, at string, k func(st *State, pan *T)) {
	cl := x.chanClass(st, ch)
	x.chanGuard(st, ch, "send to", at)
	switch cl {
	case "exact":
		x.chanInterfere(st, ch)
		ln, hd, cp := x.getCh(st, "len", ch, SInt), x.getCh(st, "head", ch, SInt), x.getCh(st, "cap", ch, SInt)
		x.branch(st, x.getCh(st, "closed", ch, SBool), "", func(st *State) {
			x.trace(st, "send on closed channel "+at)
			k(st, x.rtErr("send on closed channel"))
		}, func(st *State) {
			x.assume(st, Le(Zero, ln))
			x.assume(st, Lt(ln, cp)) // otherwise it blocks
			if !x.feasible(st) {
				return
			}
			x.store(st, &Addr{key: chKey(ct), ref: ch, idx: Add(hd, ln), t: ct.Elem()}, v)
			x.setCh(st, "len", ch, Add(ln, One))
			k(st, nil)
		})
		return
	}
	k(st, nil)
}

func (x *Exec) doRecv(st *State, ct *types.Chan, ch *T, at string, k func(st *State, v V, ok *T)) {
	cl := x.chanClass(st, ch)
	switch cl {
	case "signal":
		x.assume(st, x.getCh(st, "closed", ch, SBool))
		if x.feasible(st) {
			k(st, x.zero(ct.Elem()), False)
		}
		return
	case "exact":
		x.chanInterfere(st, ch)
		ln, hd := x.getCh(st, "len", ch, SInt), x.getCh(st, "head", ch, SInt)
		x.assume(st, Le(Zero, ln))
		s2 := st.clone()
		x.assume(st, Lt(Zero, ln))
		if x.feasible(st) {
			v := x.chItem(st, ct, ch, hd)
			x.setCh(st, "len", ch, Sub(ln, One))
			x.setCh(st, "head", ch, Add(hd, One))
			k(st, v, True)
		}
		x.assume(s2, Eq(ln, Zero))
		x.assume(s2, x.getCh(s2, "closed", ch, SBool))
		if x.feasible(s2) {
			k(s2, x.zero(ct.Elem()), False)
		}
		return
	}
	k(st, x.freshV(st, ct.Elem(), "recv"), Fresh("recvok", SBool))
}

func (x *Exec) sendInstr(st *State, ch *T, ct *types.Chan, v V, at string, k func(st *State)) {
	x.trace(st, "send "+at)
	x.atChan(st, "at", "chan.send", ct, ch, v, at)
	if x.c != nil && x.c.flags["noblock"] && !st.thread {
		if x.chanClass(st, ch) == "exact" {
			x.oblige(st, "noblock", "a send does not block", nil, Lt(x.getCh(st, "len", ch, SInt), x.getCh(st, "cap", ch, SInt)), at)
		} else {
			x.oblige(st, "noblock", "a send does not block", nil, False, at)
		}
	}
	x.doSend(st, ct, ch, v, at, func(st *State, pan *T) {
		if pan != nil {
			x.raise(st, pan)
			return
		}
		x.atChan(st, "atafter", "chan.send", ct, ch, v, at)
		k(st)
	})
}

func (x *Exec) recvInstr(st *State, in *ssa.UnOp, k func(st *State, v V)) {
	ch := x.val(st, in.X).(*T)
	ct := in.X.Type().Underlying().(*types.Chan)
	x.trace(st, "receive "+x.pos(in))
	if x.c != nil && x.c.flags["noblock"] && !st.thread {
		x.oblige(st, "noblock", "no receive that may block", nil, False, x.pos(in))
	}
	x.atWait(st, []*T{ch}, x.pos(in))
	x.joinAt(st, ch, in.X.Type(), x.pos(in), func(st *State) {
	x.doRecv(st, ct, ch, x.pos(in), func(st *State, v V, ok *T) {
		x.atRecv(st, in.X.Type(), ch, v, ok, x.pos(in))
		if in.CommaOk {
			k(st, &Agg{vals: []V{v, ok}})
			return
		}
		k(st, v)
	})
	})
}

func (x *Exec) selectInstr(st *State, in *ssa.Select, k func(st *State, v V)) {
	at := x.pos(in)
	var recvTypes []types.Type
	for _, s := range in.States {
		if s.Dir == types.RecvOnly {
			recvTypes = append(recvTypes, s.Chan.Type().Underlying().(*types.Chan).Elem())
		}
	}
	result := func(idx int, ok *T, ri int, rv V) V {
		a := &Agg{vals: []V{Int(int64(idx)), ok}}
		for i, t := range recvTypes {
			if i == ri {
				a.vals = append(a.vals, rv)
			} else {
				a.vals = append(a.vals, x.zero(t))
			}
		}
		return a
	}
	ri := 0
	type alt struct {
		idx, ri int
		s       *ssa.SelectState
	}
	var alts []alt
	for i, s := range in.States {
		a := alt{i, -1, s}
		if s.Dir == types.RecvOnly {
			a.ri = ri
			ri++
		}
		alts = append(alts, a)
	}
	if in.Blocking {
		var chs []*T
		for _, a := range alts {
			chs = append(chs, x.val(st, a.s.Chan).(*T))
		}
		x.atWait(st, chs, at)
		if x.c != nil && x.c.flags["noblock"] && !st.thread {
			x.oblige(st, "noblock", "no select that may block", nil, False, at)
		}
	}
	for _, a := range alts {
		s1 := st.clone()
		ch := x.val(s1, a.s.Chan).(*T)
		x.assume(s1, Ne(ch, Zero)) // nil channels are never ready
		if !x.feasible(s1) {
			continue
		}
		ct := a.s.Chan.Type().Underlying().(*types.Chan)
		x.trace(s1, fmt.Sprintf("select case %d %s", a.idx, at))
		if a.s.Dir == types.RecvOnly {
			a := a
			x.joinAt(s1, ch, a.s.Chan.Type(), at, func(s1 *State) {
				x.doRecv(s1, ct, ch, at, func(st *State, v V, ok *T) {
					x.atRecv(st, a.s.Chan.Type(), ch, v, ok, at)
					k(st, result(a.idx, ok, a.ri, v))
				})
			})
		} else {
			a := a
			sv := x.val(s1, a.s.Send)
			x.atChan(s1, "at", "chan.send", a.s.Chan.Type(), ch, sv, at)
			x.doSend(s1, ct, ch, sv, at, func(st *State, pan *T) {
				if pan != nil {
					x.raise(st, pan)
					return
				}
				x.atChan(st, "atafter", "chan.send", a.s.Chan.Type(), ch, sv, at)
				k(st, result(a.idx, False, -1, nil))
			})
		}
	}
	if !in.Blocking {
		// default: no case is ready
		for _, a := range alts {
			ch := x.val(st, a.s.Chan).(*T)
			switch x.chanClass(st, ch) {
			case "signal":
				x.assume(st, Or(Eq(ch, Zero), Not(x.getCh(st, "closed", ch, SBool))))
			case "exact":
				x.chanInterfere(st, ch)
				ln, cp := x.getCh(st, "len", ch, SInt), x.getCh(st, "cap", ch, SInt)
				if a.s.Dir == types.RecvOnly {
					x.assume(st, Or(Eq(ch, Zero), And(Le(ln, Zero), Not(x.getCh(st, "closed", ch, SBool)))))
				} else {
					x.assume(st, Or(Eq(ch, Zero), And(Le(cp, ln), Not(x.getCh(st, "closed", ch, SBool)))))
				}
			}
		}
		x.trace(st, "select default "+at)
		if x.feasible(st) {
			for _, a := range alts {
				if a.s.Dir != types.RecvOnly {
					x.atChan(st, "atafter", "chan.full", a.s.Chan.Type(), x.val(st, a.s.Chan).(*T), nil, at)
				}
			}
			k(st, result(-1, False, -1, nil))
		}
	}
}

// ---------- builtins ----------

func (x *Exec) builtin(st *State, name string, c *ssa.CallCommon, args []V, in ssa.Instruction, isDefer bool, k kont) {
	at := x.pos(in)
	one := func(v V) { k(st, []V{v}, nil) }
	switch name {
	case "len":
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Map:
			m := args[0].(*T)
			x.checkMapGuard(st, m, false, at)
			if m == Zero {
				one(Zero)
				return
			}
			if Eq(m, Zero) == False {
				one(x.mapLenFacts(st, u, m))
				return
			}
			one(Ite(Eq(m, Zero), Zero, x.mapLenFacts(st, u, m)))
		case *types.Slice:
			s := args[0].(*Slc)
			if isByteSlice(c.Args[0].Type()) {
				one(SLen(x.bytesOf(st, s.ref)))
				return
			}
			one(s.len)
		case *types.Basic:
			one(SLen(args[0].(*T)))
		case *types.Chan:
			ch := args[0].(*T)
			if x.chanClass(st, ch) == "exact" {
				one(x.getCh(st, "len", ch, SInt))
				return
			}
			l := Fresh("chlen", SInt)
			x.assume(st, Le(Zero, l))
			one(l)
		default:
			one(x.freshV(st, types.Typ[types.Int], "len"))
		}
		return
	case "cap":
		if s, ok := args[0].(*Slc); ok {
			cp := Fn("slicecap", SInt, s.ref, s.off)
			x.assume(st, Le(s.len, cp))
			one(cp)
			return
		}
		if ch, ok := args[0].(*T); ok {
			one(x.getCh(st, "cap", ch, SInt))
			return
		}
	case "append":
		st0 := c.Args[0].Type()
		if isByteSlice(st0) {
			s := args[0].(*Slc)
			var tail *T
			switch t := args[1].(type) {
			case *Slc:
				tail = x.bytesOf(st, t.ref)
			case *T:
				tail = t
			}
			one(x.newBytes(st, Cat(x.bytesOf(st, s.ref), tail)))
			return
		}
		one(x.appendSlice(st, st0.Underlying().(*types.Slice).Elem(), args[0].(*Slc), args[1].(*Slc)))
		return
	case "copy":
		d := args[0].(*Slc)
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		if isByteSlice(c.Args[0].Type()) {
			x.setBytes(st, d.ref, Fresh("copied", SStr))
			n := Fresh("n", SInt)
			x.assume(st, Le(Zero, n))
			one(n)
			return
		}
		s, ok := args[1].(*Slc)
		if ok {
			n := Ite(Le(d.len, s.len), d.len, s.len)
			for _, cc := range flat(et) {
				hk := "[]" + typeKey(et) + cc.path
				arr := x.hget(st, hk, x.heapSort(hk, cc, true))
				src, dst := Select(arr, s.ref), Select(arr, d.ref)
				nw := Fresh("copied", arrSort(SInt, cc.sort))
				i := Bound("i", SInt)
				in := And(Le(d.off, i), Lt(i, Add(d.off, n)))
				x.assume(st, Forall([]*T{i}, Eq(Select(nw, i), Ite(in, Select(src, Add(s.off, Sub(i, d.off))), Select(dst, i))), []*T{app("select", cc.sort, nw, i)}))
				x.hset(st, hk, d.ref, Store(arr, d.ref, nw))
			}
			one(n)
			return
		}
	case "delete":
		m := args[0].(*T)
		mt := c.Args[0].Type().Underlying().(*types.Map)
		x.checkMapGuard(st, m, true, at)
		x.branch(st, Eq(m, Zero), "", func(st *State) { k(st, nil, nil) }, func(st *State) {
			x.mapLenFacts(st, mt, m)
			x.mapDelete(st, mt, m, args[1])
			k(st, nil, nil)
		})
		return
	case "close":
		ch := args[0].(*T)
		x.chanGuard(st, ch, "close of", at)
		x.atChan(st, "at", "chan.close", c.Args[0].Type(), ch, nil, at)
		x.branch(st, x.getCh(st, "closed", ch, SBool), "", func(st *State) {
			x.trace(st, "close of closed channel "+at)
			k(st, nil, x.rtErr("close of closed channel"))
		}, func(st *State) {
			x.setCh(st, "closed", ch, True)
			k(st, nil, nil)
		})
		return
	case "recover":
		fr := st.fr
		if fr.isDefer && fr.parent != nil && fr.parent.panicking != nil {
			v := fr.parent.panicking
			fr.parent.panicking = nil
			fr.parent.recovered = true
			x.trace(st, "recover "+at)
			one(v)
			return
		}
		one(VNil)
		return
	case "print", "println":
		k(st, nil, nil)
		return
	case "min", "max":
		if len(args) == 2 {
			a, b := args[0].(*T), args[1].(*T)
			if a.sort == SInt {
				if name == "min" {
					one(Ite(Le(a, b), a, b))
				} else {
					one(Ite(Le(a, b), b, a))
				}
				return
			}
		}
	case "clear":
		if mt, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			m := args[0].(*T)
			x.mapSetComps(st, mt, m, ConstArr(arrSort(keySort(mt), SBool), False), Zero, nil)
			k(st, nil, nil)
			return
		}
	case "ssa:wrapnilchk":
		one(args[0])
		return
	}
	x.unsupported(st, "builtin "+name+" at "+at)
	x.returnFresh(st, c.Signature(), k)
}

func (x *Exec) appendSlice(st *State, et types.Type, s, t *Slc) *Slc {
	x.assumed["append always yields a fresh backing array (slices sharing spare capacity are not modelled)"] = true
	if t.len == Zero {
		return s
	}
	r := x.newRef(st)
	for _, cc := range flat(et) {
		hk := "[]" + typeKey(et) + cc.path
		arr := x.hget(st, hk, x.heapSort(hk, cc, true))
		var content *T
		src := Select(arr, s.ref)
		lit := t.len.k == KInt && t.len.n <= 16
		if lit && (s.off == Zero || s.len == Zero) {
			content = src
			for j := int64(0); j < t.len.n; j++ {
				content = Store(content, Add(s.len, Int(j)), Select(Select(arr, t.ref), Add(t.off, Int(j))))
			}
		} else {
			content = Fresh("appended", arrSort(SInt, cc.sort))
			i := Bound("i", SInt)
			x.assume(st, Forall([]*T{i}, Imp(And(Le(Zero, i), Lt(i, s.len)), Eq(Select(content, i), Select(src, Add(s.off, i)))), []*T{app("select", cc.sort, content, i)}))
			x.assume(st, Forall([]*T{i}, Imp(And(Le(s.len, i), Lt(i, Add(s.len, t.len))), Eq(Select(content, i), Select(Select(arr, t.ref), Add(t.off, Sub(i, s.len))))), []*T{app("select", cc.sort, content, i)}))
		}
		x.hset(st, hk, r, Store(arr, r, content))
	}
	n := Add(s.len, t.len)
	if t.len.k == KInt {
		return &Slc{r, Zero, n}
	}
	z := Eq(t.len, Zero)
	return &Slc{Ite(z, s.ref, r), Ite(z, s.off, Zero), n}
}

// variadic []any argument -> the boxed values, when its length is known
func (x *Exec) anyArgs(st *State, s *Slc) ([]*T, bool) {
	if s.len.k != KInt || s.len.n > 64 {
		return nil, false
	}
	arr := x.hget(st, "[]any", arrSort(SInt, arrSort(SInt, SVal)))
	var out []*T
	for i := int64(0); i < s.len.n; i++ {
		out = append(out, Select(Select(arr, s.ref), Add(s.off, Int(i))))
	}
	return out, true
}

func (x *Exec) fmtVal(st *State, verb byte, flags string, v *T) *T {
	if flags == "" {
		switch valCtor(v) {
		case "VS":
			if verb == 's' || verb == 'v' {
				if v.args[0].k == KInt {
					if dt := tagTypes[v.args[0].n]; dt != nil && !hasMethod(dt, "String") && !hasMethod(dt, "Error") {
						return v.args[1]
					}
				}
			}
		case "VI":
			if verb == 'd' || verb == 'v' {
				if v.args[0].k == KInt {
					if dt := tagTypes[v.args[0].n]; dt != nil {
						if b, ok := dt.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && !hasMethod(dt, "String") {
							return Fn("itoa", SStr, v.args[1])
						}
					}
				}
			}
		}
	}
	return Fn("fmt:"+flags+string(verb), SStr, v)
}

func hasMethod(t types.Type, name string) bool {
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, name)
	_, ok := o.(*types.Func)
	return ok
}

func (x *Exec) sprintf(st *State, f *T, vals []*T) (*T, *T) {
	if f.k != KStr {
		return nil, nil
	}
	var parts []*T
	var wrapped *T
	s := f.op
	ai := 0
	i := 0
	for i < len(s) {
		j := strings.IndexByte(s[i:], '%')
		if j < 0 {
			parts = append(parts, StrLit(s[i:]))
			break
		}
		if j > 0 {
			parts = append(parts, StrLit(s[i:i+j]))
		}
		i += j + 1
		e := i
		for e < len(s) && strings.IndexByte("+-# 0123456789.", s[e]) >= 0 {
			e++
		}
		if e >= len(s) {
			return nil, nil
		}
		verb := s[e]
		flags := s[i:e]
		i = e + 1
		if verb == '%' {
			parts = append(parts, StrLit("%"))
			continue
		}
		if ai >= len(vals) {
			return nil, nil
		}
		if verb == 'w' {
			wrapped = vals[ai]
			verb = 'v'
		}
		parts = append(parts, x.fmtVal(st, verb, flags, vals[ai]))
		ai++
	}
	return Cat(parts...), wrapped
}

func (x *Exec) newErr(st *State, typ string, msg, wrapped *T) *T {
	r := x.newRef(st)
	v := VI(Int(tagNamed(typ)), r)
	if msg != nil {
		x.assume(st, Eq(Fn("errmsg", SStr, v), msg))
	}
	if wrapped == nil {
		wrapped = VNil
	}
	x.assume(st, Eq(Fn("errwrap", SVal, v), wrapped))
	return v
}

func ptrArg(f *ssa.Function, i int) types.Type {
	var t types.Type
	if r := f.Signature.Recv(); r != nil {
		if i == 0 {
			t = r.Type()
		} else {
			t = f.Signature.Params().At(i - 1).Type()
		}
	} else {
		t = f.Signature.Params().At(i).Type()
	}
	return t.Underlying().(*types.Pointer).Elem()
}

func (x *Exec) jsonEnc(st *State, v V, t types.Type) *T {
	if t == nil {
		return Fn("jenc", SStr, v.(*T))
	}
	switch u := t.Underlying().(type) {
	case *types.Map:
		m := v.(*T)
		args := []*T{Eq(m, Zero), Ite(Eq(m, Zero), ConstArr(arrSort(keySort(u), SBool), False), x.mapDom(st, u, m))}
		args = append(args, x.mapVals(st, u, m)...)
		return Fn("jenc:"+typeKey(t), SStr, args...)
	case *types.Pointer:
		if isStruct(u.Elem()) {
			a := x.toAddr(v, u.Elem())
			return Fn("jenc:"+typeKey(u.Elem()), SStr, x.loadComps(st, a)...)
		}
	case *types.Interface:
		w := v.(*T)
		if c := valCtor(w); c != "" && c != "VNil" && w.args[0].k == KInt {
			if dt := tagTypes[w.args[0].n]; dt != nil {
				return x.jsonEnc(st, x.unbox(st, w, dt), dt)
			}
		}
		return Fn("jenc", SStr, w)
	}
	s := Fn("jenc:"+typeKey(t), SStr, x.flatten(v, t)...)
	if isStruct(t) {
		jencTypes[s.op] = t
	}
	return s
}

var jencTypes = map[string]types.Type{}

// jsonStructFacts: a struct of exported basic fields with distinct names encodes to text that
// decodes to the same fields (text fields hold valid UTF-8).
func (x *Exec) jsonStructFacts(st *State, s *T) {
	t := jencTypes[s.op]
	if t == nil {
		return
	}
	u := t.Underlying().(*types.Struct)
	names := map[string]bool{}
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		n := f.Name()
		if tag := reflect.StructTag(u.Tag(i)).Get("json"); tag != "" {
			if j := strings.Index(tag, ","); j >= 0 {
				if tag[j+1:] != "omitempty" {
					return
				}
				tag = tag[:j]
			}
			if tag != "" {
				n = tag
			}
		}
		b, ok := f.Type().Underlying().(*types.Basic)
		n = strings.ToLower(n)
		if !ok || b.Info()&(types.IsString|types.IsInteger|types.IsBoolean) == 0 || !f.Exported() || f.Embedded() || n == "-" || names[n] {
			return
		}
		names[n] = true
	}
	x.assumeFact(st, Fn("jok:"+typeKey(t), SBool, s))
	x.assumeFact(st, Fn("jmok", SBool, s))
	x.assumeFact(st, Ne(s, StrLit("")))
	for i, cc := range flat(t) {
		x.assumeFact(st, Eq(Fn("jdec:"+typeKey(t)+":"+cc.path, cc.sort, s), s.args[i]))
	}
	x.assumed["encoding/json: a struct of text, number and boolean fields with distinct names encodes to text that decodes to the same values; texts are valid UTF-8"] = true
}

// jsonMapFacts relates the encoding of a map[string]any to what it decodes to:
// the same keys, each value in its decoded form (jnorm); encoding succeeds
// exactly when every value can be encoded (jvalok). Keys are taken to be valid text.
func (x *Exec) jsonMapFacts(st *State, s *T) {
	if s.k != KApp || s.op != "uf:"+cleanName("jenc:map[string]any") || len(s.args) != 3 {
		return
	}
	isnil, dom, vals := s.args[0], s.args[1], s.args[2]
	b := Bound("k", SStr)
	jv := Fn("jvals", arrSort(SStr, SVal), s)
	ok := Fn("jmok", SBool, s)
	sk := Fn("jbadkey", SStr, s)
	x.assumeFact(st, Fn("jok:map[string]any", SBool, s))
	x.assumeFact(st, Eq(Fn("jnull", SBool, s), isnil))
	x.assumeFact(st, Eq(Fn("jdom", arrSort(SStr, SBool), s), dom))
	x.assumeFact(st, Forall([]*T{b}, Imp(Select(dom, b), Eq(Select(jv, b), Fn("jnorm", SVal, Select(vals, b)))), []*T{app("select", SVal, jv, b)}))
	x.assumeFact(st, Forall([]*T{b}, Imp(And(ok, Select(dom, b)), Fn("jvalok", SBool, Select(vals, b))), []*T{app("select", SBool, dom, b)}))
	x.assumeFact(st, Imp(Not(ok), And(Select(dom, sk), Not(Fn("jvalok", SBool, Select(vals, sk))))))
	x.assumeFact(st, Ne(s, StrLit("")))
	x.assumed["encoding/json: a map[string]any encodes to text that decodes to the same keys with their values in decoded form, and encodes exactly when all values can be encoded; keys are valid text"] = true
}

// jsonDecFacts: what a successful decode yields is already in decoded form.
func (x *Exec) jsonDecFacts(st *State, s *T) {
	b := Bound("k", SStr)
	jv := Fn("jvals", arrSort(SStr, SVal), s)
	jd := Fn("jdom", arrSort(SStr, SBool), s)
	e := Select(jv, b)
	x.assume(st, Forall([]*T{b}, Imp(Select(jd, b), And(Eq(Fn("jnorm", SVal, e), e), Fn("jvalok", SBool, e))), []*T{app("select", SVal, jv, b)}))
}

// jsonDecInto models json.Unmarshal(s, p)
func (x *Exec) jsonDecInto(st *State, s *T, pv *T, at string, k kont) {
	var dt types.Type
	if valCtor(pv) == "VI" && pv.args[0].k == KInt {
		dt = tagTypes[pv.args[0].n]
	}
	pt, ok := (*types.Pointer)(nil), false
	if dt != nil {
		pt, ok = dt.Underlying().(*types.Pointer)
	}
	if !ok {
		x.unsupported(st, "json.Unmarshal into unknown target at "+at)
		x.havocAll(st)
		e := x.freshV(st, types.Universe.Lookup("error").Type(), "jerr").(*T)
		k(st, []V{e}, nil)
		return
	}
	et := pt.Elem()
	a := x.toAddr(x.unbox(st, pv, dt), et)
	okc := Fn("jok:"+typeKey(et), SBool, s)
	x.branch(st, okc, "", func(st *State) {
		switch u := et.Underlying().(type) {
		case *types.Map:
			cur := x.load(st, a).(*T)
			jd := Fn("jdom", arrSort(keySort(u), SBool), s)
			if typeKey(et) == "map[string]any" {
				x.jsonDecFacts(st, s)
			}
			x.branch(st, Fn("jnull", SBool, s), "", func(st *State) {
				x.store(st, a, Zero)
				k(st, []V{VNil}, nil)
			}, func(st *State) {
				x.branch(st, Eq(cur, Zero), "", func(st *State) {
					m := x.newMap(st, u)
					var vals []*T
					for _, cc := range flat(u.Elem()) {
						vals = append(vals, Fn("jvals"+cc.path, arrSort(keySort(u), cc.sort), s))
					}
					ln := Fn("jlen", SInt, s)
					x.assume(st, Le(Zero, ln))
					x.mapSetComps(st, u, m, jd, ln, vals)
					x.store(st, a, m)
					k(st, []V{VNil}, nil)
				}, func(st *State) {
					od, ov := x.mapDom(st, u, cur), x.mapVals(st, u, cur)
					nd := Fresh("jmerged", arrSort(keySort(u), SBool))
					b := Bound("k", keySort(u))
					if isEmptyArr(od) {
						nd = jd
					} else {
						x.assume(st, Forall([]*T{b}, Eq(Select(nd, b), Or(Select(od, b), Select(jd, b))), []*T{app("select", SBool, nd, b)}))
					}
					var vals []*T
					for i, cc := range flat(u.Elem()) {
						jv := Fn("jvals"+cc.path, arrSort(keySort(u), cc.sort), s)
						if isEmptyArr(od) {
							vals = append(vals, jv)
							continue
						}
						nv := Fresh("jmergedv", arrSort(keySort(u), cc.sort))
						x.assume(st, Forall([]*T{b}, Eq(Select(nv, b), Ite(Select(jd, b), Select(jv, b), Select(ov[i], b))), []*T{app("select", cc.sort, nv, b)}))
						vals = append(vals, nv)
					}
					ln := Fresh("jlen", SInt)
					x.assume(st, Le(Zero, ln))
					x.mapSetComps(st, u, cur, nd, ln, vals)
					k(st, []V{VNil}, nil)
				})
			})
		default:
			cs := x.loadComps(st, a)
			var out []*T
			for i, cc := range flat(et) {
				if cs[i] == zeroComp(cc) {
					out = append(out, Fn("jdec:"+typeKey(et)+":"+cc.path, cc.sort, s))
				} else {
					out = append(out, Fresh("jdec", cc.sort))
				}
			}
			v := unflat(x, et, out)
			x.wf(st, et, out)
			x.store(st, a, v)
			k(st, []V{VNil}, nil)
		}
	}, func(st *State) {
		if _, ok := et.Underlying().(*types.Map); ok {
			// a failed decode may have filled or replaced the map
			if m := x.load(st, a).(*T); m != Zero {
				x.havocMap(st, et.Underlying().(*types.Map), m)
			} else {
				x.store(st, a, x.freshV(st, et, "jbad"))
			}
		} else {
			x.havocAddr(st, a)
		}
		k(st, []V{x.newErr(st, "json.Error", nil, nil)}, nil)
	})
}

func isEmptyArr(t *T) bool { return t.k == KConstArr && t.args[0] == False }

func init() {
	x := (*Exec)(nil)
	intrinsics = map[string]intrinsic{}
	for _, m := range []string{"sync.Mutex", "sync.RWMutex"} {
		intrinsics[m+".Lock"] = x.lockOp("lock")
		intrinsics[m+".Unlock"] = x.lockOp("unlock")
		intrinsics[m+".TryLock"] = x.lockOp("trylock")
		intrinsics[m+".RLock"] = x.lockOp("rlock")
		intrinsics[m+".RUnlock"] = x.lockOp("runlock")
	}
	cell := func(x *Exec, f *ssa.Function, v V) *Addr { return x.toAddr(v, recvElem(f)) }
	intrinsics["sync.WaitGroup.Add"] = func(x *Exec, st *State, f *ssa.Function, args []V, at string, k kont) {
		a := cell(x, f, args[0])
		x.deref(st, a, at, func(st *State) {
			x.atomicPre(st, a)
			n := Add(x.load(st, a).(*T), args[1].(*T))
			x.branch(st, Lt(n, Zero), "", func(st *State) {
				x.trace(st, "negative WaitGroup counter "+at)
				k(st, nil, x.rtErr("negative WaitGroup counter"))
			}, func(st *State) {
				x.atomicSet(st, a, n)
				st.acq[a.key] = st.snap()
				k(st, nil, nil)
			})
		})
	}
	intrinsics["sync.WaitGroup.Done"] = func(x *Exec, st *State, f *ssa.Function, args []V, at string, k kont) {
		intrinsics["sync.WaitGroup.Add"](x, st, f, []V{args[0], Int(-1)}, at, k)
	}
	intrinsics["sync.WaitGroup.Wait"] = func(x *Exec, st *State, f *ssa.Function, args []V, at string, k kont) {
		a := cell(x, f, args[0])
		x.deref(st, a, at, func(st *State) {
			x.store(st, a, Zero)
			k(st, nil, nil)
		})
	}
	intrinsics["sync.Once.Do"] = func(x *Exec, st *State, f *ssa.Function, args []V, at string, k kont) {
		a := cell(x, f, args[0])
		x.deref(st, a, at, func(st *State) {
			v := x.load(st, a).(*T)
			x.branch(st, Eq(v, Zero), "", func(st *State) {
				x.store(st, a, One)
				switch g := args[1].(type) {
				case *Clo:
					x.callFn(st, g.fn, g.binds, nil, at, false, k)
				default:
					x.unsupported(st, "sync.Once.Do of unknown function")
					x.havocAll(st)
					k(st, nil, nil)
				}
			}, func(st *State) { k(st, nil, nil) })
		})
	}
	// atomics: sequentially consistent accesses to one location
	ld := func(x *Exec, st *State, f *ssa.Function, args []V, at string, k kont) {
		a := x.toAddr(args[0], ptrArg(f, 0))
		x.deref(st, a, at, func(st *State) { x.atomicPre(st, a); k(st, []V{x.load(st, a)}, nil) })
	}
	stf := func(x *Exec, st *State, f *ssa.Function, args []V, at string, k kont) {
		a := x.toAddr(args[0], ptrArg(f, 0))
		x.deref(st, a, at, func(st *State) { x.atomicPre(st, a); x.atomicSet(st, a, args[1]); k(st, nil, nil) })
	}
	swap := func(x *Exec, st *State, f *ssa.Function, args []V, at string, k kont) {
		a := x.toAddr(args[0], ptrArg(f, 0))
		x.deref(st, a, at, func(st *State) {
			x.atomicPre(st, a)
			o := x.load(st, a)
			x.atomicSet(st, a, args[1])
			k(st, []V{o}, nil)
		})
	}
	add := func(x *Exec, st *State, f *ssa.Function, args []V, at string, k kont) {
		a := x.toAddr(args[0], ptrArg(f, 0))
		x.deref(st, a, at, func(st *State) {
			x.atomicPre(st, a)
			n := Add(x.load(st, a).(*T), args[1].(*T))
			x.atomicSet(st, a, n)
			k(st, []V{n}, nil)
		})
	}
	cas := func(x *Exec, st *State, f *ssa.Function, args []V, at string, k kont) {
		a := x.toAddr(args[0], ptrArg(f, 0))
		x.deref(st, a, at, func(st *State) {
			x.atomicPre(st, a)
			o := x.load(st, a).(*T)
			x.branch(st, Eq(o, args[1].(*T)), "", func(st *State) {
				x.atomicSet(st, a, args[2])
				k(st, []V{True}, nil)
			}, func(st *State) { k(st, []V{False}, nil) })
		})
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		intrinsics["sync/atomic.Load"+t] = ld
		intrinsics["sync/atomic.Store"+t] = stf
		intrinsics["sync/atomic.Swap"+t] = swap
		intrinsics["sync/atomic.CompareAndSwap"+t] = cas
		intrinsics["sync/atomic.Add"+t] = add
	}
	b2i := func(v V) V {
		if t, ok := v.(*T); ok && t.sort == SBool {
			return Ite(t, One, Zero)
		}
		return v
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Bool"} {
		t := t
		out := func(x *Exec, v V) V {
			if t == "Bool" {
				return Not(Eq(v.(*T), Zero))
			}
			return v
		}
		p := "sync/atomic." + t + "."
		intrinsics[p+"Load"] = func(x *Exec, st *State, f *ssa.Function, args []V, at string, k kont) {
			ld(x, st, f, args, at, func(st *State, r []V, pan *T) {
				if pan == nil {
					r = []V{out(x, r[0])}
				}
				k(st, r, pan)
			})
		}
		intrinsics[p+"Store"] = func(x *Exec, st *State, f *ssa.Function, args []V, at string, k kont) {
			stf(x, st, f, []V{args[0], b2i(args[1])}, at, k)
		}
		intrinsics[p+"Swap"] = func(x *Exec, st *State, f *ssa.Function, args []V, at string, k kont) {
			swap(x, st, f, []V{args[0], b2i(args[1])}, at, func(st *State, r []V, pan *T) {
				if pan == nil {
					r = []V{out(x, r[0])}
				}
				k(st, r, pan)
			})
		}
		intrinsics[p+"Add"] = add
		intrinsics[p+"CompareAndSwap"] = func(x *Exec, st *State, f *ssa.Function, args []V, at string, k kont) {
			cas(x, st, f, []V{args[0], b2i(args[1]), b2i(args[2])}, at, k)
		}
	}
	intrinsics["fmt.Sprintf"] = func(x *Exec, st *State, f *ssa.Function, args []V, at string, k kont) {
		if vs, ok := x.anyArgs(st, args[1].(*Slc)); ok {
			if r, _ := x.sprintf(st, args[0].(*T), vs); r != nil {
				k(st, []V{r}, nil)
				return
			}
		}
		k(st, []V{Fresh("sprintf", SStr)}, nil)
	}
	intrinsics["strconv.Itoa"] = func(x *Exec, st *State, f *ssa.Function, args []V, at string, k kont) {
		k(st, []V{Fn("itoa", SStr, args[0].(*T))}, nil)
	}
	intrinsics["fmt.Sprint"] = func(x *Exec, st *State, f *ssa.Function, args []V, at string, k kont) {
		if vs, ok := x.anyArgs(st, args[0].(*Slc)); ok && len(vs) == 1 {
			k(st, []V{x.fmtVal(st, 'v', "", vs[0])}, nil)
			return
		}
		k(st, []V{Fresh("sprint", SStr)}, nil)
	}
	intrinsics["fmt.Errorf"] = func(x *Exec, st *State, f *ssa.Function, args []V, at string, k kont) {
		vs, ok := x.anyArgs(st, args[1].(*Slc))
		var m, w *T
		if ok {
			m, w = x.sprintf(st, args[0].(*T), vs)
		}
		k(st, []V{x.newErr(st, "fmt.wrapError", m, w)}, nil)
	}
	intrinsics["errors.New"] = func(x *Exec, st *State, f *ssa.Function, args []V, at string, k kont) {
		k(st, []V{x.newErr(st, "errors.errorString", args[0].(*T), nil)}, nil)
	}
	none := func(x *Exec, st *State, f *ssa.Function, args []V, at string, k kont) {
		x.returnFresh(st, f.Signature, k)
	}
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print"} {
		intrinsics[n] = none
	}
	intrinsics["encoding/json.Marshal"] = func(x *Exec, st *State, f *ssa.Function, args []V, at string, k kont) {
		s := x.jsonEnc(st, args[0], types.NewInterfaceType(nil, nil))
		x.jsonMapFacts(st, s)
		x.jsonStructFacts(st, s)
		x.branch(st, Fn("jmok", SBool, s), "", func(st *State) {
			x.assume(st, Ne(s, StrLit("")))
			k(st, []V{x.newBytes(st, s), VNil}, nil)
		}, func(st *State) {
			k(st, []V{&Slc{Zero, Zero, Zero}, x.newErr(st, "json.Error", nil, nil)}, nil)
		})
	}
	intrinsics["encoding/json.Unmarshal"] = func(x *Exec, st *State, f *ssa.Function, args []V, at string, k kont) {
		x.jsonDecInto(st, x.bytesOf(st, args[0].(*Slc).ref), args[1].(*T), at, k)
	}
}

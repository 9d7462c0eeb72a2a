package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	fn        *ssa.Function
	env       map[ssa.Value]V
	parent    *Frame
	defers    []deferred
	panicking *T // non-nil while unwinding
	recovered bool
	isDefer   bool
	k         func(st *State, res []V, pan *T)
	loops     []*loopCtx
	depth     int
}

type deferred struct {
	call *ssa.CallCommon
	fnv  V
	args []V
	in   ssa.Instruction
}

type spawn struct {
	fnv  V
	args []V
	call *ssa.CallCommon
	at   string
	tg   map[string]*T // the goroutine's own ghosts, as they start
}

type WLog struct {
	keys map[string]map[*T]bool // heap key -> written refs ; nil ref = everything
	gh   map[string]bool
}

func (w *WLog) add(key string, ref *T) bool {
	m := w.keys[key]
	if m == nil {
		m = map[*T]bool{}
		w.keys[key] = m
	}
	if m[nil] || m[ref] {
		return false
	}
	m[ref] = true
	return true
}

type State struct {
	heap   map[string]*T
	ghost  map[string]*T
	epoch  int
	alloc  *T
	pc     []*T
	fr     *Frame
	locks  map[*T]int // lock term -> 1 read, 2 write (count in high bits)
	lockName map[*T]string
	spawned []spawn
	privCh []*T // channels no other code can reach
	trial  bool
	wlogs  []*WLog
	path   []string
	unsup  []string
	chOrig map[*T]string
	guard  map[*T]guardRef
	acq    map[string]*State // lock label -> snapshot at last acquisition
	rel    map[string]*State
	notes  map[string]bool
	lazyHavoc []string
	peels  map[*ssa.BasicBlock]int
	thread bool // running a goroutine the function started
}

type guardRef struct {
	mon  *Monitor
	own  *T
}

func (f *Frame) clone() *Frame {
	if f == nil {
		return nil
	}
	g := *f
	g.env = make(map[ssa.Value]V, len(f.env)+4)
	for k, v := range f.env {
		g.env[k] = v
	}
	g.defers = append([]deferred(nil), f.defers...)
	g.loops = append([]*loopCtx(nil), f.loops...)
	g.parent = f.parent.clone()
	return &g
}

func cm[K comparable, W any](m map[K]W) map[K]W {
	n := make(map[K]W, len(m)+2)
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (s *State) clone() *State {
	n := *s
	n.heap = cm(s.heap)
	n.ghost = cm(s.ghost)
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.fr = s.fr.clone()
	n.locks = cm(s.locks)
	n.privCh = s.privCh[:len(s.privCh):len(s.privCh)]
	n.spawned = s.spawned[:len(s.spawned):len(s.spawned)]
	n.wlogs = s.wlogs[:len(s.wlogs):len(s.wlogs)]
	n.path = s.path[:len(s.path):len(s.path)]
	n.unsup = s.unsup[:len(s.unsup):len(s.unsup)]
	n.chOrig = cm(s.chOrig)
	n.guard = cm(s.guard)
	n.acq = cm(s.acq)
	n.rel = cm(s.rel)
	return &n
}

// snapshot: heap view only (for old() evaluation)
func (s *State) snap() *State {
	n := *s
	n.heap = cm(s.heap)
	n.ghost = cm(s.ghost)
	n.locks = cm(s.locks)
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.fr = nil
	return &n
}

func (x *Exec) assume(st *State, t *T) {
	if t == True {
		return
	}
	if t.k == KApp && t.op == "and" {
		for _, a := range t.args {
			x.assume(st, a)
		}
		return
	}
	for i := len(st.pc) - 1; i >= 0 && i >= len(st.pc)-60; i-- {
		if st.pc[i] == t {
			return
		}
	}
	st.pc = append(st.pc, t)
}

// global fact, true in every state
func (x *Exec) assumeFact(st *State, t *T) {
	if t == True || x.factSeen[t] {
		return
	}
	if t.open {
		return
	}
	x.factSeen[t] = true
	x.facts = append(x.facts, t)
}

// ---------- heap ----------

func (x *Exec) heapSort(key string, c Comp, idx bool) string {
	if idx {
		return arrSort(SInt, arrSort(SInt, c.sort))
	}
	return arrSort(SInt, c.sort)
}

var keySorts = map[string]string{}

func (x *Exec) hget(st *State, key, sort string) *T {
	keySorts[key] = sort
	if t, ok := st.heap[key]; ok {
		if t.sort != sort {
			panic(fmt.Sprintf("heap key %s sort %s want %s", key, t.sort, sort))
		}
		return t
	}
	ep := st.epoch
	if x.isStable(key) {
		ep = 0
	}
	nm := fmt.Sprintf("H%d:%s", ep, key)
	for i, lk := range st.lazyHavoc {
		if key == lk || strings.HasPrefix(key, lk+".") {
			nm = fmt.Sprintf("HL%d_%d:%s", ep, i+1, key)
		}
	}
	t := Const(nm, sort)
	st.heap[key] = t
	return t
}

func (x *Exec) wlog(st *State, key string, ref *T) {
	for _, w := range st.wlogs {
		w.add(key, ref)
	}
}

func (x *Exec) hset(st *State, key string, ref *T, t *T) {
	x.wlog(st, key, ref)
	keySorts[key] = t.sort
	st.heap[key] = t
}

func (x *Exec) loadComps(st *State, a *Addr) []*T {
	var cs []*T
	for _, c := range flat(a.t) {
		k := a.key + c.path
		arr := x.hget(st, k, x.heapSort(k, c, a.idx != nil))
		r := Select(arr, a.ref)
		if a.idx != nil {
			r = Select(r, a.idx)
		}
		cs = append(cs, r)
		if !r.open {
			x.markOld(st, c, arr, a.ref, r)
			x.wfComp(st, c, r)
		}
	}
	return cs
}

// a pointer read from the initial heap at a pre-existing object is itself pre-existing
func (x *Exec) markOld(st *State, c Comp, arr, ref, r *T) {
	if c.sort != SInt || r.k != KApp || r.op != "select" {
		return
	}
	switch c.t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Slice:
	default:
		return
	}
	if strings.HasSuffix(c.path, ".len") || strings.HasSuffix(c.path, ".off") {
		return
	}
	base := r
	for base.k == KApp && base.op == "select" {
		base = base.args[0]
	}
	if base.k == KConst && strings.HasPrefix(base.op, "H0:") && refClass(ref) == clOld {
		oldRefs[r.id] = true
	}
}

func (x *Exec) load(st *State, a *Addr) V {
	v := unflat(x, a.t, x.loadComps(st, a))
	x.provenance(st, a, v)
	return v
}

func (x *Exec) store(st *State, a *Addr, v V) {
	v = x.normV(st, v, a.t)
	cs := x.flatten(v, a.t)
	for i, c := range flat(a.t) {
		x.storeComp(st, a, c, cs[i])
	}
}
func (x *Exec) storeComp(st *State, a *Addr, c Comp, v *T) {
	k := a.key + c.path
	arr := x.hget(st, k, x.heapSort(k, c, a.idx != nil))
	if a.idx != nil {
		x.hset(st, k, a.ref, Store(arr, a.ref, Store(Select(arr, a.ref), a.idx, v)))
	} else {
		x.hset(st, k, a.ref, Store(arr, a.ref, v))
	}
}

// provenance: remember where channels and guarded maps came from
func (x *Exec) provenance(st *State, a *Addr, v V) {
	t, ok := v.(*T)
	if !ok {
		return
	}
	switch a.t.Underlying().(type) {
	case *types.Chan:
		if _, ok := st.chOrig[t]; !ok {
			st.chOrig[t] = a.key
		}
	case *types.Map, *types.Slice:
		if m := x.spec.guards[a.key]; m != nil {
			st.guard[t] = guardRef{m, a.ref}
		}
	}
}

func (x *Exec) newRef(st *State) *T {
	st.alloc = Add(st.alloc, One)
	x.wlog(st, "$alloc", nil)
	return st.alloc
}

func (x *Exec) newObj(st *State, t types.Type) *T {
	r := x.newRef(st)
	a := &Addr{key: rootKey(t), ref: r, t: t}
	if at, ok := t.Underlying().(*types.Array); ok {
		for _, c := range flat(at.Elem()) {
			k := rootKey(t) + c.path
			arr := x.hget(st, k, x.heapSort(k, c, true))
			x.hset(st, k, r, Store(arr, r, ConstArr(arrSort(SInt, c.sort), zeroComp(c))))
		}
		return r
	}
	x.store(st, a, x.zero(t))
	return r
}

// ---------- maps ----------

func mapKey(m *types.Map) string { return "map[" + typeKey(m.Key()) + "]" + typeKey(m.Elem()) }
func keySort(m *types.Map) string {
	fc := flat(m.Key())
	if len(fc) != 1 {
		return SInt
	}
	return fc[0].sort
}
func (x *Exec) mapKeyTerm(st *State, m *types.Map, k V) *T {
	fc := flat(m.Key())
	cs := x.flatten(k, m.Key())
	if len(fc) == 1 {
		return cs[0]
	}
	return Fn("mkey:"+typeKey(m.Key()), SInt, cs...)
}

func (x *Exec) mapDom(st *State, m *types.Map, ref *T) *T {
	k := mapKey(m) + ".dom"
	return Select(x.hget(st, k, arrSort(SInt, arrSort(keySort(m), SBool))), ref)
}
func (x *Exec) mapLen(st *State, m *types.Map, ref *T) *T {
	l := Select(x.hget(st, mapKey(m)+".len", arrSort(SInt, SInt)), ref)
	return l
}
func (x *Exec) mapVals(st *State, m *types.Map, ref *T) []*T {
	var out []*T
	for _, c := range flat(m.Elem()) {
		k := mapKey(m) + ".val" + c.path
		out = append(out, Select(x.hget(st, k, arrSort(SInt, arrSort(keySort(m), c.sort))), ref))
	}
	return out
}

// facts about the length of a map in the current state
func (x *Exec) mapLenFacts(st *State, m *types.Map, ref *T) *T {
	l := x.mapLen(st, m, ref)
	if l.open {
		return l
	}
	dom := x.mapDom(st, m, ref)
	x.assume(st, Le(Zero, l))
	if l.k == KInt {
		return l
	}
	kb := Bound("k", keySort(m))
	w := Fn("mapwit:"+keySort(m), keySort(m), dom)
	x.assume(st, Imp(Eq(l, Zero), Forall([]*T{kb}, Not(Select(dom, kb)), []*T{app("select", SBool, dom, kb)})))
	x.assume(st, Imp(Lt(Zero, l), Select(dom, w)))
	return l
}

func (x *Exec) mapSetComps(st *State, m *types.Map, ref *T, dom, ln *T, vals []*T) {
	mkk := mapKey(m)
	ks := keySort(m)
	if dom != nil {
		a := x.hget(st, mkk+".dom", arrSort(SInt, arrSort(ks, SBool)))
		x.hset(st, mkk+".dom", ref, Store(a, ref, dom))
	}
	if ln != nil {
		a := x.hget(st, mkk+".len", arrSort(SInt, SInt))
		x.hset(st, mkk+".len", ref, Store(a, ref, ln))
	}
	for i, c := range flat(m.Elem()) {
		if vals == nil {
			break
		}
		k := mkk + ".val" + c.path
		a := x.hget(st, k, arrSort(SInt, arrSort(ks, c.sort)))
		x.hset(st, k, ref, Store(a, ref, vals[i]))
	}
}

func (x *Exec) newMap(st *State, m *types.Map) *T {
	r := x.newRef(st)
	ks := keySort(m)
	var vals []*T
	for _, c := range flat(m.Elem()) {
		vals = append(vals, ConstArr(arrSort(ks, c.sort), zeroComp(c)))
	}
	x.mapSetComps(st, m, r, ConstArr(arrSort(ks, SBool), False), Zero, vals)
	return r
}

func (x *Exec) mapUpdate(st *State, m *types.Map, ref *T, k V, v V) {
	kt := x.mapKeyTerm(st, m, k)
	dom := x.mapDom(st, m, ref)
	ln := x.mapLen(st, m, ref)
	vs := x.mapVals(st, m, ref)
	v = x.normV(st, v, m.Elem())
	cs := x.flatten(v, m.Elem())
	for i := range vs {
		vs[i] = Store(vs[i], kt, cs[i])
	}
	x.mapSetComps(st, m, ref, Store(dom, kt, True), Ite(Select(dom, kt), ln, Add(ln, One)), vs)
}
func (x *Exec) mapDelete(st *State, m *types.Map, ref *T, k V) {
	kt := x.mapKeyTerm(st, m, k)
	dom := x.mapDom(st, m, ref)
	ln := x.mapLen(st, m, ref)
	x.mapSetComps(st, m, ref, Store(dom, kt, False), Ite(Select(dom, kt), Sub(ln, One), ln), nil)
}

// lookup with the zero value for absent keys
func (x *Exec) mapLookup(st *State, m *types.Map, ref *T, k V) (V, *T) {
	kt := x.mapKeyTerm(st, m, k)
	dom := x.mapDom(st, m, ref)
	ok := And(Ne(ref, Zero), Select(dom, kt))
	vs := x.mapVals(st, m, ref)
	var cs []*T
	for i, c := range flat(m.Elem()) {
		r := Select(vs[i], kt)
		if !r.open {
			x.wfComp(st, c, r)
		}
		cs = append(cs, Ite(ok, r, zeroComp(c)))
	}
	return unflat(x, m.Elem(), cs), ok
}

// ---------- bytes ----------
func (x *Exec) bytesOf(st *State, ref *T) *T {
	if ref == Zero {
		return StrLit("")
	}
	return Select(x.hget(st, "bytes", arrSort(SInt, SStr)), ref)
}
func (x *Exec) setBytes(st *State, ref, s *T) {
	a := x.hget(st, "bytes", arrSort(SInt, SStr))
	x.hset(st, "bytes", ref, Store(a, ref, s))
}
func (x *Exec) newBytes(st *State, s *T) *Slc {
	r := x.newRef(st)
	x.setBytes(st, r, s)
	return &Slc{r, Zero, SLen(s)}
}

func sortedKeys[W any](m map[string]W) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loops struct {
	headers map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

type loopCtx struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	trial  bool
	onBack func(st *State, phis []V)
}

func (x *Exec) loopsOf(f *ssa.Function) *loops {
	if l, ok := x.loopInfo[f]; ok {
		return l
	}
	l := &loops{headers: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := l.headers[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					l.headers[s] = body
				}
				var add func(b *ssa.BasicBlock)
				add = func(b *ssa.BasicBlock) {
					if body[b] {
						return
					}
					body[b] = true
					for _, p := range b.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	x.loopInfo[f] = l
	return l
}

type cand struct {
	name string
	user bool
	f    func(st *State, phi map[*ssa.Phi]V) *T
}

// tryPeel executes the loop header concretely when its exit test is decided by
// constants (for example a range over a slice of known small length).
func (x *Exec) tryPeel(st *State, b, pred *ssa.BasicBlock) bool {
	if st.peels[b] > 24 {
		return false
	}
	ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	env := map[ssa.Value]*T{}
	get := func(v ssa.Value) *T {
		if t, ok := env[v]; ok {
			return t
		}
		switch c := v.(type) {
		case *ssa.Const:
			if c.Value == nil {
				return nil
			}
			t, _ := x.constV(c).(*T)
			return t
		}
		if r, ok := st.fr.env[v]; ok {
			t, _ := r.(*T)
			return t
		}
		return nil
	}
	var phis []*ssa.Phi
	var vals []V
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi:
			v := x.phiVal(st, in, b, pred)
			phis = append(phis, in)
			vals = append(vals, v)
			if t, ok := v.(*T); ok {
				env[in] = t
			}
		case *ssa.DebugRef:
		case *ssa.BinOp:
			a, c := get(in.X), get(in.Y)
			if a == nil || c == nil {
				return false
			}
			r := x.arith(in.Op, a, c)
			if r == nil && (in.Op == token.EQL || in.Op == token.NEQ) && a.sort == c.sort {
				r = Eq(a, c)
				if in.Op == token.NEQ {
					r = Not(r)
				}
			}
			if r == nil {
				return false
			}
			env[in] = r
		case *ssa.If:
		default:
			return false
		}
	}
	c := get(ifi.Cond)
	if c != nil && c != True && c != False && st.peels[b] == 0 {
		// a loop known not to run at all
		exit := ifi.Block().Succs[1]
		for blk, body := range x.loopsOf(b.Parent()).headers {
			if blk == b && !body[exit] && x.valid(st, Not(c), 300) {
				c = False
			}
		}
	}
	if c != True && c != False {
		return false
	}
	if st.peels == nil {
		st.peels = map[*ssa.BasicBlock]int{}
	} else {
		st.peels = cm(st.peels)
	}
	st.peels[b]++
	for i, ph := range phis {
		x.set(st, ph, vals[i])
	}
	x.step(st, b, len(phis))
	return true
}

func dependsAfter(t *T, mark int, memo map[*T]bool) bool {
	if t.id < mark {
		return false
	}
	if t.k == KConst {
		return true
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := false
	for _, a := range t.args {
		if dependsAfter(a, mark, memo) {
			r = true
			break
		}
	}
	memo[t] = r
	return r
}

func newLog() *WLog { return &WLog{keys: map[string]map[*T]bool{}, gh: map[string]bool{}} }

func (x *Exec) enterLoop(st *State, b, pred *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) {
	if x.tryPeel(st, b, pred) {
		return
	}
	mark := len(tlist)
	var phis []*ssa.Phi
	init := map[*ssa.Phi]V{}
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		init[ph] = x.phiVal(st, ph, b, pred)
	}
	mods := newLog()
	entrySnap := st.snap()
	nlocks := fmt.Sprint(lockSig(st))
	ndefers := len(st.fr.defers)

	offMoves := map[*ssa.Phi]bool{}
	for _, ph := range phis {
		if sl, ok := init[ph].(*Slc); ok && sl.off != Zero {
			offMoves[ph] = true
		}
	}
	// make an arbitrary loop-head state given the modified set
	head := func(from *State) (*State, map[*ssa.Phi]V) {
		s := from.clone()
		x.havocLog(s, entrySnap, mods, mark)
		pv := map[*ssa.Phi]V{}
		for _, ph := range phis {
			var v V
			if iv, ok := init[ph].(*Iter); ok {
				v = iv
			} else {
				v = x.freshV(s, ph.Type(), "phi:"+ph.Comment)
				if sl, ok := v.(*Slc); ok && offMoves[ph] {
					o := Fresh("phioff", SInt)
					x.assume(s, Le(Zero, o))
					v = &Slc{sl.ref, o, sl.len}
				}
			}
			pv[ph] = v
			s.fr.env[ph] = v
		}
		return s, pv
	}
	var cmps []cand
	seenCmp := map[string]bool{}
	run := func(s *State, trial bool, onBack func(s *State, pv map[*ssa.Phi]V)) {
		if trial {
			s.trial = true
		}
		ctx := &loopCtx{header: b, body: body, trial: trial, onBack: func(s *State, vs []V) {
			pv := map[*ssa.Phi]V{}
			for i, ph := range phis {
				pv[ph] = vs[i]
			}
			onBack(s, pv)
		}}
		s.fr.loops = append(s.fr.loops, ctx)
		x.step(s, b, len(phis))
	}
	// 1. modified set fixpoint
	spawns := false
	fast := x.c != nil && x.c.flags["fastloops"]
	for iter := 0; iter < 6; iter++ {
		moved := false
		s, pv := head(st)
		lg := newLog()
		s.wlogs = append(s.wlogs, lg)
		nsp := len(s.spawned)
		npc := len(s.pc)
		savedNF, savedMP := x.noFeas, x.modsPhase
		x.modsPhase = fast
		run(s, true, func(s *State, bv map[*ssa.Phi]V) {
			if len(s.spawned) > nsp {
				spawns = true
			}
			for ph, v := range bv {
				if sl, ok := v.(*Slc); ok && sl.off != Zero && !offMoves[ph] {
					offMoves[ph] = true
					moved = true
				}
			}
			// comparison facts on the way to the back edge suggest bounds
			for _, t := range s.pc[npc:] {
				if !(x.c != nil && x.c.flags["fastloops"] && nestedOnly(t, pv)) {
					x.boundCands(t, pv, &cmps, seenCmp)
				}
			}
		})
		x.noFeas = savedNF
		x.modsPhase = savedMP
		ch := moved
		for k, refs := range lg.keys {
			for r := range refs {
				if mods.addRef(k, r, mark) {
					ch = true
				}
			}
		}
		for g := range lg.gh {
			if !mods.gh[g] {
				mods.gh[g] = true
				ch = true
			}
		}
		if x.abort != "" {
			return
		}
		if !ch {
			break
		}
	}
	if spawns && x.c != nil && len(x.c.byKind("final")) > 0 {
		x.unsupported(st, "goroutines started in a loop are checked, but do not count in final conditions")
	}
	// 2. candidate invariants
	var cands []cand
	if !x.modsPhase { // what may change does not depend on invariants
		cands = x.loopCands(st, entrySnap, b, phis, init, mods, mark)
		cands = append(cands, cmps...)
	}
	// candidates that fell under the stronger assumptions of an earlier round of the enclosing loop
	dropKey := fmt.Sprintf("%p %v", b, st.fr.fn)
	var drops map[string]bool
	if fast && st.trial && len(x.dropScope) > 0 {
		sc := x.dropScope[len(x.dropScope)-1]
		if drops = sc[dropKey]; drops == nil {
			drops = map[string]bool{}
			sc[dropKey] = drops
		}
		names := map[string]int{}
		for _, c := range cands {
			names[c.name]++
		}
		var nc []cand
		for _, c := range cands {
			if !drops[c.name] || names[c.name] > 1 {
				nc = append(nc, c)
			}
		}
		cands = nc
	}
	var live []cand
	var goals []*T
	for _, c := range cands {
		goals = append(goals, x.evalCand(c, st, init))
	}
	atEntry := x.validMany(st, goals, func(i int) bool { return cands[i].user }, 2000)
	for i, c := range cands {
		if goals[i] != nil && atEntry[goals[i]] {
			live = append(live, c)
		} else {
			debugf("cand dropped at entry: %s", c.name)
			if drops != nil {
				drops[c.name] = true
			}
		}
	}
	if fast {
		x.dropScope = append(x.dropScope, map[string]map[string]bool{})
	}
	for round := 0; round < 12 && !x.modsPhase; round++ {
		s, pv := head(st)
		for _, c := range live {
			if g := x.evalCand(c, s, pv); g != nil {
				x.assume(s, g)
			}
		}
		bad := map[int]bool{}
		run(s, true, func(s *State, bv map[*ssa.Phi]V) {
			goals := make([]*T, len(live))
			for i, c := range live {
				if !bad[i] {
					goals[i] = x.evalCand(c, s, bv)
				}
			}
			atBack := x.validMany(s, goals, func(i int) bool { return live[i].user }, 3000)
			for i, c := range live {
				if bad[i] {
					continue
				}
				if goals[i] == nil || !atBack[goals[i]] {
					bad[i] = true
					debugf("cand dropped: %s", c.name)
					if drops != nil {
						drops[c.name] = true
					}
				}
			}
		})
		if x.abort != "" {
			return
		}
		if len(bad) == 0 {
			break
		}
		var nl []cand
		for i, c := range live {
			if !bad[i] {
				nl = append(nl, c)
			}
		}
		live = nl
	}
	if fast {
		x.dropScope = x.dropScope[:len(x.dropScope)-1]
	}
	// 3. final run from an arbitrary state satisfying the invariants
	s, pv := head(st)
	for _, c := range live {
		if g := x.evalCand(c, s, pv); g != nil {
			x.assume(s, g)
		}
	}
	x.trace(s, "loop "+x.p.prog.Fset.Position(b.Instrs[0].Pos()).String()+" (arbitrary iteration)")
	if !x.feasible(s) {
		return
	}
	nspawn := len(s.spawned)
	run(s, st.trial && len(st.fr.loops) > 0 && false, func(s *State, bv map[*ssa.Phi]V) {
		if len(s.spawned) > nspawn && !s.trial {
			// the goroutines this iteration started
			s2 := s.clone()
			s2.spawned = append([]spawn(nil), s.spawned[nspawn:]...)
			x.runThreads(s2, func(*State) {})
		}
		if fmt.Sprint(lockSig(s)) != nlocks {
			x.oblige(s, "lock", "locks balanced in loop", nil, False, "")
		}
		if len(s.fr.defers) != ndefers {
			x.unsupported(s, "defer in a loop")
			x.oblige(s, "loop", "no defer in a loop", nil, False, "")
		}
		for _, c := range live {
			if g := x.evalCand(c, s, bv); g != nil {
				lbl := "loop invariant preserved"
				x.oblige(s, "loop", lbl, nil, g, c.name)
			}
		}
	})
}

func lockSig(st *State) []string {
	var out []string
	for l, n := range st.locks {
		if n != 0 {
			out = append(out, fmt.Sprintf("%d:%d", l.id, n))
		}
	}
	sort.Strings(out)
	return out
}

// addRef records a write; references that do not exist before the loop are
// abstracted: kept as "new object" when allocated inside, otherwise everything.
func (w *WLog) addRef(key string, r *T, mark int) bool {
	if r != nil && dependsAfter(r, mark, map[*T]bool{}) {
		if b, c := linear(r); b != nil && allocParent[b] != nil && b.id >= mark && c > 0 {
			// allocated inside the loop
			r = newObjMark
		} else {
			r = nil
		}
	}
	if r != nil && r != newObjMark {
		b, c := linear(r)
		_ = b
		_ = c
	}
	m := w.keys[key]
	if m == nil {
		m = map[*T]bool{}
		w.keys[key] = m
	}
	if m[nil] || m[r] {
		return false
	}
	m[r] = true
	return true
}

var newObjMark = &T{id: -1, op: "newobj", sort: SInt}

func (x *Exec) havocLog(s, entry *State, mods *WLog, mark int) {
	if mods.keys["$all"] != nil {
		x.havocAll(s)
	}
	if mods.keys["$alloc"] != nil {
		x.bumpAlloc(s)
	}
	var keys []string
	for k := range mods.keys {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if strings.HasPrefix(k, "$") {
			continue
		}
		cur := x.hget(s, k, keySorts[k])
		refs := mods.keys[k]
		if refs[nil] {
			s.heap[k] = Fresh("L:"+k, cur.sort)
			x.wlog(s, k, nil)
			continue
		}
		t := cur
		if refs[newObjMark] {
			nw := Fresh("L:"+k, cur.sort)
			r := Bound("r", SInt)
			x.assume(s, Forall([]*T{r}, Imp(Le(r, entry.alloc), app("=", SBool, Select(nw, r), Select(cur, r))), []*T{app("select", elemSort(cur.sort), nw, r)}))
			t = nw
			x.wlog(s, k, newObjMark)
		}
		var rs []*T
		for r := range refs {
			if r != newObjMark {
				rs = append(rs, r)
			}
		}
		sort.Slice(rs, func(i, j int) bool { return rs[i].id < rs[j].id })
		for _, r := range rs {
			t = Store(t, r, Fresh("L:"+k, elemSort(cur.sort)))
			x.wlog(s, k, r)
			if strings.HasPrefix(k, "*") || strings.Contains(k, ".") {
				// well-formedness of the havoced value is recovered on load
			}
		}
		s.heap[k] = t
	}
	var gs []string
	for g := range mods.gh {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		if cur, ok := s.ghost[g]; ok {
			x.ghSet(s, g, Fresh("L:"+g, cur.sort))
		} else if d := x.spec.ghosts[g]; d != nil {
			x.ghSet(s, g, Fresh("L:"+g, d.sort))
		}
	}
}

func elemSort(a string) string { _, e := arrParts(a); return e }

func (x *Exec) evalCand(c cand, st *State, pv map[*ssa.Phi]V) (g *T) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(specErr); ok {
				if c.user {
					debugf("loop template %s: %v", c.name, r)
				}
				g = nil
				return
			}
			panic(r)
		}
	}()
	return c.f(st, pv)
}

// boundCands: from a path condition over loop variables, propose a - 1 <= b style bounds
func (x *Exec) boundCands(t *T, pv map[*ssa.Phi]V, out *[]cand, seen map[string]bool) {
	neg := false
	if t.k == KApp && t.op == "not" {
		neg = true
		t = t.args[0]
	}
	if t.k != KApp || t.op != "<" && t.op != "<=" {
		return
	}
	a, b := t.args[0], t.args[1]
	if neg {
		a, b = b, a
	}
	var phs []*ssa.Phi
	m := map[*T]*ssa.Phi{}
	for ph, v := range pv {
		if pt, ok := v.(*T); ok && pt.sort == SInt && (mentions(a, pt) || mentions(b, pt)) {
			phs = append(phs, ph)
			m[pt] = ph
		}
	}
	if len(phs) == 0 {
		return
	}
	name := "bound " + Show(a) + " <= " + Show(b)
	if seen[name] {
		return
	}
	seen[name] = true
	mk := func(a, b *T) func(st *State, p map[*ssa.Phi]V) *T {
		return func(st *State, p map[*ssa.Phi]V) *T {
			sub := map[*T]*T{}
			for pt, ph := range m {
				nt, ok := p[ph].(*T)
				if !ok {
					return nil
				}
				sub[pt] = nt
			}
			return Le(Subst(a, sub), Subst(b, sub))
		}
	}
	*out = append(*out, cand{name: name, f: mk(a, b)})
}

// nestedOnly: the loop variables occur only inside what is read from memory
func nestedOnly(t *T, pv map[*ssa.Phi]V) bool {
	if t.k == KApp && t.op == "select" {
		return true
	}
	for _, v := range pv {
		if t == v {
			return false
		}
	}
	for _, a := range t.args {
		if !nestedOnly(a, pv) {
			return false
		}
	}
	return true
}

func mentions(t, c *T) bool {
	if t == c {
		return true
	}
	for _, a := range t.args {
		if mentions(a, c) {
			return true
		}
	}
	return false
}

func (x *Exec) loopCands(st, entry *State, b *ssa.BasicBlock, phis []*ssa.Phi, init map[*ssa.Phi]V, mods *WLog, mark int) []cand {
	var out []cand
	for _, ph := range phis {
		ph := ph
		if _, ok := init[ph].(*Iter); ok {
			continue
		}
		iv := init[ph]
		out = append(out, cand{name: "phi " + ph.Comment + " unchanged", f: func(st *State, p map[*ssa.Phi]V) *T {
			return x.eqFull(p[ph], iv, ph.Type())
		}})
		if it, ok := iv.(*T); ok && it.sort == SInt {
			if bt, ok := ph.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
				out = append(out, cand{name: "phi " + ph.Comment + " grows", f: func(st *State, p map[*ssa.Phi]V) *T {
					return Le(it, p[ph].(*T))
				}}, cand{name: "phi " + ph.Comment + " shrinks", f: func(st *State, p map[*ssa.Phi]V) *T {
					return Le(p[ph].(*T), it)
				}})
			}
		}
		if sl, ok := iv.(*Slc); ok {
			out = append(out, cand{name: "phi " + ph.Comment + " off unchanged", f: func(st *State, p map[*ssa.Phi]V) *T {
				q, ok := p[ph].(*Slc)
				if !ok {
					return nil
				}
				return Eq(q.off, sl.off)
			}}, cand{name: "phi " + ph.Comment + " len grows", f: func(st *State, p map[*ssa.Phi]V) *T {
				q, ok := p[ph].(*Slc)
				if !ok {
					return nil
				}
				return Le(sl.len, q.len)
			}})
			for _, ph2 := range phis {
				ph2 := ph2
				i2, ok := init[ph2].(*T)
				if !ok || i2.sort != SInt {
					continue
				}
				d := Sub(sl.len, i2)
				out = append(out, cand{name: "len tracks index", f: func(st *State, p map[*ssa.Phi]V) *T {
					q, ok := p[ph].(*Slc)
					j, ok2 := p[ph2].(*T)
					if !ok || !ok2 {
						return nil
					}
					return Eq(Sub(q.len, j), d)
				}})
			}
		}
	}
	// modified private cells and known references keep their value
	var keys []string
	for k := range mods.keys {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		k := k
		if strings.HasPrefix(k, "$") {
			continue
		}
		for r := range mods.keys[k] {
			if r == nil || r == newObjMark {
				continue
			}
			r := r
			cur := x.hget(entry, k, keySorts[k])
			out = append(out, cand{name: "cell " + k + " unchanged", f: func(st *State, p map[*ssa.Phi]V) *T {
				n, ok := st.heap[k]
				if !ok {
					return nil
				}
				a, b := Select(n, r), Select(cur, r)
				return Eq(a, b)
			}})
			if elemSort(cur.sort) == SInt && strings.HasPrefix(k, "loc:") {
				out = append(out, cand{name: "cell " + k + " grows", f: func(st *State, p map[*ssa.Phi]V) *T {
					n, ok := st.heap[k]
					if !ok {
						return nil
					}
					return Le(Select(cur, r), Select(n, r))
				}})
			}
		}
	}
	for g := range mods.gh {
		g := g
		cur, ok := entry.ghost[g]
		if !ok {
			continue
		}
		out = append(out, cand{name: "ghost " + g + " unchanged", f: func(st *State, p map[*ssa.Phi]V) *T { return Eq(st.ghost[g], cur) }})
		if strings.HasPrefix(g, "visited:") {
			for _, fv := range st.fr.env {
				if it, ok := fv.(*Iter); ok && it.vis == g {
					it := it
					out = append(out, cand{name: "visited within domain", f: func(st *State, p map[*ssa.Phi]V) *T {
						kb := Bound("k", keySort(it.mt))
						v := st.ghost[g]
						if isEmptyArr(v) {
							return True
						}
						return Forall([]*T{kb}, Imp(Select(v, kb), Select(it.dom0, kb)), []*T{Select(v, kb)})
					}})
				}
			}
		}
	}
	// templates of the contract under verification
	for _, cl := range x.c.byKind("loop") {
		cl := cl
		type opt struct {
			name string
			get  func(st *State, p map[*ssa.Phi]V) (SV, bool)
		}
		var choices [][]opt
		for _, v := range cl.vars {
			var os []opt
			e := &Eval{x: x, st: st, pkg: x.c.pkg, imports: x.c.imports}
			var want types.Type
			switch v.typ {
			case "val":
			case "key": // the key an enclosing range over a map is at
				want = types.Typ[types.String]
			case "index", "accum": // a loop counter (or one more); an int the loop carries that is not one
				want = types.Typ[types.Int]
			default:
				te, err := parseExpr(v.typ)
				if err == nil {
					want = e.resolveType(te)
				}
			}
			match := func(t types.Type) bool {
				if want == nil {
					return false
				}
				return types.Identical(t, want) || types.Identical(t.Underlying(), want)
			}
			for _, ph := range phis {
				ph := ph
				if v.typ == "key" || !match(ph.Type()) || v.typ == "index" && !isCounter(ph) || v.typ == "accum" && isCounter(ph) {
					continue
				}
				os = append(os, opt{ph.Comment, func(st *State, p map[*ssa.Phi]V) (SV, bool) {
					return SV{v: p[ph], t: ph.Type()}, true
				}})
				if bt, ok := ph.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 && v.typ != "accum" {
					os = append(os, opt{ph.Comment + "+1", func(st *State, p map[*ssa.Phi]V) (SV, bool) {
						t, ok := p[ph].(*T)
						if !ok {
							return SV{}, false
						}
						return SV{v: Add(t, One), t: ph.Type()}, true
					}})
				}
			}
			// private cells and dominating values of the right type
			for _, k := range keys {
				if !strings.HasPrefix(k, "loc:") {
					continue
				}
				for r := range mods.keys[k] {
					if r == nil || r == newObjMark {
						continue
					}
					for _, vv := range sortedEnv(st.fr.env) {
						ev := st.fr.env[vv]
						ad, ok := ev.(*Addr)
						if !ok || !ad.priv || ad.ref != r || !strings.HasPrefix(k, ad.key) || !match(ad.t) {
							continue
						}
						_ = vv
						ad = &Addr{key: ad.key, ref: ad.ref, idx: ad.idx, t: ad.t, priv: true}
						os = append(os, opt{"cell " + ad.key, func(st *State, p map[*ssa.Phi]V) (SV, bool) {
							return SV{v: x.load(st, ad), t: ad.t}, true
						}})
						break
					}
				}
			}
			for _, vv := range sortedEnv(st.fr.env) {
				if v.typ == "index" || v.typ == "accum" {
					break
				}
				ev := st.fr.env[vv]
				if _, isPhi := vv.(*ssa.Phi); isPhi {
					continue
				}
				if v.typ == "key" {
					ex, ok := vv.(*ssa.Extract)
					if !ok || ex.Index != 1 {
						continue
					}
					if nx, ok := ex.Tuple.(*ssa.Next); !ok || nx.IsString {
						continue
					}
				}
				switch vv.(type) {
				case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.Call, *ssa.Extract, *ssa.UnOp, *ssa.Parameter, *ssa.FreeVar, *ssa.Slice:
				default:
					continue
				}
				if a, ok := ev.(*Addr); ok && a.priv {
					continue
				}
				if al, ok := vv.(*ssa.Alloc); ok && want != nil {
					if et := al.Type().Underlying().(*types.Pointer).Elem(); match(et) {
						ad := x.toAddr(ev, et)
						os = append(os, opt{"*" + vv.Name(), func(st *State, p map[*ssa.Phi]V) (SV, bool) { return SV{v: x.load(st, ad), t: et}, true }})
					}
				}
				if match(vv.Type()) {
					ev, t := ev, vv.Type()
					os = append(os, opt{vv.Name(), func(st *State, p map[*ssa.Phi]V) (SV, bool) { return SV{v: ev, t: t}, true }})
				}
			}
			choices = append(choices, os)
		}
		var rec func(i int, cur []opt)
		n := 0
		rec = func(i int, cur []opt) {
			if n > 60 {
				return
			}
			if i == len(cl.vars) {
				n++
				sel := append([]opt(nil), cur...)
				var nm []string
				for _, o := range sel {
					nm = append(nm, o.name)
				}
				out = append(out, cand{name: "template " + cl.text + " [" + strings.Join(nm, ",") + "]", user: true, f: func(st *State, p map[*ssa.Phi]V) *T {
					vars := cm(x.vars)
					for j, o := range sel {
						sv, ok := o.get(st, p)
						if !ok {
							return nil
						}
						vars[cl.vars[j].name] = sv
					}
					return x.evalBool(st, x.entry, vars, x.c, cl)
				}})
				return
			}
			for _, o := range choices[i] {
				rec(i+1, append(cur, o))
			}
		}
		rec(0, nil)
	}
	return out
}

// isCounter: some edge of the phi adds a constant to it
func isCounter(ph *ssa.Phi) bool {
	seen := map[ssa.Value]bool{}
	var adds func(v ssa.Value) bool
	adds = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.BinOp:
			_, c := v.Y.(*ssa.Const)
			return c && v.X == ssa.Value(ph)
		case *ssa.Phi:
			for _, e := range v.Edges {
				if adds(e) {
					return true
				}
			}
		}
		return false
	}
	for _, e := range ph.Edges {
		if adds(e) {
			return true
		}
	}
	return false
}

func (x *Exec) eqFull(a, b V, t types.Type) *T {
	ca, cb := x.flatten(a, t), x.flatten(b, t)
	var es []*T
	for i := range ca {
		es = append(es, Eq(ca[i], cb[i]))
	}
	return And(es...)
}

func sortedEnv(env map[ssa.Value]V) []ssa.Value {
	var out []ssa.Value
	for v := range env {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i].Name(), out[j].Name()
		if len(a) != len(b) {
			return len(a) < len(b)
		}
		return a < b
	})
	return out
}

package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// V is a symbolic Go value: *T (one component), *Agg, *Slc, *Clo, *Addr, *Iter.
type V interface{}

type Agg struct{ vals []V }           // struct or tuple
type Slc struct{ ref, off, len *T }   // slice
type Clo struct {                     // known function value
	fn    *ssa.Function
	binds []V
	term  *T
}
type Addr struct { // pointer with statically known target kind
	key string
	ref *T
	idx *T
	t   types.Type // pointee
	priv bool
}
type Iter struct {
	mapRef *T
	mt     *types.Map
	dom0   *T
	vis    string // ghost key of the visited set
	str    bool
}

func qual(p *types.Package) string { return shortPkg(p.Path()) }

var tkCache = map[types.Type]string{}

func typeKey(t types.Type) string {
	if s, ok := tkCache[t]; ok {
		return s
	}
	s := types.TypeString(types.Unalias(t), qual)
	s = strings.ReplaceAll(s, "interface{}", "any")
	tkCache[t] = s
	return s
}

type Comp struct {
	path string
	sort string
	t    types.Type // component Go type (leaf)
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

var opaqueStructs = map[string]bool{"time.Time": true, "sync.Mutex": true, "sync.RWMutex": true, "sync.WaitGroup": true, "sync.Map": true, "sync.Once": true, "sync.Pool": true, "atomic.Value": true, "sync/atomic.Value": true, "sync/atomic.Bool": true, "sync/atomic.Int32": true, "sync/atomic.Int64": true}

func isOpaque(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	k := typeKey(n)
	if opaqueStructs[k] {
		return true
	}
	if n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		if st, ok := n.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Exported() {
					return false
				}
			}
			return st.NumFields() > 0
		}
	}
	return false
}

var flatCache = map[string][]Comp{}

func flat(t types.Type) []Comp {
	k := typeKey(t)
	if c, ok := flatCache[k]; ok {
		return c
	}
	c := flat0(t, 0)
	flatCache[k] = c
	return c
}

func flat0(t types.Type, depth int) []Comp {
	if isOpaque(t) {
		return []Comp{{"", SInt, t}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return []Comp{{"", basicSort(u), t}}
	case *types.Slice:
		return []Comp{{".ref", SInt, t}, {".off", SInt, t}, {".len", SInt, t}}
	case *types.Interface:
		return []Comp{{"", SVal, t}}
	case *types.Struct:
		if depth > 6 {
			return []Comp{{"", SInt, t}}
		}
		var out []Comp
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, c := range flat0(f.Type(), depth+1) {
				out = append(out, Comp{"." + f.Name() + c.path, c.sort, c.t})
			}
		}
		return out
	case *types.Tuple:
		var out []Comp
		for i := 0; i < u.Len(); i++ {
			for _, c := range flat0(u.At(i).Type(), depth+1) {
				out = append(out, Comp{fmt.Sprintf("#%d%s", i, c.path), c.sort, c.t})
			}
		}
		return out
	}
	return []Comp{{"", SInt, t}}
}

func basicSort(b *types.Basic) string {
	switch {
	case b.Info()&types.IsBoolean != 0:
		return SBool
	case b.Info()&types.IsString != 0:
		return SStr
	case b.Info()&types.IsFloat != 0, b.Info()&types.IsComplex != 0:
		return SFlt
	}
	return SInt
}

func isStruct(t types.Type) bool {
	if isOpaque(t) {
		return false
	}
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

// build a value of type t from flattened component terms
func unflat(x *Exec, t types.Type, cs []*T) V {
	v, n := unflat0(x, t, cs, 0)
	if n != len(cs) {
		panic("unflat: component count")
	}
	return v
}
func unflat0(x *Exec, t types.Type, cs []*T, d int) (V, int) {
	if isOpaque(t) {
		return cs[0], 1
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		// a slice value read from memory or made up is represented by a pointer
		// to its first element, so its offset is zero
		off := cs[1]
		if off.k != KInt {
			off = Zero
		}
		return &Slc{cs[0], off, cs[2]}, 3
	case *types.Struct:
		if d > 6 {
			return cs[0], 1
		}
		a := &Agg{}
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			v, k := unflat0(x, u.Field(i).Type(), cs[n:], d+1)
			a.vals = append(a.vals, v)
			n += k
		}
		return a, n
	case *types.Tuple:
		a := &Agg{}
		n := 0
		for i := 0; i < u.Len(); i++ {
			v, k := unflat0(x, u.At(i).Type(), cs[n:], d+1)
			a.vals = append(a.vals, v)
			n += k
		}
		return a, n
	case *types.Signature:
		if c, ok := x.clos[cs[0]]; ok {
			return c, 1
		}
		return cs[0], 1
	case *types.Pointer:
		if a, ok := x.addrs[cs[0]]; ok {
			return a, 1
		}
		return cs[0], 1
	}
	return cs[0], 1
}

func (x *Exec) flatten(v V, t types.Type) []*T {
	switch v := v.(type) {
	case *T:
		return []*T{v}
	case *Slc:
		return []*T{v.ref, v.off, v.len}
	case *Clo:
		return []*T{x.cloTerm(v)}
	case *Addr:
		return []*T{x.addrTerm(v)}
	case *Agg:
		var out []*T
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := range v.vals {
				out = append(out, x.flatten(v.vals[i], u.Field(i).Type())...)
			}
		case *types.Tuple:
			for i := range v.vals {
				out = append(out, x.flatten(v.vals[i], u.At(i).Type())...)
			}
		default:
			panic("flatten agg of " + t.String())
		}
		return out
	}
	panic(fmt.Sprintf("flatten %T", v))
}

func (x *Exec) cloTerm(c *Clo) *T {
	if c.term == nil {
		if len(c.binds) == 0 {
			c.term = Const("fn:"+fnName(c.fn), SInt)
		} else {
			c.term = Fresh("clo:"+fnName(c.fn), SInt)
		}
		x.clos[c.term] = c
		x.facts = append(x.facts, Lt(Zero, c.term))
	}
	return c.term
}

func (x *Exec) addrTerm(a *Addr) *T {
	if a.idx == nil && a.key == rootKey(a.t) {
		return a.ref
	}
	var t *T
	if a.idx != nil {
		t = Fn("addr:"+a.key, SInt, a.ref, a.idx)
	} else {
		t = Fn("addr:"+a.key, SInt, a.ref)
	}
	if _, ok := x.addrs[t]; !ok {
		x.addrs[t] = a
		if !t.open {
			x.facts = append(x.facts, Lt(Zero, t))
		}
	}
	return t
}

// heap key prefix for a pointee of type t reached through a plain reference
func rootKey(t types.Type) string {
	if isStruct(t) {
		return typeKey(t)
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return "[]" + typeKey(a.Elem())
	}
	return "*" + typeKey(t)
}

// toAddr turns a pointer value into an address for its pointee type.
func (x *Exec) toAddr(v V, elem types.Type) *Addr {
	switch v := v.(type) {
	case *Addr:
		return v
	case *T:
		if a, ok := x.addrs[v]; ok {
			return a
		}
		return &Addr{key: rootKey(elem), ref: v, t: elem}
	}
	panic(fmt.Sprintf("toAddr %T", v))
}

func zeroComp(c Comp) *T {
	switch c.sort {
	case SInt:
		return Zero
	case SBool:
		return False
	case SStr:
		return StrLit("")
	case SVal:
		return VNil
	case SFlt:
		return Const("flt:0", SFlt)
	}
	panic(c.sort)
}

func (x *Exec) zero(t types.Type) V {
	var cs []*T
	for _, c := range flat(t) {
		cs = append(cs, zeroComp(c))
	}
	return unflat(x, t, cs)
}

func (x *Exec) freshV(st *State, t types.Type, name string) V {
	var cs []*T
	for _, c := range flat(t) {
		f := Fresh(name+c.path, c.sort)
		cs = append(cs, f)
	}
	v := unflat(x, t, cs)
	x.wf(st, t, cs)
	return v
}

// normV gives slices with a non-zero offset a reference of their own, so that
// what is stored in memory always has offset zero.
func (x *Exec) normV(st *State, v V, t types.Type) V {
	switch w := v.(type) {
	case *Slc:
		sl, ok := t.Underlying().(*types.Slice)
		if w.off == Zero || !ok || isByteSlice(t) {
			return v
		}
		r := x.newRef(st)
		for _, cc := range flat(sl.Elem()) {
			hk := "[]" + typeKey(sl.Elem()) + cc.path
			arr := x.hget(st, hk, x.heapSort(hk, cc, true))
			src := Select(arr, w.ref)
			nw := Fresh("shift", arrSort(SInt, cc.sort))
			i := Bound("i", SInt)
			x.assume(st, Forall([]*T{i}, Eq(Select(nw, i), Select(src, Add(w.off, i))), []*T{app("select", cc.sort, nw, i)}))
			x.hset(st, hk, r, Store(arr, r, nw))
		}
		x.assumed["sub-slices stored in memory do not share later writes with the slice they were cut from"] = true
		return &Slc{r, Zero, w.len}
	case *Agg:
		if st2, ok := t.Underlying().(*types.Struct); ok {
			n := &Agg{vals: append([]V(nil), w.vals...)}
			for i := range n.vals {
				n.vals[i] = x.normV(st, n.vals[i], st2.Field(i).Type())
			}
			return n
		}
	}
	return v
}

// well-formedness facts for component terms of type t
func (x *Exec) wf(st *State, t types.Type, cs []*T) {
	for i, c := range flat(t) {
		f := cs[i]
		if f.open {
			continue
		}
		x.wfComp(st, c, f)
	}
}

func (x *Exec) wfComp(st *State, c Comp, f *T) {
	if f.k == KInt || f.k == KStr || f.k == KBool || valCtor(f) != "" {
		return
	}
	switch c.sort {
	case SVal:
		x.assume(st, Le(Zero, tagOf(f)))
		return
	case SInt:
	default:
		return
	}
	if strings.HasSuffix(c.path, ".len") || strings.HasSuffix(c.path, ".off") {
		if _, ok := c.t.Underlying().(*types.Slice); ok {
			x.assume(st, Le(Zero, f))
			return
		}
	}
	switch u := c.t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Slice:
		if refClass(f) == clFresh {
			return
		}
		if _, ok := x.addrs[f]; ok {
			return
		}
		x.assume(st, Le(Zero, f))
		if !isAddrish(f) {
			x.assume(st, Le(f, st.alloc))
		}
	case *types.Signature:
		x.assume(st, Le(Zero, f))
	case *types.Basic:
		if u.Info()&types.IsUnsigned != 0 {
			x.assume(st, Le(Zero, f))
		}
	}
}

func isAddrish(t *T) bool { return t.k == KApp && strings.HasPrefix(t.op, "uf:addr:") }

// ---------- interface boxing ----------

func ctorFor(t types.Type) string {
	cs := flat(t)
	if len(cs) == 1 {
		switch cs[0].sort {
		case SInt:
			return "VI"
		case SStr:
			return "VS"
		case SBool:
			return "VB"
		case SFlt:
			return "VF"
		}
	}
	return "VI"
}

var tagIDs = map[string]int64{}
var tagTypes = map[int64]types.Type{}

func tagID(t types.Type) int64 {
	k := typeKey(t)
	if id, ok := tagIDs[k]; ok {
		return id
	}
	id := int64(len(tagIDs) + 1)
	tagIDs[k] = id
	tagTypes[id] = t
	return id
}
func tagNamed(k string) int64 {
	if id, ok := tagIDs[k]; ok {
		return id
	}
	id := int64(len(tagIDs) + 1)
	tagIDs[k] = id
	return id
}

func (x *Exec) box(st *State, v V, t types.Type) *T {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v.(*T)
	}
	tag := Int(tagID(t))
	cs := x.flatten(v, t)
	if len(flat(t)) == 1 {
		switch cs[0].sort {
		case SInt:
			return VI(tag, cs[0])
		case SStr:
			return VS(tag, cs[0])
		case SBool:
			return VB(tag, cs[0])
		case SFlt:
			return VF(tag, cs[0])
		case SVal:
			return cs[0]
		}
	}
	if len(cs) == 0 {
		return VI(tag, Zero)
	}
	// immutable box, a pure function of the components (structural equality)
	name := "box:" + typeKey(t)
	b := Fn(name, SInt, cs...)
	for i, c := range cs {
		f := Fn(fmt.Sprintf("unbox:%s#%d", typeKey(t), i), c.sort, b)
		x.assumeFact(st, app("=", SBool, f, c))
	}
	x.assumeFact(st, Lt(Zero, b))
	x.boxes[b] = cs
	return VI(tag, b)
}

func (x *Exec) unbox(st *State, v *T, t types.Type) V {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	fc := flat(t)
	if len(fc) == 1 {
		p := ctorPay(ctorFor(t), v)
		if st != nil {
			x.wf(st, t, []*T{p})
		}
		return unflat(x, t, []*T{p})
	}
	if len(fc) == 0 {
		return unflat(x, t, nil)
	}
	b := ctorPay("VI", v)
	if cs, ok := x.boxes[b]; ok {
		return unflat(x, t, cs)
	}
	var cs []*T
	for i, c := range fc {
		cs = append(cs, Fn(fmt.Sprintf("unbox:%s#%d", typeKey(t), i), c.sort, b))
	}
	if st != nil {
		x.wf(st, t, cs)
	}
	return unflat(x, t, cs)
}

// typeIs: v's dynamic type is t (concrete) or implements t (interface)
func (x *Exec) typeIs(v *T, t types.Type) *T {
	if it, ok := t.Underlying().(*types.Interface); ok {
		tag := tagOf(v)
		if tag.k == KInt {
			if tag.n == 0 {
				return False
			}
			if ct := tagTypes[tag.n]; ct != nil {
				return B(types.Implements(ct, it))
			}
		}
		if it.Empty() {
			return Ne(v, VNil)
		}
		return And(Ne(v, VNil), Fn("implements:"+typeKey(t), SBool, tag))
	}
	c := ctorFor(t)
	return And(isCtor(c, v), Eq(ctorTag(c, v), Int(tagID(t))))
}

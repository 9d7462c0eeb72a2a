package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// SV is a value in the specification language: a Go value with its type, or a
// logical term (t == nil).
type SV struct {
	v     V
	t     types.Type
	isNil bool
	isTyp bool
}

type specErr struct{ msg string }

func serr(f string, a ...interface{}) { panic(specErr{fmt.Sprintf(f, a...)}) }

type Eval struct {
	x       *Exec
	st      *State
	old     *State
	vars    map[string]SV
	pkg     string
	imports map[string]string
	inOld   bool
	depth   int
}

func (x *Exec) evalBool(st, old *State, vars map[string]SV, c *Contract, cl *Clause) *T {
	e := &Eval{x: x, st: st, old: old, vars: vars, pkg: c.pkg, imports: c.imports}
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				panic(specErr{fmt.Sprintf("%s:%d %s %s: %s", c.file, cl.line, c.name, cl.label, s.msg)})
			}
			panic(r)
		}
	}()
	return e.boolean(cl.e)
}

func (e *Eval) boolean(ex ast.Expr) *T {
	v := e.eval(ex)
	t, ok := v.v.(*T)
	if !ok || t.sort != SBool {
		serr("boolean expected: %s", exprStr(ex))
	}
	return t
}

func exprStr(e ast.Expr) string { return types.ExprString(e) }

func (e *Eval) sub(vars map[string]SV) *Eval {
	n := *e
	n.vars = vars
	return &n
}

func (e *Eval) bind(name string, v SV) *Eval {
	m := cm(e.vars)
	m[name] = v
	return e.sub(m)
}

func L(t *T) SV { return SV{v: t} }

func (e *Eval) term(ex ast.Expr) *T { return e.asTerm(e.eval(ex)) }

func (e *Eval) asTerm(v SV) *T {
	if v.isNil {
		return VNil
	}
	switch w := v.v.(type) {
	case *T:
		return w
	case *Slc:
		return w.ref
	case *Clo:
		return e.x.cloTerm(w)
	case *Addr:
		return e.x.addrTerm(w)
	}
	if v.t != nil {
		return e.x.box(e.st, v.v, v.t)
	}
	serr("term expected, got %T", v.v)
	return nil
}

// coerce to a sort
func (e *Eval) coerce(v SV, sort string) *T {
	if v.isNil {
		if sort == SInt {
			return Zero
		}
		return VNil
	}
	if sort == SVal {
		if t, ok := v.v.(*T); ok && t.sort == SVal {
			return t
		}
		if v.t == nil {
			serr("cannot box an untyped logical term; use a typed value")
		}
		return e.x.box(e.st, v.v, v.t)
	}
	t := e.asTerm(v)
	if t.sort != sort {
		serr("sort %s expected, have %s", sort, t.sort)
	}
	return t
}

func (e *Eval) eq(a, b SV) *T {
	if a.isNil && b.isNil {
		return True
	}
	if a.isNil {
		a, b = b, a
	}
	if b.isNil {
		switch w := a.v.(type) {
		case *Slc:
			return Eq(w.ref, Zero)
		case *Clo:
			return False
		case *Addr:
			return Eq(e.x.addrTerm(w), Zero)
		case *T:
			if w.sort == SVal {
				return Eq(w, VNil)
			}
			return Eq(w, Zero)
		}
		serr("comparison with nil")
	}
	if a.t != nil && b.t != nil {
		_, ai := a.t.Underlying().(*types.Interface)
		_, bi := b.t.Underlying().(*types.Interface)
		if ai != bi {
			return Eq(e.coerce(a, SVal), e.coerce(b, SVal))
		}
		ca, cb := e.x.flatten(a.v, a.t), e.x.flatten(b.v, b.t)
		if len(ca) != len(cb) {
			serr("comparison of different shapes %s and %s", a.t, b.t)
		}
		var es []*T
		for i := range ca {
			es = append(es, Eq(ca[i], cb[i]))
		}
		return And(es...)
	}
	ta, tb := e.asTerm(a), e.asTerm(b)
	if ta.sort != tb.sort {
		if ta.sort == SVal {
			tb = e.coerce(b, SVal)
		} else if tb.sort == SVal {
			ta = e.coerce(a, SVal)
		} else {
			serr("comparison of sorts %s and %s", ta.sort, tb.sort)
		}
	}
	return Eq(ta, tb)
}

func (e *Eval) lookupPkg(name string) *types.Package {
	if p, ok := e.imports[name]; ok {
		if tp := e.x.p.types[p]; tp != nil {
			return tp
		}
		if tp := e.x.p.types[modPath+"/"+p]; tp != nil {
			return tp
		}
	}
	cur := e.x.p.types[modPath+"/"+e.pkg]
	if cur == nil {
		return nil
	}
	for _, q := range cur.Imports() {
		if q.Name() == name {
			return q
		}
	}
	if cur.Name() == name {
		return cur
	}
	for path, q := range e.x.p.types {
		if q.Name() == name && strings.HasPrefix(path, modPath) {
			return q
		}
	}
	return nil
}

func (e *Eval) scopeLookup(name string) types.Object {
	cur := e.x.p.types[modPath+"/"+e.pkg]
	if cur == nil {
		return nil
	}
	return cur.Scope().Lookup(name)
}

func (e *Eval) resolveType(ex ast.Expr) types.Type {
	switch ex := ex.(type) {
	case *ast.Ident:
		if o := types.Universe.Lookup(ex.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
		if o := e.scopeLookup(ex.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
	case *ast.StarExpr:
		if t := e.resolveType(ex.X); t != nil {
			return types.NewPointer(t)
		}
	case *ast.ParenExpr:
		return e.resolveType(ex.X)
	case *ast.ArrayType:
		if ex.Len == nil {
			if t := e.resolveType(ex.Elt); t != nil {
				return types.NewSlice(t)
			}
		}
	case *ast.FuncType:
		tup := func(l *ast.FieldList) *types.Tuple {
			var vs []*types.Var
			if l != nil {
				for _, f := range l.List {
					vs = append(vs, types.NewVar(0, nil, "", e.mustType(f.Type)))
				}
			}
			return types.NewTuple(vs...)
		}
		return types.NewSignatureType(nil, nil, nil, tup(ex.Params), tup(ex.Results), false)
	case *ast.MapType:
		return types.NewMap(e.resolveType(ex.Key), e.resolveType(ex.Value))
	case *ast.InterfaceType:
		return types.NewInterfaceType(nil, nil)
	case *ast.SelectorExpr:
		if id, ok := ex.X.(*ast.Ident); ok {
			if p := e.lookupPkg(id.Name); p != nil {
				if tn, ok := p.Scope().Lookup(ex.Sel.Name).(*types.TypeName); ok {
					return tn.Type()
				}
			}
		}
	}
	return nil
}

func (e *Eval) mustType(ex ast.Expr) types.Type {
	t := e.resolveType(ex)
	if t == nil {
		serr("unknown type %s", exprStr(ex))
	}
	return t
}

// a Go type or a logical sort
func (e *Eval) typeOrSort(ex ast.Expr) (types.Type, string) {
	if id, ok := ex.(*ast.Ident); ok {
		switch id.Name {
		case "val", "ref", "str", "flt":
			return nil, sortOf(id.Name)
		case "any", "error":
			return e.resolveType(ex), SVal
		case "intset":
			return nil, arrSort(SInt, SBool)
		}
	}
	t := e.mustType(ex)
	fc := flat(t)
	if len(fc) != 1 {
		return t, SInt
	}
	return t, fc[0].sort
}

func (e *Eval) objVal(o types.Object) (SV, bool) {
	switch o := o.(type) {
	case *types.Const:
		c := o.Val()
		return SV{v: constTerm(e.x, c, o.Type()), t: o.Type()}, true
	case *types.Var:
		a := &Addr{key: "g:" + shortPkg(o.Pkg().Path()) + "." + o.Name(), ref: One, t: o.Type()}
		return SV{v: e.x.load(e.st, a), t: o.Type()}, true
	case *types.Func:
		return SV{v: Const("fn:"+objName(o), SInt), t: o.Type()}, true
	}
	return SV{}, false
}

func (e *Eval) ghostGet(name string) (*T, bool) {
	if t, ok := e.st.ghost[name]; ok {
		return t, true
	}
	g, ok := e.x.spec.ghosts[name]
	if !ok {
		return nil, false
	}
	t := Const("G0:"+name, g.sort)
	e.st.ghost[name] = t
	return t, true
}

func (e *Eval) eval(ex ast.Expr) SV {
	switch ex := ex.(type) {
	case *ast.ParenExpr:
		return e.eval(ex.X)
	case *ast.BasicLit:
		switch ex.Kind {
		case token.INT:
			return L(BigInt(ex.Value))
		case token.STRING:
			s, err := strconv.Unquote(ex.Value)
			if err != nil {
				serr("string literal")
			}
			return SV{v: StrLit(s), t: types.Typ[types.String]}
		}
		serr("literal %s", ex.Value)
	case *ast.Ident:
		switch ex.Name {
		case "nil":
			return SV{isNil: true}
		case "true":
			return L(True)
		case "false":
			return L(False)
		}
		if v, ok := e.vars[ex.Name]; ok {
			return v
		}
		if t, ok := e.ghostGet(ex.Name); ok {
			return L(t)
		}
		if o := e.scopeLookup(ex.Name); o != nil {
			if v, ok := e.objVal(o); ok {
				return v
			}
		}
		if m := e.x.spec.macros[ex.Name]; m != nil && len(m.params) == 0 {
			return e.macro(m, nil)
		}
		serr("unknown name %s", ex.Name)
	case *ast.UnaryExpr:
		v := e.term(ex.X)
		switch ex.Op {
		case token.NOT:
			return L(Not(v))
		case token.SUB:
			return L(Neg(v))
		}
	case *ast.StarExpr:
		return e.derefSV(e.eval(ex.X))
	case *ast.BinaryExpr:
		switch ex.Op {
		case token.LAND:
			a := e.boolean(ex.X)
			if a == False {
				return L(False)
			}
			return L(And(a, e.boolean(ex.Y)))
		case token.LOR:
			a := e.boolean(ex.X)
			if a == True {
				return L(True)
			}
			return L(Or(a, e.boolean(ex.Y)))
		case token.EQL:
			return L(e.eq(e.eval(ex.X), e.eval(ex.Y)))
		case token.NEQ:
			return L(Not(e.eq(e.eval(ex.X), e.eval(ex.Y))))
		}
		a, b := e.term(ex.X), e.term(ex.Y)
		if a.sort != b.sort {
			serr("operands of %s have sorts %s and %s", ex.Op, a.sort, b.sort)
		}
		if r := e.x.arith(ex.Op, a, b); r != nil {
			if a.sort == SStr && r.sort == SStr {
				return SV{v: r, t: types.Typ[types.String]}
			}
			return L(r)
		}
		serr("operator %s", ex.Op)
	case *ast.SelectorExpr:
		if id, ok := ex.X.(*ast.Ident); ok {
			if _, isVar := e.vars[id.Name]; !isVar {
				if p := e.lookupPkg(id.Name); p != nil {
					if o := p.Scope().Lookup(ex.Sel.Name); o != nil {
						if v, ok := e.objVal(o); ok {
							return v
						}
					}
				}
			}
		}
		return e.field(e.eval(ex.X), ex.Sel.Name)
	case *ast.IndexExpr:
		return e.index(e.eval(ex.X), ex.Index)
	case *ast.SliceExpr:
		s := e.coerce(e.eval(ex.X), SStr)
		lo, hi := Zero, SLen(s)
		if ex.Low != nil {
			lo = e.term(ex.Low)
		}
		if ex.High != nil {
			hi = e.term(ex.High)
		}
		return SV{v: StrSub(s, lo, hi), t: types.Typ[types.String]}
	case *ast.CallExpr:
		return e.call(ex)
	}
	serr("unsupported expression %s", exprStr(ex))
	return SV{}
}

func (e *Eval) index(b SV, ix ast.Expr) SV {
	if b.t != nil {
		switch u := b.t.Underlying().(type) {
		case *types.Map:
			k := e.eval(ix)
			kv := e.conv(k, u.Key())
			v, _ := e.x.mapLookup(e.st, u, b.v.(*T), kv)
			return SV{v: v, t: u.Elem()}
		case *types.Slice:
			s := b.v.(*Slc)
			i := e.term(ix)
			a := &Addr{key: "[]" + typeKey(u.Elem()), ref: s.ref, idx: Add(s.off, i), t: u.Elem()}
			return SV{v: e.x.load(e.st, a), t: u.Elem()}
		}
	}
	arr := e.asTerm(b)
	if !isArr(arr.sort) {
		serr("index of %s", arr.sort)
	}
	is, _ := arrParts(arr.sort)
	return L(Select(arr, e.coerce(e.eval(ix), is)))
}

// conv adapts a spec value to a Go type (boxing into interfaces, nil)
func (e *Eval) conv(v SV, t types.Type) V {
	if v.isNil {
		return e.x.zero(t)
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return e.coerce(v, SVal)
	}
	return v.v
}

func (e *Eval) derefSV(v SV) SV {
	if v.t == nil {
		serr("dereference of a logical term")
	}
	p, ok := v.t.Underlying().(*types.Pointer)
	if !ok {
		serr("dereference of %s", v.t)
	}
	return SV{v: e.x.load(e.st, e.x.toAddr(v.v, p.Elem())), t: p.Elem()}
}

// addrOf evaluates an addressable expression to its address
func (e *Eval) addrOf(ex ast.Expr) *Addr {
	switch ex := ex.(type) {
	case *ast.ParenExpr:
		return e.addrOf(ex.X)
	case *ast.StarExpr:
		v := e.eval(ex.X)
		return e.x.toAddr(v.v, v.t.Underlying().(*types.Pointer).Elem())
	case *ast.SelectorExpr:
		if id, ok := ex.X.(*ast.Ident); ok {
			if _, isVar := e.vars[id.Name]; !isVar {
				if p := e.lookupPkg(id.Name); p != nil {
					if o, ok := p.Scope().Lookup(ex.Sel.Name).(*types.Var); ok {
						return &Addr{key: "g:" + shortPkg(o.Pkg().Path()) + "." + o.Name(), ref: One, t: o.Type()}
					}
				}
			}
		}
		b := e.tryPtr(ex.X)
		return e.fieldAddr(b, ex.Sel.Name)
	case *ast.IndexExpr:
		b := e.eval(ex.X)
		if b.t != nil {
			if u, ok := b.t.Underlying().(*types.Slice); ok {
				s := b.v.(*Slc)
				return &Addr{key: "[]" + typeKey(u.Elem()), ref: s.ref, idx: Add(s.off, e.term(ex.Index)), t: u.Elem()}
			}
		}
	case *ast.Ident:
		if o, ok := e.scopeLookup(ex.Name).(*types.Var); ok {
			return &Addr{key: "g:" + shortPkg(o.Pkg().Path()) + "." + o.Name(), ref: One, t: o.Type()}
		}
	}
	serr("not addressable: %s", exprStr(ex))
	return nil
}

// tryPtr returns the address designated by a pointer value or an addressable struct
func (e *Eval) tryPtr(ex ast.Expr) *Addr {
	v := e.eval(ex)
	if v.t != nil {
		if p, ok := v.t.Underlying().(*types.Pointer); ok {
			return e.x.toAddr(v.v, p.Elem())
		}
	}
	return e.addrOf(ex)
}

func (e *Eval) fieldAddr(a *Addr, name string) *Addr {
	pkg := e.pkgFor(a.t)
	obj, path, _ := types.LookupFieldOrMethod(a.t, true, pkg, name)
	if _, ok := obj.(*types.Var); !ok {
		serr("no field %s in %s", name, a.t)
	}
	cur := a
	for i, ix := range path {
		stt := cur.t.Underlying().(*types.Struct)
		f := stt.Field(ix)
		cur = &Addr{key: cur.key + "." + f.Name(), ref: cur.ref, idx: cur.idx, t: f.Type()}
		if i < len(path)-1 {
			if p, ok := f.Type().Underlying().(*types.Pointer); ok {
				cur = e.x.toAddr(e.x.load(e.st, cur), p.Elem())
			}
		}
	}
	return cur
}

func (e *Eval) pkgFor(t types.Type) *types.Package {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg()
	}
	return e.x.p.types[modPath+"/"+e.pkg]
}

func (e *Eval) field(b SV, name string) SV {
	if b.t == nil {
		serr("field %s of a logical term", name)
	}
	if p, ok := b.t.Underlying().(*types.Pointer); ok {
		a := e.fieldAddr(e.x.toAddr(b.v, p.Elem()), name)
		return SV{v: e.x.load(e.st, a), t: a.t}
	}
	obj, path, _ := types.LookupFieldOrMethod(b.t, true, e.pkgFor(b.t), name)
	if _, ok := obj.(*types.Var); !ok {
		serr("no field %s in %s", name, b.t)
	}
	cur := b
	for _, ix := range path {
		if p, ok := cur.t.Underlying().(*types.Pointer); ok {
			cur = SV{v: e.x.load(e.st, e.x.toAddr(cur.v, p.Elem())), t: p.Elem()}
		}
		stt := cur.t.Underlying().(*types.Struct)
		cur = SV{v: cur.v.(*Agg).vals[ix], t: stt.Field(ix).Type()}
	}
	return cur
}

func (e *Eval) macro(m *Macro, args []SV) SV {
	if e.depth > 60 {
		serr("macro recursion in %s", m.name)
	}
	if len(args) != len(m.params) {
		serr("macro %s takes %d arguments", m.name, len(m.params))
	}
	vars := map[string]SV{}
	for i, p := range m.params {
		vars[p] = args[i]
	}
	// result names and bound variables of the caller are not visible
	n := *e
	n.vars = vars
	n.pkg = m.pkg
	n.imports = m.imports
	n.depth++
	return n.eval(m.e)
}

func (e *Eval) withOld() *Eval {
	if e.old == nil {
		serr("old() not available here")
	}
	n := *e
	n.st = e.old
	n.inOld = true
	return &n
}

func (e *Eval) evalOld(ex ast.Expr) SV {
	n := e.withOld()
	k := len(n.st.pc)
	v := n.eval(ex)
	// well-formedness facts learnt while reading the old heap hold now too
	for _, f := range n.st.pc[k:] {
		e.x.assume(e.st, f)
	}
	return v
}

func (e *Eval) call(c *ast.CallExpr) SV {
	name := ""
	if id, ok := c.Fun.(*ast.Ident); ok {
		name = id.Name
	}
	arg := func(i int) SV {
		if i >= len(c.Args) {
			serr("%s: missing argument", name)
		}
		return e.eval(c.Args[i])
	}
	if m := e.x.spec.macros[name]; m != nil {
		var as []SV
		for i := range c.Args {
			as = append(as, arg(i))
		}
		return e.macro(m, as)
	}
	if u := e.x.spec.ufs[name]; u != nil {
		if len(u.args) != len(c.Args) {
			serr("%s takes %d arguments", name, len(u.args))
		}
		var ts []*T
		for i := range c.Args {
			ts = append(ts, e.coerce(arg(i), u.args[i]))
		}
		r := Fn(name, u.ret, ts...)
		if u.ret == SStr {
			return SV{v: r, t: types.Typ[types.String]}
		}
		return L(r)
	}
	switch name {
	case "old":
		return e.evalOld(c.Args[0])
	case "imp":
		a := e.boolean(c.Args[0])
		if a == False {
			return L(True)
		}
		return L(Imp(a, e.boolean(c.Args[1])))
	case "iff":
		return L(Eq(e.boolean(c.Args[0]), e.boolean(c.Args[1])))
	case "ite":
		cnd := e.boolean(c.Args[0])
		if cnd == True {
			return arg(1)
		}
		if cnd == False {
			return arg(2)
		}
		a, b := arg(1), arg(2)
		ta, tb := e.asTerm(a), e.asTerm(b)
		if ta.sort != tb.sort {
			if ta.sort == SVal {
				tb = e.coerce(b, SVal)
			} else {
				ta = e.coerce(a, tb.sort)
			}
		}
		t := a.t
		if t == nil {
			t = b.t
		}
		return SV{v: Ite(cnd, ta, tb), t: t}
	case "all", "ex":
		id := c.Args[0].(*ast.Ident).Name
		gt, srt := e.typeOrSort(c.Args[1])
		e.x.qdepth++
		defer func() { e.x.qdepth-- }()
		b := BoundAt(id, srt, e.x.qdepth)
		ne := e.bind(id, SV{v: b, t: gt})
		body := ne.boolean(c.Args[2])
		var pats [][]*T
		for _, p := range c.Args[3:] {
			pc, ok := p.(*ast.CallExpr)
			if !ok {
				serr("trig(...) expected")
			}
			var ps []*T
			for _, a := range pc.Args {
				t := ne.term(a)
				ps = append(ps, t)
			}
			pats = append(pats, ps)
		}
		if name == "all" {
			return L(Forall([]*T{b}, body, pats...))
		}
		return L(Exists([]*T{b}, body))
	case "has":
		m := arg(0)
		mt, ok := m.t.Underlying().(*types.Map)
		if !ok {
			serr("has: map expected")
		}
		_, okv := e.x.mapLookup(e.st, mt, m.v.(*T), e.conv(arg(1), mt.Key()))
		return L(okv)
	case "len":
		m := arg(0)
		if m.t != nil {
			switch u := m.t.Underlying().(type) {
			case *types.Map:
				if m.v.(*T) == Zero {
					return L(Zero)
				}
				return L(Ite(Eq(m.v.(*T), Zero), Zero, e.x.mapLenFacts(e.st, u, m.v.(*T))))
			case *types.Slice:
				if isByteSlice(m.t) {
					return L(SLen(e.x.bytesOf(e.st, m.v.(*Slc).ref)))
				}
				return L(m.v.(*Slc).len)
			}
		}
		if t := e.asTerm(m); t.sort == SStr {
			return L(SLen(t))
		}
		serr("len")
	case "typeis":
		return L(e.x.typeIs(e.coerce(arg(0), SVal), e.mustType(c.Args[1])))
	case "unbox":
		t := e.mustType(c.Args[1])
		return SV{v: e.x.unbox(nil, e.coerce(arg(0), SVal), t), t: t}
	case "box":
		v := arg(0)
		if len(c.Args) > 1 {
			t := e.mustType(c.Args[1])
			return L(e.x.box(e.st, e.conv(v, t), t))
		}
		return L(e.coerce(v, SVal))
	case "cast": // reinterpret a logical reference as a Go value
		t := e.mustType(c.Args[1])
		return SV{v: unflat(e.x, t, []*T{e.asTerm(arg(0))}), t: t}
	case "ref":
		return L(e.asTerm(arg(0)))
	case "str":
		v := arg(0)
		if s, ok := v.v.(*Slc); ok {
			return SV{v: e.x.bytesOf(e.st, s.ref), t: types.Typ[types.String]}
		}
		if t, ok := v.v.(*T); ok && t.sort == SInt { // bytes by reference
			return SV{v: e.x.bytesOf(e.st, t), t: types.Typ[types.String]}
		}
		return SV{v: e.asTerm(v), t: types.Typ[types.String]}
	case "itoa":
		return SV{v: Fn("itoa", SStr, e.coerce(arg(0), SInt)), t: types.Typ[types.String]}
	case "cat":
		var ts []*T
		for i := range c.Args {
			ts = append(ts, e.coerce(arg(i), SStr))
		}
		return SV{v: Cat(ts...), t: types.Typ[types.String]}
	case "store":
		a := e.asTerm(arg(0))
		is, es := arrParts(a.sort)
		return L(Store(a, e.coerce(arg(1), is), e.coerce(arg(2), es)))
	case "constarr": // constarr("[key]elem", value): the array holding value everywhere
		q, _ := strconv.Unquote(c.Args[0].(*ast.BasicLit).Value)
		as := sortOf(q)
		_, es := arrParts(as)
		return L(ConstArr(as, e.coerce(arg(1), es)))
	case "sel":
		a := e.asTerm(arg(0))
		is, _ := arrParts(a.sort)
		return L(Select(a, e.coerce(arg(1), is)))
	case "off":
		return L(arg(0).v.(*Slc).off)
	case "dom":
		m := arg(0)
		return L(e.x.mapDom(e.st, m.t.Underlying().(*types.Map), m.v.(*T)))
	case "vals":
		m := arg(0)
		vs := e.x.mapVals(e.st, m.t.Underlying().(*types.Map), m.v.(*T))
		if len(vs) != 1 {
			serr("vals of a multi-component map")
		}
		return L(vs[0])
	case "fresh":
		if e.old == nil {
			serr("fresh() needs an old state")
		}
		return L(Lt(e.old.alloc, e.asTerm(arg(0))))
	case "allocated":
		s := e.st
		return L(Le(e.asTerm(arg(0)), s.alloc))
	case "deref":
		return e.derefSV(arg(0))
	case "addr":
		a := e.addrOf(c.Args[0])
		return SV{v: a, t: types.NewPointer(a.t)}
	case "inthread": // in a goroutine the function started
		return L(B(e.st.thread))
	case "waiting": // in "at chan.wait": the channel is among those waited for
		c := e.asTerm(arg(0))
		var or []*T
		for _, w := range e.x.waitSet {
			or = append(or, Eq(w, c))
		}
		return L(Or(or...))
	case "held":
		a := e.addrOf(c.Args[0])
		return L(B(e.st.locks[e.x.addrTerm(a)] > 0))
	case "closedmap":
		return L(e.x.hget(e.st, "chan.closed", arrSort(SInt, SBool)))
	case "closed":
		return L(e.x.getCh(e.st, "closed", e.asTerm(arg(0)), SBool))
	case "chlen", "chcap", "chhead":
		return L(e.x.getCh(e.st, name[2:], e.asTerm(arg(0)), SInt))
	case "chitem":
		v := arg(0)
		ct := v.t.Underlying().(*types.Chan)
		return SV{v: e.x.chItem(e.st, ct, v.v.(*T), e.term(c.Args[1])), t: ct.Elem()}
	case "delta": // own contribution to an atomic field since entry
		a := deltaAddr(e.addrOf(c.Args[0]))
		o := *e
		o.st = e.x.entry
		return L(Sub(e.x.load(e.st, a).(*T), o.x.load(o.st, a).(*T)))
	case "acq", "rel":
		lb, _ := strconv.Unquote(c.Args[0].(*ast.BasicLit).Value)
		m := e.st.acq
		if name == "rel" {
			m = e.st.rel
		}
		s := m[lb]
		if s == nil {
			return e.eval(c.Args[1])
		}
		n := *e
		n.st = s
		k := len(s.pc)
		v := n.eval(c.Args[1])
		for _, f := range n.st.pc[k:] {
			e.x.assume(e.st, f)
		}
		return v
	case "locked": // the lock was taken on this path
		lb, _ := strconv.Unquote(c.Args[0].(*ast.BasicLit).Value)
		return L(B(e.st.acq[lb] != nil))
	case "same":
		nv, ov := e.eval(c.Args[0]), e.evalOld(c.Args[0])
		return L(e.eq(nv, ov))
	case "sameExcept":
		// sameExcept(p, f, g): every field of *p other than those named is unchanged
		v := arg(0)
		pt, ok := v.t.Underlying().(*types.Pointer)
		if !ok {
			serr("sameExcept: pointer expected")
		}
		a := e.x.toAddr(v.v, pt.Elem())
		var es []*T
		stt := pt.Elem().Underlying().(*types.Struct)
		skip := map[string]bool{}
		for _, s := range c.Args[1:] {
			skip[s.(*ast.Ident).Name] = true
		}
		found := 0
		for i := 0; i < stt.NumFields(); i++ {
			f := stt.Field(i)
			if skip[f.Name()] {
				found++
				continue
			}
			fa := &Addr{key: a.key + "." + f.Name(), ref: a.ref, idx: a.idx, t: f.Type()}
			n, o := e.x.loadComps(e.st, fa), e.x.loadComps(e.old, fa)
			for j := range n {
				es = append(es, Eq(n[j], o[j]))
			}
		}
		if found != len(skip) {
			serr("sameExcept: unknown field")
		}
		return L(And(es...))
	case "copyExcept":
		// copyExcept(p, q, f, g): fields of *p equal those of *q (in the old state if oldq) except those named
		v, w := arg(0), arg(1)
		pt := v.t.Underlying().(*types.Pointer)
		a, b := e.x.toAddr(v.v, pt.Elem()), e.x.toAddr(w.v, pt.Elem())
		stt := pt.Elem().Underlying().(*types.Struct)
		skip := map[string]bool{}
		for _, s := range c.Args[2:] {
			skip[s.(*ast.Ident).Name] = true
		}
		var es []*T
		for i := 0; i < stt.NumFields(); i++ {
			f := stt.Field(i)
			if skip[f.Name()] {
				continue
			}
			n := e.x.loadComps(e.st, &Addr{key: a.key + "." + f.Name(), ref: a.ref, idx: a.idx, t: f.Type()})
			o := e.x.loadComps(e.st, &Addr{key: b.key + "." + f.Name(), ref: b.ref, idx: b.idx, t: f.Type()})
			for j := range n {
				es = append(es, Eq(n[j], o[j]))
			}
		}
		return L(And(es...))
	case "funcval":
		s, _ := strconv.Unquote(c.Args[0].(*ast.BasicLit).Value)
		return L(Const("fn:"+s, SInt))
	case "zero":
		t := e.mustType(c.Args[0])
		return SV{v: e.x.zero(t), t: t}
	case "tag":
		return L(tagOf(e.coerce(arg(0), SVal)))
	case "tagid":
		if b, ok := c.Args[0].(*ast.BasicLit); ok {
			s, _ := strconv.Unquote(b.Value)
			return L(Int(tagNamed(s)))
		}
		return L(Int(tagID(e.mustType(c.Args[0]))))
	case "payload":
		return L(ctorPay("VI", e.coerce(arg(0), SVal)))
	case "visited":
		// visited set of the innermost range loop of the function being run
		var best string
		var names []string
		for k := range e.st.ghost {
			if strings.HasPrefix(k, "visited:") {
				names = append(names, k)
			}
		}
		sort.Strings(names)
		for _, k := range names {
			best = k
		}
		if best == "" {
			serr("no range loop is active")
		}
		return L(e.st.ghost[best])
	case "jfield": // field of a JSON-decoded struct: jfield(T, "path", bytes)
		t := e.mustType(c.Args[0])
		p, _ := strconv.Unquote(c.Args[1].(*ast.BasicLit).Value)
		for _, cc := range flat(t) {
			if cc.path == p {
				return SV{v: Fn("jdec:"+typeKey(t)+":"+p, cc.sort, e.coerce(arg(2), SStr)), t: cc.t}
			}
		}
		serr("jfield: no component %s", p)
	case "jhas": // key present in JSON object text
		return L(Select(Fn("jdom", arrSort(SStr, SBool), e.coerce(arg(0), SStr)), e.coerce(arg(1), SStr)))
	case "jget": // decoded value of a key of JSON object text
		return L(Select(Fn("jvals", arrSort(SStr, SVal), e.coerce(arg(0), SStr)), e.coerce(arg(1), SStr)))
	case "jnull":
		return L(Fn("jnull", SBool, e.coerce(arg(0), SStr)))
	case "jmok":
		return L(Fn("jmok", SBool, e.coerce(arg(0), SStr)))
	case "jvalok":
		return L(Fn("jvalok", SBool, e.coerce(arg(0), SVal)))
	case "jnorm":
		return L(Fn("jnorm", SVal, e.coerce(arg(0), SVal)))
	case "conv": // conv(T, e): Go conversion of a basic value
		t := e.mustType(c.Args[0])
		v := arg(1)
		ft := v.t
		if ft == nil {
			serr("conv: the operand has no Go type")
		}
		return SV{v: e.x.convert(e.st, v.v, ft, t), t: t}
	case "jok":
		return L(Fn("jok:"+typeKey(e.mustType(c.Args[0])), SBool, e.coerce(arg(1), SStr)))
	case "jenc":
		v := arg(0)
		s := e.x.jsonEnc(e.st, v.v, v.t)
		if !s.open && e.st != nil {
			e.x.jsonMapFacts(e.st, s)
		}
		return SV{v: s, t: types.Typ[types.String]}
	}
	// method call syntax is not supported; conversions of basic types are
	if t := e.resolveType(c.Fun); t != nil && len(c.Args) == 1 {
		v := arg(0)
		return SV{v: v.v, t: t}
	}
	serr("unknown function %s", exprStr(c.Fun))
	return SV{}
}

func constTerm(x *Exec, c interface{ ExactString() string }, t types.Type) *T {
	return constValTerm(c, t)
}

func constValTerm(c interface{ ExactString() string }, t types.Type) *T {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		serr("constant of type %s", t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return B(c.ExactString() == "true")
	case b.Info()&types.IsString != 0:
		s, err := strconv.Unquote(c.ExactString())
		if err != nil {
			serr("constant")
		}
		return StrLit(s)
	case b.Info()&types.IsInteger != 0:
		return BigInt(c.ExactString())
	}
	return Const("flt:"+c.ExactString(), SFlt)
}

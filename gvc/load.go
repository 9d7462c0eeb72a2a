package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/pojol/braid"

type Prog struct {
	prog   *ssa.Program
	pkgs   map[string]*packages.Package // by path
	spkgs  map[string]*ssa.Package
	funcs  map[string]*ssa.Function // by canonical name
	allFns []*ssa.Function
	types  map[string]*types.Package
	repo   string
	mutableGlobals map[string]bool // package variables written, or whose address is taken, outside their package's initialiser
}

func (p *Prog) importsPkg(from *types.Package, short string) bool {
	seen := map[*types.Package]bool{}
	var w func(q *types.Package) bool
	w = func(q *types.Package) bool {
		if seen[q] {
			return false
		}
		seen[q] = true
		if shortPkg(q.Path()) == short {
			return true
		}
		if !strings.HasPrefix(q.Path(), modPath) {
			return false
		}
		for _, r := range q.Imports() {
			if w(r) {
				return true
			}
		}
		return false
	}
	return w(from)
}

func (p *Prog) findMutableGlobals() {
	p.mutableGlobals = map[string]bool{}
	for _, f := range p.allFns {
		isInit := f.Name() == "init" && f.Synthetic != ""
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					okUse := false
					switch i := in.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
						okUse = true
					case *ssa.Store:
						okUse = i.Addr == g && isInit && f.Pkg == g.Pkg
					case *ssa.FieldAddr:
						okUse = true
						for _, r := range *i.Referrers() {
							switch r.(type) {
							case *ssa.UnOp, *ssa.DebugRef:
							case *ssa.Store:
								if !isInit {
									okUse = false
								}
							default:
								okUse = false
							}
						}
					}
					if !okUse {
						p.mutableGlobals[shortPkg(g.Pkg.Pkg.Path())+"."+g.Name()] = true
					}
				}
			}
		}
	}
}

// overlay used to force instantiation of the generic field readers for every
// requested type; it adds a file next to the package, nothing is rewritten.
func overlayFiles(repo string) map[string][]byte {
	var sb strings.Builder
	sb.WriteString("package msg\n\n")
	for i, t := range []string{"int", "uint", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64", "string", "bool"} {
		fmt.Fprintf(&sb, "func gvcInstReq%d(w *Wrapper, k string) %s { return GetReqCustomField[%s](w, k) }\n", i, t, t)
		fmt.Fprintf(&sb, "func gvcInstRes%d(w *Wrapper, k string) %s { return GetResCustomField[%s](w, k) }\n", i, t, t)
	}
	return map[string][]byte{filepath.Join(repo, "router/msg/gvc_inst.go"): []byte(sb.String())}
}

func Load(repo string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedExportFile | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes,
		Dir:     repo,
		Overlay: overlayFiles(repo),
		Env:     os.Environ(),
		Tests:   false,
	}
	// LoadSyntax semantics: syntax for the initial packages, export data for dependencies
	cfg.Mode = packages.LoadSyntax
	pat := []string{"./3rd/redis/...", "./core/...", "./def/...", "./lib/...", "./router/...", "./utils/..."}
	initial, err := packages.Load(cfg, pat...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range initial {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors: %s", strings.Join(errs, "; "))
	}
	pr := &Prog{pkgs: map[string]*packages.Package{}, spkgs: map[string]*ssa.Package{}, funcs: map[string]*ssa.Function{}, types: map[string]*types.Package{}, repo: repo}
	prog, spk := ssautilPackages(initial)
	pr.prog = prog
	for i, p := range initial {
		pr.pkgs[p.PkgPath] = p
		pr.spkgs[p.PkgPath] = spk[i]
		pr.types[p.PkgPath] = p.Types
	}
	prog.Build()
	var addTypes func(p *types.Package)
	addTypes = func(p *types.Package) {
		for _, q := range p.Imports() {
			if pr.types[q.Path()] == nil {
				pr.types[q.Path()] = q
				addTypes(q)
			}
		}
	}
	for _, p := range initial {
		addTypes(p.Types)
	}
	pr.index()
	pr.findMutableGlobals()
	return pr, nil
}

func shortPkg(path string) string {
	if path == modPath {
		return "braid"
	}
	return strings.TrimPrefix(path, modPath+"/")
}

// canonical function name: "<short pkg path>.Func", "<pkg>.Type.Method",
// "<pkg>.Func$1" for closures, "<pkg>.Func[T]" for instances
func fnName(f *ssa.Function) string {
	if f.Parent() != nil {
		base := fnName(f.Parent())
		n := f.Name()
		if i := strings.LastIndex(n, "$"); i >= 0 {
			return base + n[i:]
		}
		return base + "$" + n
	}
	pk := ""
	if f.Pkg != nil {
		pk = f.Pkg.Pkg.Path()
	} else if o := f.Object(); o != nil && o.Pkg() != nil {
		pk = o.Pkg().Path()
	} else if f.Origin() != nil && f.Origin().Pkg != nil {
		pk = f.Origin().Pkg.Pkg.Path()
	}
	pk = shortPkg(pk)
	name := f.Name()
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			if n.Obj().Pkg() != nil {
				pk = shortPkg(n.Obj().Pkg().Path())
			}
			return pk + "." + n.Obj().Name() + "." + name
		}
		return pk + ".(" + t.String() + ")." + name
	}
	return pk + "." + name
}

func objName(o *types.Func) string {
	pk := ""
	if o.Pkg() != nil {
		pk = shortPkg(o.Pkg().Path())
	}
	sig := o.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			if n.Obj().Pkg() != nil {
				pk = shortPkg(n.Obj().Pkg().Path())
			}
			return pk + "." + n.Obj().Name() + "." + o.Name()
		}
	}
	return pk + "." + o.Name()
}

func (p *Prog) index() {
	var add func(f *ssa.Function)
	seen := map[*ssa.Function]bool{}
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		if len(f.Blocks) == 0 {
			return
		}
		n := fnName(f)
		if _, dup := p.funcs[n]; !dup {
			p.funcs[n] = f
		}
		p.allFns = append(p.allFns, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && g.Origin() != nil && g.Origin() != g {
						add(g)
					}
				}
			}
		}
	}
	var paths []string
	for k := range p.spkgs {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		sp := p.spkgs[k]
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := p.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := p.prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
}

// inModule reports whether f's body belongs to the verified module.
func (p *Prog) inModule(f *ssa.Function) bool {
	return len(f.Blocks) > 0
}

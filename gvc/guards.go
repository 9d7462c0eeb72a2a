package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func fieldKey(fa *ssa.FieldAddr) string {
	t := fa.X.Type().Underlying().(*types.Pointer).Elem()
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return typeKey(t) + "." + st.Field(fa.Field).Name()
}

// autoGuardContracts: for lock-discipline properties, every function that
// touches a guarded field and can be entered from outside its own callers gets
// a contract (modifies everything, no postcondition) so that the discipline is
// checked on all of its paths.
func autoGuardContracts(p *Prog, sp *Spec, prop string) []string {
	keys := map[string]bool{}
	for _, m := range sp.monitors {
		if contains(m.props, prop) {
			for _, f := range m.fields {
				keys[m.owner+"."+f] = true
			}
		}
	}
	if len(keys) == 0 {
		return nil
	}
	touch := map[*ssa.Function]bool{}
	callers := map[*ssa.Function][]*ssa.Function{}
	addrTaken := map[*ssa.Function]bool{}
	for _, f := range p.allFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && keys[fieldKey(fa)] {
					if _, isNew := fa.X.(*ssa.Alloc); !isNew {
						touch[f] = true
					}
				}
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && keys["g:"+shortPkg(g.Pkg.Pkg.Path())+"."+g.Name()] {
						touch[f] = true
					}
					if g, ok := (*op).(*ssa.Function); ok {
						if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == g {
							if _, isGo := in.(*ssa.Go); !isGo {
								callers[g] = append(callers[g], f)
								continue
							}
						}
						addrTaken[g] = true
					}
				}
			}
		}
	}
	// entry points: walk up from touching functions through unexported helpers
	entry := map[*ssa.Function]bool{}
	seen := map[*ssa.Function]bool{}
	var up func(f *ssa.Function)
	up = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		if f.Parent() != nil {
			// closures are run where they are created
			up(f.Parent())
			return
		}
		exported := f.Object() != nil && f.Object().Exported()
		if exported || addrTaken[f] || len(callers[f]) == 0 {
			entry[f] = true
			return
		}
		for _, c := range callers[f] {
			up(c)
		}
	}
	for f := range touch {
		up(f)
	}
	var out []string
	for f := range entry {
		n := fnName(f)
		if strings.HasSuffix(n, ".init") || f.Name() == "init" {
			continue
		}
		if c := sp.contracts[n]; c != nil {
			out = append(out, n)
			continue
		}
		c := &Contract{kind: "func", name: n, pkg: pkgOf(n), flags: map[string]bool{"maypanic": true, "mayrtpanic": true, "auto": true, "inline": true, "noreturn": true, "threadmaypanic": true}, modAll: true, file: "(lock discipline)", imports: map[string]string{}, props: []string{prop}}
		sp.contracts[n] = c
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func pkgOf(n string) string {
	i := strings.LastIndex(n, "/")
	j := strings.Index(n[i+1:], ".")
	return n[:i+1+j]
}

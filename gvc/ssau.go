package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// ssautilPackages creates an SSA program for the packages with syntax and
// body-less packages for their dependencies.
func ssautilPackages(initial []*packages.Package) (*ssa.Program, []*ssa.Package) {
	var fset *token.FileSet
	if len(initial) > 0 {
		fset = initial[0].Fset
	}
	prog := ssa.NewProgram(fset, ssa.InstantiateGenerics|ssa.GlobalDebug)
	isInitial := map[*types.Package]*packages.Package{}
	for _, p := range initial {
		isInitial[p.Types] = p
	}
	made := map[*types.Package]bool{}
	var create func(p *types.Package)
	create = func(p *types.Package) {
		if made[p] {
			return
		}
		made[p] = true
		if ip := isInitial[p]; ip != nil {
			prog.CreatePackage(p, ip.Syntax, ip.TypesInfo, true)
		} else {
			prog.CreatePackage(p, nil, nil, true)
		}
		for _, q := range p.Imports() {
			create(q)
		}
	}
	for _, p := range initial {
		create(p.Types)
	}
	var out []*ssa.Package
	for _, p := range initial {
		out = append(out, prog.Package(p.Types))
	}
	return prog, out
}

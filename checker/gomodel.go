package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Functions of the standard library whose meaning is stated in Go, in
// harness/zzverif, and packages that are read from their source.

const modelPath = modPath + "zzverif"

var (
	goModels     = map[string]*ssa.Function{}
	goModelTypes = map[string]bool{}
)

var modelPkgs = map[string]string{
	"strings": "strings", "bytes": "bytes", "io": "io", "binary": "encoding/binary", "atomic": "sync/atomic",
}

func (pr *program) findGoModels() {
	p := pr.spkgs[modelPath]
	if p == nil {
		return
	}
	std := func(name string) string {
		pkg, rest, ok := strings.Cut(name, "_")
		if !ok || modelPkgs[pkg] == "" {
			return ""
		}
		return modelPkgs[pkg] + "." + rest
	}
	for name, m := range p.Members {
		n := std(name)
		if n == "" {
			continue
		}
		switch m := m.(type) {
		case *ssa.Function:
			goModels[n] = m
		case *ssa.Type:
			goModelTypes[n] = true
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := pr.prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					f := pr.prog.MethodValue(ms.At(i))
					if f == nil || f.Synthetic != "" {
						continue
					}
					if _, ok := t.(*types.Pointer); ok {
						goModels["(*"+n+")."+f.Name()] = f
					} else {
						goModels["("+n+")."+f.Name()] = f
					}
				}
			}
		}
	}
}

// isModel: the function is no code of the repository, but of the standard
// library.
func isModel(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	p := pkgOf(fn)
	if fn.Origin() != nil {
		p = pkgOf(fn.Origin())
	}
	return p == modelPath || p != "" && !strings.HasPrefix(p, modPath[:len(modPath)-1])
}

func isAtomic(fn *ssa.Function) bool {
	if fn.Signature.Recv() == nil || pkgOf(fn) != modelPath {
		return false
	}
	return strings.Contains(fn.Signature.Recv().Type().String(), ".atomic_")
}

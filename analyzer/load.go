package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/liyue201/gostl"

// Prog is the loaded, type-checked and SSA-built repository.
type Prog struct {
	Dir   string
	Fset  *token.FileSet
	SSA   *ssa.Program
	Pkgs  map[string]*ssa.Package // by path relative to the module ("ds/array")
	TPkgs map[string]*types.Package
	Funcs []*ssa.Function // all source functions of the module (generic origins, closures included)
	sums  map[*ssa.Function]*Summary
	mut   map[string]bool // mutable fields
	impls map[string][]*ssa.Function
}

func Load(dir string) (*Prog, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Tests: false}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.BuilderMode(0))
	prog.Build()
	p := &Prog{Dir: dir, Fset: prog.Fset, SSA: prog, Pkgs: map[string]*ssa.Package{}, TPkgs: map[string]*types.Package{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(pkgs[i].PkgPath, modPath), "/")
		if strings.HasPrefix(rel, "examples") {
			continue
		}
		p.Pkgs[rel] = sp
		p.TPkgs[rel] = sp.Pkg
	}
	var rels []string
	for r := range p.Pkgs {
		rels = append(rels, r)
	}
	sort.Strings(rels)
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		p.Funcs = append(p.Funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, rel := range rels {
		sp := p.Pkgs[rel]
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				nt, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < nt.NumMethods(); i++ {
					add(prog.FuncValue(nt.Method(i)))
				}
			}
		}
	}
	return p, nil
}

// origin maps an instance (or wrapper) to the generic body that is analysed.
func origin(f *ssa.Function) *ssa.Function {
	if f == nil {
		return nil
	}
	if o := f.Origin(); o != nil {
		return o
	}
	return f
}

func (p *Prog) inModule(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	f = origin(f)
	for f.Parent() != nil {
		f = f.Parent()
	}
	var path string
	if f.Pkg != nil {
		path = f.Pkg.Pkg.Path()
	} else if o := f.Object(); o != nil && o.Pkg() != nil {
		path = o.Pkg().Path()
	}
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}

// rel returns the module-relative package path of a function, e.g. "ds/array".
func (p *Prog) rel(f *ssa.Function) string {
	f = origin(f)
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return strings.TrimPrefix(strings.TrimPrefix(f.Pkg.Pkg.Path(), modPath), "/")
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return strings.TrimPrefix(strings.TrimPrefix(o.Pkg().Path(), modPath), "/")
	}
	return "?"
}

// fname is a stable short name: "ds/set.(Set).Union", "algorithm.Count", "ds/skiplist.(Skiplist).Keys$1".
func (p *Prog) fname(f *ssa.Function) string {
	f = origin(f)
	if f.Parent() != nil {
		return p.fname(f.Parent()) + "$" + lastSeg(f.Name())
	}
	if recv := f.Signature.Recv(); recv != nil {
		return p.rel(f) + ".(" + namedOf(recv.Type()).Obj().Name() + ")." + f.Name()
	}
	return p.rel(f) + "." + f.Name()
}

func lastSeg(s string) string {
	if i := strings.LastIndex(s, "$"); i >= 0 {
		return s[i+1:]
	}
	return s
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if pt, ok := t.(*types.Pointer); ok {
		t = types.Unalias(pt.Elem())
	}
	n, _ := t.(*types.Named)
	if n != nil {
		return n.Origin()
	}
	return nil
}

// typeKey names a named type: "ds/set.Set" or "sync.RWMutex".
func typeKey(t types.Type) string {
	n := namedOf(t)
	if n == nil {
		return ""
	}
	if n.Obj().Pkg() == nil {
		return n.Obj().Name()
	}
	path := n.Obj().Pkg().Path()
	path = strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
	return path + "." + n.Obj().Name()
}

// Method finds the generic body of a method, or nil.
func (p *Prog) Method(rel, typ, name string) *ssa.Function {
	tp := p.TPkgs[rel]
	if tp == nil {
		return nil
	}
	o, _ := tp.Scope().Lookup(typ).(*types.TypeName)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return p.SSA.FuncValue(n.Method(i))
		}
	}
	return nil
}

// Func finds a package-level function, or nil.
func (p *Prog) Func(rel, name string) *ssa.Function {
	sp := p.Pkgs[rel]
	if sp == nil {
		return nil
	}
	f, _ := sp.Members[name].(*ssa.Function)
	return f
}

func (p *Prog) Named(rel, name string) *types.Named {
	tp := p.TPkgs[rel]
	if tp == nil {
		return nil
	}
	o, _ := tp.Scope().Lookup(name).(*types.TypeName)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// callee resolves a static callee to its generic body.
func callee(c *ssa.CallCommon) *ssa.Function { return origin(c.StaticCallee()) }

// implementations returns, for an interface method call on a module interface, the
// module methods that can be its target (class hierarchy analysis by method name over
// types whose method-name set covers the interface).
func (p *Prog) implementations(c *ssa.CallCommon) []*ssa.Function {
	it, _ := types.Unalias(c.Value.Type()).Underlying().(*types.Interface)
	if it == nil {
		return nil
	}
	key := c.Value.Type().String() + "." + c.Method.Name()
	if p.impls == nil {
		p.impls = map[string][]*ssa.Function{}
	}
	if r, ok := p.impls[key]; ok {
		return r
	}
	var out []*ssa.Function
	for _, sp := range p.Pkgs {
		for _, m := range sp.Members {
			tm, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			nt, ok := tm.Type().(*types.Named)
			if !ok || types.IsInterface(nt) {
				continue
			}
			ms := map[string]*types.Func{}
			for i := 0; i < nt.NumMethods(); i++ {
				ms[nt.Method(i).Name()] = nt.Method(i)
			}
			all := true
			for i := 0; i < it.NumMethods(); i++ {
				if ms[it.Method(i).Name()] == nil {
					all = false
					break
				}
			}
			if all && ms[c.Method.Name()] != nil {
				if f := p.SSA.FuncValue(ms[c.Method.Name()]); f != nil {
					out = append(out, f)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	p.impls[key] = out
	return out
}

func isLockerType(t types.Type) bool {
	switch typeKey(t) {
	case "utils/sync.Locker", "utils/sync.FakeLocker", "sync.RWMutex", "sync.Mutex", "sync.Locker":
		return true
	}
	return false
}

// isModuleInterface reports whether the interface type is declared in the module.
func isModuleNamed(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == modPath || strings.HasPrefix(n.Obj().Pkg().Path(), modPath+"/"))
}

package main

// C04: asking for a goroutine-safe container wires in a real lock of its own.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// symbolicArg is a fully general argument of type t.
func symbolicArg(s *State, t types.Type, name string) Value {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Signature:
		return VUnk{name}
	case *types.Slice:
		n := s.fresh(name, K(0))
		a := s.newArr(name, n)
		return VSlice{a, K(0), n, n}
	case *types.Interface:
		if !isTypeParam(t) {
			return VIface{"model:" + name, VNil{}}
		}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return T(name)
		}
	}
	if isTypeParam(t) {
		return T(name)
	}
	return s.opaque(t, name)
}

// runExits executes fn without joining loop iterations and returns its normal exits.
func (r *Result) runExits(p *Prog, rule string, fn *ssa.Function, st *State, args []Value, pre func(ip *Interp)) (outs []Out, ok bool) {
	ip := newInterp(p)
	ip.K = 24
	ok = true
	ip.Undecided = func(msg string, pos token.Pos) {
		ok = false
		r.Fail(rule, p.fname(fn), p.Pos(pos), "undecided: %s", msg)
	}
	ip.End = func(s *State, o Outcome) {
		if o.Panic == "" {
			outs = append(outs, Out{s, o.Ret})
		}
	}
	if pre != nil {
		pre(ip)
	}
	ip.Analyse(fn, st, args)
	r.Count("exits", len(outs))
	return
}

// lockerField finds the field of interface type Locker in a struct.
func lockFieldName(t types.Type) string {
	st := structOf(t)
	if st == nil {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if typeKey(st.Field(i).Type()) == "utils/sync.Locker" {
			return st.Field(i).Name()
		}
	}
	return ""
}

func init() {
	checks["C04"] = func(p *Prog, r *Result) {
		r.Rule("abstract interpretation of every constructor with every order of its options: the lock field of the result must be a lock, a newly allocated RWMutex whenever WithGoroutineSafe is among the options, and different for two containers built with the same option values")
		r.Rule("no exported method of a container reaches a store to the lock field of a container that already exists")
		r.Assumption("option functions written by the caller are out of scope; numeric options are arbitrary")
		var rels []string
		for rel := range p.Pkgs {
			rels = append(rels, rel)
		}
		sort.Strings(rels)
		for _, rel := range rels {
			gs := p.Func(rel, "WithGoroutineSafe")
			var others []*ssa.Function
			var ctors []*ssa.Function
			var names []string
			for n := range p.Pkgs[rel].Members {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				f, ok := p.Pkgs[rel].Members[n].(*ssa.Function)
				if !ok || !token.IsExported(n) || f.Signature.Recv() != nil {
					continue
				}
				res := f.Signature.Results()
				if res.Len() != 1 {
					continue
				}
				if strings.HasPrefix(n, "With") && n != "WithGoroutineSafe" {
					others = append(others, f)
				}
				if pt, ok := types.Unalias(res.At(0).Type()).(*types.Pointer); ok && lockFieldName(pt.Elem()) != "" {
					ctors = append(ctors, f)
				}
			}
			if len(ctors) == 0 {
				continue
			}
			r.Count("packages with lockable containers", 1)
			if gs == nil {
				r.Fail("lock", rel+".WithGoroutineSafe", "-", "the goroutine-safe option is not declared any more")
				continue
			}
			for _, c := range ctors {
				checkCtor(p, r, c, gs, others)
			}
		}
		lockerStable(p, r)
		r.Need("constructors", 13)
		r.Need("packages with lockable containers", 9)
		r.Need("exported methods", 90)
	}
}

// checkCtor runs one constructor under option lists.
func checkCtor(p *Prog, r *Result, c, gs *ssa.Function, others []*ssa.Function) {
	r.Count("constructors", 1)
	r.Sample(p.fname(c))
	np := c.Signature.Params().Len()
	if !c.Signature.Variadic() {
		r.Fail("lock", p.fname(c), p.Pos(c.Pos()), "the constructor of a lockable container takes no options")
		return
	}
	lists := [][]*ssa.Function{{}, {gs}, {gs, gs}}
	for _, o := range others {
		lists = append(lists, []*ssa.Function{gs, o}, []*ssa.Function{o, gs})
	}
	lf := lockFieldName(c.Signature.Results().At(0).Type().(*types.Pointer).Elem())
	for _, l := range lists {
		var nm []string
		want := false
		for _, o := range l {
			nm = append(nm, o.Name())
			want = want || o == gs
		}
		what := "New(" + strings.Join(nm, ", ") + ")"
		// option values
		ip := newInterp(p)
		states := []*State{ip.NewState()}
		vals := [][]Value{nil}
		ok := true
		for _, o := range l {
			var ns []*State
			var nv [][]Value
			for i, s := range states {
				var args []Value
				for k := 0; k < o.Signature.Params().Len(); k++ {
					args = append(args, symbolicArg(s, o.Signature.Params().At(k).Type(), "opt"))
				}
				s.keep["vals"] = VTuple{vals[i]}
				outs, k := r.runExits(p, "lock", o, s, args, nil)
				ok = ok && k
				for _, x := range outs {
					ns = append(ns, x.St)
					nv = append(nv, append(append([]Value(nil), vals[i]...), x.Ret[0]))
				}
			}
			states, vals = ns, nv
		}
		if !ok {
			return
		}
		exits := 0
		for i, s := range states {
			a := s.newArr("opts", K(int64(len(l))))
			for k, v := range vals[i] {
				s.heap[a].Cols[""] = append(s.heap[a].Cols[""], Seg{K(int64(k)), K(int64(k + 1)), v})
			}
			n := K(int64(len(l)))
			opts := VSlice{a, K(0), n, n}
			if len(l) == 0 {
				opts = VSlice{0, K(0), n, n}
			}
			s.keep["opts"] = opts
			args := func(s *State) []Value {
				var as []Value
				for k := 0; k < np-1; k++ {
					as = append(as, symbolicArg(s, c.Signature.Params().At(k).Type(), "arg"))
				}
				return append(as, opts)
			}
			firsts, k1 := r.runExits(p, "lock", c, s, args(s), nil)
			if !k1 {
				return
			}
			for _, f := range firsts {
				exits++
				l1, ok1 := lockOf(f.St, f.Ret[0], lf)
				if !ok1 {
					r.Fail("lock", p.fname(c), p.Pos(c.Pos()), "%s: the lock of the result is %s, not a lock", what, showVal(l1))
					return
				}
				if !want {
					continue
				}
				if !realLock(f.St, l1) {
					r.Fail("lock", p.fname(c), p.Pos(c.Pos()), "%s: the result is not protected by an RWMutex of its own (its lock is %s)", what, showVal(l1))
					return
				}
				f.St.keep["first"] = l1
				seconds, k2 := r.runExits(p, "lock", c, f.St, args(f.St), nil)
				if !k2 {
					return
				}
				for _, g := range seconds {
					exits++
					l2, _ := lockOf(g.St, g.Ret[0], lf)
					if !realLock(g.St, l2) || valEq(l1, l2) {
						r.Fail("lock", p.fname(c), p.Pos(c.Pos()), "%s: two containers built with the same options share one lock", what)
						return
					}
				}
			}
		}
		if exits == 0 {
			r.Fail("lock", p.fname(c), p.Pos(c.Pos()), "%s never returns", what)
			return
		}
		r.Count("option lists", 1)
	}
}

func lockOf(s *State, v Value, field string) (Value, bool) {
	pt, ok := v.(VPtr)
	if !ok {
		return v, false
	}
	l, ok := s.cell(pt.Obj, "."+field).(VIface)
	if !ok {
		return s.cell(pt.Obj, "."+field), false
	}
	return l, true
}

func realLock(s *State, v Value) bool {
	l, ok := v.(VIface)
	if !ok || l.Dyn != "*sync.RWMutex" {
		return false
	}
	pt, ok := l.V.(VPtr)
	return ok && s.heap[pt.Obj] != nil
}

// lockerStable: methods never replace the lock of an existing container.
func lockerStable(p *Prog, r *Result) {
	owners := map[string]bool{}
	for _, tp := range p.TPkgs {
		for _, n := range tp.Scope().Names() {
			tn, ok := tp.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if ok && nt.NumMethods() > 0 && lockFieldName(nt) != "" {
				owners[typeKey(nt)] = true
			}
		}
	}
	local := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.Alloc:
				return true
			case *ssa.FieldAddr:
				v = x.X
			default:
				return false
			}
		}
	}
	bad := map[*ssa.Function]string{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || local(st.Addr) {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && owners[typeKey(fa.X.Type())] && typeKey(st.Val.Type()) == "utils/sync.Locker" {
					bad[f] = p.Pos(in.Pos())
				}
				if owners[typeKey(st.Val.Type())] {
					if _, ptr := types.Unalias(st.Val.Type()).(*types.Pointer); !ptr {
						bad[f] = p.Pos(in.Pos())
					}
				}
			}
		}
	}
	for _, f := range p.Funcs {
		if f.Signature.Recv() == nil || !token.IsExported(f.Name()) {
			continue
		}
		rt := namedOf(f.Signature.Recv().Type())
		if rt == nil || !owners[typeKey(rt)] {
			continue
		}
		r.Count("exported methods", 1)
		seen := map[*ssa.Function]bool{}
		var visit func(g *ssa.Function) string
		visit = func(g *ssa.Function) string {
			if g == nil || seen[g] {
				return ""
			}
			seen[g] = true
			if w := bad[g]; w != "" {
				return fmt.Sprintf("%s at %s", p.fname(g), w)
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if w := visit(callee(c.Common())); w != "" {
							return w
						}
					}
					if mc, ok := in.(*ssa.MakeClosure); ok {
						if w := visit(origin(mc.Fn.(*ssa.Function))); w != "" {
							return w
						}
					}
				}
			}
			return ""
		}
		if w := visit(f); w != "" {
			r.Fail("lock-replaced", p.fname(f), p.Pos(f.Pos()), "the operation replaces the lock of a container in use, in %s", w)
		}
	}
}

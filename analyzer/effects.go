package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effect summaries: for every function, which caller-visible memory (reachable from a
// parameter, a captured variable or a package variable) it may read or write, which
// memory its results may alias, and which memory it may make reachable from where.

type rset map[string]bool

func (s rset) add(o rset) bool {
	ch := false
	for k := range o {
		if !s[k] {
			s[k] = true
			ch = true
		}
	}
	return ch
}

// tset: roots with the types of the values stored there
type tset map[string]map[types.Type]bool

func (t tset) put(root string, ty types.Type) bool {
	m := t[root]
	if m == nil {
		m = map[types.Type]bool{}
		t[root] = m
	}
	for o := range m {
		if o == ty || (o != nil && ty != nil && o.String() == ty.String()) {
			return false
		}
	}
	m[ty] = true
	return true
}

// reachesType reports whether memory of type "from" can contain or lead to a value of type "want".
func reachesType(from, want types.Type) bool {
	if from == nil || want == nil {
		return true
	}
	wk := typeStr(want)
	seen := map[string]bool{}
	var rec func(t types.Type) bool
	rec = func(t types.Type) bool {
		t = types.Unalias(t)
		k := typeStr(t)
		if k == wk {
			return true
		}
		if seen[k] {
			return false
		}
		seen[k] = true
		switch u := t.(type) {
		case *types.TypeParam:
			return false
		case *types.Tuple:
			for i := 0; i < u.Len(); i++ {
				if rec(u.At(i).Type()) {
					return true
				}
			}
			return false
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return rec(u.Elem())
		case *types.Slice:
			return rec(u.Elem())
		case *types.Array:
			return rec(u.Elem())
		case *types.Map:
			return rec(u.Key()) || rec(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if rec(u.Field(i).Type()) {
					return true
				}
			}
		case *types.Interface:
			return !isErrorType(t)
		}
		return false
	}
	return rec(from)
}

// typeStr ignores type arguments, so that instances and generic bodies agree.
func typeStr(t types.Type) string {
	t = types.Unalias(t)
	switch u := t.(type) {
	case *types.Pointer:
		return "*" + typeStr(u.Elem())
	case *types.Slice:
		return "[]" + typeStr(u.Elem())
	case *types.Named:
		return u.Origin().Obj().Id() + "@" + typeKey(u)
	case *types.TypeParam:
		return "$T"
	}
	return t.String()
}

type Site struct {
	Pos  token.Pos
	Desc string
	Fn   *ssa.Function
}

type Summary struct {
	Fn         *ssa.Function
	Reads      map[string]Site
	Writes     map[string]map[string]Site // root -> kind of write -> a site
	Results    []rset
	Flows      map[string]tset
	MayPanic   bool
	PanicSite  Site
	Touches    bool // performs lock operations, directly or through calls
	vals       map[ssa.Value]rset
	heap       map[string]tset
	ResCont    []tset
	closureOf  map[ssa.Value][]*ssa.MakeClosure
	p          *Prog
	changed    bool
	allocNames map[ssa.Value]string
}

func opaqueType(t types.Type) bool {
	t = types.Unalias(t)
	if isLockerType(t) {
		return true
	}
	switch u := t.(type) {
	case *types.TypeParam:
		return true
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if !opaqueType(u.At(i).Type()) {
				return false
			}
		}
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() != types.UnsafePointer
	case *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !opaqueType(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return opaqueType(u.Elem())
	case *types.Interface:
		return t.String() == "error"
	}
	return false
}

func isErrorType(t types.Type) bool { return t != nil && t.String() == "error" }

// Summaries computes the summaries of all functions by a global fixpoint.
func (p *Prog) Summaries() map[*ssa.Function]*Summary {
	if p.sums != nil {
		return p.sums
	}
	p.sums = map[*ssa.Function]*Summary{}
	for _, f := range p.Funcs {
		s := &Summary{Fn: f, Reads: map[string]Site{}, Writes: map[string]map[string]Site{}, Flows: map[string]tset{}, p: p,
			vals: map[ssa.Value]rset{}, heap: map[string]tset{}, allocNames: map[ssa.Value]string{}}
		s.Results = make([]rset, f.Signature.Results().Len())
		s.ResCont = make([]tset, len(s.Results))
		for i := range s.Results {
			s.Results[i] = rset{}
			s.ResCont[i] = tset{}
		}
		for i, pa := range f.Params {
			if !opaqueType(pa.Type()) {
				s.vals[pa] = rset{fmt.Sprintf("p%d", i): true}
			}
		}
		for i, fv := range f.FreeVars {
			s.vals[fv] = rset{fmt.Sprintf("f%d", i): true}
		}
		p.sums[f] = s
	}
	p.mut = map[string]bool{}
	for round := 0; ; round++ {
		ch := false
		for _, f := range p.Funcs {
			s := p.sums[f]
			s.changed = false
			s.run()
			if s.changed {
				ch = true
			}
		}
		if !ch {
			break
		}
		if round > 200 {
			panic("effect summaries did not converge")
		}
	}
	// reads depend on the mutable-field set, which only grows during the fixpoint above
	return p.sums
}

func (s *Summary) roots(v ssa.Value) rset {
	switch v := v.(type) {
	case *ssa.Global:
		return rset{"g:" + v.Pkg.Pkg.Path() + "." + v.Name(): true}
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return nil
	}
	return s.vals[v]
}

func (s *Summary) set(v ssa.Value, r rset) {
	if opaqueType(v.Type()) || len(r) == 0 {
		return
	}
	cur := s.vals[v]
	if cur == nil {
		cur = rset{}
		s.vals[v] = cur
	}
	if cur.add(r) {
		s.changed = true
	}
}

func isLocal(r string) bool { return strings.HasPrefix(r, "a:") }

// contents: what a value of type want loaded through memory with roots r may be part of.
func (s *Summary) contents(r rset, want types.Type) rset {
	out := rset{}
	for k := range r {
		out[k] = true // field-insensitive: what hangs off k is k
		m := s.Flows[k]
		if isLocal(k) {
			m = s.heap[k]
		}
		for root, tys := range m {
			for t := range tys {
				if reachesType(t, want) {
					out[root] = true
				}
			}
		}
	}
	return out
}

// reach: the typed contents of everything reachable from the local roots in r.
func (s *Summary) reach(r rset) tset {
	out := tset{}
	seen := map[string]bool{}
	var visit func(k string)
	visit = func(k string) {
		if seen[k] || !isLocal(k) {
			return
		}
		seen[k] = true
		for x, tys := range s.heap[k] {
			for t := range tys {
				out.put(x, t)
			}
			visit(x)
		}
	}
	for k := range r {
		visit(k)
	}
	return out
}

func (s *Summary) store(dst, val rset, ty types.Type) {
	for d := range dst {
		m := s.Flows
		if isLocal(d) {
			m = s.heap
		}
		cur := m[d]
		if cur == nil {
			cur = tset{}
			m[d] = cur
		}
		for v := range val {
			if v != d && cur.put(v, ty) {
				s.changed = true
			}
		}
		if !isLocal(d) {
			for x, tys := range s.reach(val) {
				for t := range tys {
					if x != d && cur.put(x, t) {
						s.changed = true
					}
				}
			}
		}
	}
}

func (s *Summary) read(r rset, pos token.Pos, desc string) {
	for k := range r {
		if isLocal(k) {
			continue
		}
		if _, ok := s.Reads[k]; !ok {
			s.Reads[k] = Site{pos, desc, s.Fn}
			s.changed = true
		}
	}
}

func (s *Summary) write(r rset, site Site) {
	for k := range r {
		if isLocal(k) {
			continue
		}
		m := s.Writes[k]
		if m == nil {
			m = map[string]Site{}
			s.Writes[k] = m
		}
		if _, ok := m[site.Desc]; !ok {
			m[site.Desc] = site
			s.changed = true
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func fieldName(t types.Type, i int) string {
	t = types.Unalias(t)
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = types.Unalias(pt.Elem())
	}
	st := t.Underlying().(*types.Struct)
	return st.Field(i).Name()
}

func fieldKey(t types.Type, i int) string { return typeKey(t) + "." + fieldName(t, i) }

func (s *Summary) alloc(v ssa.Value) rset {
	n := s.allocNames[v]
	if n == "" {
		n = fmt.Sprintf("a:%s", v.Name())
		s.allocNames[v] = n
	}
	return rset{n: true}
}

func (s *Summary) panics(pos token.Pos, d string) {
	if !s.MayPanic {
		s.MayPanic = true
		s.PanicSite = Site{pos, d, s.Fn}
		s.changed = true
	}
}

// access describes a direct memory access of an instruction.
type access struct {
	write bool
	roots rset
	desc  string
	site  Site // original site of a write made by a callee
}

// accesses returns the direct (non-call) memory accesses of an instruction.
func (s *Summary) accesses(in ssa.Instruction) []access {
	switch in := in.(type) {
	case *ssa.Store:
		switch a := in.Addr.(type) {
		case *ssa.FieldAddr:
			return []access{{write: true, roots: s.roots(a.X), desc: "write of " + fieldKey(a.X.Type(), a.Field)}}
		default:
			return []access{{write: true, roots: s.roots(in.Addr), desc: "write through pointer or element"}}
		}
	case *ssa.UnOp:
		if in.Op != token.MUL {
			return nil
		}
		switch a := in.X.(type) {
		case *ssa.FieldAddr:
			k := fieldKey(a.X.Type(), a.Field)
			if !s.p.mut[k] {
				return nil
			}
			return []access{{write: false, roots: s.roots(a.X), desc: "read of " + k}}
		case *ssa.Global:
			return nil
		default:
			return []access{{write: false, roots: s.roots(in.X), desc: "read through pointer or element"}}
		}
	case *ssa.MapUpdate:
		return []access{{write: true, roots: s.roots(in.Map), desc: "map update"}}
	case *ssa.Lookup:
		return []access{{write: false, roots: s.roots(in.X), desc: "map or string lookup"}}
	case *ssa.Range:
		return []access{{write: false, roots: s.roots(in.X), desc: "range over map or string"}}
	case *ssa.Convert:
		// string(bytes) and []byte(string) read their operand
		return []access{{write: false, roots: s.roots(in.X), desc: "conversion reading its operand"}}
	}
	return nil
}

func (s *Summary) run() {
	for _, b := range s.Fn.Blocks {
		for _, in := range b.Instrs {
			for _, a := range s.accesses(in) {
				if a.write {
					s.write(a.roots, Site{in.Pos(), a.desc, s.Fn})
				} else {
					s.read(a.roots, in.Pos(), a.desc)
				}
			}
			switch in := in.(type) {
			case *ssa.Alloc:
				s.set(in, s.alloc(in))
			case *ssa.MakeSlice:
				s.set(in, s.alloc(in))
			case *ssa.MakeMap:
				s.set(in, s.alloc(in))
			case *ssa.MakeClosure:
				r := rset{}
				for _, b := range in.Bindings {
					r.add(s.roots(b))
				}
				_ = r
			case *ssa.Store:
				if !opaqueType(in.Val.Type()) {
					s.store(s.roots(in.Addr), s.roots(in.Val), in.Val.Type())
				}
				if a, ok := in.Addr.(*ssa.FieldAddr); ok {
					nonlocal := false
					for k := range s.roots(a.X) {
						if !isLocal(k) {
							nonlocal = true
						}
					}
					if nonlocal {
						k := fieldKey(a.X.Type(), a.Field)
						if !s.p.mut[k] {
							s.p.mut[k] = true
							s.changed = true
						}
					}
				}
			case *ssa.UnOp:
				if in.Op == token.MUL {
					s.set(in, s.contents(s.roots(in.X), in.Type()))
				}
			case *ssa.FieldAddr:
				s.set(in, s.roots(in.X))
			case *ssa.IndexAddr:
				s.set(in, s.roots(in.X))
			case *ssa.Field:
				s.set(in, s.roots(in.X))
			case *ssa.Index:
				s.set(in, s.roots(in.X))
			case *ssa.Slice:
				s.set(in, s.roots(in.X))
			case *ssa.Phi:
				for _, e := range in.Edges {
					s.set(in, s.roots(e))
				}
			case *ssa.ChangeType:
				s.set(in, s.roots(in.X))
			case *ssa.ChangeInterface:
				s.set(in, s.roots(in.X))
			case *ssa.MakeInterface:
				s.set(in, s.roots(in.X))
			case *ssa.MultiConvert:
				s.set(in, s.roots(in.X))
			case *ssa.Convert:
				if _, ok := in.Type().Underlying().(*types.Slice); ok {
					s.set(in, s.alloc(in))
				} else {
					s.set(in, s.roots(in.X))
				}
			case *ssa.TypeAssert:
				s.set(in, s.roots(in.X))
				if !in.CommaOk {
					s.panics(in.Pos(), "unchecked type assertion")
				}
			case *ssa.Extract:
				if c, ok := in.Tuple.(*ssa.Call); ok {
					s.set(in, s.callResult(c, in.Index))
				} else {
					s.set(in, s.vals[in.Tuple])
				}
			case *ssa.Next, *ssa.Lookup:
				v := in.(ssa.Value)
				for _, op := range in.Operands(nil) {
					s.set(v, s.contents(s.roots(*op), nil))
				}
			case *ssa.Panic:
				s.panics(in.Pos(), "panic")
			case *ssa.Return:
				for i, r := range in.Results {
					if opaqueType(r.Type()) {
						continue
					}
					if s.Results[i].add(s.roots(r)) {
						s.changed = true
					}
					for x, tys := range s.reach(s.roots(r)) {
						for t := range tys {
							if s.ResCont[i].put(x, t) {
								s.changed = true
							}
						}
					}
				}
			case *ssa.Call:
				s.call(in, &in.Call, in)
			case *ssa.Defer:
				s.call(in, &in.Call, nil)
			case *ssa.Go:
				s.call(in, &in.Call, nil)
			}
		}
	}
}

func (s *Summary) callResult(c *ssa.Call, i int) rset {
	out := rset{}
	for _, e := range s.resolve(&c.Call) {
		if e.sum == nil || i >= len(e.sum.Results) || e.isArg {
			continue
		}
		out.add(s.inst(e, e.sum.Results[i]))
		fresh := false
		for k := range e.sum.Results[i] {
			if isLocal(k) {
				fresh = true
			}
		}
		if fresh {
			a := s.alloc(c)
			out.add(a)
			for x, tys := range e.sum.ResCont[i] {
				if isLocal(x) {
					continue
				}
				for t := range tys {
					s.store(a, s.inst(e, rset{x: true}), t)
				}
			}
		}
	}
	return out
}

// target is one resolved callee with the roots bound to its parameters and captures.
type target struct {
	fn    *ssa.Function
	sum   *Summary
	args  []rset
	free  []rset
	isArg bool // a closure passed as an argument
}

func isLockOp(c *ssa.CallCommon) (string, ssa.Value, bool) {
	if c.IsInvoke() {
		if isLockerType(c.Value.Type()) {
			return c.Method.Name(), c.Value, true
		}
		return "", nil, false
	}
	f := c.StaticCallee()
	if f != nil && f.Signature.Recv() != nil && isLockerType(f.Signature.Recv().Type()) && len(c.Args) > 0 {
		return f.Name(), c.Args[0], true
	}
	return "", nil, false
}

func (s *Summary) resolve(c *ssa.CallCommon) []target {
	args := make([]rset, 0, len(c.Args)+1)
	var out []target
	if c.IsInvoke() {
		args = append(args, s.roots(c.Value))
	}
	for _, a := range c.Args {
		args = append(args, s.roots(a))
	}
	if c.IsInvoke() {
		for _, f := range s.p.implementations(c) {
			out = append(out, target{fn: f, sum: s.p.sums[f], args: args})
		}
	} else if f := callee(c); f != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			t := target{fn: f, sum: s.p.sums[f], args: args}
			for _, b := range mc.Bindings {
				t.free = append(t.free, s.roots(b))
			}
			out = append(out, t)
		} else {
			out = append(out, target{fn: f, sum: s.p.sums[f], args: args})
		}
	}
	// closures passed as arguments may be invoked by the callee
	all := rset{}
	for _, a := range args {
		all.add(a)
	}
	for _, a := range c.Args {
		if mc := closureValue(a); mc != nil {
			f := mc.Fn.(*ssa.Function)
			t := target{fn: f, sum: s.p.sums[origin(f)], isArg: true}
			for range f.Params {
				t.args = append(t.args, all)
			}
			for _, b := range mc.Bindings {
				t.free = append(t.free, s.roots(b))
			}
			out = append(out, t)
		}
	}
	return out
}

// closureValue looks through conversions for a closure creation.
func closureValue(v ssa.Value) *ssa.MakeClosure {
	for {
		switch x := v.(type) {
		case *ssa.MakeClosure:
			return x
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		default:
			return nil
		}
	}
}

func (s *Summary) inst(t target, r rset) rset {
	out := rset{}
	for k := range r {
		switch {
		case strings.HasPrefix(k, "p"):
			var i int
			fmt.Sscanf(k, "p%d", &i)
			if i < len(t.args) {
				out.add(t.args[i])
			}
		case strings.HasPrefix(k, "f"):
			var i int
			fmt.Sscanf(k, "f%d", &i)
			if i < len(t.free) {
				out.add(t.free[i])
			}
		case strings.HasPrefix(k, "g:"):
			out[k] = true
		}
	}
	return out
}

// extEffect lists, for functions outside the module, the argument positions they write
// (all other memory arguments are only read). nil means: writes every memory argument.
var extReadOnly = map[string][]int{
	"fmt.Sprintf": {}, "fmt.Errorf": {}, "fmt.Sprint": {}, "errors.New": {},
	"bytes.NewBuffer": {}, "bytes.NewReader": {}, "encoding/binary.Write": {0}, "encoding/binary.Read": {0, 2},
	"(*bytes.Buffer).Write": {0}, "(*bytes.Buffer).WriteString": {0}, "(*bytes.Buffer).WriteByte": {0}, "(*bytes.Buffer).Bytes": {}, "(*bytes.Buffer).Len": {}, "(*bytes.Buffer).String": {},
	"(*strings.Builder).String": {}, "(*strings.Builder).Len": {},
	"strings.Join": {}, "strings.Compare": {}, "bytes.Equal": {}, "bytes.Compare": {},
	"io.ReadFull": {0, 1},
}

func extName(f *ssa.Function) string {
	return strings.ReplaceAll(f.String(), modPath+"/", "")
}

func (s *Summary) call(in ssa.Instruction, c *ssa.CallCommon, res *ssa.Call) {
	if _, _, ok := isLockOp(c); ok {
		if !s.Touches {
			s.Touches = true
			s.changed = true
		}
		return
	}
	for _, e := range s.callEffects(in, c) {
		if e.write {
			if e.site.Fn != nil {
				s.write(e.roots, e.site)
			} else {
				s.write(e.roots, Site{in.Pos(), e.desc, s.Fn})
			}
		} else {
			s.read(e.roots, in.Pos(), e.desc)
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			r := rset{}
			r.add(s.roots(c.Args[0]))
			if res != nil {
				r.add(s.alloc(res))
			}
			if len(c.Args) > 1 {
				elem := c.Args[0].Type().Underlying().(*types.Slice).Elem()
				if !opaqueType(elem) {
					s.store(r, s.contents(s.roots(c.Args[1]), elem), elem)
				}
			}
			if res != nil {
				s.set(res, r)
			}
		case "copy":
			elem, ok := c.Args[0].Type().Underlying().(*types.Slice)
			if ok && !opaqueType(elem.Elem()) {
				s.store(s.roots(c.Args[0]), s.contents(s.roots(c.Args[1]), elem.Elem()), elem.Elem())
			}
		}
		return
	}
	ts := s.resolve(c)
	if len(ts) == 0 || (!c.IsInvoke() && c.StaticCallee() == nil) {
		s.panics(in.Pos(), "call of a caller-supplied function or interface")
	}
	for _, t := range ts {
		if t.sum == nil { // external
			if res != nil {
				r := s.alloc(res)
				for _, a := range t.args {
					s.store(r, a, nil)
				}
				s.set(res, r)
			}
			continue
		}
		if t.sum.Touches && !s.Touches {
			s.Touches = true
			s.changed = true
		}
		if t.sum.MayPanic {
			s.panics(in.Pos(), "call of "+s.p.fname(t.fn)+", which may panic")
		}
		for d, src := range t.sum.Flows {
			for x, tys := range src {
				for ty := range tys {
					s.store(s.inst(t, rset{d: true}), s.inst(t, rset{x: true}), ty)
				}
			}
		}
	}
	if res != nil && res.Type() != nil {
		if _, ok := res.Type().(*types.Tuple); !ok && len(ts) > 0 {
			s.set(res, s.callResult(res, 0))
		}
	}
	if c.IsInvoke() && len(ts) == 0 && res != nil {
		s.set(res, s.alloc(res))
	}
}

// callEffects lists the memory effects of a call in terms of the caller's roots.
func (s *Summary) callEffects(in ssa.Instruction, c *ssa.CallCommon) []access {
	var out []access
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			out = append(out, access{write: true, roots: s.roots(c.Args[0]), desc: "append to the backing array"})
			if len(c.Args) > 1 {
				out = append(out, access{write: false, roots: s.roots(c.Args[1]), desc: "append reading its operand"})
			}
		case "copy":
			out = append(out, access{write: true, roots: s.roots(c.Args[0]), desc: "copy into the slice"}, access{write: false, roots: s.roots(c.Args[1]), desc: "copy from the slice"})
		case "delete", "clear":
			out = append(out, access{write: true, roots: s.roots(c.Args[0]), desc: b.Name()})
		}
		return out
	}
	if _, _, ok := isLockOp(c); ok {
		return nil
	}
	for _, t := range s.resolve(c) {
		if t.sum == nil {
			wr, known := extReadOnly[extName(t.fn)]
			for i, a := range t.args {
				w := !known
				for _, j := range wr {
					if i == j {
						w = true
					}
				}
				out = append(out, access{write: w, roots: a, desc: "passed to " + t.fn.String()})
			}
			continue
		}
		for _, k := range sortedKeys(t.sum.Reads) {
			st := t.sum.Reads[k]
			out = append(out, access{roots: s.inst(t, rset{k: true}), desc: st.Desc})
		}
		for _, k := range sortedKeys(t.sum.Writes) {
			for _, d := range sortedKeys(t.sum.Writes[k]) {
				st := t.sum.Writes[k][d]
				out = append(out, access{write: true, roots: s.inst(t, rset{k: true}), desc: st.Desc + " in " + s.p.fname(st.Fn) + " via " + s.p.fname(t.fn), site: st})
			}
		}
	}
	if c.IsInvoke() && len(s.p.implementations(c)) == 0 {
		// interface declared outside the module: assume it mutates its receiver, reads its arguments
		if types.IsInterface(c.Value.Type()) && c.Value.Type().String() != "error" {
			out = append(out, access{write: true, roots: s.roots(c.Value), desc: "method " + c.Method.Name() + " of an external interface"})
			for _, a := range c.Args {
				out = append(out, access{write: false, roots: s.roots(a), desc: "passed to external method " + c.Method.Name()})
			}
		}
	}
	return out
}

package main

// C22: a traversal ends as soon as the visitor returns false. Typestate "told to stop" along
// every path of everything that is handed a visitor; helpers and closures through summaries.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type tri int8

const (
	triUnknown tri = iota
	triTrue
	triFalse
	triNil
)

type envKey struct {
	v ssa.Value
	i int
}

type stopOut struct {
	told bool
	ret  string // what is known of each result
}

type stopSum struct {
	outs  map[stopOut]bool
	calls bool // may call the visitor
}

type stopper struct {
	p    *Prog
	r    *Result
	sums map[string]*stopSum
	ctxs map[string]stopCtx
	ch   bool
	last bool // report
	bad  map[string]bool
	root string
}

type stopCtx struct {
	fn  *ssa.Function
	vis map[*ssa.Parameter]bool
}

func (c stopCtx) key() string {
	var ps []string
	for p := range c.vis {
		ps = append(ps, fmt.Sprintf("%p", p))
	}
	sort.Strings(ps)
	return fmt.Sprintf("%p|%s", c.fn, strings.Join(ps, ","))
}

// resolve follows conversions and variables that are assigned once.
func resolveOnce(v ssa.Value) ssa.Value {
	for n := 0; n < 40; n++ {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.FreeVar:
			if b := bindingOf(x); b != nil {
				v = b
				continue
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				a := x.X
				for k := 0; k < 10; k++ {
					f, ok := a.(*ssa.FreeVar)
					if !ok {
						break
					}
					b := bindingOf(f)
					if b == nil {
						return v
					}
					a = b
				}
				if al, ok := a.(*ssa.Alloc); ok {
					if s := onlyStore(al); s != nil {
						v = s
						continue
					}
				}
			}
		}
		return v
	}
	return v
}

func bindingOf(f *ssa.FreeVar) ssa.Value {
	fn := f.Parent()
	var mc *ssa.MakeClosure
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == ssa.Value(fn) {
				if mc != nil {
					return nil
				}
				mc = m
			}
		}
	}
	if mc == nil {
		return nil
	}
	for i, x := range fn.FreeVars {
		if x == f {
			return mc.Bindings[i]
		}
	}
	return nil
}

// onlyStore: the value of a variable that is assigned in one place only.
func onlyStore(a *ssa.Alloc) ssa.Value {
	var val ssa.Value
	n := 0
	var visit func(addr ssa.Value)
	visit = func(addr ssa.Value) {
		for _, u := range *addr.Referrers() {
			switch x := u.(type) {
			case *ssa.Store:
				if x.Addr == addr {
					val = x.Val
					n++
				} else {
					n += 2
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				for i, b := range x.Bindings {
					if b == addr {
						visit(x.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			default:
				n += 2
			}
		}
	}
	visit(a)
	if n != 1 {
		return nil
	}
	return val
}

func isVisitorLike(t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	return ok && s.Results().Len() == 1 && isBool(s.Results().At(0).Type())
}

func (z *stopper) isVisitor(c stopCtx, v ssa.Value) bool {
	p, ok := resolveOnce(v).(*ssa.Parameter)
	return ok && c.vis[p]
}

func closureOf(v ssa.Value) *ssa.Function {
	switch x := resolveOnce(v).(type) {
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	case *ssa.Function:
		return x
	}
	return nil
}

func (z *stopper) sum(c stopCtx) *stopSum {
	k := c.key()
	if z.sums[k] == nil {
		z.sums[k] = &stopSum{outs: map[stopOut]bool{}}
		z.ctxs[k] = c
		z.ch = true
	}
	return z.sums[k]
}

func (z *stopper) fail(c stopCtx, pos token.Pos, format string, a ...any) {
	if !z.last {
		return
	}
	m := fmt.Sprintf(format, a...)
	k := z.p.fname(c.fn) + z.p.Pos(pos) + m
	if !z.bad[k] {
		z.bad[k] = true
		z.r.Fail("stop", z.root+" in "+z.p.fname(c.fn), z.p.Pos(pos), "%s", m)
	}
}

type stopState struct {
	b, prev *ssa.BasicBlock
	told    bool
	env     map[envKey]tri
}

func (s stopState) clone() stopState {
	e := make(map[envKey]tri, len(s.env))
	for k, v := range s.env {
		e[k] = v
	}
	s.env = e
	return s
}

func (s stopState) key() string {
	var ks []string
	for k, v := range s.env {
		ks = append(ks, fmt.Sprintf("%s#%d=%d", k.v.Name(), k.i, v))
	}
	sort.Strings(ks)
	p := -1
	if s.prev != nil {
		p = s.prev.Index
	}
	return fmt.Sprintf("%d %d %v %s", s.b.Index, p, s.told, strings.Join(ks, ","))
}

func (s stopState) val(v ssa.Value) tri {
	if k, ok := v.(*ssa.Const); ok {
		if k.Value == nil {
			switch k.Type().Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Signature, *types.Chan:
				return triNil
			}
			return triUnknown
		}
		if k.Value.Kind() == constant.Bool {
			if constant.BoolVal(k.Value) {
				return triTrue
			}
			return triFalse
		}
		return triUnknown
	}
	return s.env[envKey{v, 0}]
}

func (s stopState) set(k envKey, t tri) {
	if t == triUnknown {
		delete(s.env, k)
	} else {
		s.env[k] = t
	}
}

func (z *stopper) run(c stopCtx) {
	sum := z.sum(c)
	add := func(o stopOut) {
		if !sum.outs[o] {
			sum.outs[o] = true
			z.ch = true
		}
	}
	calls := func() {
		if !sum.calls {
			sum.calls = true
			z.ch = true
		}
	}
	if len(c.fn.Blocks) == 0 {
		z.fail(c, c.fn.Pos(), "undecided: a visitor is handed to %s, which has no body", z.p.fname(c.fn))
		return
	}
	work := []stopState{{b: c.fn.Blocks[0], env: map[envKey]tri{}}}
	seen := map[string]bool{}
	push := func(s stopState) {
		k := s.key()
		if !seen[k] {
			seen[k] = true
			work = append(work, s)
		}
	}
	for len(work) > 0 {
		if len(seen) > 200000 {
			z.fail(c, c.fn.Pos(), "undecided: too many paths")
			return
		}
		s := work[len(work)-1]
		work = work[:len(work)-1]
		z.r.Count("states", 1)
		var step func(s stopState, i int)
		step = func(s stopState, i int) {
			for ; i < len(s.b.Instrs); i++ {
				switch in := s.b.Instrs[i].(type) {
				case *ssa.Phi:
					// all at once
					ns := s.clone()
					j := i
					for ; j < len(s.b.Instrs); j++ {
						ph, ok := s.b.Instrs[j].(*ssa.Phi)
						if !ok {
							break
						}
						for k, pr := range s.b.Preds {
							if pr == s.prev {
								ns.set(envKey{ph, 0}, s.val(ph.Edges[k]))
							}
						}
					}
					s, i = ns, j-1
				case *ssa.UnOp:
					if in.Op == token.NOT {
						switch s.val(in.X) {
						case triTrue:
							s.set(envKey{in, 0}, triFalse)
						case triFalse:
							s.set(envKey{in, 0}, triTrue)
						default:
							s.set(envKey{in, 0}, triUnknown)
						}
					} else {
						s.set(envKey{in, 0}, triUnknown)
					}
				case *ssa.BinOp:
					a, b := s.val(in.X), s.val(in.Y)
					t := triUnknown
					if a != triUnknown && b != triUnknown && (in.Op == token.EQL || in.Op == token.NEQ) {
						t = triFalse
						if (a == b) == (in.Op == token.EQL) {
							t = triTrue
						}
					}
					s.set(envKey{in, 0}, t)
				case *ssa.ChangeType:
					s.set(envKey{in, 0}, s.val(in.X))
				case *ssa.Extract:
					s.set(envKey{in, 0}, s.env[envKey{in.Tuple, in.Index + 1}])
				case *ssa.Store:
					if z.isVisitor(c, in.Val) {
						if al, ok := in.Addr.(*ssa.Alloc); !ok || onlyStore(al) == nil {
							z.fail(c, in.Pos(), "undecided: the visitor is stored away")
						}
					}
				case *ssa.Call:
					for _, ns := range z.call(c, s, in, calls) {
						step(ns, i+1)
					}
					return
				case *ssa.Go, *ssa.Defer:
					cc := in.(ssa.CallInstruction).Common()
					if z.touches(c, cc) {
						z.fail(c, in.Pos(), "undecided: the visitor is called later or in another goroutine")
					}
				case *ssa.If:
					for k, want := range []tri{triTrue, triFalse} {
						t := s.val(in.Cond)
						if t != triUnknown && t != want {
							continue
						}
						ns := s.clone()
						ns.learn(in.Cond, want)
						ns.prev, ns.b = s.b, s.b.Succs[k]
						push(ns)
					}
					return
				case *ssa.Jump:
					ns := s.clone()
					ns.prev, ns.b = s.b, s.b.Succs[0]
					push(ns)
					return
				case *ssa.Return:
					var rs []string
					for _, v := range in.Results {
						rs = append(rs, fmt.Sprint(s.val(v)))
						if z.isVisitor(c, v) {
							z.fail(c, in.Pos(), "undecided: the visitor is returned")
						}
					}
					add(stopOut{s.told, strings.Join(rs, ",")})
					return
				case *ssa.Panic:
					return
				case ssa.Value:
					s.set(envKey{in, 0}, triUnknown)
					switch in := in.(type) {
					case *ssa.MakeInterface:
						if z.isVisitor(c, in.X) {
							z.fail(c, in.Pos(), "undecided: the visitor is turned into an interface value")
						}
					}
				}
			}
		}
		step(s.clone(), 0)
	}
}

// learn: the condition came out as t.
func (s stopState) learn(v ssa.Value, t tri) {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
		s.learn(u.X, triTrue+triFalse-t)
	}
	if !trackable(v) {
		return
	}
	s.set(envKey{v, 0}, t)
}

// trackable: only conditions that can be looked at again.
func trackable(v ssa.Value) bool {
	n := 0
	if r := v.Referrers(); r != nil {
		for _, u := range *r {
			if _, ok := u.(*ssa.DebugRef); !ok {
				n++
			}
		}
	}
	return n > 1
}

func (z *stopper) touches(c stopCtx, cc *ssa.CallCommon) bool {
	if z.isVisitor(c, cc.Value) {
		return true
	}
	for _, a := range cc.Args {
		if z.isVisitor(c, a) {
			return true
		}
		if f := closureOf(a); f != nil && f.Parent() != nil && z.mayCall(c, f) {
			return true
		}
	}
	if f := closureOf(cc.Value); f != nil && f.Parent() != nil && z.mayCall(c, f) {
		return true
	}
	return false
}

func (z *stopper) mayCall(c stopCtx, f *ssa.Function) bool {
	return z.sum(stopCtx{f, c.vis}).calls
}

func (z *stopper) call(c stopCtx, s stopState, in *ssa.Call, calls func()) []stopState {
	cc := &in.Call
	set := func(told bool, ret string) stopState {
		ns := s.clone()
		ns.told = told
		for i, t := range strings.Split(ret, ",") {
			k := envKey{in, i + 1}
			if in.Call.Signature().Results().Len() == 1 {
				k.i = 0
			}
			v := triUnknown
			switch t {
			case "1":
				v = triTrue
			case "2":
				v = triFalse
			case "3":
				v = triNil
			}
			ns.set(k, v)
		}
		return ns
	}
	plain := []stopState{set(s.told, "")}
	if z.isVisitor(c, cc.Value) {
		calls()
		z.r.Count("visitor call sites walked", 1)
		if s.told {
			z.fail(c, in.Pos(), "the visitor is called again after it returned false")
			return nil
		}
		return []stopState{set(false, "1"), set(true, "2")}
	}
	if cc.IsInvoke() {
		for _, a := range cc.Args {
			if z.isVisitor(c, a) || closureOf(a) != nil && closureOf(a).Parent() != nil && z.mayCall(c, closureOf(a)) {
				z.fail(c, in.Pos(), "undecided: the visitor is handed to an interface method")
			}
		}
		return plain
	}
	var fn *ssa.Function
	nc := stopCtx{vis: map[*ssa.Parameter]bool{}}
	if f := cc.StaticCallee(); f != nil {
		fn = f
	} else if f := closureOf(cc.Value); f != nil {
		fn = f
	}
	if fn != nil && fn.Origin() != nil {
		fn = fn.Origin()
	}
	handed := false
	if fn != nil && fn.Parent() != nil {
		for p := range c.vis {
			nc.vis[p] = true
		}
		handed = true
	}
	for i, a := range cc.Args {
		given := z.isVisitor(c, a)
		if f := closureOf(a); !given && f != nil && f.Parent() != nil {
			w := z.sum(stopCtx{f, c.vis})
			if w.calls {
				given = true
				for o := range w.outs {
					if o.told && o.ret != "2" {
						z.fail(c, in.Pos(), "a function that calls the visitor is handed on, and it does not return false when the visitor did")
					}
				}
			}
		}
		if given {
			if fn == nil || len(fn.Blocks) == 0 || !z.p.inModule(fn) {
				z.fail(c, in.Pos(), "undecided: the visitor is handed to %s", cc.Value)
				return plain
			}
			nc.vis[fn.Params[i]] = true
			handed = true
		}
	}
	if !handed || fn == nil {
		return plain
	}
	nc.fn = fn
	sum := z.sum(nc)
	if !sum.calls && fn.Parent() != nil && len(sum.outs) > 0 {
		return plain
	}
	if sum.calls {
		calls()
		if s.told {
			z.fail(c, in.Pos(), "the visitor may be called again, by %s, after it returned false", z.p.fname(fn))
			return nil
		}
	}
	var out []stopState
	for o := range sum.outs {
		out = append(out, set(s.told || o.told, o.ret))
	}
	return out
}

func init() {
	checks["C22"] = func(p *Prog, r *Result) {
		r.Rule("path-sensitive typestate \"the visitor has returned false\" over every function that is handed a visitor, with summaries for helpers, recursion and closures (may it call the visitor; which results does it return when told to stop): no path calls the visitor again")
		r.Assumption("two visitors handed to one operation, and a visitor that itself starts another traversal, are not considered")
		for _, f := range p.Funcs {
			if f.Parent() != nil || !token.IsExported(f.Name()) {
				continue
			}
			for _, pa := range f.Params {
				if !strings.HasPrefix(typeKey(pa.Type()), "utils/visitor.") {
					continue
				}
				r.Count("traversals", 1)
				r.Sample(p.fname(f))
				z := &stopper{p: p, r: r, sums: map[string]*stopSum{}, ctxs: map[string]stopCtx{}, bad: map[string]bool{}, root: p.fname(f)}
				c := stopCtx{f, map[*ssa.Parameter]bool{pa: true}}
				z.sum(c)
				for z.ch = true; z.ch; {
					z.ch = false
					for _, k := range sortedKeys(z.ctxs) {
						z.run(z.ctxs[k])
					}
				}
				z.last = true
				for _, k := range sortedKeys(z.ctxs) {
					z.run(z.ctxs[k])
				}
				r.Count("functions", len(z.ctxs))
				if !z.sums[c.key()].calls {
					r.Fail("stop", p.fname(f), p.Pos(f.Pos()), "the visitor is never called")
				}
			}
		}
		r.Need("traversals", 9)
		r.Need("visitor call sites walked", 9)
	}
}

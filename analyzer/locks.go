package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lock typestate: every exported operation of a type that owns a Locker is walked
// path-sensitively; functions that perform lock operations are inlined, the others are
// represented by their effect summaries.

type closureVal struct {
	fn   *ssa.Function
	free []aval
}

type aval struct {
	path  string
	clo   *closureVal
	roots rset
}

type sect struct {
	n        int  // critical sections in which guarded state was touched
	touched  bool // the current one touched it
	everOpen int
}

type lockState struct {
	held map[string]int // lock path -> 1 read, 2 write
	sec  map[string]sect
}

func (st *lockState) clone() *lockState {
	n := &lockState{map[string]int{}, map[string]sect{}}
	for k, v := range st.held {
		n.held[k] = v
	}
	for k, v := range st.sec {
		n.sec[k] = v
	}
	return n
}

func (st *lockState) key() string {
	var ks []string
	for k, v := range st.held {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v))
	}
	for k, v := range st.sec {
		ks = append(ks, fmt.Sprintf("%s#%v", k, v))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

type deferredCall struct {
	in *ssa.Defer
	fr *lframe
}

type lframe struct {
	fn     *ssa.Function
	sum    *Summary
	env    map[ssa.Value]aval
	memo   map[ssa.Value][]aval
	caller *lframe
	// deferred calls pending at the call in the caller (for panic unwinding)
	callerDefers []deferredCall
	depth        int
}

type lexit struct {
	st  *lockState
	res []aval
}

type LockReport struct {
	Findings []Finding // Rule prefixed by class: "coverage:", "release:", "atomic:"
	Entries  []string
	Accesses int
	LockOps  int
	Paths    int
	PanicPts int
}

type lockWalker struct {
	p     *Prog
	rep   *LockReport
	entry string
	guard map[string]string // entry root -> lock path
	seen  map[string]bool
	steps int
	ops   map[ssa.Instruction]bool
	accs  map[ssa.Instruction]bool
}

// lockerField returns the name of the Locker-typed field of a module struct type.
func lockerField(n *types.Named) string {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if isLockerType(st.Field(i).Type()) {
			return st.Field(i).Name()
		}
	}
	return ""
}

// lockable lists the module types that own a Locker and guard other state with it.
func (p *Prog) lockable() []*types.Named {
	var out []*types.Named
	var rels []string
	for r := range p.Pkgs {
		rels = append(rels, r)
	}
	sort.Strings(rels)
	for _, rel := range rels {
		for _, name := range p.TPkgs[rel].Scope().Names() {
			tn, ok := p.TPkgs[rel].Scope().Lookup(name).(*types.TypeName)
			if !ok {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok || lockerField(n) == "" || n.NumMethods() == 0 {
				continue
			}
			out = append(out, n)
		}
	}
	return out
}

func (w *lockWalker) fail(class, construct, pos, format string, a ...any) {
	k := class + "|" + construct
	if w.seen[k] {
		return
	}
	w.seen[k] = true
	w.rep.Findings = append(w.rep.Findings, Finding{class, construct, pos, fmt.Sprintf(format, a...)})
}

func (p *Prog) Locks() *LockReport {
	p.Summaries()
	w := &lockWalker{p: p, rep: &LockReport{}, seen: map[string]bool{}, ops: map[ssa.Instruction]bool{}, accs: map[ssa.Instruction]bool{}}
	lock := map[string]string{}
	for _, n := range p.lockable() {
		lock[typeKey(n)] = lockerField(n)
	}
	for _, f := range p.Funcs {
		if f.Parent() != nil || !token.IsExported(f.Name()) {
			continue
		}
		w.guard = map[string]string{}
		env := map[ssa.Value]aval{}
		for i, pa := range f.Params {
			name := fmt.Sprintf("arg%d", i)
			if i == 0 && f.Signature.Recv() != nil {
				name = "recv"
			}
			av := aval{path: name}
			if lf := lock[typeKey(pa.Type())]; lf != "" {
				av.roots = rset{name: true}
				w.guard[name] = name + "." + lf
			}
			env[pa] = av
		}
		if len(w.guard) == 0 {
			continue
		}
		w.entry = p.fname(f)
		w.rep.Entries = append(w.rep.Entries, w.entry)
		fr := &lframe{fn: f, sum: p.sums[f], env: env, memo: map[ssa.Value][]aval{}}
		w.steps = 0
		for _, ex := range w.walk(fr, &lockState{map[string]int{}, map[string]sect{}}) {
			w.rep.Paths++
			for l := range ex.st.held {
				w.fail("release", w.entry+":"+l, p.Pos(f.Pos()), "%s can return while still holding %s", w.entry, l)
			}
		}
	}
	w.rep.LockOps = len(w.ops)
	w.rep.Accesses = len(w.accs)
	sort.Strings(w.rep.Entries)
	return w.rep
}

func (fr *lframe) eval(v ssa.Value) aval {
	a := fr.eval0(v, 0)
	if a.roots == nil {
		a.roots = fr.mapRoots(fr.sum.roots(v))
	}
	return a
}

func (fr *lframe) mapRoots(r rset) rset {
	out := rset{}
	for k := range r {
		var i int
		switch {
		case strings.HasPrefix(k, "p"):
			fmt.Sscanf(k, "p%d", &i)
			out.add(fr.env[fr.fn.Params[i]].roots)
		case strings.HasPrefix(k, "f"):
			fmt.Sscanf(k, "f%d", &i)
			out.add(fr.env[fr.fn.FreeVars[i]].roots)
		}
	}
	return out
}

func (fr *lframe) eval0(v ssa.Value, d int) aval {
	if d > 40 {
		return aval{path: "?"}
	}
	switch v := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		return fr.env[v]
	case *ssa.FieldAddr:
		b := fr.eval0(v.X, d+1)
		return aval{path: b.path + "." + fieldName(v.X.Type(), v.Field)}
	case *ssa.Field:
		b := fr.eval0(v.X, d+1)
		return aval{path: b.path + "." + fieldName(v.X.Type(), v.Field)}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return fr.eval0(v.X, d+1)
		}
	case *ssa.Alloc:
		var sole *ssa.Store
		n := 0
		for _, r := range *v.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == v {
				sole = s
				n++
			}
		}
		if n == 1 {
			return fr.eval0(sole.Val, d+1)
		}
		return aval{path: fmt.Sprintf("new%d.%s", fr.depth, v.Name())}
	case *ssa.MakeClosure:
		c := &closureVal{fn: origin(v.Fn.(*ssa.Function))}
		for _, b := range v.Bindings {
			c.free = append(c.free, fr.eval(b))
		}
		return aval{path: "closure", clo: c}
	case *ssa.Function:
		return aval{path: "func", clo: &closureVal{fn: origin(v)}}
	case *ssa.ChangeType:
		return fr.eval0(v.X, d+1)
	case *ssa.ChangeInterface:
		return fr.eval0(v.X, d+1)
	case *ssa.MakeInterface:
		return fr.eval0(v.X, d+1)
	case *ssa.TypeAssert:
		return fr.eval0(v.X, d+1)
	case *ssa.Global:
		return aval{path: "global." + v.Name()}
	case *ssa.Phi:
		var r aval
		for i, e := range v.Edges {
			if e == v {
				continue
			}
			x := fr.eval0(e, d+1)
			if i == 0 || r.path == "" {
				r = x
			} else if x.path != r.path {
				return aval{path: "?"}
			}
		}
		return r
	case *ssa.Call:
		if m := fr.memo[v]; len(m) > 0 {
			return m[0]
		}
		return aval{path: fmt.Sprintf("call%d.%s", fr.depth, v.Name())}
	case *ssa.Extract:
		if m := fr.memo[v.Tuple]; v.Index < len(m) {
			return m[v.Index]
		}
	}
	return aval{path: "?"}
}

func (w *lockWalker) lockOp(fr *lframe, st *lockState, op string, lv ssa.Value, in ssa.Instruction) {
	w.ops[in] = true
	id := fr.eval(lv).path
	pos := w.p.Pos(in.Pos())
	if strings.Contains(id, "?") {
		w.fail("release", w.entry+":unresolved-lock", pos, "cannot resolve which lock %s operates on", op)
		return
	}
	cur := st.held[id]
	switch op {
	case "Lock", "RLock":
		if cur != 0 {
			w.fail("release", w.entry+":"+id+":reacquire", pos, "%s acquires %s while already holding it (self-deadlock)", w.entry, id)
		}
		for h := range st.held {
			if h == id {
				continue
			}
			owner := h[:strings.LastIndex(h, ".")]
			if !strings.HasPrefix(id, owner+".") {
				w.fail("release", w.entry+":"+id+":order", pos, "%s acquires %s while holding %s: two goroutines calling it with the operands exchanged deadlock, and so does one call on a container and itself", w.entry, id, h)
			}
		}
		m := 1
		if op == "Lock" {
			m = 2
		}
		st.held[id] = m
		s := st.sec[id]
		s.touched = false
		if s.everOpen < 2 {
			s.everOpen++
		}
		st.sec[id] = s
	case "Unlock", "RUnlock":
		want := 2
		if op == "RUnlock" {
			want = 1
		}
		if cur == 0 {
			w.fail("release", w.entry+":"+id+":notheld", pos, "%s releases %s, which it does not hold on this path", w.entry, id)
		} else if cur != want {
			w.fail("release", w.entry+":"+id+":mode", pos, "%s releases %s with %s although it was acquired in the other mode", w.entry, id, op)
		}
		delete(st.held, id)
		s := st.sec[id]
		s.touched = false
		st.sec[id] = s
	default:
		w.fail("release", w.entry+":"+op, pos, "unsupported lock operation %s", op)
	}
}

func (w *lockWalker) access(fr *lframe, st *lockState, a access, in ssa.Instruction) {
	for r := range fr.mapRoots(a.roots) {
		l := w.guard[r]
		if l == "" {
			continue
		}
		w.accs[in] = true
		m := st.held[l]
		what := "reads"
		if a.write {
			what = "writes"
		}
		if m == 0 {
			w.fail("coverage", w.entry+":"+r+":"+what, w.p.Pos(in.Pos()), "%s %s shared state of %s without holding %s (%s, in %s)", w.entry, what, r, l, a.desc, w.p.fname(fr.fn))
			continue
		}
		if a.write && m == 1 {
			w.fail("coverage", w.entry+":"+r+":write-under-read-lock", w.p.Pos(in.Pos()), "%s writes shared state of %s while holding %s only for reading (%s, in %s)", w.entry, r, l, a.desc, w.p.fname(fr.fn))
		}
		s := st.sec[l]
		if !s.touched {
			s.touched = true
			s.n++
			if s.n == 2 {
				w.fail("atomic", w.entry+":"+r, w.p.Pos(in.Pos()), "%s touches the state of %s in two separate critical sections of %s: another operation can run in between", w.entry, r, l)
				s.n = 1
			}
			st.sec[l] = s
		}
	}
}

func (w *lockWalker) panicPoint(fr *lframe, st *lockState, defers []deferredCall, in ssa.Instruction, why string) {
	if len(st.held) == 0 {
		return
	}
	w.rep.PanicPts++
	states := []*lockState{st.clone()}
	f := fr
	ds := defers
	for f != nil {
		for i := len(ds) - 1; i >= 0; i-- {
			var next []*lockState
			for _, s := range states {
				next = append(next, w.runDeferred(ds[i], s)...)
			}
			states = next
		}
		ds = f.callerDefers
		f = f.caller
	}
	for _, s := range states {
		for l := range s.held {
			w.fail("release", w.entry+":"+l+":panic", w.p.Pos(in.Pos()), "%s leaves %s locked for ever if %s panics here (%s)", w.entry, l, why, w.p.fname(fr.fn))
		}
	}
}

func (w *lockWalker) runDeferred(d deferredCall, st *lockState) []*lockState {
	c := &d.in.Call
	if op, lv, ok := isLockOp(c); ok {
		w.lockOp(d.fr, st, op, lv, d.in)
		return []*lockState{st}
	}
	exits := w.doCall(d.fr, st, nil, d.in, c)
	var out []*lockState
	for _, e := range exits {
		out = append(out, e.st)
	}
	return out
}

// doCall interprets a call that is not a lock operation; it returns the exit states.
func (w *lockWalker) doCall(fr *lframe, st *lockState, defers []deferredCall, in ssa.Instruction, c *ssa.CallCommon) []lexit {
	if _, ok := c.Value.(*ssa.Builtin); ok {
		for _, a := range fr.sum.callEffects(in, c) {
			w.access(fr, st, a, in)
		}
		return []lexit{{st, nil}}
	}
	var fn *ssa.Function
	var free []aval
	if !c.IsInvoke() {
		if f := callee(c); f != nil {
			fn = f
			if mc, ok := c.Value.(*ssa.MakeClosure); ok {
				for _, b := range mc.Bindings {
					free = append(free, fr.eval(b))
				}
			}
		} else if cv := fr.eval(c.Value).clo; cv != nil {
			fn = cv.fn
			free = cv.free
		}
	}
	inl := func(fn *ssa.Function, args []aval, free []aval) []lexit {
		if fr.depth > 30 {
			w.fail("release", w.entry+":depth", w.p.Pos(in.Pos()), "call nesting too deep while following lock operations")
			return []lexit{{st, nil}}
		}
		env := map[ssa.Value]aval{}
		for i, pa := range fn.Params {
			if i < len(args) {
				env[pa] = args[i]
			}
		}
		for i, fv := range fn.FreeVars {
			if i < len(free) {
				env[fv] = free[i]
			}
		}
		nf := &lframe{fn: fn, sum: w.p.sums[fn], env: env, memo: map[ssa.Value][]aval{}, caller: fr, callerDefers: defers, depth: fr.depth + 1}
		return w.walk(nf, st)
	}
	if fn != nil && w.p.sums[fn] != nil {
		args := make([]aval, len(c.Args))
		hasClosure := false
		for i, a := range c.Args {
			args[i] = fr.eval(a)
			if args[i].clo != nil && w.p.sums[args[i].clo.fn] != nil {
				hasClosure = true
			}
		}
		_, direct := c.Value.(*ssa.Function)
		if w.p.sums[fn].Touches || !direct && free != nil || w.anyTouches(args) || (hasClosure && w.p.sums[fn].Touches) {
			return inl(fn, args, free)
		}
	} else if c.IsInvoke() {
		for _, f := range w.p.implementations(c) {
			if w.p.sums[f] != nil && w.p.sums[f].Touches {
				w.fail("release", w.entry+":dynamic-lock", w.p.Pos(in.Pos()), "%s makes an interface call that may take a lock (%s)", w.entry, w.p.fname(f))
			}
		}
	}
	for _, a := range fr.sum.callEffects(in, c) {
		w.access(fr, st, a, in)
	}
	// may it panic?
	switch {
	case fn != nil && w.p.sums[fn] != nil:
		if w.p.sums[fn].MayPanic {
			w.panicPoint(fr, st, defers, in, "the call of "+w.p.fname(fn))
		}
	case fn != nil: // external function
	case c.IsInvoke():
		im := w.p.implementations(c)
		for _, f := range im {
			if w.p.sums[f] != nil && w.p.sums[f].MayPanic {
				w.panicPoint(fr, st, defers, in, "the call of "+w.p.fname(f))
			}
		}
	default:
		w.panicPoint(fr, st, defers, in, "the caller-supplied function")
	}
	return []lexit{{st, nil}}
}

func (w *lockWalker) anyTouches(args []aval) bool {
	for _, a := range args {
		if a.clo != nil {
			if s := w.p.sums[a.clo.fn]; s != nil && s.Touches {
				return true
			}
		}
	}
	return false
}

type litem struct {
	b      *ssa.BasicBlock
	i      int
	st     *lockState
	defers []deferredCall
}

func defersKey(ds []deferredCall) string {
	var sb strings.Builder
	for _, d := range ds {
		fmt.Fprintf(&sb, "%d;", d.in.Pos())
	}
	return sb.String()
}

func (w *lockWalker) walk(fr *lframe, st *lockState) []lexit {
	var exits []lexit
	seen := map[string]bool{}
	work := []litem{{fr.fn.Blocks[0], 0, st.clone(), nil}}
	exitSeen := map[string]bool{}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if it.i == 0 {
			k := fmt.Sprintf("%d|%s|%s", it.b.Index, it.st.key(), defersKey(it.defers))
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		w.steps++
		if w.steps > 200000 {
			panic("lock walk: state budget exceeded in " + w.entry)
		}
		st := it.st
		defers := it.defers
		stop := false
		for i := it.i; i < len(it.b.Instrs) && !stop; i++ {
			in := it.b.Instrs[i]
			for _, a := range fr.sum.accesses(in) {
				w.access(fr, st, a, in)
			}
			var exs []lexit
			switch in := in.(type) {
			case *ssa.Call:
				if op, lv, ok := isLockOp(&in.Call); ok {
					w.lockOp(fr, st, op, lv, in)
					continue
				}
				exs = w.doCall(fr, st, defers, in, &in.Call)
				// continue with every exit state of the callee
				for j, e := range exs {
					if len(e.res) > 0 {
						fr.memo[in] = e.res
					}
					if j == 0 {
						st = e.st
					} else {
						work = append(work, litem{it.b, i + 1, e.st, defers})
					}
				}
				if len(exs) == 0 {
					stop = true // never returns
				}
			case *ssa.Go:
				w.fail("release", w.entry+":go", w.p.Pos(in.Pos()), "%s starts a goroutine; the lock typestate of that is not modelled", w.entry)
			case *ssa.Defer:
				nd := append([]deferredCall{}, defers...)
				if len(nd) > 8 {
					w.fail("release", w.entry+":defer-loop", w.p.Pos(in.Pos()), "unbounded deferred calls")
					stop = true
					break
				}
				defers = append(nd, deferredCall{in, fr})
			case *ssa.RunDefers:
				states := []*lockState{st}
				for d := len(defers) - 1; d >= 0; d-- {
					var next []*lockState
					for _, s := range states {
						next = append(next, w.runDeferred(defers[d], s)...)
					}
					states = next
				}
				defers = nil
				for j, s := range states {
					if j == 0 {
						st = s
					} else {
						work = append(work, litem{it.b, i + 1, s, defers})
					}
				}
				if len(states) == 0 {
					stop = true
				}
			case *ssa.TypeAssert:
				if !in.CommaOk {
					w.panicPoint(fr, st, defers, in, "the type assertion")
				}
			case *ssa.Panic:
				w.panicPoint(fr, st, defers, in, "the explicit panic")
				stop = true
			case *ssa.Return:
				var res []aval
				for _, r := range in.Results {
					res = append(res, fr.eval(r))
				}
				k := st.key()
				for _, r := range res {
					k += "|" + r.path
				}
				if !exitSeen[k] {
					exitSeen[k] = true
					exits = append(exits, lexit{st, res})
				}
				stop = true
			}
		}
		if stop {
			continue
		}
		for _, s := range it.b.Succs {
			work = append(work, litem{s, 0, st.clone(), defers})
		}
	}
	return exits
}

func init() {
	run := func(class string, rule string) func(p *Prog, r *Result) {
		return func(p *Prog, r *Result) {
			rep := p.Locks()
			r.Rule(rule)
			r.Count("lockable_types", len(p.lockable()))
			r.Count("operations_walked", len(rep.Entries))
			r.Count("lock_operation_sites", rep.LockOps)
			r.Count("guarded_access_sites", rep.Accesses)
			r.Count("exit_states", rep.Paths)
			r.Count("panic_points_under_lock", rep.PanicPts)
			r.Need("lockable_types", 11)
			r.Need("operations_walked", 95)
			r.Need("guarded_access_sites", 60)
			for _, n := range p.lockable() {
				r.Sample(typeKey(n) + " guarded by ." + lockerField(n))
			}
			for _, e := range rep.Entries {
				r.Sample(e)
			}
			for _, f := range rep.Findings {
				if f.Rule == class {
					r.Fail(f.Rule, f.Construct, f.Pos, "%s", f.Msg)
				}
			}
			r.Assumption("callbacks and comparators supplied by the caller do not reach back into the container they are called from")
			r.Assumption("iterators are documented as not goroutine-safe and are outside the claim")
		}
	}
	checks["C01"] = run("coverage", "every access an exported operation makes (directly or through callees, by interprocedural effect summaries) to memory reachable from a lock-owning operand happens while that operand's own lock is held, in write mode if it writes; fields never written after construction are exempt")
	checks["C02"] = run("release", "path-sensitive lock typestate: released exactly once on every return and on every unwinding of a possible panic, in the acquired mode, never re-acquired while held, never nested with an unrelated container's lock")
	checks["C03"] = run("atomic", "on every path, all accesses an operation makes to one container's guarded state lie in a single critical section of its lock")
}

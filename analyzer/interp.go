package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Outcome of an analysed function: normal return or panic.
type Outcome struct {
	Panic string // "" for a normal return
	Ret   []Value
	Pos   token.Pos
}

// Out is one result of a modelled call.
type Out struct {
	St  *State
	Ret []Value
}

type callCtx struct {
	ip    *Interp
	st    *State
	site  ssa.Instruction
	fn    *ssa.Function // static callee (origin) or nil
	recv  Value         // invoke receiver or function value
	meth  string
	args  []Value
	sig   *types.Signature
	depth int
}

type Interp struct {
	p *Prog
	// Static models statically known callees (return handled=false to inline).
	Static func(c *callCtx) ([]Out, bool)
	// Invoke models interface calls whose receiver is a model object.
	Invoke func(c *callCtx) ([]Out, bool)
	// Unknown models calls of caller-supplied functions.
	Unknown func(c *callCtx) ([]Out, bool)
	// Compare models == on uninterpreted values; nil or no answer forks both ways.
	Compare func(st *State, a, b Value) (VBool, bool)
	End     func(st *State, o Outcome)
	// Fail receives reasons why the analysis is undecided.
	Undecided func(msg string, pos token.Pos)
	K         int // disjuncts with the same skeleton kept at a loop head
	MaxSteps  int
	DropMixed bool // heads forget facts that involve dead symbols
	MaxHeads  int
	MaxDepth  int
	steps     int
	heads     map[string][]*entry
	stop      bool
	nblocks   map[*ssa.BasicBlock]bool
	nfuncs    map[*ssa.Function]bool
	joins     int
	ends      int
	rank      *rankCtx
	bound     []Value // bindings of an analysed closure
	// Strict gives up exactness of 64-bit arithmetic and conversions that may wrap around.
	Strict bool
	work   []*State
	base   []Lin // facts of the initial state
	// OnHead is told about each abstract state kept at a loop head.
	OnHead func(st *State)
	// AtHead may generalise a state that reaches a loop head; Part names the partition
	// of abstract states it is joined in.
	Terms   bool // operations on uninterpreted values are terms
	JoinAll bool // states are joined wherever paths meet
	NoSums  bool // joins do not look for new inequalities over sums
	AtHead  func(st *State)
	Part    func(st *State) string
	Cands   func(st *State) []Lin
}

func newInterp(p *Prog) *Interp {
	return &Interp{p: p, K: 1, MaxSteps: 400000, MaxHeads: 24, MaxDepth: 24, heads: map[string][]*entry{},
		nblocks: map[*ssa.BasicBlock]bool{}, nfuncs: map[*ssa.Function]bool{}}
}

type regNum struct {
	idx map[ssa.Value]int
	n   int
}

var numCache = map[*ssa.Function]*regNum{}

func numbering(f *ssa.Function) *regNum {
	if r, ok := numCache[f]; ok {
		return r
	}
	r := &regNum{idx: map[ssa.Value]int{}}
	put := func(v ssa.Value) { r.idx[v] = r.n; r.n++ }
	for _, p := range f.Params {
		put(p)
	}
	for _, p := range f.FreeVars {
		put(p)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				put(v)
			}
		}
	}
	numCache[f] = r
	return r
}

func newFrame(f *ssa.Function, args, bind []Value, site ssa.Instruction) *Frame {
	r := numbering(f)
	fr := &Frame{fn: f, regs: make([]Value, r.n), block: f.Blocks[0], site: site}
	for i, p := range f.Params {
		if i < len(args) {
			fr.regs[r.idx[p]] = args[i]
		}
	}
	for i, p := range f.FreeVars {
		if i < len(bind) {
			fr.regs[r.idx[p]] = bind[i]
		}
	}
	return fr
}

// NewState starts an empty state.
func (ip *Interp) NewState() *State {
	return &State{heap: map[int]*Obj{}, keep: map[string]Value{}, ip: ip}
}

// Analyse runs fn on args from st.
func (ip *Interp) Analyse(fn *ssa.Function, st *State, args []Value) {
	st.ip = ip
	st.frames = []*Frame{newFrame(fn, args, ip.bound, nil)}
	ip.nfuncs[fn] = true
	ip.work = append(ip.work, st)
	ip.base = reduceFacts(append([]Lin(nil), st.facts...))
	for len(ip.work) > 0 && !ip.stop {
		s := ip.work[len(ip.work)-1]
		ip.work = ip.work[:len(ip.work)-1]
		ip.run(s)
	}
	ip.work = nil
}

func (ip *Interp) fail(st *State, msg string, pos token.Pos) {
	if ip.stop {
		return
	}
	ip.stop = true
	if debugOn {
		dbg("undecided: %s at %s\n%s", msg, ip.p.Pos(pos), st.dump())
	}
	ip.Undecided(msg, pos)
}

// run executes one state until it forks, ends or is absorbed at a loop head.
func (ip *Interp) run(s *State) {
	for !ip.stop {
		fr := s.top()
		if fr.pc >= len(fr.block.Instrs) {
			ip.fail(s, "fell off a block", token.NoPos)
			return
		}
		in := fr.block.Instrs[fr.pc]
		ip.steps++
		if ip.steps > ip.MaxSteps {
			ip.fail(s, "the analysis exceeded its step budget", in.Pos())
			return
		}
		if fr.pc == 0 {
			ip.nblocks[fr.block] = true
		}
		var snap *State
		if maySplit(in) {
			snap = s.clone()
		}
		next, cont := ip.guard(s, snap, in)
		if cont {
			continue
		}
		ip.work = append(ip.work, next...)
		return
	}
}

func maySplit(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Jump:
		return len(x.Block().Succs[0].Preds) > 1 || isHead(x.Parent(), x.Block().Succs[0])
	case *ssa.Phi, *ssa.FieldAddr, *ssa.Alloc, *ssa.Extract, *ssa.MakeClosure, *ssa.MakeInterface, *ssa.ChangeType, *ssa.DebugRef:
		return false
	}
	return true
}

// guard executes an instruction and turns splits and panics of the analysed code into states.
func (ip *Interp) guard(s, snap *State, in ssa.Instruction) (next []*State, cont bool) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case splitErr:
			if snap == nil {
				snap = s
			}
			next, cont = nil, false
			for _, c := range []VBool{e.cond, e.cond.not()} {
				next = append(next, snap.assume(c)...)
			}
			if debugOn && len(next) == 0 {
				dbg("infeasible state at %s", ip.p.Pos(in.Pos()))
			}
		case forkErr:
			if snap == nil {
				snap = s
			}
			next, cont = e.states(snap), false
		case goPanicErr:
			if snap != nil {
				s = snap
			}
			next, cont = ip.doPanic(s, e.kind, in.Pos()), false
		case undecidedErr:
			ip.fail(s, e.msg, in.Pos())
			next, cont = nil, false
		default:
			panic(e)
		}
	}()
	return ip.exec(s, in)
}

// doPanic starts unwinding.
func (ip *Interp) doPanic(s *State, kind string, pos token.Pos) []*State {
	s.panicV = kind
	return ip.unwind(s, pos)
}

func (ip *Interp) unwind(s *State, pos token.Pos) []*State {
	for len(s.frames) > 0 {
		fr := s.top()
		if len(fr.defers) > 0 {
			fr.unwind = true
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			outs, pushed := ip.callDeferred(s, d)
			if pushed {
				return []*State{s}
			}
			if len(outs) != 1 || outs[0].St != s {
				giveUp("deferred call forks while panicking")
			}
			continue
		}
		s.frames = s.frames[:len(s.frames)-1]
	}
	if ip.rank != nil {
		return nil
	}
	ip.ends++
	ip.End(s, Outcome{Panic: s.panicV, Pos: pos})
	return nil
}

func (s *State) get(v ssa.Value) Value {
	switch c := v.(type) {
	case *ssa.Const:
		return constVal(c)
	case *ssa.Function:
		return VClo{Fn: origin(c)}
	case *ssa.Global:
		return VTerm{F: "&" + c.Pkg.Pkg.Path() + "." + c.Name()}
	case *ssa.Builtin:
		return VTerm{F: "builtin:" + c.Name()}
	}
	fr := s.top()
	i, ok := numbering(fr.fn).idx[v]
	if !ok || fr.regs[i] == nil {
		giveUp("value %s of %s has no abstract value", v.Name(), fr.fn.Name())
	}
	return fr.regs[i]
}

func (s *State) set(v ssa.Value, x Value) {
	fr := s.top()
	fr.regs[numbering(fr.fn).idx[v]] = x
}

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return boolV(constant.BoolVal(c.Value))
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger == 0 {
			return VTerm{F: "const:" + c.Value.ExactString()}
		}
		if n, ok := constant.Int64Val(c.Value); ok {
			return Kv(n)
		}
		return I(S(termSym("const:"+c.Value.ExactString(), c.Value.ExactString())))
	case constant.String:
		return VTerm{F: `"` + constant.StringVal(c.Value)}
	}
	return VTerm{F: "const:" + c.Value.ExactString()}
}

func isUnsigned(t types.Type) bool {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isInteger(t types.Type) bool {
	if isTypeParam(t) {
		return false
	}
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isBool(t types.Type) bool {
	if isTypeParam(t) {
		return false
	}
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// opaque returns an unconstrained value of a type.
func (s *State) opaque(t types.Type, name string) Value {
	switch {
	case isInteger(t):
		y := newSym(name)
		if isUnsigned(t) {
			s.addFact(S(y))
		}
		return I(S(y))
	case isBool(t):
		y := newSym(name)
		s.addFact(S(y))
		s.addFact(K(1).sub(S(y)))
		return condGE(S(y).addk(-1))
	}
	if tt, ok := t.(*types.Tuple); ok {
		var e []Value
		for i := 0; i < tt.Len(); i++ {
			e = append(e, s.opaque(tt.At(i).Type(), name))
		}
		return VTuple{e}
	}
	if st := structOf(t); st != nil {
		var f []Value
		for i := 0; i < st.NumFields(); i++ {
			f = append(f, s.opaque(st.Field(i).Type(), name))
		}
		return VStruct{f}
	}
	return VTop{}
}

func (ip *Interp) exec(s *State, in ssa.Instruction) ([]*State, bool) {
	fr := s.top()
	adv := func() ([]*State, bool) { fr.pc++; return nil, true }
	switch x := in.(type) {
	case *ssa.DebugRef:
		return adv()
	case *ssa.Alloc:
		s.set(x, ip.alloc(s, x.Type().Underlying().(*types.Pointer).Elem(), ip.siteName(x)))
		return adv()
	case *ssa.Phi:
		giveUp("phi outside block entry")
	case *ssa.FieldAddr:
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		s.set(x, fieldAddr(s.get(x.X), st.Field(x.Field).Name()))
		return adv()
	case *ssa.Field:
		v := s.get(x.X)
		switch sv := v.(type) {
		case VStruct:
			s.set(x, sv.F[x.Field])
		default:
			s.set(x, s.opaque(x.Type(), "field"))
		}
		return adv()
	case *ssa.UnOp:
		return ip.unop(s, x)
	case *ssa.BinOp:
		s.set(x, ip.binop(s, x.Op, s.get(x.X), s.get(x.Y), x.X.Type(), x.Type()))
		return adv()
	case *ssa.Store:
		if t, ok := s.get(x.Addr).(VTerm); ok && strings.HasPrefix(t.F, "&") {
			giveUp("store to package variable %s", t.F)
		}
		s.store(s.get(x.Addr), s.get(x.Val), x.Val.Type())
		return adv()
	case *ssa.If:
		v := s.get(x.Cond)
		c, ok := v.(VBool)
		if !ok {
			c = s.opaque(types.Typ[types.Bool], "?").(VBool)
		}
		var out []*State
		for i, cc := range []VBool{c, c.not()} {
			for _, n := range s.assume(cc) {
				n.trace = append(n.trace, x.Cond.Pos())
				if ip.enter(n, fr.block.Succs[i]) {
					out = append(out, n)
				}
			}
		}
		return out, false
	case *ssa.Jump:
		if ip.enter(s, fr.block.Succs[0]) {
			return nil, true
		}
		return nil, false
	case *ssa.Return:
		var rs []Value
		for _, r := range x.Results {
			rs = append(rs, s.get(r))
		}
		return ip.doReturn(s, rs, x.Pos())
	case *ssa.RunDefers:
		if len(fr.defers) == 0 {
			return adv()
		}
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		outs, pushed := ip.callDeferred(s, d)
		if pushed {
			s.frames[len(s.frames)-2].rd = true
			return nil, true
		}
		var ns []*State
		for _, o := range outs {
			ns = append(ns, o.St)
		}
		return ns, false
	case *ssa.Panic:
		panic(goPanicErr{"explicit"})
	case *ssa.Call:
		return ip.call(s, &x.Call, x, x)
	case *ssa.Defer:
		d := deferred{call: &x.Call, site: x}
		for _, a := range x.Call.Args {
			d.args = append(d.args, s.get(a))
		}
		d.fn = s.get(x.Call.Value)
		fr.defers = append(fr.defers, d)
		return adv()
	case *ssa.Extract:
		v := s.get(x.Tuple)
		if t, ok := v.(VTuple); ok {
			s.set(x, t.E[x.Index])
		} else {
			s.set(x, s.opaque(x.Type(), "res"))
		}
		return adv()
	case *ssa.MakeClosure:
		var b []Value
		for _, v := range x.Bindings {
			b = append(b, s.get(v))
		}
		s.set(x, VClo{Fn: origin(x.Fn.(*ssa.Function)), Bind: b})
		return adv()
	case *ssa.MakeInterface:
		v := s.get(x.X)
		if vi, ok := v.(VIface); ok {
			s.set(x, vi)
		} else {
			s.set(x, VIface{Dyn: dynKey(x.X.Type()), V: v})
		}
		return adv()
	case *ssa.ChangeInterface:
		s.set(x, s.get(x.X))
		return adv()
	case *ssa.ChangeType:
		s.set(x, s.get(x.X))
		return adv()
	case *ssa.Convert:
		s.set(x, ip.convert(s, s.get(x.X), x.X.Type(), x.Type()))
		return adv()
	case *ssa.TypeAssert:
		return ip.typeAssert(s, x)
	case *ssa.MakeSlice:
		n := s.intOf(x.Len)
		c := s.intOf(x.Cap)
		if !s.need(condGE(n)) || !s.need(condGE(c.sub(n))) {
			panic(goPanicErr{"makeslice"})
		}
		et := x.Type().Underlying().(*types.Slice).Elem()
		a := s.newArr(ip.siteName(x), c)
		s.zeroArr(a, et, K(0), c)
		s.set(x, VSlice{a, K(0), n, c})
		return adv()
	case *ssa.Slice:
		s.set(x, ip.slice(s, x))
		return adv()
	case *ssa.IndexAddr:
		base := s.get(x.X)
		i := s.intOf(x.Index)
		switch b := base.(type) {
		case VSlice:
			if !s.need(condGE(i)) || !s.need(condGE(b.Len.sub(i).addk(-1))) {
				panic(goPanicErr{"index out of range"})
			}
			s.set(x, VElem{b.Arr, b.Off.add(i), ""})
		case VPtr:
			o := s.heap[b.Obj]
			if o == nil || !o.IsArr {
				giveUp("index of a non-array")
			}
			if !s.need(condGE(i)) || !s.need(condGE(o.Len.sub(i).addk(-1))) {
				panic(goPanicErr{"index out of range"})
			}
			s.set(x, VElem{b.Obj, i, ""})
		case VNil:
			panic(goPanicErr{"nil dereference"})
		default:
			giveUp("index of %s", showVal(base))
		}
		return adv()
	case *ssa.Index:
		s.set(x, s.opaque(x.Type(), "index"))
		return adv()
	}
	giveUp("unsupported instruction %T", in)
	return nil, false
}

func (s *State) zeroArr(a int, et types.Type, lo, hi Lin) {
	z := zeroOf(et)
	s.scatter(et, "", z, func(p string, v Value) {
		s.mut(a).Cols[p] = []Seg{{lo, hi, v}}
	})
}

func (ip *Interp) siteName(v ssa.Instruction) string {
	return fmt.Sprintf("%s@%d", ip.p.fname(v.Parent()), indexOf(v))
}

func indexOf(v ssa.Instruction) int {
	k := 0
	for _, b := range v.Parent().Blocks {
		for _, i := range b.Instrs {
			k++
			if i == v {
				return k
			}
		}
	}
	return 0
}

func (ip *Interp) alloc(s *State, t types.Type, site string) Value {
	if at, ok := t.Underlying().(*types.Array); ok && !isTypeParam(t) {
		a := s.newArr(site, K(at.Len()))
		s.zeroArr(a, at.Elem(), K(0), K(at.Len()))
		return VPtr{a, ""}
	}
	id := s.newObj(site)
	s.scatter(t, "", zeroOf(t), func(p string, v Value) { s.heap[id].Cells[p] = v })
	return VPtr{id, ""}
}

func fieldAddr(b Value, name string) Value {
	switch a := b.(type) {
	case VPtr:
		return VPtr{a.Obj, a.Path + "." + name}
	case VElem:
		return VElem{a.Arr, a.Idx, a.Path + "." + name}
	case VNil:
		panic(goPanicErr{"nil dereference"})
	}
	giveUp("field address of %s", showVal(b))
	return nil
}

func (s *State) intOf(v ssa.Value) Lin {
	x, ok := s.get(v).(VInt)
	if !ok {
		giveUp("%s is not a tracked integer (%s)", v.Name(), showVal(s.get(v)))
	}
	return x.L
}

func dynKey(t types.Type) string {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		return "*" + dynKey(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return typeKey(n)
	}
	return t.String()
}

// enter moves the top frame to block b: phis are evaluated, loop heads are joined.
// It reports whether the state continues.
func (ip *Interp) enter(s *State, b *ssa.BasicBlock) bool {
	fr := s.top()
	fr.prev = fr.block
	pi := -1
	for i, p := range b.Preds {
		if p == fr.block {
			pi = i
		}
	}
	var phis []*ssa.Phi
	var vals []Value
	n := 0
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		if liveAt(fr.fn, b)[ph] || usedIn(ph) {
			phis = append(phis, ph)
			vals = append(vals, s.get(ph.Edges[pi]))
		}
	}
	for i, ph := range phis {
		s.set(ph, vals[i])
	}
	fr.block = b
	fr.pc = n
	if ip.rank != nil && !ip.rank.inLoop(s) {
		return false
	}
	if isHead(fr.fn, b) || ip.JoinAll && len(b.Preds) > 1 && (len(s.frames) > 1 || len(b.Succs) > 0) {
		return ip.atHead(s)
	}
	return true
}

func usedIn(v *ssa.Phi) bool { return v.Referrers() != nil && len(*v.Referrers()) > 0 }

func (ip *Interp) doReturn(s *State, rs []Value, pos token.Pos) ([]*State, bool) {
	fr := s.top()
	site := fr.site
	s.frames = s.frames[:len(s.frames)-1]
	if ip.rank != nil && !ip.rank.inLoop(s) {
		return nil, false
	}
	if len(s.frames) == 0 {
		ip.ends++
		ip.End(s, Outcome{Ret: rs, Pos: pos})
		return nil, false
	}
	below := s.top()
	if below.unwind && s.panicV != "" {
		return ip.unwind(s, pos), false
	}
	if below.rd {
		below.rd = false
		return nil, true // re-execute RunDefers
	}
	if site == nil {
		giveUp("return to an unknown call")
	}
	ip.bind(s, site, rs)
	s.top().pc++
	return nil, true
}

func (ip *Interp) bind(s *State, site ssa.Instruction, rs []Value) {
	v, ok := site.(ssa.Value)
	if !ok {
		return
	}
	switch len(rs) {
	case 0:
	case 1:
		s.set(v, rs[0])
	default:
		s.set(v, VTuple{rs})
	}
}

func (ip *Interp) callDeferred(s *State, d deferred) (outs []Out, pushed bool) {
	c := &callCtx{ip: ip, st: s, site: d.site, args: d.args, sig: d.call.Signature(), depth: len(s.frames)}
	return ip.dispatch(c, d.call, d.fn)
}

// call executes a call instruction.
func (ip *Interp) call(s *State, cc *ssa.CallCommon, site ssa.Instruction, res ssa.Value) ([]*State, bool) {
	c := &callCtx{ip: ip, st: s, site: site, sig: cc.Signature(), depth: len(s.frames)}
	for _, a := range cc.Args {
		c.args = append(c.args, s.get(a))
	}
	outs, pushed := ip.dispatch(c, cc, s.get(cc.Value))
	if pushed {
		return nil, true
	}
	var ns []*State
	for _, o := range outs {
		ip.bind(o.St, site, o.Ret)
		o.St.top().pc++
		ns = append(ns, o.St)
	}
	if len(ns) == 1 && ns[0] == s {
		return nil, true
	}
	return ns, false
}

func (ip *Interp) push(s *State, f *ssa.Function, args, bind []Value, site ssa.Instruction) {
	if len(s.frames) >= ip.MaxDepth {
		giveUp("call depth exceeded in %s", ip.p.fname(f))
	}
	n := 0
	for _, fr := range s.frames {
		if fr.fn == f {
			n++
		}
	}
	if n > 1 {
		giveUp("recursion in %s is not summarised", ip.p.fname(f))
	}
	ip.nfuncs[f] = true
	s.frames = append(s.frames, newFrame(f, args, bind, site))
}

func (ip *Interp) dispatch(c *callCtx, cc *ssa.CallCommon, fv Value) (outs []Out, pushed bool) {
	s := c.st
	if cc.IsInvoke() {
		c.recv, c.meth = fv, cc.Method.Name()
		switch r := fv.(type) {
		case VNil:
			panic(goPanicErr{"nil dereference"})
		case VIface:
			if strings.HasPrefix(r.Dyn, "model:") {
				if ip.Invoke != nil {
					if o, ok := ip.Invoke(c); ok {
						return o, false
					}
				}
				giveUp("call of %s on %s", c.meth, r.Dyn)
			}
			f := ip.methodOf(r.Dyn, c.meth)
			if f == nil {
				giveUp("no method %s on %s", c.meth, r.Dyn)
			}
			recv := r.V
			if strings.HasPrefix(r.Dyn, "*") && f.Signature.Recv() != nil {
				if _, isPtr := f.Signature.Recv().Type().(*types.Pointer); !isPtr {
					recv = s.load(r.V, f.Signature.Recv().Type())
				}
			}
			c.fn, c.args = f, append([]Value{recv}, c.args...)
			return ip.callFn(c, nil)
		}
		if ip.Invoke != nil {
			if o, ok := ip.Invoke(c); ok {
				return o, false
			}
		}
		giveUp("interface call %s on %s", c.meth, showVal(fv))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return []Out{{s, []Value{ip.builtin(c, b.Name(), cc)}}}, false
	}
	switch f := fv.(type) {
	case VClo:
		c.fn = f.Fn
		return ip.callFn(c, f.Bind)
	case VUnk:
		c.recv = fv
		if ip.Unknown != nil {
			if o, ok := ip.Unknown(c); ok {
				return o, false
			}
		}
		giveUp("call of caller-supplied function %s", f.Name)
	case VNil:
		panic(goPanicErr{"nil dereference"})
	}
	giveUp("call of %s", showVal(fv))
	return
}

func (ip *Interp) callFn(c *callCtx, bind []Value) ([]Out, bool) {
	if ip.Static != nil {
		if o, ok := ip.Static(c); ok {
			return o, false
		}
	}
	f := c.fn
	if len(f.Blocks) == 0 || !ip.p.inModule(f) {
		if w := ip.wrapperTarget(f); w != nil {
			c.fn = w
			return ip.callFn(c, bind)
		}
		return []Out{{c.st, ip.external(c)}}, false
	}
	ip.push(c.st, f, c.args, bind, c.site)
	return nil, true
}

func (ip *Interp) wrapperTarget(f *ssa.Function) *ssa.Function { return nil }

// external models functions outside the module: results are unconstrained, and
// memory reachable from pointer arguments must not be of interest.
func (ip *Interp) external(c *callCtx) []Value {
	rs := c.sig.Results()
	var out []Value
	name := "ext"
	if c.fn != nil {
		name = c.fn.Name()
	}
	for i := 0; i < rs.Len(); i++ {
		out = append(out, c.st.opaque(rs.At(i).Type(), name))
	}
	// cells handed out by address may be overwritten
	pkg := ""
	if c.fn != nil && c.fn.Pkg != nil {
		pkg = c.fn.Pkg.Pkg.Path()
	}
	switch pkg {
	case "fmt", "strings", "sync", "strconv", "errors", "sync/atomic":
		return out
	}
	for _, a := range c.args {
		if i, ok := a.(VIface); ok {
			a = i.V
		}
		if pt, ok := a.(VPtr); ok && c.st.heap[pt.Obj] != nil && !c.st.heap[pt.Obj].IsArr {
			o := c.st.mut(pt.Obj)
			for k, v := range o.Cells {
				if k != pt.Path && !strings.HasPrefix(k, pt.Path+".") {
					continue
				}
				switch v.(type) {
				case VInt:
					o.Cells[k] = I(S(newSym(name)))
				default:
					o.Cells[k] = VTop{}
				}
			}
		}
	}
	return out
}

func (ip *Interp) methodOf(dyn, meth string) *ssa.Function {
	k := strings.TrimPrefix(dyn, "*")
	i := strings.LastIndex(k, ".")
	if i < 0 {
		return nil
	}
	return ip.p.Method(k[:i], k[i+1:], meth)
}

func (ip *Interp) unop(s *State, x *ssa.UnOp) ([]*State, bool) {
	fr := s.top()
	v := s.get(x.X)
	switch x.Op {
	case token.MUL:
		if t, ok := v.(VTerm); ok && strings.HasPrefix(t.F, "&") {
			s.set(x, ip.globalVal(t.F, x.Type()))
		} else {
			s.set(x, s.load(v, x.Type()))
		}
	case token.NOT:
		b, ok := v.(VBool)
		if !ok {
			b = s.opaque(types.Typ[types.Bool], "?").(VBool)
		}
		s.set(x, b.not())
	case token.SUB:
		if n, ok := v.(VInt); ok {
			s.set(x, I(n.L.neg()))
		} else {
			s.set(x, s.opaque(x.Type(), "neg"))
		}
	case token.XOR:
		if isByte(v) {
			var out []Value
			for _, b := range bitsOf(v) {
				out = append(out, bitNot(b))
			}
			if _, hi, b := intRange(x.Type()); !b || hi != 255 {
				giveUp("the complement of a widened byte")
			}
			s.set(x, mkByte(out))
		} else if n, ok := v.(VInt); ok {
			if lo, hi, b := intRange(x.Type()); b && lo == 0 && n.L.isConst() {
				s.set(x, I(K(hi-n.L.c)))
			} else if n.L.isConst() && !isUnsigned(x.Type()) {
				s.set(x, I(K(^n.L.c)))
			} else {
				s.set(x, s.bitTerm("^", n.L, K(0), x.Type()))
			}
		} else {
			giveUp("bit complement of a non-integer")
		}
	default:
		giveUp("unary %s", x.Op)
	}
	fr.pc++
	return nil, true
}

func (ip *Interp) globalVal(name string, t types.Type) Value {
	switch {
	case isInteger(t):
		return I(S(termSym("global:"+name, name[strings.LastIndex(name, ".")+1:])))
	case structOf(t) != nil:
		return zeroOf(t)
	}
	return VTerm{F: "global:" + name}
}

// bitTerm is an uninterpreted bit operation, interned so that equal operands give equal results.
func (s *State) bitTerm(op string, a, b Lin, t types.Type) Value {
	y := termSym(op+"("+a.key()+","+b.key()+")", op)
	if isUnsigned(t) {
		s.addFact(S(y))
	}
	return I(S(y))
}

func (ip *Interp) binop(s *State, op token.Token, a, b Value, t, rt types.Type) Value {
	if r, ok := s.bitsOp(op, a, b, t, rt); ok {
		return r
	}
	switch op {
	case token.EQL, token.NEQ:
		r, done := bTrue, false
		if isFloat(t) && ip.Compare != nil {
			r, done = ip.Compare(s, a, b)
		}
		if !done {
			r = ip.equal(s, a, b)
		}
		if op == token.NEQ {
			return r.not()
		}
		return r
	}
	x, okx := a.(VInt)
	y, oky := b.(VInt)
	if !okx || !oky {
		if rising && op == token.MUL && isFloat(t) {
			return VTerm{F: op.String(), A: []Value{a, b}}
		}
		if ip.Terms && !isBool(rt) {
			if op == token.REM || op == token.QUO {
				if oky && !s.need(condNE(y.L)) {
					panic(goPanicErr{"division by zero"})
				}
			}
			return VTerm{F: op.String(), A: []Value{a, b}}
		}
		if isBool(rt) {
			if ip.Compare != nil {
				if r, ok := ip.Compare(s, VTerm{F: op.String(), A: []Value{a, b}}, nil); ok {
					return r
				}
			}
			return s.opaque(types.Typ[types.Bool], "cmp")
		}
		if isInteger(rt) {
			return s.opaque(rt, "op")
		}
		return VTop{}
	}
	if ip.Strict && !(x.L.isConst() && y.L.isConst()) {
		switch op {
		case token.ADD, token.SUB, token.MUL, token.SHL:
			return s.opaque(rt, "wrapping")
		}
	}
	if isUnsigned(t) {
		hx, hy := isHuge(x.L), isHuge(y.L)
		if hx != hy {
			switch op {
			case token.LSS, token.LEQ:
				return boolV(hy)
			case token.GTR, token.GEQ:
				return boolV(hx)
			}
		}
	}
	switch op {
	case token.LSS:
		return condGE(y.L.sub(x.L).addk(-1))
	case token.LEQ:
		return condGE(y.L.sub(x.L))
	case token.GTR:
		return condGE(x.L.sub(y.L).addk(-1))
	case token.GEQ:
		return condGE(x.L.sub(y.L))
	case token.ADD:
		return I(x.L.add(y.L))
	case token.SUB:
		r := x.L.sub(y.L)
		if isUnsigned(rt) && !s.entails(r) {
			if !s.need(condGE(r)) {
				return s.opaque(rt, "wrapped")
			}
		}
		return I(r)
	case token.MUL:
		if y.L.isConst() {
			return I(x.L.mul(y.L.c))
		}
		if x.L.isConst() {
			return I(y.L.mul(x.L.c))
		}
		return s.bitTerm("*", x.L, y.L, rt)
	case token.QUO:
		return s.div(x.L, y.L, rt)
	case token.REM:
		return s.rem(x.L, y.L, rt)
	case token.SHL:
		if y.L.isConst() && y.L.c >= 0 && y.L.c < 62 {
			if x.L.isConst() {
				c := x.L.c << uint(y.L.c)
				if lo, hi, b := intRange(rt); b && lo == 0 {
					c &= hi
				}
				return I(K(c))
			}
			if _, _, b := intRange(rt); !b || !isUnsigned(rt) {
				return I(x.L.mul(1 << uint(y.L.c)))
			}
		}
		return s.bitTerm("<<", x.L, y.L, rt)
	case token.SHR:
		if y.L.isConst() && y.L.c >= 0 && y.L.c < 62 {
			return s.floorDivC(x.L, 1<<uint(y.L.c))
		}
		return s.bitTerm(">>", x.L, y.L, rt)
	case token.AND:
		if x.L.isConst() && !y.L.isConst() {
			x, y = y, x
		}
		if y.L.isConst() {
			if m := y.L.c + 1; m > 0 && m&(m-1) == 0 && (isUnsigned(rt) || s.entails(x.L)) {
				return s.remC(x.L, m)
			}
		}
		if x.L.isConst() && y.L.isConst() {
			return I(K(x.L.c & y.L.c))
		}
		if x.L.key() > y.L.key() {
			x, y = y, x
		}
		return s.bitTerm("&", x.L, y.L, rt)
	case token.OR, token.XOR:
		if x.L.isConst() && y.L.isConst() {
			if op == token.OR {
				return I(K(x.L.c | y.L.c))
			}
			return I(K(x.L.c ^ y.L.c))
		}
		if x.L.key() > y.L.key() {
			x, y = y, x
		}
		return s.bitTerm(op.String(), x.L, y.L, rt)
	case token.AND_NOT:
		if x.L.isConst() && y.L.isConst() {
			return I(K(x.L.c &^ y.L.c))
		}
		if y.L.isConst() {
			if m := y.L.c + 1; m > 0 && m&(m-1) == 0 && (isUnsigned(rt) || s.entails(x.L)) {
				return I(x.L.sub(s.remC(x.L, m).(VInt).L))
			}
		}
		return s.bitTerm("&^", x.L, y.L, rt)
	}
	giveUp("binary %s", op)
	return nil
}

// hugeSyms stand for unsigned values that came from negative ones.
var hugeSyms = map[Sym]bool{}

func isHuge(l Lin) bool { return len(l.t) == 1 && l.t[0].k == 1 && hugeSyms[l.t[0].s] }

// floorDivC is floor(l/m) for a positive constant.
func (s *State) floorDivC(l Lin, m int64) Value {
	if l.isConst() {
		return I(K(floorDiv(l.c, m)))
	}
	ok := true
	for _, t := range l.t {
		if t.k%m != 0 {
			ok = false
		}
	}
	if ok {
		r := K(floorDiv(l.c, m))
		for _, t := range l.t {
			r = linComb(r, 1, S(t.s), t.k/m)
		}
		return I(r)
	}
	if rising {
		// m*a+b with 0 <= b < m
		a, b := K(0), K(l.c)
		for _, t := range l.t {
			if t.k%m == 0 {
				a = linComb(a, 1, S(t.s), t.k/m)
			} else {
				b = linComb(b, 1, S(t.s), t.k)
			}
		}
		e := floorDiv(b.c, m)
		for _, k := range []int64{0, e, e + 1} {
			if rest := b.addk(-k * m); s.entails(rest) && s.entails(K(m-1).sub(rest)) {
				return I(a.addk(k))
			}
		}
	}
	q := termSym(fmt.Sprintf("div(%s,%d)", l.key(), m), "q")
	if rising {
		// floor(g*e/m) is not less than floor(g/m)*e
		g := int64(0)
		for _, t := range l.t {
			for a, b := g, max(t.k, -t.k); ; a, b = b, a%b {
				if b == 0 {
					g = a
					break
				}
			}
		}
		e := K(floorDiv(l.c, g))
		for _, t := range l.t {
			e = linComb(e, 1, S(t.s), t.k/g)
		}
		if g >= m && s.entails(e) {
			s.addFact(S(q).sub(e.mul(g / m)))
		}
	}
	s.addFact(l.sub(S(q).mul(m)))
	s.addFact(S(q).mul(m).addk(m - 1).sub(l))
	return I(S(q))
}

func (s *State) div(a, b Lin, rt types.Type) Value {
	if !s.need(condNE(b)) {
		panic(goPanicErr{"division by zero"})
	}
	if b.isConst() && b.c > 0 {
		if s.need(condGE(a)) {
			return s.floorDivC(a, b.c)
		}
		q := s.floorDivC(a.neg(), b.c).(VInt)
		return I(q.L.neg())
	}
	return s.bitTerm("/", a, b, rt)
}

func (s *State) remC(a Lin, m int64) Value {
	if a.isConst() {
		return I(K(((a.c % m) + m) % m))
	}
	if s.entails(a) && s.entails(K(m-1).sub(a)) {
		return I(a)
	}
	q := s.floorDivC(a, m).(VInt)
	return I(a.sub(q.L.mul(m)))
}

func (s *State) rem(a, b Lin, rt types.Type) Value {
	if !s.need(condNE(b)) {
		panic(goPanicErr{"division by zero"})
	}
	if a.isConst() && b.isConst() {
		return I(K(a.c % b.c))
	}
	// common ring-buffer cases: 0<=a<b and b<=a<2b
	if s.decide(condGE(a)) == 1 {
		if s.decide(condGE(b.sub(a).addk(-1))) == 1 {
			return I(a)
		}
		if s.decide(condGE(b.mul(2).sub(a).addk(-1))) == 1 {
			if s.need(condGE(b.sub(a).addk(-1))) {
				return I(a)
			}
			return I(a.sub(b))
		}
		if b.isConst() && b.c > 0 {
			return s.remC(a, b.c)
		}
	}
	if isUnsigned(rt) || s.decide(condGE(a)) == 1 {
		y := termSym("rem("+a.key()+","+b.key()+")", "r")
		s.addFact(S(y))
		if s.decide(condGE(b.addk(-1))) == 1 {
			s.addFact(b.sub(S(y)).addk(-1))
		}
		return I(S(y))
	}
	if s.need(condGE(a)) {
		return s.rem(a, b, rt)
	}
	y := newSym("negrem")
	s.addFact(S(y).neg())
	return I(S(y))
}

func (ip *Interp) equal(s *State, a, b Value) VBool {
	if r, ok := s.lazyEq(a, b); ok {
		return r
	}
	switch x := a.(type) {
	case VInt:
		if y, ok := b.(VInt); ok {
			return condEQ(x.L.sub(y.L))
		}
	case VBool:
		if y, ok := b.(VBool); ok {
			if y.Op == 'T' {
				return x
			}
			if y.Op == 'F' {
				return x.not()
			}
			if x.Op == 'T' {
				return y
			}
			if x.Op == 'F' {
				return y.not()
			}
			return boolV(s.need(x) == s.need(y))
		}
	case VNil:
		switch y := b.(type) {
		case VNil:
			return bTrue
		case VPtr, VElem, VClo, VUnk, VIface:
			return bFalse
		case VSlice:
			if y.Arr == 0 {
				return bTrue
			}
			return bFalse
		case VTerm:
			if strings.HasPrefix(y.F, "global:") {
				return bFalse
			}
		}
	case VPtr:
		switch y := b.(type) {
		case VPtr:
			return boolV(x == y)
		case VNil, VElem:
			return bFalse
		}
	case VElem:
		switch y := b.(type) {
		case VElem:
			if x.Arr != y.Arr || x.Path != y.Path {
				return bFalse
			}
			return condEQ(x.Idx.sub(y.Idx))
		case VNil, VPtr:
			return bFalse
		}
	case VSlice:
		if _, ok := b.(VNil); ok {
			return ip.equal(s, b, a)
		}
		if y, ok := b.(VSlice); ok && y.Arr == 0 {
			return boolV(x.Arr == 0)
		}
	case VIface:
		switch y := b.(type) {
		case VNil:
			return bFalse
		case VIface:
			if x.Dyn != y.Dyn {
				return bFalse
			}
			return ip.equal(s, x.V, y.V)
		}
	case VStruct:
		if y, ok := b.(VStruct); ok && len(x.F) == len(y.F) {
			for i := range x.F {
				if !s.need(ip.equal(s, x.F[i], y.F[i])) {
					return bFalse
				}
			}
			return bTrue
		}
	case VTerm, VClo, VUnk:
		if _, ok := b.(VNil); ok {
			return ip.equal(s, b, a)
		}
		if tx, ok := a.(VTerm); ok {
			if ty, ok := b.(VTerm); ok {
				if valEq(a, b) {
					return bTrue
				}
				if strings.HasPrefix(tx.F, `"`) && strings.HasPrefix(ty.F, `"`) {
					return boolV(tx.F == ty.F)
				}
			}
		}
	}
	if ip.Compare != nil {
		if r, ok := ip.Compare(s, a, b); ok {
			return r
		}
	}
	return s.opaque(types.Typ[types.Bool], "eq").(VBool)
}

func (ip *Interp) convert(s *State, v Value, from, to types.Type) Value {
	if isTypeParam(from) || isTypeParam(to) {
		return VTop{}
	}
	if rising && isInteger(from) && isFloat(to) {
		return VTerm{F: "float", A: []Value{v}}
	}
	if isInteger(to) {
		if t, ok := v.(VTerm); ok && rising && t.F == "*" && len(t.A) == 2 {
			if r, ok := s.scaled(t); ok {
				return r
			}
		}
		if isByte(v) {
			if lo, hi, b := intRange(to); b && (lo != 0 || hi < 255) {
				giveUp("a byte as a signed number")
			}
			return v
		}
		x, ok := v.(VInt)
		if !ok {
			if _, t := v.(VTerm); t && ip.Terms {
				if _, _, b := intRange(to); !b && isUnsigned(from) == isUnsigned(to) {
					return v
				}
				return VTerm{F: "conv:" + to.String(), A: []Value{v}}
			}
			return s.opaque(to, "conv")
		}
		lo, hi, bounded := intRange(to)
		if ip.Strict && !bounded && isUnsigned(from) != isUnsigned(to) {
			if _, _, fb := intRange(from); !fb && !x.L.isConst() {
				return s.opaque(to, "wrapping")
			}
		}
		if !isUnsigned(to) && !bounded {
			return x
		}
		if isUnsigned(to) && !bounded {
			if isUnsigned(from) || s.decide(condGE(x.L)) == 1 {
				return x
			}
			if s.need(condGE(x.L)) {
				return x
			}
			// a negative value becomes larger than every size
			y := newSym("huge")
			hugeSyms[y] = true
			s.addFact(S(y))
			return I(S(y))
		}
		if s.decide(condGE(x.L.addk(-lo))) == 1 && s.decide(condGE(K(hi).sub(x.L))) == 1 {
			return x
		}
		if lo == 0 && (isUnsigned(from) || s.decide(condGE(x.L)) == 1) {
			return s.remC(x.L, hi+1)
		}
		return s.opaque(to, "conv")
	}
	if b, ok := v.(VTerm); ok {
		// string(bytes), []byte(string): uninterpreted
		return VTerm{F: "conv", A: []Value{b}}
	}
	return s.opaque(to, "conv")
}

func isFloat(t types.Type) bool {
	if isTypeParam(t) {
		return false
	}
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}

func intRange(t types.Type) (lo, hi int64, bounded bool) {
	b := types.Unalias(t).Underlying().(*types.Basic)
	switch b.Kind() {
	case types.Int8:
		return -128, 127, true
	case types.Int16:
		return -1 << 15, 1<<15 - 1, true
	case types.Int32:
		return -1 << 31, 1<<31 - 1, true
	case types.Uint8:
		return 0, 255, true
	case types.Uint16:
		return 0, 1<<16 - 1, true
	case types.Uint32:
		return 0, 1<<32 - 1, true
	}
	return 0, 0, false
}

func (ip *Interp) typeAssert(s *State, x *ssa.TypeAssert) ([]*State, bool) {
	v := s.get(x.X)
	fr := s.top()
	ok := false
	var res Value = VNil{}
	switch y := v.(type) {
	case VIface:
		if types.IsInterface(x.AssertedType) && !isTypeParam(x.AssertedType) {
			ok = ip.implements(y.Dyn, x.AssertedType)
			res = y
		} else {
			ok = y.Dyn == dynKey(x.AssertedType)
			res = y.V
		}
	case VNil:
	default:
		giveUp("type assertion on %s", showVal(v))
	}
	if x.CommaOk {
		if !ok {
			res = zeroOf(x.AssertedType)
		}
		s.set(x, VTuple{[]Value{res, boolV(ok)}})
	} else {
		if !ok {
			panic(goPanicErr{"failed type assertion"})
		}
		s.set(x, res)
	}
	fr.pc++
	return nil, true
}

func (ip *Interp) implements(dyn string, it types.Type) bool {
	if strings.HasPrefix(dyn, "model:") {
		return true
	}
	i, _ := it.Underlying().(*types.Interface)
	for k := 0; k < i.NumMethods(); k++ {
		if ip.methodOf(dyn, i.Method(k).Name()) == nil {
			return false
		}
	}
	return true
}

func (ip *Interp) slice(s *State, x *ssa.Slice) Value {
	v := s.get(x.X)
	var b VSlice
	switch y := v.(type) {
	case VSlice:
		b = y
	case VPtr:
		o := s.heap[y.Obj]
		if o == nil || !o.IsArr {
			giveUp("slice of a non-array")
		}
		b = VSlice{y.Obj, K(0), o.Len, o.Len}
	case VNil:
		b = VSlice{0, K(0), K(0), K(0)}
	case VTerm, VTop:
		return s.opaque(x.Type(), "substr")
	default:
		giveUp("slice of %s", showVal(v))
	}
	lo, hi, mx := K(0), b.Len, b.Cap
	if x.Low != nil {
		lo = s.intOf(x.Low)
	}
	if x.High != nil {
		hi = s.intOf(x.High)
	}
	if x.Max != nil {
		mx = s.intOf(x.Max)
	}
	if !s.need(condGE(lo)) || !s.need(condGE(hi.sub(lo))) || !s.need(condGE(mx.sub(hi))) || !s.need(condGE(b.Cap.sub(mx))) {
		panic(goPanicErr{"slice bounds out of range"})
	}
	return VSlice{b.Arr, b.Off.add(lo), hi.sub(lo), mx.sub(lo)}
}

func (ip *Interp) builtin(c *callCtx, name string, cc *ssa.CallCommon) Value {
	s := c.st
	switch name {
	case "len", "cap":
		switch x := c.args[0].(type) {
		case VSlice:
			if name == "len" {
				return I(x.Len)
			}
			return I(x.Cap)
		case VNil:
			return Kv(0)
		}
		y := newSym(name)
		s.addFact(S(y))
		return I(S(y))
	case "append":
		dst, ok := asSlice(c.args[0])
		if !ok {
			return VTop{}
		}
		src, ok := asSlice(c.args[1])
		if !ok {
			giveUp("append of %s", showVal(c.args[1]))
		}
		return s.appendTo(dst, src, ip.siteName(c.site), cc.Args[0].Type())
	case "copy":
		dst, ok1 := asSlice(c.args[0])
		src, ok2 := asSlice(c.args[1])
		if !ok1 || !ok2 {
			giveUp("copy of %s", showVal(c.args[1]))
		}
		n := dst.Len
		if !s.need(condGE(src.Len.sub(dst.Len))) {
			n = src.Len
		}
		if s.need(condGE(n.addk(-1))) {
			s.copyRange(dst.Arr, dst.Off, src.Arr, src.Off, n)
		}
		return I(n)
	case "real", "imag":
		return VTerm{F: name, A: []Value{c.args[0]}}
	case "ssa:wrapnilchk":
		return c.args[0]
	case "print", "println":
		return VNil{}
	case "min", "max":
		r := c.args[0].(VInt).L
		for _, a := range c.args[1:] {
			y := a.(VInt).L
			if s.need(condGE(y.sub(r))) == (name == "max") {
				r = y
			}
		}
		return I(r)
	case "clear":
		if x, ok := c.args[0].(VSlice); ok {
			et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			if s.need(condGE(x.Len.addk(-1))) {
				s.scatter(et, "", zeroOf(et), func(p string, v Value) { s.arrFill(x.Arr, p, x.Off, x.Off.add(x.Len), v) })
			}
			return VNil{}
		}
	}
	giveUp("builtin %s", name)
	return nil
}

func asSlice(v Value) (VSlice, bool) {
	switch x := v.(type) {
	case VSlice:
		return x, true
	case VNil:
		return VSlice{0, K(0), K(0), K(0)}, true
	}
	return VSlice{}, false
}

func (s *State) appendTo(dst, src VSlice, site string, t types.Type) Value {
	nl := dst.Len.add(src.Len)
	if !s.need(condGE(src.Len.addk(-1))) {
		return dst
	}
	if dst.Arr != 0 && s.need(condGE(dst.Cap.sub(nl))) {
		s.copyRange(dst.Arr, dst.Off.add(dst.Len), src.Arr, src.Off, src.Len)
		return VSlice{dst.Arr, dst.Off, nl, dst.Cap}
	}
	c := newSym("cap")
	s.addFact(S(c).sub(nl))
	s.addFact(S(c).addk(-1))
	a := s.newArr(site, S(c))
	if st, ok := t.Underlying().(*types.Slice); ok {
		s.zeroArr(a, st.Elem(), K(0), S(c))
	}
	if dst.Arr != 0 && s.need(condGE(dst.Len.addk(-1))) {
		s.copyRange(a, K(0), dst.Arr, dst.Off, dst.Len)
	}
	s.copyRange(a, dst.Len, src.Arr, src.Off, src.Len)
	return VSlice{a, K(0), nl, S(c)}
}

// scaled is int(float64(x)*c) for a constant c between 1 and 2 and x >= 0: not less than x nor more than 2x.
func (s *State) scaled(t VTerm) (Value, bool) {
	for i := range t.A {
		f, ok1 := t.A[i].(VTerm)
		c, ok2 := t.A[1-i].(VTerm)
		if !ok1 || !ok2 || f.F != "float" || len(f.A) != 1 || !strings.HasPrefix(c.F, "const:") {
			continue
		}
		x, ok := f.A[0].(VInt)
		k := constant.ToFloat(constant.MakeFromLiteral(c.F[6:], token.FLOAT, 0))
		if n, d, found := strings.Cut(c.F[6:], "/"); found {
			k = constant.BinaryOp(constant.ToFloat(constant.MakeFromLiteral(n, token.INT, 0)), token.QUO, constant.ToFloat(constant.MakeFromLiteral(d, token.INT, 0)))
		}
		v, _ := constant.Float64Val(k)
		if !ok || v < 1 || v > 2 || !s.entails(x.L) {
			continue
		}
		y := newSym("scaled")
		s.addFact(S(y).sub(x.L))
		s.addFact(x.L.mul(2).sub(S(y)))
		return I(S(y)), true
	}
	return nil, false
}

package main

// Engine B: abstract interpretation of the repository's SSA over the product of a
// linear-inequality domain (lin.go), a shape domain (heap objects, struct-of-array
// node sequences) and segment-wise array contents. This file: values and states.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type VInt struct{ L Lin }

// VBool is a condition: Op 'T','F' constants, '>' L>=0, '=' L==0, '!' L!=0.
type VBool struct {
	Op byte
	L  Lin
}
type VNil struct{}
type VPtr struct {
	Obj  int
	Path string
}

// VElem is the address of (a part of) element Idx of an array object.
type VElem struct {
	Arr  int
	Idx  Lin
	Path string
}

// VTerm is an uninterpreted value: elements, keys, strings, errors.
type VTerm struct {
	F string
	A []Value
}
type VStruct struct{ F []Value }
type VTuple struct{ E []Value }
type VClo struct {
	Fn   *ssa.Function
	Bind []Value
}

// VUnk is a caller-supplied function.
type VUnk struct{ Name string }
type VIface struct {
	Dyn string
	V   Value
}
type VSlice struct {
	Arr           int
	Off, Len, Cap Lin
}
type VTop struct{}

// VBound is a method value or builtin deferred for later.
type deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
	site ssa.Instruction
}

var iotaSym = newSym("ι")

func I(l Lin) VInt                 { return VInt{l} }
func Kv(c int64) VInt              { return VInt{K(c)} }
func T(f string, a ...Value) VTerm { return VTerm{f, a} }

var bTrue, bFalse = VBool{Op: 'T'}, VBool{Op: 'F'}

func boolV(b bool) VBool {
	if b {
		return bTrue
	}
	return bFalse
}

func condGE(l Lin) VBool {
	if l.isConst() {
		return boolV(l.c >= 0)
	}
	return VBool{'>', l.norm()}
}
func condEQ(l Lin) VBool {
	if l.isConst() {
		return boolV(l.c == 0)
	}
	return VBool{'=', l}
}
func condNE(l Lin) VBool {
	if l.isConst() {
		return boolV(l.c != 0)
	}
	return VBool{'!', l}
}
func (b VBool) not() VBool {
	switch b.Op {
	case 'T':
		return bFalse
	case 'F':
		return bTrue
	case '>':
		return condGE(b.L.neg().addk(-1))
	case '=':
		return condNE(b.L)
	}
	return condEQ(b.L)
}

// Seg says that elements lo..hi-1 of a column hold V, where the symbol ι stands for the index.
type Seg struct {
	Lo, Hi Lin
	V      Value
}

// Obj is a heap object: named cells, or (IsArr) a sequence of elements in columns.
type Obj struct {
	Site  string
	Cells map[string]Value
	IsArr bool
	Len   Lin
	Cols  map[string][]Seg
}

func (o *Obj) clone() *Obj {
	n := *o
	if o.Cells != nil {
		n.Cells = make(map[string]Value, len(o.Cells))
		for k, v := range o.Cells {
			n.Cells[k] = v
		}
	}
	if o.Cols != nil {
		n.Cols = make(map[string][]Seg, len(o.Cols))
		for k, v := range o.Cols {
			n.Cols[k] = v
		}
	}
	return &n
}

type Frame struct {
	fn     *ssa.Function
	regs   []Value
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	site   ssa.Instruction // the call in the frame below, nil at the bottom or for deferred calls
	defers []deferred
	unwind bool // running defers because of a panic
	ret    []Value
	rd     bool // inside RunDefers
}

type State struct {
	frames []*Frame
	heap   map[int]*Obj
	facts  []Lin
	keep   map[string]Value // roots for the specification
	trace  []token.Pos
	panicV string
	dead   bool
	ip     *Interp
}

var objCount int

func (s *State) clone() *State {
	n := &State{facts: s.facts[:len(s.facts):len(s.facts)], trace: s.trace[:len(s.trace):len(s.trace)], panicV: s.panicV, ip: s.ip}
	n.frames = make([]*Frame, len(s.frames))
	copy(n.frames, s.frames)
	for i := range n.frames {
		f := *n.frames[i]
		f.regs = append([]Value(nil), f.regs...)
		f.defers = f.defers[:len(f.defers):len(f.defers)]
		n.frames[i] = &f
	}
	n.heap = make(map[int]*Obj, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.keep = make(map[string]Value, len(s.keep))
	for k, v := range s.keep {
		n.keep[k] = v
	}
	return n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) newObj(site string) int {
	objCount++
	s.heap[objCount] = &Obj{Site: site, Cells: map[string]Value{}}
	return objCount
}

func (s *State) newArr(site string, n Lin) int {
	objCount++
	s.heap[objCount] = &Obj{Site: site, IsArr: true, Len: n, Cols: map[string][]Seg{}}
	return objCount
}

func (s *State) mut(id int) *Obj {
	o := s.heap[id].clone()
	s.heap[id] = o
	return o
}

// ---- facts

// split is raised (as a Go panic) when an operation needs a condition decided;
// the interpreter forks the state and re-executes the instruction.
type splitErr struct{ cond VBool }

// forkErr is raised when a case distinction over shapes is needed; each alternative changes
// the state before the instruction and says whether the case is possible.
type forkErr struct{ alts []func(*State) bool }

func (e forkErr) states(s *State) (out []*State) {
	for _, f := range e.alts {
		if c := s.clone(); f(c) {
			out = append(out, c)
		}
	}
	return
}

// undecided is raised when the analysis cannot follow the code.
type undecidedErr struct {
	msg string
}

func giveUp(f string, a ...any) { panic(undecidedErr{fmt.Sprintf(f, a...)}) }

// goPanic is raised when the analysed code panics at this instruction.
type goPanicErr struct{ kind string }

func (s *State) entails(l Lin) bool {
	if l.isConst() {
		return l.c >= 0
	}
	q := l.neg().addk(-1)
	return cachedInfeasible(s.facts, q)
}

func (s *State) feasibleWith(l Lin) bool {
	if l.isConst() {
		return l.c >= 0
	}
	return !cachedInfeasible(s.facts, l)
}

func (s *State) entailsEq(l Lin) bool {
	if l.isConst() {
		return l.c == 0
	}
	return s.entails(l) && s.entails(l.neg())
}

var infCache = map[string]bool{}

// deadline bounds the analysis of one operation; past it the operation is undecided.
var deadline, allDeadline time.Time

var jobTime = 60 * time.Second

const allTime = 780 * time.Second

func setDeadline() {
	now := time.Now()
	if allDeadline.IsZero() {
		allDeadline = now.Add(allTime)
	}
	deadline = now.Add(jobTime)
	if deadline.After(allDeadline) {
		deadline = allDeadline
	}
}

func cachedInfeasible(facts []Lin, q Lin) bool {
	rel := relevant(facts, q)
	keys := make([]string, 0, len(rel)+1)
	for _, l := range rel {
		keys = append(keys, l.key())
	}
	sort.Strings(keys)
	k := strings.Join(keys, ";") + "|" + q.key()
	if r, ok := infCache[k]; ok {
		return r
	}
	if !deadline.IsZero() && time.Now().After(deadline) {
		giveUp("the analysis ran out of time")
	}
	if len(infCache) > 400000 {
		infCache = map[string]bool{}
	}
	r := infeasible(append(rel, q))
	infCache[k] = r
	return r
}

// addFact adds l>=0 and reports whether the state stays feasible.
func (s *State) addFact(l Lin) bool {
	if l.isConst() {
		return l.c >= 0
	}
	l = l.norm()
	if s.entails(l) {
		return true
	}
	if !s.feasibleWith(l) {
		return false
	}
	// drop facts made redundant by the new one with the same linear part
	nf := make([]Lin, 0, len(s.facts)+1)
	lk := Lin{t: l.t}.key()
	for _, f := range s.facts {
		if len(f.t) == len(l.t) && (Lin{t: f.t}).key() == lk && f.c >= l.c {
			continue
		}
		nf = append(nf, f)
	}
	s.facts = append(nf, l)
	return true
}

// assume returns the states in which c holds (an inequation L!=0 needs two).
func (s *State) assume(c VBool) []*State {
	switch c.Op {
	case 'T':
		return []*State{s}
	case 'F':
		return nil
	case '>':
		n := s.clone()
		if n.addFact(c.L) {
			return []*State{n}
		}
		return nil
	case '=':
		n := s.clone()
		if n.addFact(c.L) && n.addFact(c.L.neg()) {
			return []*State{n}
		}
		return nil
	}
	var out []*State
	for _, l := range []Lin{c.L.addk(-1), c.L.neg().addk(-1)} {
		n := s.clone()
		if n.addFact(l) {
			out = append(out, n)
		}
	}
	return out
}

// decide: 1 holds, 0 does not hold, -1 unknown.
func (s *State) decide(c VBool) int {
	switch c.Op {
	case 'T':
		return 1
	case 'F':
		return 0
	case '>':
		if s.entails(c.L) {
			return 1
		}
		if s.entails(c.L.neg().addk(-1)) {
			return 0
		}
	case '=':
		if s.entailsEq(c.L) {
			return 1
		}
		if s.entails(c.L.addk(-1)) || s.entails(c.L.neg().addk(-1)) {
			return 0
		}
	case '!':
		if r := s.decide(VBool{'=', c.L}); r >= 0 {
			return 1 - r
		}
	}
	return -1
}

// need decides c, splitting the state when it is open.
func (s *State) need(c VBool) bool {
	switch s.decide(c) {
	case 1:
		return true
	case 0:
		return false
	}
	panic(splitErr{c})
}

// ---- value helpers

func substVal(v Value, m map[Sym]Lin) Value {
	switch x := v.(type) {
	case VInt:
		return VInt{x.L.subst(m)}
	case VBool:
		if x.Op == 'T' || x.Op == 'F' {
			return x
		}
		l := x.L.subst(m)
		switch x.Op {
		case '>':
			return condGE(l)
		case '=':
			return condEQ(l)
		}
		return condNE(l)
	case VElem:
		return VElem{x.Arr, x.Idx.subst(m), x.Path}
	case VTerm:
		if len(x.A) == 0 {
			return x
		}
		return VTerm{x.F, substVals(x.A, m)}
	case VStruct:
		return VStruct{substVals(x.F, m)}
	case VTuple:
		return VTuple{substVals(x.E, m)}
	case VClo:
		return VClo{x.Fn, substVals(x.Bind, m)}
	case VIface:
		return VIface{x.Dyn, substVal(x.V, m)}
	case VSlice:
		return VSlice{x.Arr, x.Off.subst(m), x.Len.subst(m), x.Cap.subst(m)}
	}
	return v
}

func substVals(vs []Value, m map[Sym]Lin) []Value {
	out := make([]Value, len(vs))
	for i, v := range vs {
		out[i] = substVal(v, m)
	}
	return out
}

func at(v Value, idx Lin) Value { return substVal(v, map[Sym]Lin{iotaSym: idx}) }

func showVal(v Value) string {
	switch x := v.(type) {
	case nil:
		return "-"
	case VInt:
		return x.L.String()
	case VBool:
		switch x.Op {
		case 'T':
			return "true"
		case 'F':
			return "false"
		case '>':
			return x.L.String() + ">=0"
		case '=':
			return x.L.String() + "==0"
		}
		return x.L.String() + "!=0"
	case VNil:
		return "nil"
	case VPtr:
		return fmt.Sprintf("&o%d%s", x.Obj, x.Path)
	case VElem:
		return fmt.Sprintf("&a%d[%s]%s", x.Arr, x.Idx, x.Path)
	case VTerm:
		if len(x.A) == 0 {
			return x.F
		}
		return x.F + "(" + showVals(x.A) + ")"
	case VStruct:
		return "{" + showVals(x.F) + "}"
	case VTuple:
		return "(" + showVals(x.E) + ")"
	case VClo:
		return "closure " + x.Fn.Name()
	case VUnk:
		return "func " + x.Name
	case VIface:
		return x.Dyn + ":" + showVal(x.V)
	case VSlice:
		return fmt.Sprintf("a%d[%s:+%s:%s]", x.Arr, x.Off, x.Len, x.Cap)
	case VTop:
		return "?"
	}
	return fmt.Sprintf("%T", v)
}

func showVals(vs []Value) string {
	var p []string
	for _, v := range vs {
		p = append(p, showVal(v))
	}
	return strings.Join(p, ",")
}

func (s *State) showObj(id int) string {
	o := s.heap[id]
	if o == nil {
		return "?"
	}
	var b strings.Builder
	if o.IsArr {
		fmt.Fprintf(&b, "a%d(%s) len %s", id, o.Site, o.Len)
		for _, c := range sortedKeys(o.Cols) {
			fmt.Fprintf(&b, " %s:", c)
			for _, g := range o.Cols[c] {
				fmt.Fprintf(&b, " [%s,%s)↦%s", g.Lo, g.Hi, showVal(g.V))
			}
		}
		return b.String()
	}
	fmt.Fprintf(&b, "o%d(%s)", id, o.Site)
	for _, c := range sortedKeys(o.Cells) {
		fmt.Fprintf(&b, " %s=%s", c, showVal(o.Cells[c]))
	}
	return b.String()
}

func (s *State) dump() string {
	var b strings.Builder
	for k, v := range s.keep {
		fmt.Fprintf(&b, "  %s = %s\n", k, showVal(v))
	}
	ids := []int{}
	for id := range s.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		fmt.Fprintf(&b, "  %s\n", s.showObj(id))
	}
	for _, f := range s.facts {
		fmt.Fprintf(&b, "  %s >= 0\n", f)
	}
	for _, f := range s.frames {
		fmt.Fprintf(&b, "  frame %s block %d pc %d\n", f.fn.Name(), f.block.Index, f.pc)
		for v, i := range numbering(f.fn).idx {
			if f.regs[i] != nil {
				fmt.Fprintf(&b, "     %s = %s\n", v.Name(), showVal(f.regs[i]))
			}
		}
	}
	return b.String()
}

// ---- memory

// leaves lists the leaf paths below a type (structs are split, everything else is a leaf).
func leaves(t types.Type) []string {
	st := structOf(t)
	if st == nil {
		return []string{""}
	}
	var out []string
	for i := 0; i < st.NumFields(); i++ {
		for _, l := range leaves(st.Field(i).Type()) {
			out = append(out, "."+st.Field(i).Name()+l)
		}
	}
	return out
}

func structOf(t types.Type) *types.Struct {
	t = types.Unalias(t)
	if _, ok := t.(*types.TypeParam); ok {
		return nil
	}
	st, _ := t.Underlying().(*types.Struct)
	return st
}

func isTypeParam(t types.Type) bool {
	_, ok := types.Unalias(t).(*types.TypeParam)
	return ok
}

func zeroOf(t types.Type) Value {
	t = types.Unalias(t)
	if isTypeParam(t) {
		return T("zero")
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return Kv(0)
		case u.Info()&types.IsBoolean != 0:
			return bFalse
		case u.Info()&types.IsString != 0:
			return T(`"`)
		case u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer:
			return VNil{}
		}
		return T("0.0")
	case *types.Struct:
		var f []Value
		for i := 0; i < u.NumFields(); i++ {
			f = append(f, zeroOf(u.Field(i).Type()))
		}
		return VStruct{f}
	case *types.Slice:
		return VSlice{Arr: 0, Off: K(0), Len: K(0), Cap: K(0)}
	case *types.Array:
		return VTop{}
	case *types.Tuple:
		var f []Value
		for i := 0; i < u.Len(); i++ {
			f = append(f, zeroOf(u.At(i).Type()))
		}
		return VTuple{f}
	}
	return VNil{}
}

// load reads a value of type t from an address.
func (s *State) load(addr Value, t types.Type) Value {
	switch a := addr.(type) {
	case VNil:
		panic(goPanicErr{"nil dereference"})
	case VPtr:
		o := s.heap[a.Obj]
		if o == nil {
			giveUp("load from unknown object")
		}
		if o.IsArr {
			giveUp("whole-array load")
		}
		if lazySite(o.Site) {
			return s.lazyLoad(a)
		}
		return s.assemble(t, a.Path, func(p string, lt types.Type) Value {
			if v, ok := o.Cells[p]; ok {
				return v
			}
			return zeroOf(lt)
		})
	case VElem:
		return s.assemble(t, a.Path, func(p string, lt types.Type) Value { return s.arrGet(a.Arr, p, a.Idx) })
	}
	giveUp("load through %s", showVal(addr))
	return nil
}

func (s *State) assemble(t types.Type, path string, get func(string, types.Type) Value) Value {
	st := structOf(t)
	if st == nil {
		return get(path, t)
	}
	var f []Value
	for i := 0; i < st.NumFields(); i++ {
		f = append(f, s.assemble(st.Field(i).Type(), path+"."+st.Field(i).Name(), get))
	}
	return VStruct{f}
}

func (s *State) store(addr Value, v Value, t types.Type) {
	switch a := addr.(type) {
	case VNil:
		panic(goPanicErr{"nil dereference"})
	case VPtr:
		if o := s.heap[a.Obj]; o != nil && o.IsArr && a.Path == "" && v == Value(VTop{}) {
			for p := range o.Cols {
				s.setCol(a.Obj, p, []Seg{{K(0), o.Len, VTop{}}})
			}
			return
		}
		if s.heap[a.Obj] == nil || s.heap[a.Obj].IsArr {
			giveUp("store to %s", showVal(addr))
		}
		if lazySite(s.heap[a.Obj].Site) && s.lazyStore(a, v) {
			return
		}
		o := s.mut(a.Obj)
		s.scatter(t, a.Path, v, func(p string, lv Value) { o.Cells[p] = lv })
		return
	case VElem:
		s.scatter(t, a.Path, v, func(p string, lv Value) { s.arrSet(a.Arr, p, a.Idx, lv) })
		return
	}
	giveUp("store through %s", showVal(addr))
}

func (s *State) scatter(t types.Type, path string, v Value, put func(string, Value)) {
	st := structOf(t)
	if st == nil {
		put(path, v)
		return
	}
	sv, ok := v.(VStruct)
	for i := 0; i < st.NumFields(); i++ {
		var fv Value = VTop{}
		if ok {
			fv = sv.F[i]
		}
		s.scatter(st.Field(i).Type(), path+"."+st.Field(i).Name(), fv, put)
	}
}

func (s *State) cell(id int, path string) Value {
	o := s.heap[id]
	if o == nil {
		return VTop{}
	}
	return o.Cells[path]
}

func (s *State) setCell(id int, path string, v Value) { s.mut(id).Cells[path] = v }

// ---- array columns

// blind: the content of arrays is of no interest to the current job.
var blind bool

// sloped: values stored in arrays are written over the index where known equalities allow.
var sloped bool

func (s *State) col(arr int, path string) []Seg {
	o := s.heap[arr]
	if o == nil || !o.IsArr {
		giveUp("not an array object")
	}
	c, ok := o.Cols[path]
	if !ok {
		return []Seg{{K(0), o.Len, VTop{}}}
	}
	return c
}

func (s *State) setCol(arr int, path string, segs []Seg) {
	if blind {
		o := s.mut(arr)
		o.Cols[path] = []Seg{{K(0), o.Len, VTop{}}}
		return
	}
	s.mut(arr).Cols[path] = s.normSegs(segs)
}

// arrGet reads element idx (assumed in bounds), splitting on segment boundaries.
func (s *State) arrGet(arr int, path string, idx Lin) Value {
	segs := s.col(arr, path)
	for i, g := range segs {
		if s.decide(condGE(idx.sub(g.Lo))) == 1 && s.decide(condGE(g.Hi.sub(idx).addk(-1))) == 1 {
			return at(g.V, idx)
		}
		_ = i
	}
	// locate by splitting on the boundaries that are open
	for i, g := range segs {
		if i == len(segs)-1 {
			return at(g.V, idx)
		}
		if s.need(condGE(g.Hi.sub(idx).addk(-1))) {
			return at(g.V, idx)
		}
	}
	giveUp("empty array read")
	return nil
}

// cut splits the segment list at position x (so that x is a boundary).
func (s *State) cut(segs []Seg, x Lin) []Seg {
	var out []Seg
	for i, g := range segs {
		if g.Lo.eq(x) || g.Hi.eq(x) && i == len(segs)-1 {
			return segs
		}
		if s.entails(x.sub(g.Lo)) && s.entails(g.Hi.sub(x)) {
			out = append(append(out, segs[:i]...), Seg{g.Lo, x, g.V}, Seg{x, g.Hi, g.V})
			return append(out, segs[i+1:]...)
		}
	}
	for i, g := range segs {
		if g.Lo.eq(x) || g.Hi.eq(x) && i == len(segs)-1 {
			return append(out, segs[i:]...)
		}
		// is x <= g.Lo ?
		if s.need(condGE(g.Lo.sub(x))) {
			// x is at (or, impossible, before) this boundary
			g.Lo = x
			if len(out) > 0 {
				out[len(out)-1].Hi = x
			}
			out = append(out, g)
			return append(out, segs[i+1:]...)
		}
		if s.need(condGE(x.sub(g.Hi))) {
			out = append(out, g)
			continue
		}
		out = append(out, Seg{g.Lo, x, g.V}, Seg{x, g.Hi, g.V})
		return append(out, segs[i+1:]...)
	}
	return out
}

// arrSet stores v at index idx of a column.
func (s *State) arrSet(arr int, path string, idx Lin, v Value) {
	t := overIndex(v, idx)
	if sloped && !idx.isConst() && !hasIota(t) {
		t = mapLins(v, func(l Lin) Lin {
			if l.isConst() || l.coef(iotaSym) != 0 {
				return l
			}
			for _, k := range []int64{1, -1} {
				if d := s.older(l.sub(idx.mul(k))); d.newest() < min(l.newest(), idx.newest()) {
					return d.add(S(iotaSym).mul(k))
				}
			}
			return l
		})
	}
	if x, ok := t.(VTerm); ok && rising && x.F == "el" && len(x.A) == 1 && !hasIota(t) {
		if l, ok := x.A[0].(VInt); ok {
			t = T("el", I(s.older(l.L.sub(idx)).add(S(iotaSym))))
		}
	}
	if x, ok := t.(VElem); ok && rising && x.Idx.coef(iotaSym) == 0 {
		d := s.older(x.Idx.sub(idx))
		for _, c := range risingBy {
			if s.entailsEq(d.sub(c)) {
				d = c
				break
			}
		}
		t = VElem{x.Arr, d.add(S(iotaSym)), x.Path}
	}
	s.arrFill(arr, path, idx, idx.addk(1), t)
}

// rising: elements stored in arrays are always written as el(index+offset).
var rising bool

// risingBy are preferred offsets of pointers to elements.
var risingBy []Lin

// older replaces recent symbols by what the known equalities say they are.
func (s *State) older(d Lin) Lin {
	for n := 0; n < 4 && !d.isConst(); n++ {
		y := d.newest()
		k := d.coef(y)
		found := false
		for i, f := range s.facts {
			c := f.coef(y)
			if c != 1 && c != -1 || f.newest() != y {
				continue
			}
			for _, g := range s.facts[i+1:] {
				if g.eq(f.neg()) {
					d, found = d.sub(f.mul(k*c)), true
					break
				}
			}
			if found {
				break
			}
		}
		if !found {
			break
		}
	}
	return d
}

// overIndex writes a value stored at idx as a template over the index where that is simpler.
func overIndex(v Value, idx Lin) Value {
	if idx.isConst() {
		return v
	}
	return mapLins(v, func(l Lin) Lin {
		if l.isConst() || l.coef(iotaSym) != 0 {
			return l
		}
		for _, k := range []int64{1, -1} {
			d := l.sub(idx.mul(k))
			if d.newest() < l.newest() {
				return d.add(S(iotaSym).mul(k))
			}
		}
		return l
	})
}

// newest is the most recently introduced symbol of a linear form.
func (l Lin) newest() Sym {
	m := Sym(-1)
	for _, t := range l.t {
		m = max(m, t.s)
	}
	return m
}

// mapLins rebuilds a value with its linear leaves mapped.
func mapLins(v Value, f func(Lin) Lin) Value {
	vs := func(a []Value) []Value {
		out := make([]Value, len(a))
		for i := range a {
			out[i] = mapLins(a[i], f)
		}
		return out
	}
	switch x := v.(type) {
	case VInt:
		return VInt{f(x.L)}
	case VElem:
		return VElem{x.Arr, f(x.Idx), x.Path}
	case VTerm:
		if len(x.A) == 0 {
			return x
		}
		return VTerm{x.F, vs(x.A)}
	case VStruct:
		return VStruct{vs(x.F)}
	case VIface:
		return VIface{x.Dyn, mapLins(x.V, f)}
	}
	return v
}

// arrFill stores the template v into [lo,hi).
func (s *State) arrFill(arr int, path string, lo, hi Lin, v Value) {
	if !s.need(condGE(hi.sub(lo).addk(-1))) {
		return
	}
	segs := s.cut(s.cut(append([]Seg(nil), s.col(arr, path)...), lo), hi)
	segs = s.replace(segs, lo, hi, []Seg{{lo, hi, v}})
	s.setCol(arr, path, segs)
}

// replace substitutes the segments between boundaries lo and hi (both present).
func (s *State) replace(segs []Seg, lo, hi Lin, mid []Seg) []Seg {
	var out []Seg
	state := 0
	for _, g := range segs {
		if state == 0 && (g.Lo.eq(lo) || s.decide(condGE(g.Lo.sub(lo))) == 1) {
			state = 1
			out = append(out, mid...)
		}
		if state == 1 {
			if g.Lo.eq(hi) || s.decide(condGE(g.Lo.sub(hi))) == 1 {
				state = 2
			} else {
				continue
			}
		}
		out = append(out, g)
	}
	if state == 0 {
		out = append(out, mid...)
	}
	return out
}

// slice of segments [lo,hi) shifted by d.
func (s *State) segSlice(segs []Seg, lo, hi, d Lin) []Seg {
	segs = s.cut(s.cut(append([]Seg(nil), segs...), lo), hi)
	var out []Seg
	in := false
	for _, g := range segs {
		if !in && (g.Lo.eq(lo) || s.decide(condGE(g.Lo.sub(lo))) == 1) {
			in = true
		}
		if in && (g.Lo.eq(hi) || s.decide(condGE(g.Lo.sub(hi))) == 1) {
			break
		}
		if in {
			out = append(out, Seg{g.Lo.add(d), g.Hi.add(d), at(g.V, S(iotaSym).sub(d))})
		}
	}
	return out
}

// copyRange copies cnt elements (all columns) with memmove semantics.
func (s *State) copyRange(dst int, dlo Lin, src int, slo, cnt Lin) {
	if !s.need(condGE(cnt.addk(-1))) {
		return
	}
	d := dlo.sub(slo)
	type pc struct {
		p    string
		segs []Seg
	}
	var todo []pc
	paths := map[string]bool{}
	for p := range s.heap[src].Cols {
		paths[p] = true
	}
	for p := range s.heap[dst].Cols {
		paths[p] = true
	}
	for _, p := range sortedKeys(paths) {
		mid := s.segSlice(s.col(src, p), slo, slo.add(cnt), d)
		base := s.cut(s.cut(append([]Seg(nil), s.col(dst, p)...), dlo), dlo.add(cnt))
		todo = append(todo, pc{p, s.replace(base, dlo, dlo.add(cnt), mid)})
	}
	for _, t := range todo {
		s.setCol(dst, t.p, t.segs)
	}
}

// normSegs drops empty segments and merges neighbours with the same template.
func (s *State) normSegs(segs []Seg) []Seg {
	var out []Seg
	for _, g := range segs {
		if s.entails(g.Lo.sub(g.Hi)) {
			if len(out) > 0 {
				out[len(out)-1].Hi = g.Hi
			}
			continue
		}
		if n := len(out); n > 0 {
			a := out[n-1]
			if valEq(a.V, g.V) {
				out[n-1].Hi = g.Hi
				continue
			}
			if s.entails(g.Lo.sub(g.Hi).addk(1)) && s.sameVal(at(g.V, g.Lo), at(a.V, g.Lo)) {
				out[n-1].Hi = g.Hi
				continue
			}
			if s.entails(a.Lo.sub(a.Hi).addk(1)) && s.sameVal(at(a.V, a.Lo), at(g.V, a.Lo)) {
				out[n-1] = Seg{a.Lo, g.Hi, g.V}
				continue
			}
		}
		out = append(out, g)
	}
	return out
}

// valEq is syntactic equality.
func valEq(a, b Value) bool {
	switch x := a.(type) {
	case VInt:
		y, ok := b.(VInt)
		return ok && x.L.eq(y.L)
	case VBool:
		y, ok := b.(VBool)
		return ok && x.Op == y.Op && x.L.eq(y.L)
	case VNil:
		_, ok := b.(VNil)
		return ok
	case VTop:
		_, ok := b.(VTop)
		return ok
	case VPtr:
		y, ok := b.(VPtr)
		return ok && x == y
	case VElem:
		y, ok := b.(VElem)
		return ok && x.Arr == y.Arr && x.Path == y.Path && x.Idx.eq(y.Idx)
	case VTerm:
		y, ok := b.(VTerm)
		return ok && x.F == y.F && valsEq(x.A, y.A)
	case VStruct:
		y, ok := b.(VStruct)
		return ok && valsEq(x.F, y.F)
	case VTuple:
		y, ok := b.(VTuple)
		return ok && valsEq(x.E, y.E)
	case VClo:
		y, ok := b.(VClo)
		return ok && x.Fn == y.Fn && valsEq(x.Bind, y.Bind)
	case VUnk:
		y, ok := b.(VUnk)
		return ok && x == y
	case VIface:
		y, ok := b.(VIface)
		return ok && x.Dyn == y.Dyn && valEq(x.V, y.V)
	case VSlice:
		y, ok := b.(VSlice)
		return ok && x.Arr == y.Arr && x.Off.eq(y.Off) && x.Len.eq(y.Len) && x.Cap.eq(y.Cap)
	}
	return a == nil && b == nil
}

func valsEq(a, b []Value) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !valEq(a[i], b[i]) {
			return false
		}
	}
	return true
}

// sameVal is equality entailed by the state's facts.
func (s *State) sameVal(a, b Value) bool {
	switch x := a.(type) {
	case VInt:
		if isByte(b) {
			return s.sameByte(a, b)
		}
		y, ok := b.(VInt)
		return ok && s.entailsEq(x.L.sub(y.L))
	case VBool:
		y, ok := b.(VBool)
		if !ok {
			return false
		}
		da, db := s.decide(x), s.decide(y)
		return da >= 0 && da == db || valEq(a, b)
	case VElem:
		y, ok := b.(VElem)
		return ok && x.Arr == y.Arr && x.Path == y.Path && s.entailsEq(x.Idx.sub(y.Idx))
	case VTerm:
		y, ok := b.(VTerm)
		if ok && x.F == y.F && s.sameVals(x.A, y.A) {
			return true
		}
		return x.F == byteTag && s.sameByte(a, b)
	case VStruct:
		y, ok := b.(VStruct)
		return ok && s.sameVals(x.F, y.F)
	case VTuple:
		y, ok := b.(VTuple)
		return ok && s.sameVals(x.E, y.E)
	case VIface:
		y, ok := b.(VIface)
		return ok && x.Dyn == y.Dyn && s.sameVal(x.V, y.V)
	case VSlice:
		y, ok := b.(VSlice)
		return ok && x.Arr == y.Arr && s.entailsEq(x.Off.sub(y.Off)) && s.entailsEq(x.Len.sub(y.Len))
	case VTop:
		return false
	}
	return valEq(a, b)
}

func (s *State) sameVals(a, b []Value) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !s.sameVal(a[i], b[i]) {
			return false
		}
	}
	return true
}

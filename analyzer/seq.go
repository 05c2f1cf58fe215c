package main

// C11, C12 (random access part), C30: array, vector and slice wrapper.

import (
	"go/token"
)

// seqModel is a container under analysis whose logical content is el(0..n-1).
type seqModel struct {
	rel, typ, iter string // package, type, iterator type
	field          string // container field of the iterator
	data           string // slice field of the container
	id             int    // the container object
	arr            int
	off, n, cap    Lin
	ptr            Value
	ifaceField     bool // the iterator holds the container as an interface
}

func el(i Lin) Value { return T("el", I(i)) }

var elIota = T("el", I(S(iotaSym)))

// newSlice makes a slice object with content el(0..n-1) and spare capacity of unknown content.
func newSliceModel(st *State, name string, elem string) (v VSlice, n Lin) {
	off := st.fresh("off", K(0))
	n = st.fresh("n", K(0))
	c := st.fresh("cap", n)
	size := st.fresh("size", off.add(c))
	arr := st.newArr(name, size)
	st.heap[arr].Cols[""] = st.normSegs([]Seg{{K(0), off, T("junk")}, {off, off.add(n), T(elem, I(S(iotaSym).sub(off)))}, {off.add(n), size, T("junk")}})
	return VSlice{arr, off, n, c}, n
}

func newSeqModel(st *State, rel, typ, iter, field, data string) *seqModel {
	m := &seqModel{rel: rel, typ: typ, iter: iter, field: field, data: data}
	sl, n := newSliceModel(st, typ, "el")
	m.id = st.newObj(typ)
	st.heap[m.id].Cells["."+data] = sl
	m.arr, m.off, m.n, m.cap = sl.Arr, sl.Off, n, sl.Cap
	m.ptr = VPtr{m.id, ""}
	st.keep["c"] = m.ptr
	st.keep["orig"] = sl
	st.keep["n"] = I(n)
	return m
}

// newIterObj makes an iterator of the container at position p.
func (m *seqModel) newIterObj(st *State, name string, p Lin) VPtr {
	o := st.newObj(name)
	var c Value = m.ptr
	if m.ifaceField {
		c = VIface{"*" + m.rel + "." + m.typ, m.ptr}
	}
	st.heap[o].Cells["."+m.field] = c
	st.heap[o].Cells[".position"] = I(p)
	st.keep[name] = VPtr{o, ""}
	return VPtr{o, ""}
}

func (m *seqModel) slice(s *State) VSlice {
	sl, ok := asSlice(s.cell(m.id, "."+m.data))
	if !ok {
		giveUp("the storage of the container is %s", showVal(s.cell(m.id, "."+m.data)))
	}
	return sl
}

// wantSeq requires that the slice holds exactly the given logical sequence.
func (j *Job) wantSeq(s *State, sl VSlice, n Lin, want []Seg, pos token.Pos, what string) bool {
	if !j.mustEq(s, I(sl.Len), I(n), pos, "%s: wrong number of elements", what) {
		return false
	}
	return j.wantCol(s, sl.Arr, "", sl.Off, want, pos, what)
}

// wantCol requires that column p of arr, from off on, matches the templates (over positions relative to off).
func (j *Job) wantCol(s *State, arr int, p string, off Lin, want []Seg, pos token.Pos, what string) bool {
	for _, w := range want {
		if !s.need(condGE(w.Hi.sub(w.Lo).addk(-1))) {
			continue
		}
		if arr == 0 {
			giveUp("%s: no storage", what)
		}
		for _, g := range s.segSlice(s.col(arr, p), off.add(w.Lo), off.add(w.Hi), off.neg()) {
			if !s.need(condGE(g.Hi.sub(g.Lo).addk(-1))) {
				continue
			}
			c := s.clone()
			i := c.freshIn("i", g.Lo, g.Hi.addk(-1))
			if s.entailsEq(g.Hi.sub(g.Lo).addk(-1)) {
				i = g.Lo
			}
			a, b := at(g.V, i), at(w.V, i)
			if !c.sameVal(a, b) {
				if debugOn {
					dbg("%s: column %q at %s\n%s", what, p, i, c.dump())
				}
				j.fail(pos, "%s: element %s is %s, expected %s %s", what, i, showVal(a), showVal(b), j.path(s))
				return false
			}
		}
	}
	return true
}

// caseArgs are the arguments of an operation and the conditions (all of them) under which they are acceptable.
type caseArgs func(st *State, m *seqModel) (args []Value, valid []VBool)

// seqOp describes one operation of a sequence container.
type seqOp struct {
	name string
	args caseArgs
	// panics: with unacceptable arguments the operation must panic; otherwise it must do nothing.
	panics bool
	// want is the content after a valid call; nil: unchanged.
	want func(s *State, m *seqModel, args []Value) (n Lin, segs []Seg)
	// ret checks the results of a valid call, retBad those of a refused one.
	ret, retBad func(j *Job, s *State, m *seqModel, args, ret []Value, pos token.Pos)
}

func (m *seqModel) orig() (Lin, []Seg) { return m.n, []Seg{{K(0), m.n, elIota}} }

// assumeAll returns the states in which all conditions hold.
func assumeAll(sts []*State, cs ...VBool) []*State {
	for _, c := range cs {
		var out []*State
		for _, s := range sts {
			out = append(out, s.assume(c)...)
		}
		sts = out
	}
	return sts
}

// goodBad splits a state by a conjunction.
func goodBad(st *State, cs []VBool) (good, bad []*State) {
	good = []*State{st}
	for _, c := range cs {
		bad = append(bad, assumeAll(good, c.not())...)
		good = assumeAll(good, c)
	}
	return
}

// checkSeqOp verifies op; guard selects the part about unacceptable arguments (C11) or the rest (C30).
func checkSeqOp(p *Prog, r *Result, mk func(st *State) *seqModel, op seqOp, guard bool) {
	st := newInterp(p).NewState()
	m := mk(st)
	what := m.rel + ".(" + m.typ + ")." + op.name
	rule := "content"
	if guard {
		rule = "guard"
	}
	fn := p.Method(m.rel, m.typ, op.name)
	if fn == nil {
		r.job(p, rule, nil, what)
		return
	}
	args, valid := op.args(st, m)
	st.keep["args"] = VTuple{args}
	good, bad := goodBad(st, valid)
	if guard {
		good = bad
	}
	if len(good) == 0 {
		return
	}
	r.Count("operations", 1)
	r.Sample(what)
	for _, s0 := range good {
		j := r.job(p, rule, fn, what)
		j.allowPanic = guard && op.panics
		j.onPanic = func(s *State, o Outcome) {
			n, w := m.orig()
			j.wantSeq(s, m.slice(s), n, w, o.Pos, "content after the refused call")
		}
		j.run(s0, append([]Value{m.ptr}, args...), func(s *State, ret []Value, pos token.Pos) {
			n, w := m.orig()
			if guard {
				if op.panics {
					j.fail(pos, "an unacceptable position is not refused %s", j.path(s))
					return
				}
				j.wantSeq(s, m.slice(s), n, w, pos, "content after a call with an unacceptable position")
				if op.retBad != nil {
					op.retBad(j, s, m, args, ret, pos)
				}
				return
			}
			if op.want != nil {
				n, w = op.want(s, m, args)
			}
			j.wantSeq(s, m.slice(s), n, w, pos, "content")
			if op.ret != nil {
				op.ret(j, s, m, args, ret, pos)
			}
		})
	}
}

func noArgs(st *State, m *seqModel) ([]Value, []VBool) { return nil, nil }

func needElem(st *State, m *seqModel) ([]Value, []VBool) {
	return nil, []VBool{condGE(m.n.addk(-1))}
}

// posArg is one arbitrary position, acceptable from 0 to n-1+extra, and further opaque values.
func posArg(extra int64, vals ...Value) caseArgs {
	return func(st *State, m *seqModel) ([]Value, []VBool) {
		p := S(newSym("pos"))
		return append([]Value{I(p)}, vals...), []VBool{condGE(p), condGE(m.n.addk(extra - 1).sub(p))}
	}
}

// iterArg is an iterator of the container at an arbitrary position.
func iterArg(extra int64, vals ...Value) caseArgs {
	return func(st *State, m *seqModel) ([]Value, []VBool) {
		p := S(newSym("pos"))
		it := m.newIterObj(st, "it", p)
		return append([]Value{VIface{"*" + m.rel + "." + m.iter, it}}, vals...), []VBool{condGE(p), condGE(m.n.addk(extra - 1).sub(p))}
	}
}

func lin(v Value) Lin { return v.(VInt).L }

// argPos is the position meant by an integer or iterator argument (as it was before the call).
func argPos(s *State, v Value) Lin {
	switch x := v.(type) {
	case VInt:
		return x.L
	case VIface:
		return lin(s.cell(x.V.(VPtr).Obj, ".position"))
	}
	return lin(v)
}

func wantInsert(s *State, m *seqModel, a []Value) (Lin, []Seg) {
	p := argPos(s, a[0])
	return m.n.addk(1), []Seg{{K(0), p, elIota}, {p, p.addk(1), a[1]}, {p.addk(1), m.n.addk(1), el(S(iotaSym).addk(-1))}}
}

func wantErase(m *seqModel, f, l Lin) (Lin, []Seg) {
	d := l.sub(f)
	return m.n.sub(d), []Seg{{K(0), f, elIota}, {f, m.n.sub(d), el(S(iotaSym).add(d))}}
}

func wantSet(s *State, m *seqModel, a []Value) (Lin, []Seg) {
	p := argPos(s, a[0])
	return m.n, []Seg{{K(0), p, elIota}, {p, p.addk(1), a[1]}, {p.addk(1), m.n, elIota}}
}

// retEl requires that the result is element f(...).
func retEl(f func(m *seqModel, a []Value) Lin) func(j *Job, s *State, m *seqModel, args, ret []Value, pos token.Pos) {
	return func(j *Job, s *State, m *seqModel, args, ret []Value, pos token.Pos) {
		j.mustEq(s, ret[0], el(f(m, args)), pos, "wrong element returned")
	}
}

func retInt(f func(m *seqModel, a []Value) Lin) func(j *Job, s *State, m *seqModel, args, ret []Value, pos token.Pos) {
	return func(j *Job, s *State, m *seqModel, args, ret []Value, pos token.Pos) {
		j.mustEq(s, ret[0], I(f(m, args)), pos, "wrong result")
	}
}

// retIter requires a new iterator of the container at the given position.
func retIter(f func(s *State, m *seqModel, a []Value) Lin) func(j *Job, s *State, m *seqModel, args, ret []Value, pos token.Pos) {
	return func(j *Job, s *State, m *seqModel, args, ret []Value, pos token.Pos) {
		j.wantIter(s, m, ret[0], f(s, m, args), pos)
	}
}

func (j *Job) wantIter(s *State, m *seqModel, v Value, at Lin, pos token.Pos) {
	if i, ok := v.(VIface); ok {
		v = i.V
	}
	pt, ok := v.(VPtr)
	if !ok {
		j.fail(pos, "the result is not an iterator %s", j.path(s))
		return
	}
	j.mustEq(s, s.cell(pt.Obj, ".position"), I(at), pos, "the iterator returned is at the wrong position")
	c := s.cell(pt.Obj, "."+m.field)
	if i, ok := c.(VIface); ok {
		c = i.V
	}
	j.mustEq(s, c, m.ptr, pos, "the iterator returned belongs to another container")
}

func vectorModel(st *State) *seqModel {
	return newSeqModel(st, "ds/vector", "Vector", "VectorIterator", "vec", "data")
}
func arrayModel(st *State) *seqModel {
	return newSeqModel(st, "ds/array", "Array", "ArrayIterator", "array", "values")
}
func sliceModel(st *State) *seqModel {
	m := newSeqModel(st, "ds/slice", "SliceWrapper", "SliceIterator", "s", "slice")
	m.ifaceField = true
	return m
}

func a0(m *seqModel, a []Value) Lin                { return lin(a[0]) }
func zero(m *seqModel, a []Value) Lin              { return K(0) }
func size(m *seqModel, a []Value) Lin              { return m.n }
func lastI(m *seqModel, a []Value) Lin             { return m.n.addk(-1) }
func iterAt0(s *State, m *seqModel, a []Value) Lin { return argPos(s, a[0]) }

func retBoolEmpty(j *Job, s *State, m *seqModel, args, ret []Value, pos token.Pos) {
	if s.need(ret[0].(VBool)) != s.need(condEQ(m.n)) {
		j.fail(pos, "the answer disagrees with the number of elements %s", j.path(s))
	}
}

// retSeq requires that the result is a slice showing the current content.
func retSeq(j *Job, s *State, m *seqModel, args, ret []Value, pos token.Pos) {
	sl, ok := asSlice(ret[0])
	if !ok {
		j.fail(pos, "the result is not a slice")
		return
	}
	n, w := m.orig()
	j.wantSeq(s, sl, n, w, pos, "returned slice")
}

var vectorOps = []seqOp{
	{name: "Size", args: noArgs, ret: retInt(size)},
	{name: "Capacity", args: noArgs, ret: func(j *Job, s *State, m *seqModel, args, ret []Value, pos token.Pos) {
		j.mustEq(s, ret[0], I(m.slice(s).Cap), pos, "wrong capacity")
	}},
	{name: "Empty", args: noArgs, ret: retBoolEmpty},
	{name: "PushBack", args: func(st *State, m *seqModel) ([]Value, []VBool) { return []Value{T("val")}, nil },
		want: func(s *State, m *seqModel, a []Value) (Lin, []Seg) {
			return m.n.addk(1), []Seg{{K(0), m.n, elIota}, {m.n, m.n.addk(1), a[0]}}
		}},
	{name: "SetAt", args: posArg(0, T("val")), want: wantSet},
	{name: "InsertAt", args: posArg(1, T("val")), want: wantInsert},
	{name: "EraseAt", args: posArg(0), want: func(s *State, m *seqModel, a []Value) (Lin, []Seg) {
		return wantErase(m, lin(a[0]), lin(a[0]).addk(1))
	}},
	{name: "EraseIndexRange", args: func(st *State, m *seqModel) ([]Value, []VBool) {
		f, l := S(newSym("first")), S(newSym("last"))
		return []Value{I(f), I(l)}, []VBool{condGE(f), condGE(l.sub(f)), condGE(m.n.sub(l))}
	}, want: func(s *State, m *seqModel, a []Value) (Lin, []Seg) { return wantErase(m, lin(a[0]), lin(a[1])) }},
	{name: "At", args: posArg(0), panics: true, ret: retEl(a0)},
	{name: "Front", args: needElem, panics: true, ret: retEl(zero)},
	{name: "Back", args: needElem, panics: true, ret: retEl(lastI)},
	{name: "PopBack", args: needElem, panics: true, ret: retEl(lastI),
		want: func(s *State, m *seqModel, a []Value) (Lin, []Seg) { return wantErase(m, m.n.addk(-1), m.n) }},
	{name: "Reserve", args: func(st *State, m *seqModel) ([]Value, []VBool) { return []Value{I(S(newSym("capacity")))}, nil },
		ret: func(j *Job, s *State, m *seqModel, args, ret []Value, pos token.Pos) {
			j.must(s, condGE(m.slice(s).Cap.sub(lin(args[0]))), pos, "the capacity is smaller than what was reserved")
		}},
	{name: "ShrinkToFit", args: noArgs, ret: func(j *Job, s *State, m *seqModel, args, ret []Value, pos token.Pos) {
		j.mustEq(s, I(m.slice(s).Cap), I(m.n), pos, "capacity and size differ afterwards")
	}},
	{name: "Clear", args: noArgs, want: func(s *State, m *seqModel, a []Value) (Lin, []Seg) { return K(0), nil }},
	{name: "Data", args: noArgs, ret: retSeq},
	{name: "Begin", args: noArgs, ret: retIter(func(s *State, m *seqModel, a []Value) Lin { return K(0) })},
	{name: "First", args: noArgs, ret: retIter(func(s *State, m *seqModel, a []Value) Lin { return K(0) })},
	{name: "End", args: noArgs, ret: retIter(func(s *State, m *seqModel, a []Value) Lin { return m.n })},
	{name: "Last", args: noArgs, ret: retIter(func(s *State, m *seqModel, a []Value) Lin { return m.n.addk(-1) })},
	{name: "IterAt", args: posArg(1), ret: retIter(iterAt0), retBad: retIter(iterAt0)},
	{name: "Insert", args: iterArg(1, T("val")), want: wantInsert, ret: retIter(iterAt0)},
	{name: "Erase", args: iterArg(0), want: func(s *State, m *seqModel, a []Value) (Lin, []Seg) {
		return wantErase(m, argPos(s, a[0]), argPos(s, a[0]).addk(1))
	}, ret: retIter(iterAt0)},
	{name: "EraseRange", args: func(st *State, m *seqModel) ([]Value, []VBool) {
		f, l := S(newSym("first")), S(newSym("last"))
		k := "*" + m.rel + "." + m.iter
		return []Value{VIface{k, m.newIterObj(st, "it1", f)}, VIface{k, m.newIterObj(st, "it2", l)}}, []VBool{condGE(f), condGE(l.sub(f)), condGE(m.n.sub(l))}
	}, want: func(s *State, m *seqModel, a []Value) (Lin, []Seg) {
		return wantErase(m, argPos(s, a[0]), argPos(s, a[1]))
	}, ret: retIter(iterAt0)},
	{name: "Resize", args: func(st *State, m *seqModel) ([]Value, []VBool) {
		k := st.fresh("size", K(0))
		return []Value{I(k)}, nil
	}, want: func(s *State, m *seqModel, a []Value) (Lin, []Seg) {
		if s.need(condGE(m.n.sub(lin(a[0])))) {
			return wantErase(m, lin(a[0]), m.n)
		}
		return m.orig()
	}},
}

var arrayOps = []seqOp{
	{name: "Size", args: noArgs, ret: retInt(size)},
	{name: "Empty", args: noArgs, ret: retBoolEmpty},
	{name: "Fill", args: func(st *State, m *seqModel) ([]Value, []VBool) { return []Value{T("val")}, nil },
		want: func(s *State, m *seqModel, a []Value) (Lin, []Seg) { return m.n, []Seg{{K(0), m.n, a[0]}} }},
	{name: "Set", args: posArg(0, T("val")), want: wantSet},
	{name: "At", args: posArg(0), panics: true, ret: retEl(a0)},
	{name: "Front", args: needElem, panics: true, ret: retEl(zero)},
	{name: "Back", args: needElem, panics: true, ret: retEl(lastI)},
	{name: "Data", args: noArgs, ret: retSeq},
	{name: "Begin", args: noArgs, ret: retIter(func(s *State, m *seqModel, a []Value) Lin { return K(0) })},
	{name: "First", args: noArgs, ret: retIter(func(s *State, m *seqModel, a []Value) Lin { return K(0) })},
	{name: "End", args: noArgs, ret: retIter(func(s *State, m *seqModel, a []Value) Lin { return m.n })},
	{name: "Last", args: noArgs, ret: retIter(func(s *State, m *seqModel, a []Value) Lin { return m.n.addk(-1) })},
	{name: "IterAt", args: posArg(1), ret: retIter(iterAt0), retBad: retIter(iterAt0)},
	{name: "SwapArray", args: func(st *State, m *seqModel) ([]Value, []VBool) {
		sl, n := newSliceModel(st, "other", "el2")
		o := st.newObj("other")
		st.heap[o].Cells["."+m.data] = sl
		st.keep["other"] = VPtr{o, ""}
		st.keep["n2"] = I(n)
		return []Value{VPtr{o, ""}}, []VBool{condEQ(n.sub(m.n))}
	}, want: func(s *State, m *seqModel, a []Value) (Lin, []Seg) {
		return m.n, []Seg{{K(0), m.n, T("el2", I(S(iotaSym)))}}
	}, ret: func(j *Job, s *State, m *seqModel, args, ret []Value, pos token.Pos) {
		sl, ok := asSlice(s.cell(args[0].(VPtr).Obj, "."+m.data))
		if !ok {
			giveUp("storage of the other array")
		}
		n, w := m.orig()
		j.wantSeq(s, sl, n, w, pos, "content of the other array")
	}, retBad: func(j *Job, s *State, m *seqModel, args, ret []Value, pos token.Pos) {
		sl, _ := asSlice(s.cell(args[0].(VPtr).Obj, "."+m.data))
		n := lin(s.keep["n2"])
		j.wantSeq(s, sl, n, []Seg{{K(0), n, T("el2", I(S(iotaSym)))}}, pos, "content of the other array")
	}},
}

var sliceOps = []seqOp{
	{name: "Len", args: noArgs, ret: retInt(size)},
	{name: "Set", args: posArg(0, T("val")), want: wantSet},
	{name: "At", args: posArg(0), panics: true, ret: retEl(a0)},
	{name: "Attach", args: func(st *State, m *seqModel) ([]Value, []VBool) {
		sl, n := newSliceModel(st, "new", "el2")
		st.keep["n2"] = I(n)
		return []Value{sl}, nil
	}, want: func(s *State, m *seqModel, a []Value) (Lin, []Seg) {
		n := lin(s.keep["n2"])
		return n, []Seg{{K(0), n, T("el2", I(S(iotaSym)))}}
	}},
	{name: "Begin", args: noArgs, ret: retIter(func(s *State, m *seqModel, a []Value) Lin { return K(0) })},
	{name: "First", args: noArgs, ret: retIter(func(s *State, m *seqModel, a []Value) Lin { return K(0) })},
	{name: "End", args: noArgs, ret: retIter(func(s *State, m *seqModel, a []Value) Lin { return m.n })},
	{name: "Last", args: noArgs, ret: retIter(func(s *State, m *seqModel, a []Value) Lin { return m.n.addk(-1) })},
}

// checkCopyCtor verifies constructors that copy a container.
func checkCopyCtor(p *Prog, r *Result, mk func(st *State) *seqModel, name string, keepCap bool) {
	st := newInterp(p).NewState()
	m := mk(st)
	j := r.job(p, "content", p.Func(m.rel, name), m.rel+"."+name)
	if j == nil {
		return
	}
	r.Count("operations", 1)
	j.run(st, []Value{m.ptr}, func(s *State, ret []Value, pos token.Pos) {
		pt, ok := ret[0].(VPtr)
		if !ok {
			j.fail(pos, "no container returned")
			return
		}
		n, w := m.orig()
		j.wantSeq(s, m.slice(s), n, w, pos, "content of the source")
		sl, ok := asSlice(s.cell(pt.Obj, "."+m.data))
		if !ok {
			giveUp("storage of the copy")
		}
		j.wantSeq(s, sl, n, w, pos, "content of the copy")
		if sl.Arr == m.arr && sl.Arr != 0 {
			j.fail(pos, "the copy shares storage with its source")
		}
	})
}

func init() {
	checks["C11"] = func(p *Prog, r *Result) {
		r.Rule("abstract interpretation of every positional operation with an arbitrary position outside the container: it must panic (At, Front, Back, PopBack, iterator access) or do nothing, and in both cases the content must be what it was")
		r.Assumption("positions are int values whose arithmetic does not overflow")
		for _, op := range vectorOps {
			checkSeqOp(p, r, vectorModel, op, true)
		}
		for _, op := range arrayOps {
			checkSeqOp(p, r, arrayModel, op, true)
		}
		for _, op := range sliceOps {
			checkSeqOp(p, r, sliceModel, op, true)
		}
		r.Need("operations", 20)
	}
	checks["C30"] = func(p *Prog, r *Result) {
		r.Rule("abstract interpretation of every operation on a container of symbolic size, capacity and content; at every exit size and each element are compared with the documented sequence")
		r.Assumption("position and size arithmetic does not overflow; sizes passed to Resize and capacities are not negative")
		for _, op := range vectorOps {
			checkSeqOp(p, r, vectorModel, op, false)
		}
		for _, op := range arrayOps {
			checkSeqOp(p, r, arrayModel, op, false)
		}
		for _, op := range sliceOps {
			checkSeqOp(p, r, sliceModel, op, false)
		}
		checkCopyCtor(p, r, vectorModel, "NewFromVector", true)
		checkCopyCtor(p, r, arrayModel, "NewFromArray", false)
		r.Need("operations", 45)
	}
}

package main

// C12: the iterator protocol. Random access iterators (array, vector, slice, deque).

import (
	"go/token"
)

// dequeModel is a deque seen through Size, At and Set, as C31 shows it to behave.
func dequeModel(st *State) *seqModel {
	m := newSeqModel(st, "ds/deque", "Deque", "DequeIterator", "dq", "model")
	return m
}

// dequeStatic answers the calls an iterator makes on its deque.
func dequeStatic(p *Prog) func(c *callCtx) ([]Out, bool) {
	at, set, sz := p.Method("ds/deque", "Deque", "At"), p.Method("ds/deque", "Deque", "Set"), p.Method("ds/deque", "Deque", "Size")
	emp := p.Method("ds/deque", "Deque", "Empty")
	return func(c *callCtx) ([]Out, bool) {
		if c.fn == nil || c.fn != at && c.fn != set && c.fn != sz && c.fn != emp {
			return nil, false
		}
		s := c.st
		pt, ok := c.args[0].(VPtr)
		if !ok {
			panic(goPanicErr{"nil dereference"})
		}
		sl, ok := s.cell(pt.Obj, ".model").(VSlice)
		if !ok {
			giveUp("operation on an unknown deque")
		}
		in := func(v Value) bool {
			p := lin(v)
			return s.need(condGE(p)) && s.need(condGE(sl.Len.sub(p).addk(-1)))
		}
		switch c.fn {
		case sz:
			return []Out{{s, []Value{I(sl.Len)}}}, true
		case emp:
			return []Out{{s, []Value{condEQ(sl.Len)}}}, true
		case at:
			if !in(c.args[1]) {
				panic(goPanicErr{"position out of range"})
			}
			return []Out{{s, []Value{s.arrGet(sl.Arr, "", sl.Off.add(lin(c.args[1])))}}}, true
		}
		if !in(c.args[1]) {
			return []Out{{s, []Value{VTop{}}}}, true
		}
		s.arrSet(sl.Arr, "", sl.Off.add(lin(c.args[1])), c.args[2])
		return []Out{{s, []Value{VNil{}}}}, true
	}
}

// iterCase is one clause of the iterator protocol.
type iterCase struct {
	meth   string
	pre    func(st *State, m *seqModel, p Lin) (args []Value, conds []VBool)
	panics bool
	post   func(j *Job, s *State, m *seqModel, it VPtr, p Lin, args, ret []Value, pos token.Pos)
}

func ifaceOf(m *seqModel, v VPtr) Value { return VIface{"*" + m.rel + "." + m.iter, v} }

// moved requires that the iterator stands at q and the same iterator is returned.
func moved(q func(m *seqModel, p Lin) Lin, self bool) func(j *Job, s *State, m *seqModel, it VPtr, p Lin, args, ret []Value, pos token.Pos) {
	return func(j *Job, s *State, m *seqModel, it VPtr, p Lin, args, ret []Value, pos token.Pos) {
		j.mustEq(s, s.cell(it.Obj, ".position"), I(q(m, p)), pos, "the iterator ends at the wrong position")
		c := s.cell(it.Obj, "."+m.field)
		if i, ok := c.(VIface); ok {
			c = i.V
		}
		j.mustEq(s, c, m.ptr, pos, "the iterator changes container")
		if self {
			j.mustEq(s, ret[0], ifaceOf(m, it), pos, "the iterator does not return itself")
		}
	}
}

func stay(m *seqModel, p Lin) Lin { return p }

var iterCases = []iterCase{
	{meth: "IsValid", post: func(j *Job, s *State, m *seqModel, it VPtr, p Lin, args, ret []Value, pos token.Pos) {
		want := s.need(condGE(p)) && s.need(condGE(m.n.sub(p).addk(-1)))
		if s.need(ret[0].(VBool)) != want {
			j.fail(pos, "the answer must be %v %s", want, j.path(s))
		}
		moved(stay, false)(j, s, m, it, p, args, ret, pos)
	}},
	{meth: "Next", pre: func(st *State, m *seqModel, p Lin) ([]Value, []VBool) {
		return nil, []VBool{condGE(p.addk(1)), condGE(m.n.sub(p).addk(-1))}
	}, post: moved(func(m *seqModel, p Lin) Lin { return p.addk(1) }, true)},
	{meth: "Next", pre: func(st *State, m *seqModel, p Lin) ([]Value, []VBool) { return nil, []VBool{condEQ(m.n.sub(p))} },
		post: moved(stay, true)},
	{meth: "Prev", pre: func(st *State, m *seqModel, p Lin) ([]Value, []VBool) {
		return nil, []VBool{condGE(p), condGE(m.n.sub(p))}
	}, post: moved(func(m *seqModel, p Lin) Lin { return p.addk(-1) }, true)},
	{meth: "Prev", pre: func(st *State, m *seqModel, p Lin) ([]Value, []VBool) { return nil, []VBool{condEQ(p.addk(1))} },
		post: moved(stay, true)},
	{meth: "Position", post: func(j *Job, s *State, m *seqModel, it VPtr, p Lin, args, ret []Value, pos token.Pos) {
		j.mustEq(s, ret[0], I(p), pos, "wrong position")
	}},
	{meth: "Clone", post: func(j *Job, s *State, m *seqModel, it VPtr, p Lin, args, ret []Value, pos token.Pos) {
		j.wantIter(s, m, ret[0], p, pos)
		if valEq(ret[0], ifaceOf(m, it)) {
			j.fail(pos, "the clone is the iterator itself")
		}
		moved(stay, false)(j, s, m, it, p, args, ret, pos)
	}},
	{meth: "IteratorAt", pre: func(st *State, m *seqModel, p Lin) ([]Value, []VBool) {
		return []Value{I(S(newSym("q")))}, nil
	}, post: func(j *Job, s *State, m *seqModel, it VPtr, p Lin, args, ret []Value, pos token.Pos) {
		j.wantIter(s, m, ret[0], lin(args[0]), pos)
		if valEq(ret[0], ifaceOf(m, it)) {
			j.fail(pos, "the result is the iterator itself")
		}
		moved(stay, false)(j, s, m, it, p, args, ret, pos)
	}},
	{meth: "Value", pre: valid, post: func(j *Job, s *State, m *seqModel, it VPtr, p Lin, args, ret []Value, pos token.Pos) {
		j.mustEq(s, ret[0], el(p), pos, "not the element at the position")
		moved(stay, false)(j, s, m, it, p, args, ret, pos)
	}},
	{meth: "Value", pre: above, panics: true},
	{meth: "Value", pre: below, panics: true},
	{meth: "SetValue", pre: withVal(valid), post: func(j *Job, s *State, m *seqModel, it VPtr, p Lin, args, ret []Value, pos token.Pos) {
		j.wantSeq(s, m.slice(s), m.n, []Seg{{K(0), p, elIota}, {p, p.addk(1), T("val")}, {p.addk(1), m.n, elIota}}, pos, "content")
		moved(stay, false)(j, s, m, it, p, args, ret, pos)
	}},
	{meth: "SetValue", pre: withVal(above), post: untouched},
	{meth: "SetValue", pre: withVal(below), post: untouched},
	{meth: "Equal", pre: func(st *State, m *seqModel, p Lin) ([]Value, []VBool) {
		q := S(newSym("q"))
		return []Value{ifaceOf(m, m.newIterObj(st, "it2", q))}, nil
	}, post: func(j *Job, s *State, m *seqModel, it VPtr, p Lin, args, ret []Value, pos token.Pos) {
		q := lin(s.cell(args[0].(VIface).V.(VPtr).Obj, ".position"))
		want := s.need(condEQ(p.sub(q)))
		if s.need(ret[0].(VBool)) != want {
			j.fail(pos, "iterators at positions of one container compare wrongly %s", j.path(s))
		}
	}},
	{meth: "Equal", pre: func(st *State, m *seqModel, p Lin) ([]Value, []VBool) {
		o := *m
		sl, n := newSliceModel(st, "other", "el2")
		o.id = st.newObj("other")
		st.heap[o.id].Cells["."+m.data] = sl
		o.ptr = VPtr{o.id, ""}
		_ = n
		return []Value{ifaceOf(m, o.newIterObj(st, "it2", S(newSym("q"))))}, nil
	}, post: func(j *Job, s *State, m *seqModel, it VPtr, p Lin, args, ret []Value, pos token.Pos) {
		if s.need(ret[0].(VBool)) {
			j.fail(pos, "iterators of different containers compare equal %s", j.path(s))
		}
	}},
	{meth: "Equal", pre: func(st *State, m *seqModel, p Lin) ([]Value, []VBool) {
		return []Value{VIface{"model:foreign", VNil{}}}, nil
	}, post: func(j *Job, s *State, m *seqModel, it VPtr, p Lin, args, ret []Value, pos token.Pos) {
		if s.need(ret[0].(VBool)) {
			j.fail(pos, "equal to an iterator of another kind")
		}
	}},
}

func valid(st *State, m *seqModel, p Lin) ([]Value, []VBool) {
	return nil, []VBool{condGE(p), condGE(m.n.sub(p).addk(-1))}
}
func above(st *State, m *seqModel, p Lin) ([]Value, []VBool) { return nil, []VBool{condGE(p.sub(m.n))} }
func below(st *State, m *seqModel, p Lin) ([]Value, []VBool) {
	return nil, []VBool{condGE(p.neg().addk(-1))}
}
func withVal(f func(st *State, m *seqModel, p Lin) ([]Value, []VBool)) func(st *State, m *seqModel, p Lin) ([]Value, []VBool) {
	return func(st *State, m *seqModel, p Lin) ([]Value, []VBool) {
		_, c := f(st, m, p)
		return []Value{T("val")}, c
	}
}
func untouched(j *Job, s *State, m *seqModel, it VPtr, p Lin, args, ret []Value, pos token.Pos) {
	n, w := m.orig()
	j.wantSeq(s, m.slice(s), n, w, pos, "content")
	moved(stay, false)(j, s, m, it, p, args, ret, pos)
}

// checkRandomIters verifies the protocol on one iterator type.
func checkRandomIters(p *Prog, r *Result, mk func(st *State) *seqModel) {
	for _, c := range iterCases {
		st := newInterp(p).NewState()
		m := mk(st)
		what := m.rel + ".(" + m.iter + ")." + c.meth
		fn := p.Method(m.rel, m.iter, c.meth)
		pp := S(newSym("p"))
		it := m.newIterObj(st, "it", pp)
		var args []Value
		var conds []VBool
		if c.pre != nil {
			args, conds = c.pre(st, m, pp)
		}
		st.keep["args"] = VTuple{args}
		st.keep["p"] = I(pp)
		good, _ := goodBad(st, conds)
		for _, s0 := range good {
			j := r.job(p, "protocol", fn, what)
			if j == nil {
				break
			}
			if m.rel == "ds/deque" {
				j.ip.Static = dequeStatic(p)
			}
			j.ip.Invoke = func(c *callCtx) ([]Out, bool) { return nil, false }
			j.allowPanic = c.panics
			j.onPanic = func(s *State, o Outcome) {
				n, w := m.orig()
				j.wantSeq(s, m.slice(s), n, w, o.Pos, "content after the refused access")
			}
			j.run(s0, append([]Value{it}, args...), func(s *State, ret []Value, pos token.Pos) {
				if c.panics {
					j.fail(pos, "access through an iterator that is out of range is not refused %s", j.path(s))
					return
				}
				c.post(j, s, m, it, pp, args, ret, pos)
				if c.meth != "SetValue" {
					n, w := m.orig()
					j.wantSeq(s, m.slice(s), n, w, pos, "content")
				}
			})
		}
		r.Count("protocol clauses", 1)
	}
	r.Count("iterator types", 1)
}

func init() {
	checks["C12"] = func(p *Prog, r *Result) {
		r.Rule("abstract interpretation of every iterator method from an arbitrary position of a container of symbolic size; each clause of the protocol (validity, stepping, access, cloning, equality) is compared with the exits")
		r.Assumption("positions do not overflow; stepping is considered from one before the first to one after the last position, as the library's own algorithms use it; the deque is taken to answer Size, At and Set as C31 shows")
		for _, mk := range []func(*State) *seqModel{vectorModel, arrayModel, sliceModel, dequeModel} {
			checkRandomIters(p, r, mk)
		}
		r.Need("iterator types", 4)
	}
}

package main

// C25: Queue and Stack, on top of any container that behaves like a sequence with two ends.

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

const conDyn = "model:container"

// newCon makes a modelled container holding el(0..n-1).
func (s *State) newCon(n Lin) (Value, int) {
	a := s.newArr("content", n)
	s.heap[a].Cols[""] = []Seg{{K(0), n, elIota}}
	o := s.newObj("container")
	s.heap[o].Cells[".seq"] = VSlice{a, K(0), n, n}
	return VIface{conDyn, VPtr{o, ""}}, o
}

func shiftSegs(segs []Seg, d int64) []Seg {
	var out []Seg
	for _, g := range segs {
		out = append(out, Seg{g.Lo.addk(d), g.Hi.addk(d), mapIota(g.V, -d)})
	}
	return out
}

// conInvoke is the documented behaviour of container.Container; locks are ignored.
func conInvoke(c *callCtx) ([]Out, bool) {
	r, ok := c.recv.(VIface)
	if !ok {
		return nil, false
	}
	s := c.st
	one := func(v ...Value) ([]Out, bool) { return []Out{{s, v}}, true }
	if r.Dyn == lockDyn {
		return one()
	}
	if r.Dyn != conDyn {
		return nil, false
	}
	o := r.V.(VPtr).Obj
	a := s.cell(o, ".seq").(VSlice).Arr
	n := s.heap[a].Len
	set := func(l Lin, segs []Seg) {
		ob := s.mut(a)
		ob.Len = l
		ob.Cols[""] = s.normSegs(segs)
		s.setCell(o, ".seq", VSlice{a, K(0), l, l})
	}
	filled := func() {
		if !s.need(condGE(n.addk(-1))) {
			panic(goPanicErr{c.meth + " on an empty container"})
		}
	}
	segs := append([]Seg(nil), s.col(a, "")...)
	switch c.meth {
	case "Size":
		return one(I(n))
	case "Empty":
		return one(condEQ(n))
	case "PushBack":
		set(n.addk(1), append(segs, Seg{n, n.addk(1), c.args[0]}))
		return one()
	case "PushFront":
		set(n.addk(1), append([]Seg{{K(0), K(1), c.args[0]}}, shiftSegs(segs, 1)...))
		return one()
	case "Front":
		filled()
		return one(s.arrGet(a, "", K(0)))
	case "Back":
		filled()
		return one(s.arrGet(a, "", n.addk(-1)))
	case "PopFront":
		filled()
		v := s.arrGet(a, "", K(0))
		set(n.addk(-1), s.segSlice(segs, K(1), n, K(-1)))
		return one(v)
	case "PopBack":
		filled()
		v := s.arrGet(a, "", n.addk(-1))
		set(n.addk(-1), s.segSlice(segs, K(0), n.addk(-1), K(0)))
		return one(v)
	case "Clear":
		set(K(0), nil)
		return one()
	case "String":
		return one(T("text of the container"))
	}
	return nil, false
}

const lockDyn = "model:lock"

func conSeq(s *State, o int) VSlice { return s.cell(o, ".seq").(VSlice) }

type conCase struct {
	meth   string
	min    int64
	empty  bool
	panics bool
	args   []Value
	want   func(s *State, n Lin) (Lin, []Seg)
	ret    func(s *State, n Lin) Value
}

func conSame(s *State, n Lin) (Lin, []Seg)  { return n, []Seg{{K(0), n, elIota}} }
func conEmpty(s *State, n Lin) (Lin, []Seg) { return K(0), nil }
func conPush(s *State, n Lin) (Lin, []Seg) {
	return n.addk(1), []Seg{{K(0), n, elIota}, {n, n.addk(1), T("value")}}
}
func conDropFront(s *State, n Lin) (Lin, []Seg) {
	return n.addk(-1), []Seg{{K(0), n.addk(-1), T("el", I(S(iotaSym).addk(1)))}}
}
func conDropBack(s *State, n Lin) (Lin, []Seg) { return n.addk(-1), []Seg{{K(0), n.addk(-1), elIota}} }
func conFirst(s *State, n Lin) Value           { return el(K(0)) }
func conLast(s *State, n Lin) Value            { return el(n.addk(-1)) }

var conCommon = []conCase{
	{meth: "Size", want: conSame, ret: func(s *State, n Lin) Value { return I(n) }},
	{meth: "Empty", want: conSame, ret: func(s *State, n Lin) Value { return condEQ(n) }},
	{meth: "Push", args: []Value{T("value")}, want: conPush},
	{meth: "Pop", empty: true, panics: true},
	{meth: "Clear", want: conEmpty},
	{meth: "String", want: conSame, ret: func(s *State, n Lin) Value { return T("text of the container") }},
}

var queueCases = append(append([]conCase(nil), conCommon...),
	conCase{meth: "Front", min: 1, want: conSame, ret: conFirst},
	conCase{meth: "Front", empty: true, panics: true},
	conCase{meth: "Back", min: 1, want: conSame, ret: conLast},
	conCase{meth: "Back", empty: true, panics: true},
	conCase{meth: "Pop", min: 1, want: conDropFront, ret: conFirst})

var stackCases = append(append([]conCase(nil), conCommon...),
	conCase{meth: "Top", min: 1, want: conSame, ret: conLast},
	conCase{meth: "Top", empty: true, panics: true},
	conCase{meth: "Pop", min: 1, want: conDropBack, ret: conLast})

func init() {
	checks["C25"] = func(p *Prog, r *Result) {
		r.Rule("abstract interpretation of every operation of Queue and Stack on a modelled container of symbolic length and content that behaves as container.Container documents; at every exit result and content are compared with first-in-first-out and last-in-first-out order; the constructors must install exactly the container asked for, or a new one of the library's own")
		r.Assumption("the underlying container behaves like a sequence with two ends (C06 decides this for the linked list); locks do nothing here (C01 to C04)")
		for _, pk := range []struct {
			rel, typ string
			cases    []conCase
		}{{"ds/queue", "Queue", queueCases}, {"ds/stack", "Stack", stackCases}} {
			for i := range pk.cases {
				checkConCase(p, r, pk.rel, pk.typ, &pk.cases[i])
			}
			checkConCtor(p, r, pk.rel, pk.typ)
		}
		r.Need("clauses", len(queueCases)+len(stackCases)+6)
	}
}

func checkConCase(p *Prog, r *Result, rel, typ string, c *conCase) {
	j := r.job(p, "adapter", p.Method(rel, typ, c.meth), rel+" "+typ+"."+c.meth)
	if j == nil {
		return
	}
	st := j.ip.NewState()
	n := K(0)
	if !c.empty {
		n = st.fresh("n", K(c.min))
	}
	st.keep["n"] = I(n)
	con, co := st.newCon(n)
	q := st.newObj(typ)
	st.heap[q].Cells[".container"] = con
	st.heap[q].Cells[".locker"] = VIface{lockDyn, VNil{}}
	st.keep["q"] = VPtr{q, ""}
	st.keep["con"] = con
	j.ip.Invoke = conInvoke
	j.allowPanic = c.panics
	j.run(st, append([]Value{VPtr{q, ""}}, c.args...), func(s *State, ret []Value, pos token.Pos) {
		if c.panics {
			j.fail(pos, "the operation must panic on an empty container %s", j.path(s))
			return
		}
		j.mustEq(s, s.cell(q, ".container"), con, pos, "the container is replaced")
		l, segs := c.want(s, n)
		j.wantSeq(s, conSeq(s, co), l, segs, pos, "content after the operation")
		if c.ret != nil {
			w := c.ret(s, n)
			if b, ok := w.(VBool); ok {
				if s.need(b) != s.need(ret[0].(VBool)) {
					j.fail(pos, "wrong answer %s", j.path(s))
				}
			} else {
				j.mustEq(s, ret[0], w, pos, "wrong result")
			}
		}
	})
	if c.panics && j.panics == 0 && !j.bad {
		j.fail(j.fn.Pos(), "the operation must panic on an empty container")
	}
	r.Count("clauses", 1)
}

// checkConCtor: New(), New(WithListContainer()), New(WithContainer(c)).
func checkConCtor(p *Prog, r *Result, rel, typ string) {
	ctor := p.Func(rel, "New")
	for _, k := range []string{"no option", "WithListContainer", "WithContainer"} {
		var opts []*ssa.Function
		if k != "no option" {
			f := p.Func(rel, k)
			if f == nil {
				r.Fail("adapter", rel+"."+k, "-", "%s.%s is not declared any more", rel, k)
				continue
			}
			opts = append(opts, f)
		}
		j := r.job(p, "adapter", ctor, rel+".New")
		if j == nil {
			return
		}
		j.name += " (" + k + ")"
		st := j.ip.NewState()
		con, _ := st.newCon(st.fresh("n", K(0)))
		st.keep["con"] = con
		states := []*State{st}
		arr := st.newArr("options", K(int64(len(opts))))
		st.heap[arr].Cols[""] = nil
		for _, f := range opts {
			var args []Value
			if k == "WithContainer" {
				args = []Value{con}
			}
			outs, ok := r.runExits(p, "adapter", f, st, args, nil)
			if !ok || len(outs) != 1 {
				if ok {
					j.fail(f.Pos(), "undecided: the option does not return one function")
				}
				states = nil
				break
			}
			st = outs[0].St
			st.heap[arr].Cols[""] = []Seg{{K(0), K(1), outs[0].Ret[0]}}
			states = []*State{st}
		}
		for _, s0 := range states {
			old := objCount
			j.ip.K = 24
			j.ip.Invoke = conInvoke
			l := K(int64(len(opts)))
			j.run(s0, []Value{VSlice{arr, K(0), l, l}}, func(s *State, ret []Value, pos token.Pos) {
				q, ok := ret[0].(VPtr)
				if !ok || q.Obj <= old {
					j.fail(pos, "the result is not new")
					return
				}
				c, ok := s.cell(q.Obj, ".container").(VIface)
				if k == "WithContainer" {
					if !ok || !valEq(c, con) {
						j.fail(pos, "the container given is not used (found %s)", showVal(s.cell(q.Obj, ".container")))
					}
					return
				}
				pt, isPtr := c.V.(VPtr)
				if !ok || !isPtr || pt.Obj <= old && k == "no option" {
					j.fail(pos, "no new container is installed (found %s)", showVal(s.cell(q.Obj, ".container")))
					return
				}
				if k == "WithListContainer" && c.Dyn != "*ds/list/bidlist.List" {
					j.fail(pos, "the container is a %s, not a linked list", c.Dyn)
				}
			})
		}
		r.Count("clauses", 1)
	}
}

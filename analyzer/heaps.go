package main

// C26: the heap functions and the priority queue. The heap functions run on a modelled
// heap.Interface. Its abstract state says that positions 0..N-1 are in heap order (no element
// precedes its parent) for all parents from lo on, except for the pairs that involve one
// position x, the hole; the children of x never precede the parent of x. What Less answered
// about x, its parent and its children is remembered; a Swap that is justified by those
// answers moves the hole to the other position, which keeps that description true:
//   with the parent p (x <= p known):  the old parent value is above all it was above before,
//     and p, now smaller, precedes its other child; only p against its own parent is open.
//   with a child c (c <= x known, and the other child, if any, is known not to precede c):
//     the value moved up is below nothing new; only x at its new place against its children is open.

import (
	"go/token"
)

const heapDyn = "model:heap"

type heapGhost struct {
	s *State
	o int
}

func (h heapGhost) lin(n string) Lin  { return lin(h.s.cell(h.o, n)) }
func (h heapGhost) get(n string) byte { return h.s.cell(h.o, n).(VTerm).F[0] }
func (h heapGhost) set(n string, v byte) {
	h.s.setCell(h.o, n, T(string(v)))
}
func (h heapGhost) setLin(n string, l Lin) { h.s.setCell(h.o, n, I(l)) }

// hole opens position x; nothing is known about it.
func (h heapGhost) open(x Lin) {
	h.set("hole", 'y')
	h.setLin("x", x)
	for _, f := range []string{"up", "c1", "c2", "c12"} {
		h.set(f, '?')
	}
}

func (h heapGhost) close() {
	h.open(K(0))
	h.set("hole", 'n')
}

func (h heapGhost) inN(i Lin) bool { return h.s.need(condGE(h.lin("N").sub(i).addk(-1))) }

// upOK: the hole does not precede its parent.
func (h heapGhost) upOK() bool {
	x := h.lin("x")
	if h.get("up") == 'g' {
		return true
	}
	// no parent, or a parent before lo
	return h.s.need(condGE(h.lin("lo").mul(2).sub(x)))
}

// downOK: no child precedes the hole.
func (h heapGhost) downOK() bool {
	x := h.lin("x").mul(2)
	ok := func(c, d string, le byte) bool {
		return h.get(c) == 'g' || h.get(d) == 'g' && h.get("c12") == le
	}
	if !h.inN(x.addk(1)) {
		return true
	}
	if !ok("c1", "c2", '2') {
		return false
	}
	return !h.inN(x.addk(2)) || ok("c2", "c1", '1')
}

func (h heapGhost) full() bool { return h.get("hole") == 'n' || h.upOK() && h.downOK() }

// role of a position relative to the hole.
func (h heapGhost) role(i Lin) byte {
	x := h.lin("x")
	switch {
	case h.s.need(condEQ(i.sub(x))):
		return 'x'
	case h.s.need(condEQ(i.sub(x.mul(2)).addk(-1))):
		return '1'
	case h.s.need(condEQ(i.sub(x.mul(2)).addk(-2))):
		return '2'
	case h.s.need(condGE(x.sub(i.mul(2)).addk(-1))) && h.s.need(condGE(i.mul(2).addk(2).sub(x))):
		return 'p'
	}
	return '-'
}

// extend lowers lo when positions next to it are looked at (building a heap bottom up).
func (h heapGhost) extend(a, b Lin) {
	lo := h.lin("lo")
	if !h.s.need(condGE(lo.addk(-1))) {
		return
	}
	q := lo.addk(-1)
	for _, pr := range [][2]Lin{{a, b}, {b, a}} {
		c, p := pr[0], pr[1]
		isChild := h.s.need(condEQ(c.sub(q.mul(2)).addk(-1))) || h.s.need(condEQ(c.sub(q.mul(2)).addk(-2)))
		if isChild && (h.s.need(condEQ(p.sub(q))) || h.s.need(condEQ(p.add(c).sub(q.mul(4)).addk(-3)))) {
			if h.full() {
				h.open(q)
				h.setLin("lo", q)
			}
			return
		}
	}
}

func heapInvoke(c *callCtx) ([]Out, bool) {
	r, ok := c.recv.(VIface)
	if !ok || r.Dyn != heapDyn {
		return nil, false
	}
	s := c.st
	h := heapGhost{s, r.V.(VPtr).Obj}
	n := h.lin("len")
	one := func(v ...Value) ([]Out, bool) { return []Out{{s, v}}, true }
	idx := func(k int) Lin {
		v, ok := c.args[k].(VInt)
		if !ok {
			giveUp("untracked position")
		}
		if !s.need(condGE(v.L)) || !s.need(condGE(n.sub(v.L).addk(-1))) {
			panic(goPanicErr{"position out of range in " + c.meth})
		}
		return v.L
	}
	switch c.meth {
	case "Len":
		return one(I(n))
	case "Less":
		a, b := idx(0), idx(1)
		if s.need(condEQ(a.sub(b))) {
			return one(bFalse)
		}
		h.extend(a, b)
		field, le, ge := "", byte(0), byte(0) // le: a precedes or equals, ge: a does not precede
		if h.get("hole") == 'y' && h.inN(a) && h.inN(b) {
			ra, rb := h.role(a), h.role(b)
			switch string([]byte{ra, rb}) {
			case "xp":
				field, le, ge = "up", 'l', 'g'
			case "px":
				field, le, ge = "up", 'g', 'l'
			case "1x":
				field, le, ge = "c1", 'l', 'g'
			case "x1":
				field, le, ge = "c1", 'g', 'l'
			case "2x":
				field, le, ge = "c2", 'l', 'g'
			case "x2":
				field, le, ge = "c2", 'g', 'l'
			case "12":
				field, le, ge = "c12", '1', '2'
			case "21":
				field, le, ge = "c12", '2', '1'
			}
		}
		// a pair that is in order: the child does not precede its parent
		closed := h.get("hole") == 'n' || field == "" && !s.need(condEQ(a.sub(h.lin("x")))) && !s.need(condEQ(b.sub(h.lin("x"))))
		if field != "" && h.get(field) == ge && ge == 'g' {
			return one(bFalse)
		}
		if closed && h.inN(a) && h.inN(b) && s.need(condGE(b.sub(h.lin("lo")))) &&
			(s.need(condEQ(a.sub(b.mul(2)).addk(-1))) || s.need(condEQ(a.sub(b.mul(2)).addk(-2)))) {
			return one(bFalse)
		}
		t := s.clone()
		if field != "" {
			h.set(field, le)
			heapGhost{t, h.o}.set(field, ge)
		}
		return []Out{{s, []Value{bTrue}}, {t, []Value{bFalse}}}, true
	case "Swap":
		a, b := idx(0), idx(1)
		if s.need(condEQ(a.sub(b))) {
			return one()
		}
		// the element followed moves along
		w := h.lin("w")
		if s.need(condEQ(w.sub(a))) {
			h.setLin("w", b)
		} else if s.need(condEQ(w.sub(b))) {
			h.setLin("w", a)
		}
		N := h.lin("N")
		if h.get("hole") == 'y' && h.inN(a) && h.inN(b) {
			ra, rb := h.role(a), h.role(b)
			x, y := a, b
			if rb == 'x' {
				ra, rb, x, y = rb, ra, b, a
			}
			_ = x
			if ra == 'x' {
				switch {
				case rb == 'p' && h.get("up") == 'l':
					h.open(y)
					h.set("c1", 'g')
					h.set("c2", 'g')
					return one()
				case rb == '1' && h.get("c1") == 'l' && (h.get("c12") == '1' || !h.inN(h.lin("x").mul(2).addk(2))),
					rb == '2' && h.get("c2") == 'l' && h.get("c12") == '2':
					h.open(y)
					h.set("up", 'g')
					return one()
				}
			}
		}
		// the last element of a complete heap is exchanged with another one: it leaves the heap
		if h.full() {
			last := N.addk(-1)
			if s.need(condEQ(a.sub(last))) {
				a, b = b, a
			}
			if s.need(condEQ(b.sub(last))) {
				h.setLin("N", last)
				h.open(a)
				return one()
			}
		}
		giveUp("Swap(%s, %s) is not justified by what Less answered", a, b)
	case "Push":
		if !s.need(condEQ(h.lin("N").sub(n))) || !h.full() {
			giveUp("Push on something that is not a heap")
		}
		h.open(n)
		h.setLin("len", n.addk(1))
		h.setLin("N", n.addk(1))
		s.keep["pushed"] = T("pushed", s.keep["pushed"], c.args[0])
		return one()
	case "Pop":
		if !s.need(condGE(n.addk(-1))) {
			panic(goPanicErr{"Pop on an empty heap"})
		}
		last := n.addk(-1)
		if s.need(condEQ(h.lin("N").sub(n))) {
			if h.get("hole") == 'y' && s.need(condEQ(h.lin("x").sub(last))) {
				h.close()
			}
			h.setLin("N", last)
		} else if !s.need(condEQ(h.lin("N").sub(last))) {
			giveUp("Pop outside the heap")
		}
		h.setLin("len", last)
		v := T("another element")
		if s.need(condEQ(h.lin("w").sub(last))) {
			v = T("element asked for")
		}
		return one(v)
	}
	return nil, false
}

func (s *State) newHeap(n Lin, w Lin) (Value, heapGhost) {
	o := s.newObj("heap")
	h := heapGhost{s, o}
	h.close()
	for k, v := range map[string]Lin{"len": n, "N": n, "lo": K(0), "w": w} {
		h.setLin(k, v)
	}
	v := VIface{heapDyn, VPtr{o, ""}}
	s.keep["heap"] = v
	s.keep["pushed"] = T("-")
	return v, h
}

func init() {
	checks["C26"] = func(p *Prog, r *Result) {
		r.Rule("abstract interpretation of heap.Init, Push, Pop, Remove and Fix on a modelled heap of symbolic length whose abstract state is the set of parent-child pairs known to be in order; every Swap must be justified by the answers of Less; at every exit all pairs must be in order, and the element removed must be the one asked for")
		r.Rule("abstract interpretation of the priority queue's element holder against the contract of heap.Interface, and of every operation of the queue against the heap operation it stands for")
		r.Assumption("the comparator is a total preorder; position arithmetic does not overflow; the root of a heap precedes or equals all its elements (by transitivity along the path to the root)")
		for _, n := range []string{"Init", "Push", "Pop", "Remove", "Fix"} {
			checkHeap(p, r, n, 0)
			if n == "Init" {
				checkHeap(p, r, n, 1)
			}
		}
		checkHolder(p, r)
		checkPQ(p, r)
		r.Need("clauses", 20)
	}
}

// checkHeap analyses one heap function; for Init the number of elements is even or odd.
func checkHeap(p *Prog, r *Result, name string, odd int64) {
	j := r.job(p, "heap", p.Func("ds/heap", name), "ds/heap."+name)
	if j == nil {
		return
	}
	r.Count("clauses", 1)
	st := j.ip.NewState()
	min := int64(0)
	if name == "Pop" || name == "Remove" || name == "Fix" {
		min = 1
	}
	n, half := st.fresh("n", K(min)), K(0)
	if name == "Init" {
		half = st.fresh("half", K(0))
		n = half.mul(2).addk(odd)
	}
	st.keep["n"] = I(n)
	w := K(0)
	i := K(0)
	if name == "Remove" || name == "Fix" {
		i = st.freshIn("i", K(0), n.addk(-1))
		st.keep["i"] = I(i)
		w = i
	}
	hv, h := st.newHeap(n, w)
	args := []Value{hv}
	switch name {
	case "Init":
		// a position without children is in order
		h.setLin("lo", half)
		h.setLin("w", K(-1))
	case "Push":
		args = append(args, T("value"))
	case "Remove":
		args = append(args, I(i))
	case "Fix":
		args = append(args, I(i))
		h.open(i)
	}
	o := h.o
	j.ip.Invoke = heapInvoke
	j.ip.K = 2
	j.ip.AtHead = func(s *State) {
		// not in the loops of a helper: there the open position says how far the loop has come
		if g := (heapGhost{s, o}); len(s.frames) == 1 && g.get("hole") == 'y' && g.full() {
			g.close()
		}
	}
	j.ip.Part = func(s *State) string {
		k := ""
		for _, f := range []string{"hole", "up", "c1", "c2", "c12"} {
			k += s.cell(o, f).(VTerm).F
		}
		return k
	}
	j.run(st, args, func(s *State, ret []Value, pos token.Pos) {
		g := heapGhost{s, o}
		d := map[string]int64{"Push": 1, "Pop": -1, "Remove": -1}[name]
		j.mustEq(s, s.cell(o, "len"), I(n.addk(d)), pos, "wrong number of elements")
		j.mustEq(s, s.cell(o, "N"), s.cell(o, "len"), pos, "not all elements are in the heap")
		j.must(s, condGE(g.lin("lo").neg()), pos, "elements before position %s were not put in order", g.lin("lo"))
		if !g.full() {
			if debugOn {
				dbg("open position %s", s.dump())
			}
			j.fail(pos, "position %s may be out of order with its parent or a child %s", g.lin("x"), j.path(s))
		}
		want := T("-")
		if name == "Push" {
			want = T("pushed", T("-"), T("value"))
		}
		j.mustEq(s, s.keep["pushed"], want, pos, "the wrong elements are added")
		if name == "Pop" || name == "Remove" {
			j.mustEq(s, ret[0], T("element asked for"), pos, "the wrong element is removed")
		}
	})
}

// holderSetup makes an element holder with n elements.
func holderSetup(st *State, min int64) (VPtr, Lin) {
	sl, n := newSliceModel(st, "elements", "el")
	st.addFact(n.addk(-min))
	o := st.newObj("holder")
	st.heap[o].Cells[".elements"] = sl
	st.heap[o].Cells[".cmpFun"] = VUnk{"cmp"}
	st.keep["holder"] = VPtr{o, ""}
	st.keep["n"] = I(n)
	return VPtr{o, ""}, n
}

func checkHolder(p *Prog, r *Result) {
	const rel, typ = "ds/priorityqueue", "ElementHolder"
	for _, m := range []string{"Len", "Less", "Swap", "Push", "Pop"} {
		j := r.job(p, "heap", p.Method(rel, typ, m), rel+" "+typ+"."+m)
		if j == nil {
			continue
		}
		r.Count("clauses", 1)
		st := j.ip.NewState()
		min := int64(0)
		if m != "Len" && m != "Push" {
			min = 1
		}
		hp, n := holderSetup(st, min)
		args := []Value{hp}
		var a, b, w Lin
		if m == "Less" || m == "Swap" {
			a, b = st.freshIn("a", K(0), n.addk(-1)), st.freshIn("b", K(0), n.addk(-1))
			w = st.freshIn("w", K(0), n.addk(-1))
			st.keep["a"], st.keep["b"], st.keep["w"] = I(a), I(b), I(w)
			args = append(args, I(a), I(b))
		}
		if m == "Push" {
			args = append(args, T("value"))
		}
		j.ip.Unknown = func(c *callCtx) ([]Out, bool) {
			if len(c.args) != 2 {
				return nil, false
			}
			c.st.keep["asked"] = VTuple{c.args}
			return []Out{{c.st, []Value{I(S(termSym("answer", "answer")))}}}, true
		}
		j.run(st, args, func(s *State, ret []Value, pos token.Pos) {
			sl, ok := asSlice(s.cell(hp.Obj, ".elements"))
			if !ok {
				j.fail(pos, "the elements are lost")
				return
			}
			ln, want := n, []Seg{{K(0), n, elIota}}
			switch m {
			case "Len":
				j.mustEq(s, ret[0], I(n), pos, "wrong result")
			case "Less":
				ans := S(termSym("answer", "answer"))
				switch {
				case s.keep["asked"] == nil:
					j.fail(pos, "the comparator is not asked")
				case s.sameVal(s.keep["asked"], VTuple{[]Value{el(a), el(b)}}):
					if s.need(ret[0].(VBool)) != s.need(condGE(ans.neg().addk(-1))) {
						j.fail(pos, "the answer is not that of the comparator %s", j.path(s))
					}
				case s.sameVal(s.keep["asked"], VTuple{[]Value{el(b), el(a)}}):
					if s.need(ret[0].(VBool)) != s.need(condGE(ans.addk(-1))) {
						j.fail(pos, "the answer is not that of the comparator %s", j.path(s))
					}
				default:
					j.fail(pos, "other elements are compared %s", j.path(s))
				}
			case "Swap":
				o := w
				if s.need(condEQ(w.sub(a))) {
					o = b
				} else if s.need(condEQ(w.sub(b))) {
					o = a
				}
				j.mustEq(s, I(sl.Len), I(n), pos, "wrong number of elements")
				j.mustEq(s, s.arrGet(sl.Arr, "", sl.Off.add(w)), el(o), pos, "the elements are not exchanged")
				return
			case "Push":
				ln, want = n.addk(1), []Seg{{K(0), n, elIota}, {n, n.addk(1), T("value")}}
			case "Pop":
				ln, want = n.addk(-1), []Seg{{K(0), n.addk(-1), elIota}}
				j.mustEq(s, ret[0], el(n.addk(-1)), pos, "the last element is not returned")
			}
			j.wantSeq(s, sl, ln, want, pos, "elements after the operation")
		})
	}
}

// checkPQ compares the queue's operations with the heap operations they stand for.
func checkPQ(p *Prog, r *Result) {
	const rel, typ = "ds/priorityqueue", "PriorityQueue"
	hpush, hpop := p.Func("ds/heap", "Push"), p.Func("ds/heap", "Pop")
	hrem := p.Func("ds/heap", "Remove")
	for _, c := range []struct {
		meth   string
		min    int64
		empty  bool
		panics bool
	}{{"Push", 0, false, false}, {"Pop", 1, false, false}, {"Pop", 0, true, true}, {"Top", 1, false, false}, {"Top", 0, true, true},
		{"Empty", 0, false, false}, {"Size", 0, false, false}, {"Clear", 0, false, false}} {
		j := r.job(p, "heap", p.Method(rel, typ, c.meth), rel+" "+typ+"."+c.meth)
		if j == nil {
			continue
		}
		r.Count("clauses", 1)
		st := j.ip.NewState()
		hp, n := holderSetup(st, c.min)
		if c.empty {
			st.addFact(n.neg())
		}
		q := st.newObj("queue")
		st.heap[q].Cells[".holder"] = hp
		st.heap[q].Cells[".locker"] = VIface{lockDyn, VNil{}}
		st.keep["q"] = VPtr{q, ""}
		st.keep["did"] = T("-")
		holder := VIface{"*ds/priorityqueue.ElementHolder", hp}
		j.ip.Invoke = conInvoke
		if !c.empty {
			// heap.Push and heap.Pop are verified above
			j.ip.Static = func(cc *callCtx) ([]Out, bool) {
				if cc.fn == nil || cc.fn != hpush && cc.fn != hpop && cc.fn != hrem {
					return nil, false
				}
				s := cc.st
				if !valEq(cc.args[0], holder) {
					giveUp("a heap operation on %s", showVal(cc.args[0]))
				}
				if cc.fn == hpush {
					s.keep["did"] = T("push", s.keep["did"], cc.args[1])
					return []Out{{s, nil}}, true
				}
				if cc.fn == hrem && !s.sameVal(cc.args[1], Kv(0)) {
					giveUp("removal of an inner element")
				}
				if !s.need(condGE(n.addk(-1))) {
					panic(goPanicErr{"removal from an empty heap"})
				}
				s.keep["did"] = T("pop", s.keep["did"])
				return []Out{{s, []Value{T("minimum")}}}, true
			}
		}
		args := []Value{VPtr{q, ""}}
		if c.meth == "Push" {
			args = append(args, T("value"))
		}
		j.allowPanic = c.panics
		j.run(st, args, func(s *State, ret []Value, pos token.Pos) {
			if c.panics {
				j.fail(pos, "the operation must panic on an empty queue %s", j.path(s))
				return
			}
			j.mustEq(s, s.cell(q, ".holder"), hp, pos, "the elements are replaced")
			did := T("-")
			ln, want := n, []Seg{{K(0), n, elIota}}
			switch c.meth {
			case "Push":
				did = T("push", T("-"), T("value"))
			case "Pop":
				did = T("pop", T("-"))
				j.mustEq(s, ret[0], T("minimum"), pos, "the element removed is not returned")
			case "Top":
				j.mustEq(s, ret[0], el(K(0)), pos, "the root of the heap is not returned")
			case "Size":
				j.mustEq(s, ret[0], I(n), pos, "wrong result")
			case "Empty":
				if s.need(ret[0].(VBool)) != s.need(condEQ(n)) {
					j.fail(pos, "wrong answer %s", j.path(s))
				}
			case "Clear":
				ln, want = K(0), nil
			}
			j.mustEq(s, s.keep["did"], did, pos, "not exactly the heap operation it stands for is done")
			if sl, ok := asSlice(s.cell(hp.Obj, ".elements")); ok {
				j.wantSeq(s, sl, ln, want, pos, "elements after the operation")
			} else {
				j.fail(pos, "the elements are lost")
			}
		})
		if c.panics && j.panics == 0 && !j.bad {
			j.fail(j.fn.Pos(), "the operation must panic on an empty queue")
		}
	}
	// the constructor: no elements, the comparator given
	j := r.job(p, "heap", p.Func(rel, "New"), rel+".New")
	if j == nil {
		return
	}
	r.Count("clauses", 1)
	st := j.ip.NewState()
	arr := st.newArr("options", K(0))
	st.heap[arr].Cols[""] = nil
	old := objCount
	j.run(st, []Value{VUnk{"cmp"}, VSlice{arr, K(0), K(0), K(0)}}, func(s *State, ret []Value, pos token.Pos) {
		q, ok := ret[0].(VPtr)
		if !ok || q.Obj <= old {
			j.fail(pos, "the result is not new")
			return
		}
		h, ok := s.cell(q.Obj, ".holder").(VPtr)
		if !ok || h.Obj <= old {
			j.fail(pos, "no new element holder")
			return
		}
		sl, ok := asSlice(s.cell(h.Obj, ".elements"))
		if s.cell(h.Obj, ".elements") != nil && (!ok || !s.entailsEq(sl.Len)) {
			j.fail(pos, "the new queue is not empty")
		}
		j.mustEq(s, s.cell(h.Obj, ".cmpFun"), VUnk{"cmp"}, pos, "the comparator given is not used")
	})
}

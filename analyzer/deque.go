package main

// The deque (C31): its segments, each a ring of fixed capacity, and the ring of segments.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const dqRel = "ds/deque"

// segCap is the capacity of a segment.
func segCap(p *Prog) int64 {
	if tp := p.TPkgs[dqRel]; tp != nil {
		if c, ok := tp.Scope().Lookup("SegmentCapacity").(*types.Const); ok {
			if v, ok := constant.Int64Val(c.Val()); ok {
				return v
			}
		}
	}
	return 0
}

// segModel is a segment holding el(0..n-1), its first element at slot b.
type segModel struct {
	ptr VPtr
	arr int
	b   Lin
	c   Lin
	n   Lin
	// bounds are the limits a loop may run to
	bounds []Lin
}

func newSegModels(p *Prog) (out []*State, ms []*segModel) {
	for _, wrapped := range []int{0, 1, 2} {
		st := newInterp(p).NewState()
		c := st.fresh("C", K(1))
		b := st.freshIn("b", K(0), c.addk(-1))
		n := st.freshIn("n", K(0), c)
		var end Lin
		var segs []Seg
		junk := T("junk")
		switch wrapped {
		case 0:
			if !st.addFact(c.sub(b).sub(n).addk(-1)) {
				continue
			}
			end = b.add(n)
			segs = []Seg{{K(0), b, junk}, {b, end, T("el", I(S(iotaSym).sub(b)))}, {end, c, junk}}
		case 1:
			n = c.sub(b)
			end = K(0)
			segs = []Seg{{K(0), b, junk}, {b, c, T("el", I(S(iotaSym).sub(b)))}}
		case 2:
			st.addFact(b.add(n).sub(c).addk(-1))
			end = b.add(n).sub(c)
			segs = []Seg{{K(0), end, T("el", I(S(iotaSym).add(c).sub(b)))}, {end, b, junk}, {b, c, T("el", I(S(iotaSym).sub(b)))}}
		}
		a := st.newArr("ring", c)
		st.heap[a].Cols[""] = segs
		o := st.newObj("Segment")
		st.setCell(o, ".data", VSlice{a, K(0), c, c})
		st.setCell(o, ".begin", I(b))
		st.setCell(o, ".end", I(end))
		st.setCell(o, ".nSize", I(n))
		m := &segModel{VPtr{o, ""}, a, b, c, n, []Lin{end, b}}
		st.keep["s"], st.keep["n"], st.keep["C"] = m.ptr, I(n), I(c)
		out = append(out, st)
		ms = append(ms, m)
	}
	return
}

// wantRing requires that the segment is well formed and holds the sequence.
func (j *Job) wantRing(s *State, m *segModel, n Lin, want []Seg, pos token.Pos, what string) {
	if !j.mustEq(s, s.cell(m.ptr.Obj, ".nSize"), I(n), pos, "%s: number of elements", what) {
		return
	}
	sl, ok := asSlice(s.cell(m.ptr.Obj, ".data"))
	if !ok || !s.entailsEq(sl.Len.sub(m.c)) {
		j.fail(pos, "%s: the storage changes its size", what)
		return
	}
	b, okb := s.cell(m.ptr.Obj, ".begin").(VInt)
	e, oke := s.cell(m.ptr.Obj, ".end").(VInt)
	if !okb || !oke {
		giveUp("begin or end of the segment")
	}
	if !j.must(s, condGE(b.L), pos, "%s: begin is negative", what) || !j.must(s, condGE(m.c.sub(b.L).addk(-1)), pos, "%s: begin is beyond the storage", what) {
		return
	}
	past := b.L.add(n).sub(m.c)
	wrapped := s.need(condGE(past))
	if wrapped {
		j.mustEq(s, e, I(past), pos, "%s: end is not behind the last element", what)
	} else {
		j.mustEq(s, e, I(b.L.add(n)), pos, "%s: end is not behind the last element", what)
	}
	if !wrapped {
		j.wantCol(s, sl.Arr, "", sl.Off.add(b.L), want, pos, what)
		return
	}
	// the part up to the end of the storage, and the one from its beginning
	k := m.c.sub(b.L)
	var w1, w2 []Seg
	for _, w := range want {
		if s.need(condGE(w.Hi.sub(k).addk(-1))) {
			if s.need(condGE(k.sub(w.Lo).addk(-1))) {
				w1 = append(w1, Seg{w.Lo, k, w.V})
				w2 = append(w2, Seg{k, w.Hi, w.V})
			} else {
				w2 = append(w2, w)
			}
		} else {
			w1 = append(w1, w)
		}
	}
	j.wantCol(s, sl.Arr, "", sl.Off.add(b.L), w1, pos, what)
	j.wantCol(s, sl.Arr, "", sl.Off.sub(k), w2, pos, what)
}

type segOp struct {
	name string
	need func(st *State, m *segModel) (args []Value, ok bool)
	want func(s *State, m *segModel, args []Value) (Lin, []Seg)
	ret  func(s *State, m *segModel, args []Value) Value
}

func segOps() []segOp {
	sh := func(k int64) Value { return T("el", I(S(iotaSym).addk(k))) }
	same := func(s *State, m *segModel, args []Value) (Lin, []Seg) { return m.n, []Seg{{K(0), m.n, elIota}} }
	none := func(st *State, m *segModel) ([]Value, bool) { return nil, true }
	room := func(st *State, m *segModel) ([]Value, bool) {
		return []Value{T("x")}, st.addFact(m.c.sub(m.n).addk(-1))
	}
	some := func(st *State, m *segModel) ([]Value, bool) { return nil, st.addFact(m.n.addk(-1)) }
	inside := func(st *State, m *segModel) ([]Value, bool) {
		p := st.fresh("p", K(0))
		st.keep["p"] = I(p)
		m.bounds = append(m.bounds, m.n.sub(p))
		return []Value{I(p)}, st.addFact(m.n.sub(p).addk(-1))
	}
	x := T("x")
	return []segOp{
		{"pushBack", room, func(s *State, m *segModel, a []Value) (Lin, []Seg) {
			return m.n.addk(1), []Seg{{K(0), m.n, elIota}, {m.n, m.n.addk(1), x}}
		}, nil},
		{"pushFront", room, func(s *State, m *segModel, a []Value) (Lin, []Seg) {
			return m.n.addk(1), []Seg{{K(0), K(1), x}, {K(1), m.n.addk(1), sh(-1)}}
		}, nil},
		{"popBack", some, func(s *State, m *segModel, a []Value) (Lin, []Seg) {
			return m.n.addk(-1), []Seg{{K(0), m.n.addk(-1), elIota}}
		}, func(s *State, m *segModel, a []Value) Value { return el(m.n.addk(-1)) }},
		{"popFront", some, func(s *State, m *segModel, a []Value) (Lin, []Seg) {
			return m.n.addk(-1), []Seg{{K(0), m.n.addk(-1), sh(1)}}
		}, func(s *State, m *segModel, a []Value) Value { return el(K(0)) }},
		{"insert", func(st *State, m *segModel) ([]Value, bool) {
			p := st.fresh("p", K(0))
			st.keep["p"] = I(p)
			m.bounds = append(m.bounds, m.n.sub(p))
			return []Value{I(p), x}, st.addFact(m.n.sub(p)) && st.addFact(m.c.sub(m.n).addk(-1))
		}, func(s *State, m *segModel, a []Value) (Lin, []Seg) {
			p := lin(a[0])
			return m.n.addk(1), []Seg{{K(0), p, elIota}, {p, p.addk(1), x}, {p.addk(1), m.n.addk(1), sh(-1)}}
		}, nil},
		{"insert", func(st *State, m *segModel) ([]Value, bool) {
			// beyond the end: the element is appended
			p := st.freshIn("p", m.n.addk(1), m.c.addk(-1))
			st.keep["p"] = I(p)
			return []Value{I(p), x}, st.addFact(m.c.sub(m.n).addk(-1))
		}, func(s *State, m *segModel, a []Value) (Lin, []Seg) {
			return m.n.addk(1), []Seg{{K(0), m.n, elIota}, {m.n, m.n.addk(1), x}}
		}, nil},
		{"insert", func(st *State, m *segModel) ([]Value, bool) {
			// before the start: the element becomes the first
			p := S(newSym("p"))
			st.keep["p"] = I(p)
			return []Value{I(p), x}, st.addFact(p.neg().addk(-1)) && st.addFact(m.c.sub(m.n).addk(-1))
		}, func(s *State, m *segModel, a []Value) (Lin, []Seg) {
			return m.n.addk(1), []Seg{{K(0), K(1), x}, {K(1), m.n.addk(1), sh(-1)}}
		}, nil},
		{"eraseAt", inside, func(s *State, m *segModel, a []Value) (Lin, []Seg) {
			p := lin(a[0])
			return m.n.addk(-1), []Seg{{K(0), p, elIota}, {p, m.n.addk(-1), sh(1)}}
		}, nil},
		{"at", inside, same, func(s *State, m *segModel, a []Value) Value { return el(lin(a[0])) }},
		{"set", func(st *State, m *segModel) ([]Value, bool) {
			p := st.fresh("p", K(0))
			st.keep["p"] = I(p)
			m.bounds = append(m.bounds, m.n.sub(p))
			return []Value{I(p), x}, st.addFact(m.n.sub(p).addk(-1))
		}, func(s *State, m *segModel, a []Value) (Lin, []Seg) {
			p := lin(a[0])
			return m.n, []Seg{{K(0), p, elIota}, {p, p.addk(1), x}, {p.addk(1), m.n, elIota}}
		}, nil},
		{"front", some, same, func(s *State, m *segModel, a []Value) Value { return el(K(0)) }},
		{"back", some, same, func(s *State, m *segModel, a []Value) Value { return el(m.n.addk(-1)) }},
		{"size", none, same, func(s *State, m *segModel, a []Value) Value { return I(m.n) }},
		{"capacity", none, same, func(s *State, m *segModel, a []Value) Value { return I(m.c) }},
		{"empty", none, same, func(s *State, m *segModel, a []Value) Value { return condEQ(m.n) }},
		{"full", none, same, func(s *State, m *segModel, a []Value) Value { return condEQ(m.n.sub(m.c)) }},
		{"clear", none, func(s *State, m *segModel, a []Value) (Lin, []Seg) { return K(0), nil }, nil},
	}
}

func segJobs(p *Prog, r *Result) {
	for _, op := range segOps() {
		sts, ms := newSegModels(p)
		for i, st := range sts {
			m := ms[i]
			j := r.job(p, "segment", p.Method(dqRel, "Segment", op.name), dqRel+".(Segment)."+op.name)
			if j == nil {
				break
			}
			args, ok := op.need(st, m)
			if !ok || infeasible(st.facts) {
				continue
			}
			st.keep["args"] = VTuple{args}
			r.Count("clauses", 1)
			j.ip.K = 3
			j.ip.Cands = intCands(m.bounds)
			j.ip.Part = func(s *State) string {
				k := ""
				for _, g := range s.col(m.arr, "") {
					k += showVal(g.V) + ";"
				}
				if op.name == "clear" {
					// before and after the end of the storage is passed
					for _, f := range s.frames {
						for _, v := range f.regs {
							if x, ok := v.(VInt); ok {
								k += fmt.Sprint(s.decide(condGE(x.L.sub(m.b)))) + ";"
							}
						}
					}
				}
				return k
			}
			j.run(st, append([]Value{m.ptr}, args...), func(s *State, ret []Value, pos token.Pos) {
				a := s.keep["args"].(VTuple).E
				n, want := op.want(s, m, a)
				j.wantRing(s, m, n, want, pos, "after "+op.name)
				if op.ret != nil {
					w := op.ret(s, m, a)
					if wb, ok := w.(VBool); ok {
						g, ok := ret[0].(VBool)
						if !ok {
							giveUp("%s delivers %s", op.name, showVal(ret[0]))
						}
						if s.need(wb) {
							j.must(s, g, pos, "result of %s", op.name)
						} else {
							j.must(s, g.not(), pos, "result of %s", op.name)
						}
						return
					}
					j.mustEq(s, ret[0], w, pos, "result of %s", op.name)
				}
			})
		}
	}
}

// dqModel is a deque before an operation.
type dqModel struct {
	p        *Prog
	cap      int64
	ptr      VPtr
	g        int // the segments' contents
	u, l, m  Lin
	f, b     Lin
	n        Lin
	id, k    Lin // where an operation at a position works
	hasPos   bool
	pos      Lin
	bounds   []Lin
	lay, seg string
}

// dqModels are the deques before an operation, in all layouts. The elements carry the numbers they
// have in the sequence after it: those behind the position pos are moved by by.
//
//	where 0: no position; 'f': all elements are moved
//	where 'p': a position of an element; how tells what the segment holds there
func dqModels(p *Prog, where byte, by int64, how string) (sts []*State, ms []*dqModel) {
	capa := segCap(p)
	for _, lay := range []string{"none", "one", "plain", "end", "wrapped", "none0", "none1"} {
		for _, sc := range []string{"first", "middle", "last", "first0", "middle0", "last0"} {
			if where != 'p' && sc != "first" {
				continue
			}
			// a gap before the first element of a segment is none
			atHead := how == "gap" && strings.HasSuffix(sc, "0")
			if !atHead && strings.HasSuffix(sc, "0") {
				continue
			}
			sc = strings.TrimSuffix(sc, "0")
			st := newInterp(p).NewState()
			md := &dqModel{p: p, cap: capa, lay: lay, seg: sc}
			var l, m Lin
			switch lay {
			case "none0":
				l = K(0)
			case "none1":
				l = K(1)
			default:
				m = st.fresh("M", K(1))
				l = m.mul(2)
			}
			b := K(0)
			if lay != "none0" {
				b = st.freshIn("b", K(0), l.addk(-1))
			}
			var u, n, f, gl Lin
			var end Lin
			d := func(k int64) Value { return I(K(k)) }
			var nseg, dseg []Seg
			switch lay {
			case "none", "none0", "none1":
				if where == 'p' {
					continue
				}
				u, n, end = K(0), K(0), b
			case "one":
				// one segment
				u = K(1)
				f = st.freshIn("f", K(1), K(capa))
				n = f
				if where == 'p' && sc != "first" {
					continue
				}
			default:
				u = st.fresh("U", K(2))
				f = st.freshIn("f", K(1), K(capa))
				gl = st.freshIn("g", K(1), K(capa))
				n = f.add(gl).add(u.addk(-2).mul(capa))
			}
			if u.isConst() && u.c == 0 {
				// nothing
			} else if lay == "one" {
				nseg = []Seg{{K(0), K(1), I(f)}}
				dseg = []Seg{{K(0), K(1), d(0)}}
			} else {
				nseg = []Seg{{K(0), K(1), I(f)}, {K(1), u.addk(-1), I(K(capa))}, {u.addk(-1), u, I(gl)}}
				dseg = []Seg{{K(0), K(1), d(0)}, {K(1), u, I(f.addk(-capa))}}
			}
			var slots []Seg
			me := func(off Lin) Value { return VElem{0, S(iotaSym).add(off), ""} }
			switch lay {
			case "none", "none0", "none1":
				slots = []Seg{{K(0), l, VNil{}}}
			case "one", "plain":
				// also the last slot, in the case of one segment
				st.addFact(l.sub(b).sub(u).addk(-1))
				end = b.add(u)
				slots = []Seg{{K(0), b, VNil{}}, {b, end, me(b.neg())}, {end, l, VNil{}}}
			case "end":
				st.addFact(b.addk(-1))
				st.addFact(l.sub(b).sub(u))
				st.addFact(b.add(u).sub(l))
				end = K(0)
				slots = []Seg{{K(0), b, VNil{}}, {b, l, me(b.neg())}}
			case "wrapped":
				st.addFact(b.add(u).sub(l).addk(-1))
				st.addFact(l.sub(u).addk(-1))
				end = b.add(u).sub(l)
				slots = []Seg{{K(0), end, me(l.sub(b))}, {end, b, VNil{}}, {b, l, me(b.neg())}}
			}
			md.u, md.l, md.m, md.f, md.b, md.n = u, l, m, f, b, n
			mode := T("clean")
			md.id, md.k = K(0), K(0)
			if where == 'f' {
				for i := range dseg {
					dseg[i].V = I(lin(dseg[i].V).addk(by))
				}
			}
			if where == 'p' {
				k := K(0)
				if !atHead {
					k = st.fresh("k", K(0))
					if how == "gap" {
						st.addFact(k.addk(-1))
					}
				}
				id := K(0)
				switch {
				case sc == "first":
					st.addFact(f.sub(k).addk(-1))
					md.pos = k
				case sc == "middle":
					id = st.freshIn("s", K(1), u.addk(-2))
					st.addFact(K(capa - 1).sub(k))
					md.pos = f.add(id.addk(-1).mul(capa)).add(k)
				default:
					id = u.addk(-1)
					st.addFact(gl.sub(k).addk(-1))
					md.pos = f.add(u.addk(-2).mul(capa)).add(k)
				}
				if infeasible(st.facts) {
					continue
				}
				md.id, md.k, md.hasPos = id, k, true
				mode = T(how)
				after := id.addk(1)
				if atHead {
					mode, after = T("clean"), id
				}
				if by != 0 {
					var out []Seg
					for _, g := range dseg {
						switch lo, hi := st.decide(condGE(g.Lo.sub(after))), st.decide(condGE(after.sub(g.Hi))); {
						case lo == 1:
							out = append(out, Seg{g.Lo, g.Hi, I(lin(g.V).addk(by))})
						case hi == 1:
							out = append(out, g)
						default:
							out = append(out, Seg{g.Lo, after, g.V}, Seg{after, g.Hi, I(lin(g.V).addk(by))})
						}
					}
					dseg = out
				}
			}
			g := st.newArr("contents", u.addk(1))
			md.g = g
			for i := range slots {
				if e, ok := slots[i].V.(VElem); ok {
					slots[i].V = VElem{g, e.Idx, ""}
				}
			}
			nseg = append(nseg, Seg{u, u.addk(1), I(K(0))})
			dseg = append(dseg, Seg{u, u.addk(1), I(K(0))})
			st.heap[g].Cols[".nSize"] = st.normSegs(nseg)
			st.heap[g].Cols[".d"] = st.normSegs(dseg)
			a := st.newArr("segments", l)
			st.heap[a].Cols[""] = st.normSegs(slots)
			o := st.newObj("Deque")
			pl := st.newObj("Pool")
			st.setCell(o, ".segs", VSlice{a, K(0), l, l})
			st.setCell(o, ".pool", VPtr{pl, ""})
			st.setCell(o, ".begin", I(b))
			st.setCell(o, ".end", I(end))
			st.setCell(o, ".size", I(n))
			md.ptr = VPtr{o, ""}
			md.bounds = []Lin{u, b, l, l.sub(b), md.id, u.addk(-1), b.add(u).sub(l)}
			st.keep["dq"], st.keep["mode"], st.keep["got"], st.keep["put"] = md.ptr, mode, T("no"), T("no")
			st.keep["gid"], st.keep["gk"] = I(md.id), I(md.k)
			st.keep["G"] = VElem{g, K(0), ""}
			for i, x := range []Lin{u, l, b, n, f, md.pos} {
				st.keep[fmt.Sprint("sym", i)] = I(x)
			}
			sts = append(sts, st)
			ms = append(ms, md)
		}
	}
	return
}

// segStatic answers the deque's calls on its segments and its pool.
func (m *dqModel) static() func(c *callCtx) ([]Out, bool) {
	meths := map[*ssa.Function]string{}
	for _, n := range []string{"pushBack", "pushFront", "insert", "popBack", "popFront", "eraseAt", "size", "capacity", "full", "empty", "at", "set", "back", "front", "clear"} {
		if f := m.p.Method(dqRel, "Segment", n); f != nil {
			meths[f] = n
		}
	}
	pool := map[*ssa.Function]string{}
	for _, n := range []string{"get", "put", "size", "shrinkToSize"} {
		if f := m.p.Method(dqRel, "Pool", n); f != nil {
			pool[f] = n
		}
	}
	one := func(s *State, v ...Value) ([]Out, bool) { return []Out{{s, v}}, true }
	return func(c *callCtx) ([]Out, bool) {
		s := c.st
		if n, ok := pool[c.fn]; ok {
			return m.poolCall(s, n, c.args)
		}
		n, ok := meths[c.fn]
		if !ok {
			return nil, false
		}
		seg, ok := c.args[0].(VElem)
		if !ok {
			if _, isNil := c.args[0].(VNil); isNil {
				panic(goPanicErr{"nil dereference"})
			}
			giveUp("%s of %s", n, showVal(c.args[0]))
		}
		id := seg.Idx
		cp := K(m.cap)
		num := lin(s.arrGet(seg.Arr, ".nSize", id))
		lo := lin(s.arrGet(seg.Arr, ".d", id)).add(id.mul(m.cap))
		setN := func(l Lin) { s.arrFill(seg.Arr, ".nSize", id, id.addk(1), I(s.older(l))) }
		setLo := func(l Lin) { s.arrFill(seg.Arr, ".d", id, id.addk(1), I(s.older(l.sub(id.mul(m.cap))))) }
		mode := s.keep["mode"].(VTerm).F
		gk := lin(s.keep["gk"])
		here := mode != "clean" && s.need(condEQ(id.sub(lin(s.keep["gid"]))))
		clean := func() { s.keep["mode"], s.keep["gk"] = T("clean"), Kv(0) }
		plain := func() {
			if here && mode != "gap" {
				giveUp("%s on the segment with the element concerned", n)
			}
		}
		gap := K(0)
		if here && mode == "gap" {
			gap = K(1)
		}
		elem := func(v Value) Lin {
			t, ok := v.(VTerm)
			if !ok || t.F != "el" || len(t.A) != 1 {
				giveUp("%s of %s", n, showVal(v))
			}
			return lin(t.A[0])
		}
		switch n {
		case "size":
			return one(s, I(num))
		case "capacity":
			return one(s, I(cp))
		case "full":
			return one(s, condEQ(num.sub(cp)))
		case "empty":
			return one(s, condEQ(num))
		case "clear":
			setN(K(0))
			return one(s)
		case "pushBack", "pushFront":
			plain()
			l := elem(c.args[1])
			if !s.need(condGE(cp.sub(num).addk(-1))) {
				giveUp("%s on a full segment", n)
			}
			switch {
			case !s.need(condGE(num.addk(-1))):
				setLo(l)
			case n == "pushBack":
				if !s.entailsEq(l.sub(lo).sub(num).sub(gap)) {
					giveUp("%s of element %s behind element %s", n, l, lo.add(num).add(gap).addk(-1))
				}
			default:
				if !s.entailsEq(l.addk(1).sub(lo)) {
					giveUp("%s of element %s before element %s", n, l, lo)
				}
				setLo(l)
				if here {
					s.keep["gk"] = I(gk.addk(1))
				}
			}
			setN(num.addk(1))
			return one(s)
		case "popBack", "popFront":
			plain()
			if !s.need(condGE(num.addk(-1))) {
				giveUp("%s on an empty segment", n)
			}
			setN(num.addk(-1))
			if n == "popBack" {
				if here && !s.need(condGE(num.sub(gk).addk(-2))) {
					clean()
				}
				return one(s, el(lo.add(num).add(gap).addk(-1)))
			}
			if here {
				// the element before the gap
				if !s.need(condGE(gk.addk(-1))) {
					giveUp("gap before the first element")
				}
				if !s.need(condGE(gk.addk(-2))) {
					clean()
					setLo(lo.addk(2))
				} else {
					s.keep["gk"] = I(gk.addk(-1))
					setLo(lo.addk(1))
				}
				return one(s, el(lo))
			}
			setLo(lo.addk(1))
			return one(s, el(lo))
		case "insert":
			plain()
			p, l := lin(c.args[1]), elem(c.args[2])
			if !s.need(condGE(cp.sub(p).addk(-1))) || !s.need(condGE(cp.sub(num).addk(-1))) {
				giveUp("insertion outside the segment or into a full one")
			}
			if !s.need(condGE(p)) {
				p = K(0)
			}
			switch {
			case here:
				if !s.entailsEq(p.sub(gk)) || !s.entailsEq(l.sub(lo).sub(gk)) {
					giveUp("element %s is inserted at %s, not at %s", l, p, gk)
				}
				clean()
			case !s.need(condGE(num.addk(-1))):
				setLo(l)
			case !s.need(condGE(num.sub(p).addk(-1))):
				if !s.entailsEq(l.sub(lo).sub(num)) {
					giveUp("element %s is inserted behind element %s", l, lo.add(num).addk(-1))
				}
			case !s.need(condGE(p.addk(-1))):
				if !s.entailsEq(l.addk(1).sub(lo)) {
					giveUp("element %s is inserted before element %s", l, lo)
				}
				setLo(l)
			default:
				giveUp("element %s is inserted among elements %s...", l, lo)
			}
			setN(num.addk(1))
			return one(s)
		case "eraseAt":
			p := lin(c.args[1])
			if !here || mode != "victim" || !s.entailsEq(p.sub(gk)) {
				giveUp("the element at %s of a segment is erased, not the one at the position", p)
			}
			setN(num.addk(-1))
			clean()
			return one(s)
		case "set":
			p := lin(c.args[1])
			if !s.need(condGE(p)) || !s.need(condGE(cp.sub(p).addk(-1))) {
				return one(s)
			}
			if !here || mode != "stale" || !s.entailsEq(p.sub(gk)) || !s.entailsEq(elem(c.args[2]).sub(lo).sub(p)) {
				giveUp("slot %s of a segment is set, not the one at the position", p)
			}
			clean()
			return one(s)
		}
		if here && mode != "gap" || gap.c != 0 {
			giveUp("%s on the segment with the element concerned", n)
		}
		p := K(0)
		switch n {
		case "at":
			p = lin(c.args[1])
		case "back":
			p = num.addk(-1)
		}
		if !s.need(condGE(p)) || !s.need(condGE(num.sub(p).addk(-1))) {
			panic(goPanicErr{"position out of range"})
		}
		return one(s, el(lo.add(p)))
	}
}

func (m *dqModel) poolCall(s *State, n string, args []Value) ([]Out, bool) {
	switch n {
	case "get":
		if s.keep["got"].(VTerm).F != "no" {
			giveUp("a second new segment")
		}
		s.keep["got"] = T("yes")
		return []Out{{s, []Value{VElem{s.keep["G"].(VElem).Arr, m.u, ""}}}}, true
	case "put":
		if s.keep["put"].(VTerm).F != "no" {
			giveUp("a second segment is given up")
		}
		seg, ok := args[1].(VElem)
		if !ok {
			giveUp("%s goes to the pool", showVal(args[1]))
		}
		if !s.entailsEq(lin(s.arrGet(seg.Arr, ".nSize", seg.Idx))) {
			giveUp("a segment that is not empty goes to the pool")
		}
		s.keep["put"] = T("yes")
		return []Out{{s, nil}}, true
	case "size":
		x := newSym("pooled")
		s.addFact(S(x))
		return []Out{{s, []Value{I(S(x))}}}, true
	}
	if !s.need(condGE(lin(args[1]))) {
		giveUp("the pool is shrunk to a negative size")
	}
	return []Out{{s, nil}}, true
}

// admissible reports whether l is zero, one or twice an admissible capacity, given that the old one was.
func (m *dqModel) admissible(s *State, l Lin) bool {
	if l.isConst() {
		return l.c >= 0 && l.c&(l.c-1) == 0
	}
	for _, k := range []Lin{m.l, m.m, m.l.mul(2)} {
		if s.entailsEq(l.sub(k)) {
			return true
		}
	}
	return false
}

// want requires that the deque is well formed and holds el(0..n-1).
func (m *dqModel) want(j *Job, s *State, ptr VPtr, n Lin, pos token.Pos, what string) {
	if s.keep["mode"].(VTerm).F != "clean" {
		j.fail(pos, "%s: the element concerned is not handled %s", what, j.path(s))
		return
	}
	if !j.mustEq(s, s.cell(ptr.Obj, ".size"), I(n), pos, "%s: number of elements", what) {
		return
	}
	sl, ok := asSlice(s.cell(ptr.Obj, ".segs"))
	b, okb := s.cell(ptr.Obj, ".begin").(VInt)
	e, oke := s.cell(ptr.Obj, ".end").(VInt)
	if !ok || !okb || !oke {
		giveUp("the fields of the deque")
	}
	l := sl.Len
	if !s.entailsEq(sl.Cap.sub(l)) {
		j.fail(pos, "%s: the ring of segments has spare capacity %s", what, j.path(s))
		return
	}
	if !m.admissible(s, l) {
		j.fail(pos, "%s: %s segment slots, not a power of two %s", what, l, j.path(s))
		return
	}
	holds := func(c VBool, f string, a ...any) bool { return j.must(s, c, pos, what+": "+f, a...) }
	if !s.need(condGE(l.addk(-1))) {
		if s.need(condGE(n.addk(-1))) {
			j.fail(pos, "%s: elements without segments %s", what, j.path(s))
			return
		}
		j.mustEq(s, b, Kv(0), pos, "%s: begin", what)
		j.mustEq(s, e, Kv(0), pos, "%s: end", what)
		return
	}
	if !holds(condGE(b.L), "begin is negative") || !holds(condGE(l.sub(b.L).addk(-1)), "begin is beyond the segments") ||
		!holds(condGE(e.L), "end is negative") || !holds(condGE(l.sub(e.L).addk(-1)), "end is beyond the segments") {
		return
	}
	if !s.need(condGE(n.addk(-1))) {
		j.mustEq(s, e, b, pos, "%s: begin and end of the empty deque", what)
		j.wantCol(s, sl.Arr, "", sl.Off, []Seg{{K(0), l, VNil{}}}, pos, what+": unused segments")
		return
	}
	var u Lin
	wrapped := false
	if s.need(condGE(e.L.sub(b.L).addk(-1))) {
		u = e.L.sub(b.L)
		j.wantCol(s, sl.Arr, "", sl.Off, []Seg{{K(0), b.L, VNil{}}, {e.L, l, VNil{}}}, pos, what+": unused segments")
	} else {
		u = l.sub(b.L).add(e.L)
		wrapped = true
		if !holds(condGE(l.sub(u).addk(-1)), "no segment slot is left") {
			return
		}
		j.wantCol(s, sl.Arr, "", sl.Off, []Seg{{e.L, b.L, VNil{}}}, pos, what+": unused segments")
	}
	if j.bad {
		return
	}
	// segments x..y (logical): their sizes and first elements
	each := func(x, y Lin, f func(c *State, i, num, lo Lin) bool) bool {
		type part struct {
			lo, hi, off Lin // logical range; slot = logical + off
		}
		parts := []part{{x, y, b.L}}
		if wrapped {
			k := l.sub(b.L)
			if !s.need(condGE(k.sub(y))) {
				if s.need(condGE(x.sub(k))) {
					parts = []part{{x, y, b.L.sub(l)}}
				} else {
					parts = []part{{x, k, b.L}, {k, y, b.L.sub(l)}}
				}
			}
		}
		for _, q := range parts {
			if !s.need(condGE(q.hi.sub(q.lo).addk(-1))) {
				continue
			}
			off := sl.Off.add(q.off)
			for _, sg := range s.segSlice(s.col(sl.Arr, ""), off.add(q.lo), off.add(q.hi), off.neg()) {
				if !s.need(condGE(sg.Hi.sub(sg.Lo).addk(-1))) {
					continue
				}
				v, ok := sg.V.(VElem)
				if !ok {
					j.fail(pos, "%s: slot %s of the segments in use holds %s %s", what, sg.Lo, showVal(sg.V), j.path(s))
					return false
				}
				if v.Idx.coef(iotaSym) != 1 && !s.entailsEq(sg.Hi.sub(sg.Lo).addk(-1)) {
					j.fail(pos, "%s: the segments %s.. are the same %s", what, sg.Lo, j.path(s))
					return false
				}
				var c0 Lin // id = logical + c0
				if v.Idx.coef(iotaSym) == 1 {
					c0 = v.Idx.sub(S(iotaSym))
				} else {
					c0 = v.Idx.sub(sg.Lo)
				}
				for _, ng := range s.segSlice(s.col(v.Arr, ".nSize"), sg.Lo.add(c0), sg.Hi.add(c0), c0.neg()) {
					if !s.need(condGE(ng.Hi.sub(ng.Lo).addk(-1))) {
						continue
					}
					for _, dg := range s.segSlice(s.col(v.Arr, ".d"), ng.Lo.add(c0), ng.Hi.add(c0), c0.neg()) {
						if !s.need(condGE(dg.Hi.sub(dg.Lo).addk(-1))) {
							continue
						}
						c := s.clone()
						i := dg.Lo
						if !s.entailsEq(dg.Hi.sub(dg.Lo).addk(-1)) {
							i = c.freshIn("i", dg.Lo, dg.Hi.addk(-1))
						}
						if !f(c, i, lin(at(ng.V, i)), lin(at(dg.V, i)).add(i.add(c0).mul(m.cap))) {
							return false
						}
					}
				}
			}
		}
		return true
	}
	var f Lin
	bad := func(i, num, lo Lin) bool {
		if debugOn {
			dbg("%s: segment %s\n%s", what, i, s.dump())
		}
		j.fail(pos, "%s: segment %s holds %s elements from element %s on %s", what, i, num, lo, j.path(s))
		return false
	}
	sized := func(c *State, num Lin) bool { return c.entails(num.addk(-1)) && c.entails(K(m.cap).sub(num)) }
	if !each(K(0), K(1), func(c *State, i, num, lo Lin) bool {
		f = num
		return sized(c, num) && c.entailsEq(lo) || bad(i, num, lo)
	}) {
		return
	}
	if !s.need(condGE(u.addk(-2))) {
		j.mustEq(s, I(f), I(n), pos, "%s: elements in the only segment", what)
		return
	}
	if !each(K(1), u.addk(-1), func(c *State, i, num, lo Lin) bool {
		return c.entailsEq(num.addk(-m.cap)) && c.entailsEq(lo.sub(f).sub(i.addk(-1).mul(m.cap))) || bad(i, num, lo)
	}) {
		return
	}
	var g Lin
	if !each(u.addk(-1), u, func(c *State, i, num, lo Lin) bool {
		g = num
		return sized(c, num) && c.entailsEq(lo.sub(f).sub(i.addk(-1).mul(m.cap))) || bad(i, num, lo)
	}) {
		return
	}
	j.mustEq(s, I(f.add(g).add(u.addk(-2).mul(m.cap))), I(n), pos, "%s: elements in all segments", what)
}

// dqOp is one operation of the deque.
type dqOp struct {
	name  string
	where byte
	by    int64
	how   string
	// args are the arguments; the conditions must hold
	args func(st *State, m *dqModel) (args []Value, conds []Lin)
	dn   int64
	ret  func(m *dqModel, a []Value) Value
	// refuse: the call must panic
	refuse bool
}

func dqOps() []dqOp {
	x := func(l func(m *dqModel) Lin) func(st *State, m *dqModel) ([]Value, []Lin) {
		return func(st *State, m *dqModel) ([]Value, []Lin) { return []Value{el(l(m))}, nil }
	}
	some := func(st *State, m *dqModel) ([]Value, []Lin) { return nil, []Lin{m.n.addk(-1)} }
	zero := func(m *dqModel) Lin { return K(0) }
	size := func(m *dqModel) Lin { return m.n }
	none := func(st *State, m *dqModel) ([]Value, []Lin) { return nil, nil }
	out := func(hi bool, more ...Value) func(st *State, m *dqModel) ([]Value, []Lin) {
		return func(st *State, m *dqModel) ([]Value, []Lin) {
			p := newSym("p")
			st.keep["p"] = I(S(p))
			if hi {
				return append([]Value{I(S(p))}, more...), []Lin{S(p).sub(m.n)}
			}
			return append([]Value{I(S(p))}, more...), []Lin{S(p).neg().addk(-1)}
		}
	}
	beyond := func(st *State, m *dqModel) ([]Value, []Lin) {
		a, c := out(true, el(K(-7)))(st, m)
		c[0] = c[0].addk(-1)
		return a, c
	}
	empty := func(st *State, m *dqModel) ([]Value, []Lin) { return nil, []Lin{m.n.neg()} }
	here := func(more bool) func(st *State, m *dqModel) ([]Value, []Lin) {
		return func(st *State, m *dqModel) ([]Value, []Lin) {
			a := []Value{I(m.pos)}
			if more {
				a = append(a, el(m.pos))
			}
			return a, nil
		}
	}
	return []dqOp{
		{name: "PushBack", args: x(size), dn: 1},
		{name: "PushFront", where: 'f', by: 1, args: x(zero), dn: 1},
		{name: "PopBack", args: some, dn: -1, ret: func(m *dqModel, a []Value) Value { return el(m.n.addk(-1)) }},
		{name: "PopFront", where: 'f', by: -1, args: some, dn: -1, ret: func(m *dqModel, a []Value) Value { return el(K(-1)) }},
		{name: "PopBack", args: empty, refuse: true},
		{name: "PopFront", args: empty, refuse: true},
		{name: "Front", args: some, ret: func(m *dqModel, a []Value) Value { return el(K(0)) }},
		{name: "Back", args: some, ret: func(m *dqModel, a []Value) Value { return el(m.n.addk(-1)) }},
		{name: "Size", args: none, ret: func(m *dqModel, a []Value) Value { return I(m.n) }},
		{name: "Empty", args: none, ret: func(m *dqModel, a []Value) Value { return condEQ(m.n) }},
		{name: "At", where: 'p', how: "clean", args: here(false), ret: func(m *dqModel, a []Value) Value { return el(m.pos) }},
		{name: "At", args: out(true), refuse: true},
		{name: "At", args: out(false), refuse: true},
		{name: "Set", where: 'p', how: "stale", args: here(true), ret: func(m *dqModel, a []Value) Value { return VNil{} }},
		{name: "Set", args: out(true, el(K(-7))), ret: func(m *dqModel, a []Value) Value { return nil }},
		{name: "Set", args: out(false, el(K(-7))), ret: func(m *dqModel, a []Value) Value { return nil }},
		{name: "Insert", where: 'p', by: 1, how: "gap", args: here(true), dn: 1},
		{name: "Insert", args: func(st *State, m *dqModel) ([]Value, []Lin) { return []Value{I(m.n), el(m.n)}, nil }, dn: 1},
		{name: "Insert", args: beyond},
		{name: "Insert", args: out(false, el(K(-7)))},
		{name: "EraseAt", where: 'p', by: -1, how: "victim", args: here(false), dn: -1},
		{name: "EraseAt", args: out(true)},
		{name: "EraseAt", args: out(false)},
	}
}

func dqJobs(p *Prog, r *Result) {
	for _, op := range dqOps() {
		sts, ms := dqModels(p, op.where, op.by, op.how)
		for i, st := range sts {
			m := ms[i]
			args, conds := op.args(st, m)
			ok := true
			for _, c := range conds {
				if !st.addFact(c) {
					ok = false
				}
			}
			if !ok || infeasible(st.facts) {
				continue
			}
			j := r.job(p, "deque", p.Method(dqRel, "Deque", op.name), dqRel+".(Deque)."+op.name)
			if j == nil {
				break
			}
			if debugOn {
				dbg("LAYOUT %s %s\n%s", m.lay, m.seg, st.dump())
			}
			r.Count("clauses", 1)
			j.ip.K = 3
			j.allowPanic = op.refuse
			j.ip.Static = m.static()
			j.ip.Cands = intCands(m.bounds)
			j.ip.Part = func(s *State) string {
				k := s.keep["mode"].(VTerm).F + s.keep["got"].(VTerm).F + s.keep["put"].(VTerm).F
				for _, c := range []string{".nSize", ".d"} {
					for _, g := range s.col(m.g, c) {
						k += showVal(g.V) + ";"
					}
				}
				for _, id := range arrIds(s.heap) {
					if o := s.heap[id]; o.IsArr && id != m.g {
						for _, g := range s.col(id, "") {
							k += showVal(g.V) + ";"
						}
						k += "/"
					}
				}
				return k
			}
			risingBy = []Lin{K(0), m.b.neg(), m.l.sub(m.b), K(1), K(-1)}
			j.run(st, append([]Value{m.ptr}, args...), func(s *State, ret []Value, pos token.Pos) {
				what := "after " + op.name
				if op.refuse {
					j.fail(pos, "%s must panic %s", op.name, j.path(s))
					return
				}
				m.want(j, s, m.ptr, m.n.addk(op.dn), pos, what)
				if op.ret == nil || j.bad {
					return
				}
				w := op.ret(m, args)
				if wb, ok := w.(VBool); ok {
					if g, ok := ret[0].(VBool); !ok || s.need(g) != s.need(wb) {
						j.fail(pos, "result of %s %s", op.name, j.path(s))
					}
					return
				}
				if w == nil {
					if _, isNil := ret[0].(VNil); isNil {
						j.fail(pos, "no error is reported %s", j.path(s))
					}
					return
				}
				j.mustEq(s, ret[0], w, pos, "result of %s", op.name)
			})
		}
	}
}

func arrIds(m map[int]*Obj) (out []int) {
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return
}

// dqSeq answers the calls of the deque on itself: a sequence in a slice.
func dqSeq(p *Prog) func(c *callCtx) ([]Out, bool) {
	meths := map[*ssa.Function]string{}
	for _, n := range []string{"At", "Set", "Size", "Empty", "PopBack", "PopFront", "Front", "Back"} {
		if f := p.Method(dqRel, "Deque", n); f != nil {
			meths[f] = n
		}
	}
	return func(c *callCtx) ([]Out, bool) {
		n, ok := meths[c.fn]
		if !ok {
			return nil, false
		}
		s := c.st
		pt, ok := c.args[0].(VPtr)
		if !ok {
			giveUp("a call on another deque")
		}
		sl, ok := s.cell(pt.Obj, ".model").(VSlice)
		if !ok {
			giveUp("a call on another deque")
		}
		one := func(v ...Value) ([]Out, bool) { return []Out{{s, v}}, true }
		some := func() {
			if !s.need(condGE(sl.Len.addk(-1))) {
				panic(goPanicErr{"the deque is empty"})
			}
		}
		resize := func(off, n Lin) {
			s.setCell(pt.Obj, ".model", VSlice{sl.Arr, off, n, n})
			s.setCell(pt.Obj, ".size", I(n))
		}
		switch n {
		case "Size":
			return one(I(sl.Len))
		case "Empty":
			return one(condEQ(sl.Len))
		case "Front":
			some()
			return one(s.arrGet(sl.Arr, "", sl.Off))
		case "Back":
			some()
			return one(s.arrGet(sl.Arr, "", sl.Off.add(sl.Len).addk(-1)))
		case "PopBack":
			some()
			v := s.arrGet(sl.Arr, "", sl.Off.add(sl.Len).addk(-1))
			resize(sl.Off, sl.Len.addk(-1))
			return one(v)
		case "PopFront":
			some()
			v := s.arrGet(sl.Arr, "", sl.Off)
			resize(sl.Off.addk(1), sl.Len.addk(-1))
			return one(v)
		}
		i := lin(c.args[1])
		if !s.need(condGE(i)) || !s.need(condGE(sl.Len.sub(i).addk(-1))) {
			if n == "At" {
				panic(goPanicErr{"position out of range"})
			}
			return one(T("error"))
		}
		if n == "At" {
			return one(s.arrGet(sl.Arr, "", sl.Off.add(i)))
		}
		s.arrSet(sl.Arr, "", sl.Off.add(i), c.args[2])
		return one(VNil{})
	}
}

// rangeJobs are the operations that are built upon the others.
func rangeJobs(p *Prog, r *Result) {
	for _, kind := range []string{"inside", "negative", "empty", "beyond", "clear"} {
		name := "EraseRange"
		if kind == "clear" {
			name = "Clear"
		}
		j := r.job(p, "deque", p.Method(dqRel, "Deque", name), dqRel+".(Deque)."+name)
		if j == nil {
			return
		}
		r.Count("clauses", 1)
		st := j.ip.NewState()
		n := st.fresh("n", K(0))
		o := st.newObj("Deque")
		a := st.newArr("sequence", n)
		st.heap[a].Cols[""] = []Seg{{K(0), n, elIota}}
		ptr := VPtr{o, ""}
		st.setCell(o, ".model", VSlice{a, K(0), n, n})
		st.setCell(o, ".size", I(n))
		if kind == "clear" {
			for _, f := range []string{".segs", ".begin", ".end", ".pool"} {
				st.setCell(o, f, T("as before", T(f)))
			}
			st.keep["mode"] = T("clean")
		}
		st.keep["dq"], st.keep["n"] = ptr, I(n)
		args := []Value{ptr}
		num := K(0)
		x, y := K(0), n
		if kind != "clear" {
			x, y = S(newSym("x")), S(newSym("y"))
			st.keep["x"], st.keep["y"] = I(x), I(y)
			args = append(args, I(x), I(y))
		}
		switch kind {
		case "inside":
			st.addFact(x)
			st.addFact(y.sub(x).addk(-1))
			st.addFact(n.sub(y))
			num = y.sub(x)
		case "negative":
			st.addFact(x.neg().addk(-1))
		case "empty":
			st.addFact(x.sub(y))
		case "beyond":
			st.addFact(y.sub(n).addk(-1))
		case "clear":
			num = n
		}
		j.ip.K = 3
		j.ip.Static = dqSeq(p)
		j.ip.Cands = intCands([]Lin{x, y, n, num, n.sub(num)})
		risingBy = nil
		j.run(st, args, func(s *State, ret []Value, pos token.Pos) {
			what := "after " + name
			if kind == "clear" && !s.sameVal(s.cell(o, ".segs"), T("as before", T(".segs"))) {
				// the fields are set, no element is taken out
				wantEmpty(j, s, ptr, pos, what)
				return
			}
			sl := s.cell(o, ".model").(VSlice)
			if !j.mustEq(s, I(sl.Len), I(n.sub(num)), pos, "%s: number of elements", what) || num.eq(n) {
				return
			}
			want := []Seg{{K(0), n, elIota}}
			if num.eq(K(0)) {
				j.wantCol(s, sl.Arr, "", sl.Off, want, pos, what)
				return
			}
			j.wantCol(s, sl.Arr, "", sl.Off, []Seg{{K(0), x, elIota}, {x, n.sub(num), T("el", I(S(iotaSym).add(num)))}}, pos, what)
		})
	}
}

// poolJobs are the pool of segments: what it hands out is not in it any more and was given to it, or is new.
func poolJobs(p *Prog, r *Result) {
	seg := func(l Lin) Value { return T("seg", I(l)) }
	for _, name := range []string{"get", "put", "size", "shrinkToSize"} {
		for _, empty := range []bool{true, false} {
			j := r.job(p, "pool", p.Method(dqRel, "Pool", name), dqRel+".(Pool)."+name)
			if j == nil {
				break
			}
			r.Count("clauses", 1)
			st := j.ip.NewState()
			n := K(0)
			c := st.fresh("c", K(0))
			if !empty {
				n = st.fresh("n", K(1))
				st.addFact(c.sub(n))
			}
			o := st.newObj("Pool")
			a := st.newArr("pooled", c)
			st.heap[a].Cols[""] = st.normSegs([]Seg{{K(0), n, seg(S(iotaSym))}, {n, c, T("junk")}})
			ptr := VPtr{o, ""}
			st.setCell(o, ".segs", VSlice{a, K(0), n, c})
			st.keep["pool"], st.keep["n"], st.keep["c"] = ptr, I(n), I(c)
			args := []Value{ptr}
			k := K(0)
			switch name {
			case "put":
				args = append(args, seg(K(-1)))
			case "shrinkToSize":
				k = st.fresh("k", K(0))
				st.keep["k"] = I(k)
				args = append(args, I(k))
			}
			j.ip.K = 3
			j.run(st, args, func(s *State, ret []Value, pos token.Pos) {
				what := "after " + name
				sl, ok := asSlice(s.cell(o, ".segs"))
				if !ok {
					giveUp("the segments of the pool")
				}
				all := func(n Lin, d Lin) {
					j.wantCol(s, sl.Arr, "", sl.Off, []Seg{{K(0), n, seg(S(iotaSym).add(d))}}, pos, what)
				}
				switch name {
				case "get":
					if empty {
						j.mustEq(s, I(sl.Len), Kv(0), pos, "%s: size of the pool", what)
						freshSegment(j, s, ret[0], pos)
						return
					}
					if !j.mustEq(s, I(sl.Len), I(n.addk(-1)), pos, "%s: size of the pool", what) {
						return
					}
					if s.sameVal(ret[0], seg(K(0))) && s.need(condGE(n.addk(-2))) {
						all(n.addk(-1), K(1))
						return
					}
					j.mustEq(s, ret[0], seg(n.addk(-1)), pos, "the segment handed out")
					all(n.addk(-1), K(0))
				case "put":
					if j.mustEq(s, I(sl.Len), I(n.addk(1)), pos, "%s: size of the pool", what) {
						j.wantCol(s, sl.Arr, "", sl.Off, []Seg{{K(0), n, seg(S(iotaSym))}, {n, n.addk(1), seg(K(-1))}}, pos, what)
					}
				case "size":
					j.mustEq(s, ret[0], I(n), pos, "size of the pool")
					all(n, K(0))
				case "shrinkToSize":
					if j.must(s, condGE(n.sub(sl.Len)), pos, "%s: the pool grows", what) {
						all(sl.Len, K(0))
					}
				}
			})
		}
	}
}

// freshSegment requires that v is a new empty segment of the fixed capacity.
func freshSegment(j *Job, s *State, v Value, pos token.Pos) {
	pt, ok := v.(VPtr)
	if !ok {
		j.fail(pos, "the new segment is %s", showVal(v))
		return
	}
	sl, ok := asSlice(s.cell(pt.Obj, ".data"))
	if !ok {
		j.fail(pos, "the new segment has no storage")
		return
	}
	j.mustEq(s, I(sl.Len), Kv(segCap(j.p)), pos, "capacity of a new segment")
	j.mustEq(s, s.cellInt(pt.Obj, ".nSize"), Kv(0), pos, "size of a new segment")
	j.mustEq(s, s.cellInt(pt.Obj, ".begin"), s.cellInt(pt.Obj, ".end"), pos, "begin and end of a new segment")
	j.mustEq(s, s.cellInt(pt.Obj, ".begin"), Kv(0), pos, "begin of a new segment")
}

func (s *State) cellInt(id int, path string) Value {
	if v := s.cell(id, path); v != nil {
		return v
	}
	return Kv(0)
}

// newJob is the constructor.
func newDequeJob(p *Prog, r *Result) {
	j := r.job(p, "deque", p.Func(dqRel, "New"), dqRel+".New")
	if j == nil {
		return
	}
	r.Count("clauses", 1)
	st := j.ip.NewState()
	st.keep["mode"] = T("clean")
	j.run(st, nil, func(s *State, ret []Value, pos token.Pos) {
		pt, ok := ret[0].(VPtr)
		if !ok {
			giveUp("New returns %s", showVal(ret[0]))
		}
		if s.cell(pt.Obj, ".pool") == nil {
			j.fail(pos, "a new deque has no pool")
			return
		}
		wantEmpty(j, s, pt, pos, "a new deque")
	})
}

// wantEmpty requires that the fields of the deque describe an empty one.
func wantEmpty(j *Job, s *State, pt VPtr, pos token.Pos, what string) {
	for _, f := range []string{".size", ".begin", ".end"} {
		s.setCell(pt.Obj, f, s.cellInt(pt.Obj, f))
	}
	m := &dqModel{p: j.p, cap: segCap(j.p)}
	m.want(j, s, pt, K(0), pos, what)
	pool := s.cell(pt.Obj, ".pool")
	if pool != nil && s.sameVal(pool, T("as before", T(".pool"))) {
		return
	}
	pl, ok := pool.(VPtr)
	if !ok {
		j.fail(pos, "%s has no pool", what)
		return
	}
	if sl, ok := asSlice(s.cell(pl.Obj, ".segs")); ok {
		j.mustEq(s, I(sl.Len), Kv(0), pos, "segments in a new pool")
	}
}

// intCands are the orders between the numbers in registers and the bounds.
func intCands(bounds []Lin) func(s *State) []Lin {
	return func(s *State) (out []Lin) {
		for _, f := range s.frames {
			for _, v := range f.regs {
				x, ok := v.(VInt)
				if !ok || x.L.isConst() {
					continue
				}
				for _, y := range bounds {
					out = append(out, x.L.sub(y))
				}
			}
		}
		return
	}
}

func init() {
	checks["C31"] = func(p *Prog, r *Result) {
		rising = true
		defer func() { rising = false }()
		r.Rule("inductive abstract interpretation in two levels: the operations of a segment over every layout of its ring, then the operations of the deque over every layout of the ring of segments, where a segment is known by the number of its elements and the first of them")
		r.Assumption("sizes do not overflow; int(float64(x)*c) for a constant c from 1 to 2 is between x and 2x")
		segJobs(p, r)
		newDequeJob(p, r)
		poolJobs(p, r)
		rangeJobs(p, r)
		dqJobs(p, r)
	}
}

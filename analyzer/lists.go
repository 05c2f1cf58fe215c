package main

// C06, C07: the linked lists. The nodes of a list of symbolic length n are the elements of
// an array of nodes whose link columns describe a (circular, doubly linked or nil-ended)
// chain; every operation is compared with the sequence of nodes it has to leave behind.

import (
	"go/token"
)

// listModel is one list of n >= 0 nodes.
type listModel struct {
	pkg     string
	bid     bool
	arr, id int
	n       Lin
	ptr     VPtr
}

func nodeTmpl(a int, d int64) Value { return VElem{a, S(iotaSym).addk(d), ""} }

// newList makes a list of n nodes holding name(0..n-1); the caller splits on n == 0.
func newList(st *State, pkg string, name string, n Lin, empty bool) *listModel {
	m := &listModel{pkg: pkg, bid: pkg == "ds/list/bidlist", n: n}
	m.arr = st.newArr(name, n)
	m.id = st.newObj(name + "list")
	m.ptr = VPtr{m.id, ""}
	c := st.heap[m.id].Cells
	c[".len"] = I(n)
	c[".head"] = VNil{}
	if !m.bid {
		c[".tail"] = VNil{}
	}
	o := st.heap[m.arr]
	o.Cols[".Value"] = []Seg{{K(0), n, T(name, I(S(iotaSym)))}}
	if m.bid {
		o.Cols[".list"] = []Seg{{K(0), n, m.ptr}}
		o.Cols[".prev"] = nil
	}
	o.Cols[".next"] = nil
	if !empty {
		last := n.addk(-1)
		c[".head"] = VElem{m.arr, K(0), ""}
		if m.bid {
			o.Cols[".prev"] = []Seg{{K(0), K(1), VElem{m.arr, last, ""}}, {K(1), n, nodeTmpl(m.arr, -1)}}
			o.Cols[".next"] = []Seg{{K(0), last, nodeTmpl(m.arr, 1)}, {last, n, VElem{m.arr, K(0), ""}}}
		} else {
			c[".tail"] = VElem{m.arr, last, ""}
			o.Cols[".next"] = []Seg{{K(0), last, nodeTmpl(m.arr, 1)}, {last, n, VNil{}}}
		}
	}
	return m
}

func (m *listModel) node(k Lin) Value { return VElem{m.arr, k, ""} }

// piece is part of the sequence of nodes: nodes lo..hi-1 of the model, or one new node.
type piece struct {
	lo, hi Lin
	node   Value // VPtr of a new node
	val    Value // expected value (template for ranges)
	arr    int
}

func (m *listModel) rng(lo, hi Lin) piece {
	return piece{lo: lo, hi: hi, arr: m.arr, val: T("el", I(S(iotaSym)))}
}
func (m *listModel) one(k Lin) piece { return m.rng(k, k.addk(1)) }
func fresh1(n, v Value) piece        { return piece{node: n, val: v} }

func (p piece) first() Value {
	if p.node != nil {
		return p.node
	}
	return VElem{p.arr, p.lo, ""}
}

func (p piece) last() Value {
	if p.node != nil {
		return p.node
	}
	return VElem{p.arr, p.hi.addk(-1), ""}
}

func (p piece) size() Lin {
	if p.node != nil {
		return K(1)
	}
	return p.hi.sub(p.lo)
}

// link reads a field of a node.
func (s *State) link(n Value, f string) Value {
	switch x := n.(type) {
	case VElem:
		return s.arrGet(x.Arr, f, x.Idx)
	case VPtr:
		o := s.heap[x.Obj]
		if o == nil || o.IsArr {
			giveUp("unknown node")
		}
		if v, ok := o.Cells[f]; ok {
			return v
		}
		return VNil{}
	}
	giveUp("%s is not a node", showVal(n))
	return nil
}

// wantList requires that the list consists of exactly the given nodes, in this order.
func (j *Job) wantList(s *State, m *listModel, ps []piece, pos token.Pos) bool {
	var qs []piece
	n := K(0)
	for _, p := range ps {
		n = n.add(p.size())
		if s.need(condGE(p.size().addk(-1))) {
			qs = append(qs, p)
		}
	}
	if !j.mustEq(s, s.cell(m.id, ".len"), I(n), pos, "the recorded length is wrong") {
		return false
	}
	if len(qs) == 0 {
		ok := j.mustEq(s, s.cell(m.id, ".head"), VNil{}, pos, "the empty list has a front node")
		if !m.bid {
			ok = ok && j.mustEq(s, s.cell(m.id, ".tail"), VNil{}, pos, "the empty list has a back node")
		}
		return ok
	}
	if !j.mustEq(s, s.cell(m.id, ".head"), qs[0].first(), pos, "wrong front node") {
		return false
	}
	if !m.bid && !j.mustEq(s, s.cell(m.id, ".tail"), qs[len(qs)-1].last(), pos, "wrong back node") {
		return false
	}
	for i, q := range qs {
		var next, prev Value
		next = qs[(i+1)%len(qs)].first()
		prev = qs[(i+len(qs)-1)%len(qs)].last()
		if !m.bid && i == len(qs)-1 {
			next = VNil{}
		}
		if q.node == nil {
			if !j.wantCol(s, q.arr, ".next", K(0), []Seg{{q.lo, q.hi.addk(-1), nodeTmpl(q.arr, 1)}}, pos, "links to the next node") {
				return false
			}
			if m.bid && !j.wantCol(s, q.arr, ".prev", K(0), []Seg{{q.lo.addk(1), q.hi, nodeTmpl(q.arr, -1)}}, pos, "links to the previous node") {
				return false
			}
			if m.bid && !j.wantCol(s, q.arr, ".list", K(0), []Seg{{q.lo, q.hi, m.ptr}}, pos, "owner of the nodes") {
				return false
			}
			if !j.wantCol(s, q.arr, ".Value", K(0), []Seg{{q.lo, q.hi, q.val}}, pos, "values of the nodes") {
				return false
			}
		} else {
			if m.bid && !j.mustEq(s, s.link(q.node, ".list"), m.ptr, pos, "the new node belongs to another list") {
				return false
			}
			if !j.mustEq(s, s.link(q.node, ".Value"), q.val, pos, "the new node holds the wrong value") {
				return false
			}
		}
		if !j.mustEq(s, s.link(q.last(), ".next"), next, pos, "wrong successor") {
			return false
		}
		if m.bid && !j.mustEq(s, s.link(q.first(), ".prev"), prev, pos, "wrong predecessor") {
			return false
		}
	}
	return true
}

// same requires that a list is what it was initially.
func (j *Job) listSame(s *State, m *listModel, name string, pos token.Pos) bool {
	p := m.rng(K(0), m.n)
	p.val = T(name, I(S(iotaSym)))
	return j.wantList(s, m, []piece{p}, pos)
}

// newNode finds the node made by the operation: the one reached from the given place.
func (j *Job) newNode(s *State, v Value, old int, pos token.Pos) (Value, bool) {
	p, ok := v.(VPtr)
	if !ok || p.Path != "" || p.Obj <= old || s.heap[p.Obj] == nil || s.heap[p.Obj].IsArr {
		j.fail(pos, "no new node at the place of insertion (found %s) %s", showVal(v), j.path(s))
		return nil, false
	}
	return p, true
}

// listCase is one operation under one condition.
type listCase struct {
	recv   string // "", "Node", "ListIterator"
	meth   string
	when   string // description
	min    int64  // smallest number of nodes
	empty  bool   // the list has no nodes
	panics bool
	other  bool // a second list or detached node takes part
	args   func(s *State, m, o *listModel) []Value
	loops  bool
	post   func(j *Job, s *State, m, o *listModel, a, ret []Value, old int, pos token.Pos)
}

const bidPkg, simplePkg = "ds/list/bidlist", "ds/list/simplelist"

func valArg(s *State, m, o *listModel) []Value { return []Value{T("value")} }

// nodeAt picks an arbitrary node of m.
func nodeAt(s *State, m *listModel, name string) Lin {
	k := s.freshIn(name, K(0), m.n.addk(-1))
	s.keep[name] = I(k)
	return k
}

func kept(s *State, n string) Lin { return lin(s.keep[n]) }

func foreignNode(s *State, m, o *listModel) Value {
	k := s.freshIn("fk", K(0), o.n.addk(-1))
	s.keep["fk"] = I(k)
	return o.node(k)
}

// detached is a node that is in no list.
func detached(s *State) Value {
	d := s.newObj("detached")
	c := s.heap[d].Cells
	c[".list"], c[".next"], c[".prev"], c[".Value"] = VNil{}, VNil{}, VNil{}, T("dv")
	s.keep["detached"] = VPtr{d, ""}
	return VPtr{d, ""}
}

func unchanged(j *Job, s *State, m, o *listModel, a, ret []Value, old int, pos token.Pos) {
	j.listSame(s, m, "el", pos)
}

func insertAt(where func(s *State, m *listModel) Lin, from func(s *State, m *listModel) Value, ret bool) func(j *Job, s *State, m, o *listModel, a, ret []Value, old int, pos token.Pos) {
	return func(j *Job, s *State, m, o *listModel, a, rv []Value, old int, pos token.Pos) {
		n, ok := j.newNode(s, from(s, m), old, pos)
		if !ok {
			return
		}
		w := where(s, m)
		j.wantList(s, m, []piece{m.rng(K(0), w), fresh1(n, T("value")), m.rng(w, m.n)}, pos)
		if ret {
			j.mustEq(s, rv[0], n, pos, "the new node is not returned")
		}
	}
}

func lastLink(s *State, m *listModel) Value {
	if s.need(condEQ(m.n)) {
		return s.cell(m.id, ".head")
	}
	return s.link(m.node(m.n.addk(-1)), ".next")
}
func frontLink(s *State, m *listModel) Value { return s.cell(m.id, ".head") }

func retValue(f func(s *State, m *listModel) Value, ps func(s *State, m *listModel) []piece) func(j *Job, s *State, m, o *listModel, a, ret []Value, old int, pos token.Pos) {
	return func(j *Job, s *State, m, o *listModel, a, ret []Value, old int, pos token.Pos) {
		if f != nil {
			j.mustEq(s, ret[0], f(s, m), pos, "wrong result")
		}
		j.wantList(s, m, ps(s, m), pos)
	}
}

func allOf(s *State, m *listModel) []piece { return []piece{m.rng(K(0), m.n)} }
func without(k func(s *State, m *listModel) Lin) func(s *State, m *listModel) []piece {
	return func(s *State, m *listModel) []piece {
		return []piece{m.rng(K(0), k(s, m)), m.rng(k(s, m).addk(1), m.n)}
	}
}
func zeroK(s *State, m *listModel) Lin { return K(0) }
func lastK(s *State, m *listModel) Lin { return m.n.addk(-1) }
func keptK(n string) func(s *State, m *listModel) Lin {
	return func(s *State, m *listModel) Lin { return kept(s, n) }
}
func elK(k func(s *State, m *listModel) Lin) func(s *State, m *listModel) Value {
	return func(s *State, m *listModel) Value { return el(k(s, m)) }
}
func nodeK(k func(s *State, m *listModel) Lin) func(s *State, m *listModel) Value {
	return func(s *State, m *listModel) Value { return m.node(k(s, m)) }
}
func constV(v Value) func(s *State, m *listModel) Value {
	return func(s *State, m *listModel) Value { return v }
}

// gone requires that node k no longer claims to be in a list.
func gone(k func(s *State, m *listModel) Lin, then func(j *Job, s *State, m, o *listModel, a, ret []Value, old int, pos token.Pos)) func(j *Job, s *State, m, o *listModel, a, ret []Value, old int, pos token.Pos) {
	return func(j *Job, s *State, m, o *listModel, a, ret []Value, old int, pos token.Pos) {
		then(j, s, m, o, a, ret, old, pos)
		j.mustEq(s, s.link(m.node(k(s, m)), ".list"), VNil{}, pos, "the removed node still names a list as its owner")
	}
}

func moveTo(ps func(s *State, m *listModel) []piece) func(j *Job, s *State, m, o *listModel, a, ret []Value, old int, pos token.Pos) {
	return retValue(nil, ps)
}

func nodeArg(name string) func(s *State, m, o *listModel) []Value {
	return func(s *State, m, o *listModel) []Value { return []Value{m.node(nodeAt(s, m, name))} }
}

// visits models a visitor that may stop at any call; it must see name(0), name(1), ... in order.
func (j *Job) visits(st *State, elem func(i Lin) Value) {
	st.keep["seen"] = Kv(0)
	st.keep["stopped"] = bFalse
	j.ip.Unknown = func(c *callCtx) ([]Out, bool) {
		s := c.st
		if len(c.args) != 1 && len(c.args) != 2 {
			return nil, false
		}
		if s.keep["stopped"].(VBool).Op == 'T' {
			j.fail(c.site.Pos(), "the visitor is called again after it returned false %s", j.path(s))
			return []Out{{s, []Value{bFalse}}}, true
		}
		i := lin(s.keep["seen"])
		var got Value = c.args[0]
		if len(c.args) == 2 {
			got = VTuple{c.args}
		}
		if !s.sameVal(got, elem(i)) {
			if debugOn {
				dbg("visitor sees %s, expected %s\n%s", showVal(got), showVal(elem(i)), s.dump())
			}
			j.fail(c.site.Pos(), "visit number %s is handed %s, expected %s %s", i.addk(1), showVal(got), showVal(elem(i)), j.path(s))
		}
		s.keep["seen"] = I(i.addk(1))
		t := s.clone()
		t.keep["stopped"] = bTrue
		return []Out{{s, []Value{bTrue}}, {t, []Value{bFalse}}}, true
	}
	j.ip.Part = func(s *State) string {
		k := showVal(s.keep["stopped"])
		if s.entailsEq(lin(s.keep["seen"])) {
			k += "0"
		}
		return k
	}
}

func visitedAll(n func(m *listModel) Lin) func(j *Job, s *State, m, o *listModel, a, ret []Value, old int, pos token.Pos) {
	return func(j *Job, s *State, m, o *listModel, a, ret []Value, old int, pos token.Pos) {
		if s.keep["stopped"].(VBool).Op != 'T' {
			j.mustEq(s, s.keep["seen"], I(n(m)), pos, "the traversal ends early although the visitor never returned false")
		}
		j.listSame(s, m, "el", pos)
	}
}

func appended(front, self bool) func(j *Job, s *State, m, o *listModel, a, ret []Value, old int, pos token.Pos) {
	return func(j *Job, s *State, m, o *listModel, a, ret []Value, old int, pos token.Pos) {
		foldNodes(s, m, front)
		on, name := m.n, "el"
		if !self {
			on, name = o.n, "oel"
		}
		shift := func(v string, d Lin) Value { return T(v, I(S(iotaSym).sub(d))) }
		var ps []piece
		if front {
			ps = []piece{{lo: K(0), hi: on, arr: m.arr, val: shift(name, K(0))}, {lo: on, hi: on.add(m.n), arr: m.arr, val: shift("el", on)}}
		} else {
			ps = []piece{{lo: K(0), hi: m.n, arr: m.arr, val: shift("el", K(0))}, {lo: m.n, hi: on.add(m.n), arr: m.arr, val: shift(name, m.n)}}
		}
		j.wantList(s, m, ps, pos)
		if !self {
			j.listSame(s, o, "oel", pos)
		}
	}
}

// mapPtrs rewrites every value of the state.
func (s *State) mapAll(f func(Value) Value) {
	for id, o := range s.heap {
		n := o.clone()
		for k, v := range n.Cells {
			n.Cells[k] = mapLeaves(v, f)
		}
		for k, c := range n.Cols {
			d := append([]Seg(nil), c...)
			for i := range d {
				d[i].V = mapLeaves(d[i].V, f)
			}
			n.Cols[k] = d
		}
		s.heap[id] = n
	}
	for _, fr := range s.frames {
		for i, v := range fr.regs {
			if v != nil {
				fr.regs[i] = mapLeaves(v, f)
			}
		}
		ds := append([]deferred(nil), fr.defers...)
		for i := range ds {
			as := append([]Value(nil), ds[i].args...)
			for k := range as {
				as[k] = mapLeaves(as[k], f)
			}
			ds[i].args = as
		}
		fr.defers = ds
	}
	for k, v := range s.keep {
		s.keep[k] = mapLeaves(v, f)
	}
}

func mapLeaves(v Value, f func(Value) Value) Value {
	vs := func(a []Value) []Value {
		out := make([]Value, len(a))
		for i := range a {
			out[i] = mapLeaves(a[i], f)
		}
		return out
	}
	switch x := v.(type) {
	case VTerm:
		if len(x.A) == 0 {
			return x
		}
		return VTerm{x.F, vs(x.A)}
	case VStruct:
		return VStruct{vs(x.F)}
	case VTuple:
		return VTuple{vs(x.E)}
	case VClo:
		return VClo{x.Fn, vs(x.Bind)}
	case VIface:
		return VIface{x.Dyn, mapLeaves(x.V, f)}
	}
	return f(v)
}

// foldNodes makes nodes that an operation has linked in at the end (or, front, before the
// beginning) of the chain elements of the array of nodes.
func foldNodes(s *State, m *listModel, front bool) {
	for {
		o := s.heap[m.arr]
		n := o.Len
		empty := s.need(condEQ(n))
		var x VPtr
		var ok bool
		if empty {
			x, ok = s.cell(m.id, ".head").(VPtr)
		} else if front {
			x, ok = s.link(m.node(K(0)), ".prev").(VPtr)
		} else {
			x, ok = s.link(m.node(n.addk(-1)), ".next").(VPtr)
		}
		if !ok || s.heap[x.Obj] == nil || s.heap[x.Obj].IsArr {
			return
		}
		c := s.heap[x.Obj].Cells
		if empty {
			if c[".next"] != Value(x) || c[".prev"] != Value(x) {
				return
			}
		} else {
			if !s.sameVal(c[".next"], m.node(K(0))) || !s.sameVal(c[".prev"], m.node(n.addk(-1))) ||
				s.link(m.node(K(0)), ".prev") != Value(x) || s.link(m.node(n.addk(-1)), ".next") != Value(x) {
				return
			}
		}
		pos := n
		if front {
			// every position moves up by one
			pos = K(0)
			up := func(v Value) Value {
				if e, ok := v.(VElem); ok && e.Arr == m.arr {
					e.Idx = e.Idx.addk(1)
					return e
				}
				return v
			}
			s.mapAll(up)
			no := s.mut(m.arr)
			for k, col := range no.Cols {
				var d []Seg
				for _, g := range col {
					d = append(d, Seg{g.Lo.addk(1), g.Hi.addk(1), mapIota(g.V, -1)})
				}
				no.Cols[k] = d
			}
		}
		c = s.heap[x.Obj].Cells
		no := s.mut(m.arr)
		no.Len = n.addk(1)
		for k, col := range no.Cols {
			g := Seg{pos, pos.addk(1), overIndex(c[k], pos)}
			if c[k] == nil {
				g.V = VNil{}
			}
			if front {
				no.Cols[k] = append([]Seg{g}, col...)
			} else {
				no.Cols[k] = append(append([]Seg(nil), col...), g)
			}
		}
		delete(s.heap, x.Obj)
		s.mapAll(func(v Value) Value {
			if p, ok := v.(VPtr); ok && p.Obj == x.Obj {
				return VElem{m.arr, pos, p.Path}
			}
			return v
		})
		for _, k := range sortedKeys(s.heap[m.arr].Cols) {
			d := append([]Seg(nil), s.heap[m.arr].Cols[k]...)
			for i := range d {
				if hasIota(d[i].V) || !s.entails(d[i].Lo.sub(d[i].Hi).addk(1)) {
					continue
				}
				switch v := d[i].V.(type) {
				case VElem:
					t := nodeTmpl(m.arr, 1)
					if k == ".prev" {
						t = nodeTmpl(m.arr, -1)
					}
					if v.Arr == m.arr && s.sameVal(v, at(t, d[i].Lo)) {
						d[i].V = t
					}
				case VTerm:
					if len(v.A) == 1 {
						if x, ok := v.A[0].(VInt); ok {
							d[i].V = T(v.F, I(S(iotaSym).add(x.L.sub(d[i].Lo))))
						}
					}
				}
			}
			s.mut(m.arr).Cols[k] = s.normSegs(d)
		}
	}
}

// mapIota replaces ι by ι+d.
func mapIota(v Value, d int64) Value { return at(v, S(iotaSym).addk(d)) }

func init() {
	checks["C06"] = func(p *Prog, r *Result) {
		r.Rule("abstract interpretation of every operation of the bidirectional list and its nodes and iterators on a list of symbolic length given as a circular chain of nodes; at every exit the chain (front node, both links of every node, owner, values, length) is compared with the sequence of nodes the operation must leave; nodes of other lists and detached nodes are passed too; loops need a ranking")
		r.Assumption("lists are built through the package's operations, so that the chain is well formed when an operation starts; the number of nodes does not overflow int")
		for i := range bidCases {
			checkListCase(p, r, bidPkg, &bidCases[i])
		}
		r.Need("clauses", len(bidCases))
	}
	checks["C07"] = func(p *Prog, r *Result) {
		r.Rule("abstract interpretation of every operation of the singly linked list and its iterators on a list of symbolic length given as a nil-ended chain of nodes; at every exit front node, back node, every link, the values and the length are compared with the sequence of nodes the operation must leave; loops need a ranking")
		r.Assumption("a node handed to an operation is in the list and is handed with its predecessor (nil for the front node), as documented; lists are built through the package's operations")
		for i := range simpleCases {
			checkListCase(p, r, simplePkg, &simpleCases[i])
		}
		r.Need("clauses", len(simpleCases))
	}
}

func checkListCase(p *Prog, r *Result, pkg string, c *listCase) {
	typ := c.recv
	if typ == "" {
		typ = "List"
	}
	f := p.Method(pkg, typ, c.meth)
	if c.recv == "func" {
		f = p.Func(pkg, c.meth)
	}
	for _, empty := range []bool{true, false} {
		if c.empty != empty && (c.min > 0 || c.empty) {
			continue
		}
		j := r.job(p, "list", f, pkg+" "+typ+"."+c.meth)
		if j == nil {
			return
		}
		if c.when != "" {
			j.name += " (" + c.when + ")"
		}
		st := j.ip.NewState()
		n := K(0)
		if !empty {
			n = st.fresh("n", K(max(c.min, 1)))
			st.keep["n"] = I(n)
		}
		m := newList(st, pkg, "el", n, empty)
		st.keep["list"] = m.ptr
		st.keep["nodes"] = VElem{m.arr, K(0), ""}
		var o *listModel
		if c.other {
			on := st.fresh("on", K(1))
			st.keep["on"] = I(on)
			o = newList(st, pkg, "oel", on, false)
			st.keep["other"] = o.ptr
			st.keep["onodes"] = VElem{o.arr, K(0), ""}
		}
		if o == nil && c.loops {
			o = nil
		}
		var args []Value
		if c.recv == "" {
			args = append(args, m.ptr)
		}
		if c.args != nil {
			args = append(args, c.args(st, m, o)...)
		}
		old := objCount
		if c.meth == "Traversal" {
			j.visits(st, el)
		}
		if c.loops {
			j.ip.K = 3
			front := c.meth == "PushFrontList"
			j.ip.AtHead = func(s *State) { foldNodes(s, m, front) }
			part := j.ip.Part
			j.ip.Part = func(s *State) string {
				// only chains made of the same kinds of pieces are joined
				k := ""
				for _, g := range s.col(m.arr, ".Value") {
					if t, ok := g.V.(VTerm); ok {
						k += t.F + " "
					}
				}
				// a pointer to the front node may stand for the end of a round trip
				for _, v := range s.top().regs {
					if e, ok := v.(VElem); ok && e.Arr == m.arr && m.bid {
						if s.entailsEq(e.Idx) {
							k += "0"
						} else {
							k += "+"
						}
					}
				}
				if part != nil {
					k += part(s)
				}
				return k
			}
		}
		j.allowPanic = c.panics
		j.run(st, args, func(s *State, ret []Value, pos token.Pos) {
			if c.panics {
				j.fail(pos, "the operation must panic %s", j.path(s))
				return
			}
			if c.post != nil {
				c.post(j, s, m, o, args, ret, old, pos)
			}
			if c.other && !c.loops {
				j.listSame(s, o, "oel", pos)
			}
		})
		if c.panics && j.panics == 0 && !j.bad {
			j.fail(f.Pos(), "the operation must panic")
		}
		r.Count("cases", 1)
	}
	r.Count("clauses", 1)
}

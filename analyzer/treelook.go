package main

// C10: lookups, neighbours, traversal and iterators of the red-black tree.

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

const (
	rangeLo = "<"
	rangeHi = ">"
)

// subAround makes an arbitrary tree with an arbitrary subtree in it; the elements of the
// subtree are bracketed in the list of original elements.
func (s *State) subAround() *treeModel {
	m := s.newTree()
	pre, r, suf := s.newItem("run", mAny), s.newItem("run", mAny), s.newItem("run", mAny)
	s.keep["E"] = VTuple{[]Value{pre, T(rangeLo), r, T(rangeHi), suf}}
	bh := s.fresh("bh", K(0))
	g := s.newSeg(VNil{}, VNil{}, bh, s.fresh("d", K(0)), '?', []Value{pre}, []Value{suf})
	x := s.newSub(segBot(g), bh, s.fresh("h", K(0)), '?', []Value{r})
	s.setCell(g, "hole", x)
	s.setCell(m.t, ".root", segTop(g))
	m.node = x
	return m
}

// scope is the part of the elements a lookup is about: all, or the bracketed ones.
func (s *State) scope() (l []Value, lo, hi int) {
	l = s.elems()
	hi = len(l)
	for i, x := range l {
		if t, ok := x.(VTerm); ok {
			switch t.F {
			case rangeLo:
				lo = i + 1
			case rangeHi:
				hi = i
			}
		}
	}
	return
}

// reach turns a pointer into one to an explicit node.
func (s *State) reach(v Value) (VPtr, bool) {
	p, ok := v.(VPtr)
	if !ok {
		return p, false
	}
	switch o := s.heap[p.Obj]; {
	case isNode(o):
		return p, p.Path == ""
	case o != nil && o.Site == "sub" && p.Path == "":
		s.expand(p.Obj)
	case o != nil && o.Site == "seg":
		s.wantNonEmpty(p.Obj)
		if p.Path == "bot" {
			s.openBottom(p.Obj)
		}
		giveUp("the result is the top of a path of unknown length")
	}
	return p, false
}

// intact requires that the tree still is the original one.
func (j *Job) intact(s *State, m *treeModel, pos token.Pos) bool {
	w := s.walk(s.cell(m.t, ".root"))
	if len(w.bad) > 0 {
		j.fail(pos, "%s %s", w.bad[0], j.path(s))
		return false
	}
	var want []Value
	for _, x := range s.elems() {
		if _, ok := x.(VPtr); ok {
			want = append(want, x)
		}
	}
	if !valsEq(w.items, want) {
		j.fail(pos, "the lookup changes the content of the tree %s", j.path(s))
		return false
	}
	return j.mustEq(s, s.cell(m.t, ".size"), I(m.size), pos, "the lookup changes the size")
}

// wantFirst requires that v is the first node of the scope whose comparison lies in hit.
func (j *Job) wantFirst(s *State, m *treeModel, v Value, hit int, pos token.Pos, what string) {
	l, lo, hi := s.scope()
	k := hi
	if v != Value(VNil{}) {
		p, ok := s.reach(v)
		if !ok {
			j.fail(pos, "%s: the result is no node of the tree %s", what, j.path(s))
			return
		}
		l, lo, hi = s.scope()
		k = indexItem(l, s.nodeItem(p.Obj))
		if k < lo || k >= hi {
			j.fail(pos, "%s: the result is no node of the tree %s", what, j.path(s))
			return
		}
		if s.maskOf(l[k])&^hit != 0 {
			j.fail(pos, "%s: the node delivered need not qualify %s", what, j.path(s))
			return
		}
	}
	for i := lo; i < k; i++ {
		if s.maskOf(l[i])&hit != 0 {
			if k == hi {
				j.fail(pos, "%s: nothing is delivered although a node may qualify %s", what, j.path(s))
			} else {
				j.fail(pos, "%s: a node before the one delivered may qualify %s", what, j.path(s))
			}
			return
		}
	}
	j.intact(s, m, pos)
}

// ---- recursion: a call of a function that is already running, on a smaller subtree, is
// answered by what the function is shown to do.

type induction struct {
	p    *Prog
	hit  int
	used map[*ssa.Function]bool
}

func nodeParam(f *ssa.Function) int {
	for i, p := range f.Params {
		if isRbPtr(p.Type(), "Node") {
			return i
		}
	}
	return -1
}

func isRbPtr(t types.Type, name string) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := pt.Elem().(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "rbtree"
}

func (h *induction) static(c *callCtx) ([]Out, bool) {
	if c.fn == nil {
		return nil, false
	}
	var outer *Frame
	for _, fr := range c.st.frames {
		if fr.fn == c.fn {
			outer = fr
		}
	}
	if outer == nil {
		return nil, false
	}
	s := c.st
	k := nodeParam(c.fn)
	if k < 0 || c.fn.Signature.Results().Len() != 1 || !isRbPtr(c.fn.Signature.Results().At(0).Type(), "Node") {
		return nil, false
	}
	for i, a := range c.args {
		switch {
		case i == k:
		case a == s.keep["tree"]:
		case valEq(a, T("key")):
		default:
			return nil, false
		}
	}
	h.used[c.fn] = true
	if c.args[k] == Value(VNil{}) {
		return []Out{{s, []Value{VNil{}}}}, true
	}
	x, ok := c.args[k].(VPtr)
	if !ok || x.Path != "" || s.heap[x.Obj] == nil || s.heap[x.Obj].Site != "sub" {
		return nil, false
	}
	top := outer.regs[numbering(c.fn).idx[c.fn.Params[k]]]
	if !s.below(top, x.Obj) {
		giveUp("recursion that is not on a smaller subtree")
	}
	return s.firstIn(x.Obj, h.hit), true
}

// below: does the object hang properly below the node?
func (s *State) below(top Value, id int) bool {
	seen := map[int]bool{}
	var rec func(v Value) bool
	rec = func(v Value) bool {
		p, ok := v.(VPtr)
		if !ok || seen[p.Obj] {
			return false
		}
		if p.Obj == id {
			return true
		}
		seen[p.Obj] = true
		o := s.heap[p.Obj]
		if isNode(o) {
			return rec(o.Cells[".left"]) || rec(o.Cells[".right"])
		}
		return false
	}
	p, ok := top.(VPtr)
	if !ok || p.Obj == id || !isNode(s.heap[p.Obj]) {
		return false
	}
	return rec(top)
}

// firstIn delivers the first node of a subtree whose comparison lies in hit, or nil.
func (s *State) firstIn(id, hit int) (outs []Out) {
	items := s.list(id, "items")
	if t := s.clone(); t.narrow(items, 0, len(items), mAny&^hit) {
		outs = append(outs, Out{t, []Value{VNil{}}})
	}
	for i := range items {
		t := s.clone()
		e := items[i]
		if t.maskOf(e)&hit == 0 || !t.narrow(items, 0, i, mAny&^hit) {
			continue
		}
		pre, suf := append([]Value(nil), items[:i]...), append([]Value(nil), items[i+1:]...)
		if t.isRun(e) {
			a, m, b := t.splitItem(e)
			if !t.narrow([]Value{a}, 0, 1, mAny&^hit) {
				continue
			}
			pre, e, suf = append(pre, a), m, append([]Value{b}, suf...)
		}
		l := t.elems()
		k := indexItem(l, e)
		if !t.narrow(l, k, k+1, hit) || !t.narrow(l, k, len(l), t.atLeast(e)) {
			continue
		}
		for cl := 0; cl <= len(pre); cl++ {
			for cr := 0; cr <= len(suf); cr++ {
				for _, red := range []bool{false, true} {
					u := t.clone()
					if n, ok := u.surface(id, pre, e, suf, cl, cr, red); ok {
						outs = append(outs, Out{u, []Value{n}})
					}
				}
			}
		}
	}
	return
}

// atLeast is what the comparison may answer for elements from e on.
func (s *State) atLeast(e Value) int {
	m := s.maskOf(e)
	switch {
	case m&mPos != 0:
		return mAny
	case m&mZero != 0:
		return mZero | mNeg
	}
	return mNeg
}

// surface makes the node that holds e explicit; its own subtrees take the last items of pre
// from cl on and the first ones of suf up to cr, and parts of the runs next to the cuts.
func (s *State) surface(id int, pre []Value, e Value, suf []Value, cl, cr int, red bool) (Value, bool) {
	cut := func(l []Value, c int) (a, b []Value) {
		if c > 0 && s.isRun(l[c-1]) {
			m := s.maskOf(l[c-1])
			x, y := s.newItem("run", m), s.newItem("run", m)
			s.sameCount(l[c-1], x, y)
			s.replaceItem(l[c-1], x, y)
			return append(append([]Value(nil), l[:c-1]...), x), append([]Value{y}, l[c:]...)
		}
		return append([]Value(nil), l[:c]...), append([]Value(nil), l[c:]...)
	}
	if cl > 0 && cl < len(pre) && !s.isRun(pre[cl-1]) && s.isRun(pre[cl]) || cr > 0 && cr < len(suf) && !s.isRun(suf[cr-1]) && s.isRun(suf[cr]) {
		return nil, false // covered by the cut inside the run that follows
	}
	if cl == 0 && len(pre) > 0 && s.isRun(pre[0]) || cr == 0 && len(suf) > 0 && s.isRun(suf[0]) {
		return nil, false // covered by the cut inside the first run
	}
	p1, p2 := cut(pre, cl)
	q1, q2 := cut(suf, cr)
	o := s.heap[id]
	up, tbh, col := o.Cells[".parent"], s.cellLin(id, "bh"), s.flag(id, "col")
	h := s.cellLin(id, "h")
	n := s.newObj("node")
	self := VPtr{n, ""}
	bh := s.fresh("bh", K(0))
	hole, c := bh, byte('b')
	if !red {
		hole, c = bh.addk(1), '?'
	}
	d := s.fresh("d", K(0))
	if !s.addFact(h.sub(d).addk(-1)) {
		return nil, false
	}
	g := s.newSeg(up, self, hole, d, '?', p1, q2)
	s.heap[g].Cells["tbh"] = I(tbh)
	if col == 'b' {
		s.heap[g].Cells["top"] = flagV('b')
	}
	if red {
		s.heap[g].Cells["bot"] = flagV('b')
	}
	s.makeNode(n, segBot(g), red, e)
	s.setCell(n, ".left", s.newSub(self, bh, s.freshIn("h", K(0), h.sub(d).addk(-1)), c, p2))
	s.setCell(n, ".right", s.newSub(self, bh, s.freshIn("h", K(0), h.sub(d).addk(-1)), c, q1))
	s.substPtr(VPtr{id, ""}, segTop(g))
	delete(s.heap, id)
	return self, true
}

// lookup analyses a search that delivers the first node whose comparison lies in hit, then
// the recursive functions it relies on.
func lookup(p *Prog, r *Result, fn *ssa.Function, what string, hit int, spec treeSpec) {
	h := &induction{p: p, hit: hit, used: map[*ssa.Function]bool{}}
	use := func(j *Job, s *State, m *treeModel) { j.ip.Static = h.static }
	treeJob(p, r, fn, what, (*State).wholeTree, func(s *State, m *treeModel) []Value { return []Value{VPtr{m.t, ""}, T("key")} }, spec, use)
	done := map[*ssa.Function]bool{}
	for {
		var g *ssa.Function
		var todo []*ssa.Function
		for f := range h.used {
			if !done[f] {
				todo = append(todo, f)
			}
		}
		if len(todo) == 0 {
			return
		}
		sort.Slice(todo, func(a, b int) bool { return todo[a].Pos() < todo[b].Pos() })
		g = todo[0]
		done[g] = true
		k := nodeParam(g)
		treeJob(p, r, g, what+": "+g.Name(), (*State).subAround, func(s *State, m *treeModel) []Value {
			var args []Value
			for i, q := range g.Params {
				switch {
				case i == k:
					args = append(args, m.node)
				case isRbPtr(q.Type(), "RbTree"):
					args = append(args, VPtr{m.t, ""})
				default:
					args = append(args, T("key"))
				}
			}
			return args
		}, func(j *Job, s *State, m *treeModel, ret []Value, pos token.Pos) {
			j.wantFirst(s, m, ret[0], hit, pos, "subtree")
		}, use)
	}
}

// ---- traversal

// afterCursor is the index of the first element that has not been visited.
func (s *State) afterCursor() int {
	if c, ok := s.keep["cur"].(VPtr); ok {
		return indexItem(s.elems(), c) + 1
	}
	return 0
}

func visitElems(j *Job) func(c *callCtx) ([]Out, bool) {
	return func(c *callCtx) ([]Out, bool) {
		u, ok := c.recv.(VUnk)
		if !ok || u.Name != "visit" || len(c.args) != 2 {
			return treeCmp(c)
		}
		s := c.st
		l, k := s.elems(), s.afterCursor()
		if s.keep["stopped"] != nil {
			j.fail(c.site.Pos(), "the visitor is called again after it returned false")
		}
		if k >= len(l) || s.isRun(l[k]) || !valEq(c.args[0], ofKey(l[k])) || !valEq(c.args[1], ofVal(l[k])) {
			if debugOn {
				dbg("visit %s %s at %d\n%s", showVal(c.args[0]), showVal(c.args[1]), k, s.dump())
			}
			j.fail(c.site.Pos(), "the visitor is not given the entries in order, each once")
		}
		if j.bad {
			c.ip.stop = true
			return nil, true
		}
		t := s.clone()
		s.keep["cur"] = l[k]
		t.keep["cur"] = l[k]
		t.keep["stopped"] = bTrue
		return []Out{{s, []Value{bTrue}}, {t, []Value{bFalse}}}, true
	}
}

// ---- neighbours

// wantElem requires that v is the node at index k of the elements, or nil if there is none.
func (j *Job) wantElem(s *State, v Value, k int, pos token.Pos, what string) {
	if v == Value(VNil{}) {
		l := s.elems()
		if k >= 0 && k < len(l) {
			j.fail(pos, "%s: nil although there is such a node %s", what, j.path(s))
		}
		return
	}
	p, ok := s.reach(v)
	l := s.elems()
	if !ok || k < 0 || k >= len(l) || !valEq(s.nodeItem(p.Obj), l[k]) {
		if debugOn {
			dbg("wantElem %s at %d\n%s", showVal(v), k, s.dump())
		}
		j.fail(pos, "%s: the wrong node is delivered %s", what, j.path(s))
	}
}

func init() {
	checks["C10"] = func(p *Prog, r *Result) {
		r.Rule("abstract interpretation of every lookup, neighbour, traversal and iterator operation on red-black trees of unknown size; the answers of the comparator split the in-order sequence into less, equal and greater entries, and the node delivered is compared with the one the documentation calls for; recursive searches are shown by induction on the subtree")
		r.Assumption("the comparator is a total preorder")
		m := func(n string) *ssa.Function { return p.Method(rbRel, "RbTree", n) }
		tree := func(s *State, m *treeModel) []Value { return []Value{VPtr{m.t, ""}} }
		lookup(p, r, m("FindLowerBoundNode"), rbRel+" RbTree.FindLowerBoundNode", mZero|mNeg, func(j *Job, s *State, m *treeModel, ret []Value, pos token.Pos) {
			j.wantFirst(s, m, ret[0], mZero|mNeg, pos, "lower bound")
		})
		lookup(p, r, m("FindUpperBoundNode"), rbRel+" RbTree.FindUpperBoundNode", mNeg, func(j *Job, s *State, m *treeModel, ret []Value, pos token.Pos) {
			j.wantFirst(s, m, ret[0], mNeg, pos, "upper bound")
		})
		lookup(p, r, m("FindNode"), rbRel+" RbTree.FindNode", mZero|mNeg, func(j *Job, s *State, m *treeModel, ret []Value, pos token.Pos) {
			j.wantFirst(s, m, ret[0], mZero, pos, "first equal key")
		})
		lookup(p, r, m("Find"), rbRel+" RbTree.Find", mZero|mNeg, func(j *Job, s *State, m *treeModel, ret []Value, pos token.Pos) {
			l := s.elems()
			if ret[1] != Value(VNil{}) {
				for _, x := range l {
					if s.maskOf(x)&mZero != 0 {
						j.fail(pos, "not found, although an entry may have the key %s", j.path(s))
						return
					}
				}
				j.intact(s, m, pos)
				return
			}
			t, ok := ret[0].(VTerm)
			k := -1
			if ok && t.F == "v" && len(t.A) == 1 {
				k = indexItem(l, t.A[0])
			}
			if k < 0 || s.maskOf(l[k])&^mZero != 0 {
				j.fail(pos, "the value delivered is not that of an entry with the key %s", j.path(s))
				return
			}
			for i := 0; i < k; i++ {
				if s.maskOf(l[i])&mZero != 0 {
					j.fail(pos, "an earlier entry may have the key %s", j.path(s))
					return
				}
			}
			j.intact(s, m, pos)
		})
		end := func(last bool) treeSpec {
			return func(j *Job, s *State, m *treeModel, ret []Value, pos token.Pos) {
				v := ret[0]
				if i, ok := v.(VPtr); ok && s.cell(i.Obj, ".node") != nil {
					v = s.cell(i.Obj, ".node")
				}
				if v != Value(VNil{}) {
					s.reach(v)
				}
				k := 0
				if last {
					k = len(s.elems()) - 1
				}
				j.wantElem(s, v, k, pos, "end of the sequence")
				j.intact(s, m, pos)
			}
		}
		for _, n := range []string{"First", "Begin", "IterFirst"} {
			treeJob(p, r, m(n), rbRel+" RbTree."+n, (*State).wholeTree, tree, end(false))
		}
		for _, n := range []string{"Last", "RBegin", "IterLast"} {
			treeJob(p, r, m(n), rbRel+" RbTree."+n, (*State).wholeTree, tree, end(true))
		}
		for _, n := range []string{"Size", "Empty"} {
			n := n
			treeJob(p, r, m(n), rbRel+" RbTree."+n, (*State).wholeTree, tree, func(j *Job, s *State, m *treeModel, ret []Value, pos token.Pos) {
				want := Value(I(m.size))
				if n == "Empty" {
					want = condEQ(m.size)
				}
				j.mustEq(s, ret[0], want, pos, "wrong answer")
				j.intact(s, m, pos)
			})
		}
		// neighbours
		for _, red := range []bool{false, true} {
			red := red
			around := func(s *State) *treeModel { return s.treeAround(red) }
			for _, next := range []bool{true, false} {
				n, by := "Next", 1
				if !next {
					n, by = "Prev", -1
				}
				what := "neighbour"
				treeJob(p, r, p.Method(rbRel, "Node", n), rbRel+" Node."+n, around, func(s *State, m *treeModel) []Value { return []Value{m.node} },
					func(j *Job, s *State, m *treeModel, ret []Value, pos token.Pos) {
						if ret[0] != Value(VNil{}) {
							s.reach(ret[0])
						}
						j.wantElem(s, ret[0], indexItem(s.elems(), m.elem)+by, pos, what)
						j.intact(s, m, pos)
					})
				treeJob(p, r, p.Method(rbRel, "RbTreeIterator", n), rbRel+" RbTreeIterator."+n, func(s *State) *treeModel {
					m := around(s)
					s.iterAt(m.node)
					return m
				}, func(s *State, m *treeModel) []Value { return []Value{s.keep["it"]} },
					func(j *Job, s *State, m *treeModel, ret []Value, pos token.Pos) {
						it := s.keep["it"].(VPtr)
						at := s.cell(it.Obj, ".node")
						if at != Value(VNil{}) {
							s.reach(at)
						}
						j.wantElem(s, at, indexItem(s.elems(), m.elem)+by, pos, what)
						if stripIface(ret[0]) != Value(it) {
							j.fail(pos, "the iterator itself is not returned %s", j.path(s))
						}
						j.intact(s, m, pos)
					})
				if red {
					continue
				}
				treeJob(p, r, p.Method(rbRel, "RbTreeIterator", n), rbRel+" RbTreeIterator."+n, func(s *State) *treeModel {
					m := around(s)
					s.iterAt(VNil{})
					return m
				}, func(s *State, m *treeModel) []Value { return []Value{s.keep["it"]} },
					func(j *Job, s *State, m *treeModel, ret []Value, pos token.Pos) {
						it := s.keep["it"].(VPtr)
						j.mustEq(s, s.cell(it.Obj, ".node"), VNil{}, pos, "an iterator beyond the end moves")
						if stripIface(ret[0]) != Value(it) {
							j.fail(pos, "the iterator itself is not returned %s", j.path(s))
						}
					})
			}
		}
		nodeAccess(p, r)
		// traversal
		treeJob(p, r, m("Traversal"), rbRel+" RbTree.Traversal", func(s *State) *treeModel {
			s.keep["counted"] = bTrue
			return s.wholeTree()
		}, func(s *State, m *treeModel) []Value { return []Value{VPtr{m.t, ""}, VUnk{"visit"}} },
			func(j *Job, s *State, m *treeModel, ret []Value, pos token.Pos) {
				if s.keep["stopped"] == nil && s.afterCursor() != len(s.elems()) {
					j.fail(pos, "the traversal ends before the last entry %s", j.path(s))
				}
				j.intact(s, m, pos)
			}, func(j *Job, s *State, m *treeModel) { j.ip.Unknown = visitElems(j) })
		r.Need("clauses", 30)
	}
}

func stripIface(v Value) Value {
	if i, ok := v.(VIface); ok {
		return i.V
	}
	return v
}

func (s *State) iterAt(n Value) {
	o := s.newObj("iter")
	s.setCell(o, ".node", n)
	s.keep["it"] = VPtr{o, ""}
}

// nodeAccess: what nodes and iterators say about their entry.
func nodeAccess(p *Prog, r *Result) {
	around := func(s *State) *treeModel {
		m := s.treeAround(false)
		s.iterAt(m.node)
		return m
	}
	for _, typ := range []string{"Node", "RbTreeIterator"} {
		typ := typ
		recv := func(s *State, m *treeModel) Value {
			if typ == "Node" {
				return m.node
			}
			return s.keep["it"]
		}
		for _, n := range []string{"Key", "Value", "SetValue"} {
			n := n
			treeJob(p, r, p.Method(rbRel, typ, n), rbRel+" "+typ+"."+n, around, func(s *State, m *treeModel) []Value {
				a := []Value{recv(s, m)}
				if n == "SetValue" {
					a = append(a, T("new"))
				}
				return a
			}, func(j *Job, s *State, m *treeModel, ret []Value, pos token.Pos) {
				id := m.node.(VPtr).Obj
				v := ofVal(m.elem)
				switch n {
				case "Key":
					j.mustEq(s, ret[0], ofKey(m.elem), pos, "not the key of the entry")
				case "Value":
					j.mustEq(s, ret[0], v, pos, "not the value of the entry")
				case "SetValue":
					j.mustEq(s, s.cell(id, ".value"), T("new"), pos, "the value is not set")
					if len(ret) > 0 {
						j.mustEq(s, ret[0], VNil{}, pos, "an error is reported")
					}
					s.setCell(id, ".value", v)
				}
				j.intact(s, m, pos)
				j.mustEq(s, s.cell(s.keep["it"].(VPtr).Obj, ".node"), m.node, pos, "the iterator moves")
			})
		}
	}
	for _, at := range []bool{true, false} {
		at := at
		mk := func(s *State) *treeModel {
			m := s.treeAround(false)
			if at {
				s.iterAt(m.node)
			} else {
				s.iterAt(VNil{})
			}
			return m
		}
		recv := func(s *State, m *treeModel) []Value { return []Value{s.keep["it"]} }
		treeJob(p, r, p.Method(rbRel, "RbTreeIterator", "IsValid"), rbRel+" RbTreeIterator.IsValid", mk, recv, func(j *Job, s *State, m *treeModel, ret []Value, pos token.Pos) {
			j.mustEq(s, ret[0], boolV(at), pos, "wrong validity")
		})
		treeJob(p, r, p.Method(rbRel, "RbTreeIterator", "Clone"), rbRel+" RbTreeIterator.Clone", mk, recv, func(j *Job, s *State, m *treeModel, ret []Value, pos token.Pos) {
			it := s.keep["it"].(VPtr)
			c, ok := stripIface(ret[0]).(VPtr)
			if !ok || c.Obj == it.Obj {
				j.fail(pos, "the clone is not an iterator of its own %s", j.path(s))
				return
			}
			j.mustEq(s, s.cell(c.Obj, ".node"), s.cell(it.Obj, ".node"), pos, "the clone is elsewhere")
		})
		for _, same := range []bool{true, false} {
			same := same
			treeJob(p, r, p.Method(rbRel, "RbTreeIterator", "Equal"), rbRel+" RbTreeIterator.Equal", func(s *State) *treeModel {
				m := mk(s)
				o := s.newObj("iter")
				n := s.cell(s.keep["it"].(VPtr).Obj, ".node")
				if !same {
					other := VPtr{s.newObj("elsewhere"), ""}
					n = other
				}
				s.setCell(o, ".node", n)
				s.keep["other"] = VPtr{o, ""}
				return m
			}, func(s *State, m *treeModel) []Value {
				return []Value{s.keep["it"], VIface{"*" + rbRel + ".RbTreeIterator", s.keep["other"]}}
			}, func(j *Job, s *State, m *treeModel, ret []Value, pos token.Pos) {
				j.mustEq(s, ret[0], boolV(same), pos, "wrong answer about equality")
			})
		}
	}
	treeJob(p, r, p.Method(rbRel, "RbTreeIterator", "Equal"), rbRel+" RbTreeIterator.Equal", around, func(s *State, m *treeModel) []Value {
		return []Value{s.keep["it"], VIface{"model:foreign", VNil{}}}
	}, func(j *Job, s *State, m *treeModel, ret []Value, pos token.Pos) {
		j.mustEq(s, ret[0], bFalse, pos, "equal to an iterator of another kind")
	})
}

package main

// C08, C10: the operations of the red-black tree, on the shape domain of tree.go.

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const rbRel = "ds/rbtree"

// treeModel is a tree of symbolic content.
type treeModel struct {
	t    int
	size Lin
	node Value // the node argument, nil if none
	elem Value // its element
	deep Lin   // no path is longer, if known
}

func (s *State) newTree() *treeModel {
	o := s.newObj("tree")
	m := &treeModel{t: o, size: s.fresh("size", K(0))}
	c := s.heap[o].Cells
	c[".size"], c[".keyCmp"] = I(m.size), VUnk{"cmp"}
	s.keep["tree"] = VPtr{o, ""}
	s.keep["size"] = I(m.size)
	return m
}

// whole makes the tree an arbitrary one.
func (s *State) wholeTree() *treeModel {
	m := s.newTree()
	r := s.newItem("run", mAny)
	s.keep["E"] = VTuple{[]Value{r}}
	bh := s.fresh("bh", K(0))
	m.deep = bh.mul(2)
	s.setCell(m.t, ".root", s.newSub(VNil{}, bh, s.fresh("h", K(0)), 'b', []Value{r}))
	return m
}

// treeAround makes an arbitrary tree with an arbitrary node in it.
func (s *State) treeAround(red bool) *treeModel {
	m := s.newTree()
	pre, l, r, suf := s.newItem("run", mAny), s.newItem("run", mAny), s.newItem("run", mAny), s.newItem("run", mAny)
	e := s.newItem("elem", mAny)
	s.keep["E"] = VTuple{[]Value{pre, l, e, r, suf}}
	s.keep["elem"] = e
	n := s.newObj("node")
	self := VPtr{n, ""}
	bh := s.fresh("bh", K(0))
	hole, col, bot := bh, byte('b'), byte('b')
	if !red {
		hole, col, bot = bh.addk(1), '?', '?'
	}
	d := s.fresh("d", K(0))
	g := s.newSeg(VNil{}, self, hole, d, bot, []Value{pre}, []Value{suf})
	if red {
		s.heap[g].Cells["ne"] = flagV('y')
		s.addFact(d.addk(-1))
	}
	s.makeNode(n, segBot(g), red, e)
	s.setCell(n, ".left", s.newSub(self, bh, s.fresh("h", K(0)), col, []Value{l}))
	s.setCell(n, ".right", s.newSub(self, bh, s.fresh("h", K(0)), col, []Value{r}))
	s.setCell(m.t, ".root", segTop(g))
	s.keep["node"] = self
	m.node, m.elem = self, e
	return m
}

func (s *State) elems() []Value {
	e, _ := s.keep["E"].(VTuple)
	return e.E
}

func indexItem(l []Value, x Value) int {
	for i, y := range l {
		if valEq(y, x) {
			return i
		}
	}
	return -1
}

// narrow restricts what the comparison with the key may answer for the items i..j-1.
func (s *State) narrow(l []Value, i, j, m int) bool {
	for ; i < j; i++ {
		p, ok := l[i].(VPtr)
		if !ok {
			continue
		}
		n := s.maskOf(p) & m
		if n == 0 && !s.isRun(p) {
			return false
		}
		s.setCell(p.Obj, "m", mask(n))
	}
	return true
}

// learn records the answer sign of cmp(key, elem).
func (s *State) learn(e Value, sign int) bool {
	l := s.elems()
	k := indexItem(l, e)
	if k < 0 {
		return true
	}
	switch sign {
	case mNeg:
		return s.narrow(l, k, len(l), mNeg)
	case mPos:
		return s.narrow(l, 0, k+1, mPos)
	}
	return s.narrow(l, k, k+1, mZero) && s.narrow(l, 0, k, mZero|mPos) && s.narrow(l, k+1, len(l), mNeg|mZero)
}

// treeCmp answers for the caller's comparator.
func treeCmp(c *callCtx) ([]Out, bool) {
	u, ok := c.recv.(VUnk)
	if !ok || u.Name != "cmp" || len(c.args) != 2 {
		return nil, false
	}
	item := func(v Value) (Value, bool) {
		t, ok := v.(VTerm)
		if !ok {
			return nil, false
		}
		if t.F == "key" {
			return T("key"), true
		}
		if t.F == "k" && len(t.A) == 1 {
			return t.A[0], true
		}
		return nil, false
	}
	a, ok1 := item(c.args[0])
	b, ok2 := item(c.args[1])
	if !ok1 || !ok2 {
		giveUp("comparison of %s and %s", showVal(c.args[0]), showVal(c.args[1]))
	}
	if a == b || valEq(a, b) {
		return []Out{{c.st, []Value{Kv(0)}}}, true
	}
	flip := int64(1)
	if _, isKey := b.(VTerm); isKey {
		a, b, flip = b, a, -1
	}
	out := func(s *State, sign int) Out {
		y := S(newSym("cmp"))
		switch sign {
		case mNeg:
			s.addFact(y.neg().addk(-1))
		case mZero:
			y = K(0)
		case mPos:
			s.addFact(y.addk(-1))
		case mNeg | mZero:
			s.addFact(y.neg())
		}
		return Out{s, []Value{I(y.mul(flip))}}
	}
	s := c.st
	if _, isKey := a.(VTerm); isKey {
		m := s.maskOf(b)
		var outs []Out
		for _, sign := range []int{mNeg, mZero, mPos} {
			if m&sign == 0 {
				continue
			}
			if t := s.clone(); t.learn(b, sign) {
				outs = append(outs, out(t, sign))
			}
		}
		return outs, true
	}
	l := s.elems()
	i, j := indexItem(l, a), indexItem(l, b)
	if i < 0 || j < 0 {
		giveUp("comparison of elements that are not in the tree")
	}
	if i > j {
		flip = -flip
	}
	return []Out{out(s, mNeg|mZero)}, true
}

type treeSpec func(j *Job, s *State, m *treeModel, ret []Value, pos token.Pos)

// treeJob runs one operation.
func treeJob(p *Prog, r *Result, fn *ssa.Function, what string, mk func(s *State) *treeModel, args func(s *State, m *treeModel) []Value, spec treeSpec, opts ...func(j *Job, s *State, m *treeModel)) *Job {
	j := r.job(p, "tree", fn, what)
	if j == nil {
		return nil
	}
	r.Count("clauses", 1)
	st := j.ip.NewState()
	m := mk(st)
	j.ip.Unknown = treeCmp
	j.ip.MaxHeads = 60
	j.ip.DropMixed = true
	j.ip.MaxSteps = 20000000
	j.ip.AtHead = func(s *State) {
		s.solveEqualities()
		s.foldTree(m.t)
		s.gc()
		w := s.walk(s.cell(m.t, ".root"))
		s.keep["D"] = I(w.depth)
		if m.deep.t != nil {
			s.keep["U"] = I(m.deep.sub(w.depth))
		}
		if s.keep["counted"] != nil {
			s.keep["R"] = I(s.count(s.elems()[s.afterCursor():]))
		}
	}
	j.ip.Part = func(s *State) string { return s.treePart(m.t) }
	for _, o := range opts {
		o(j, st, m)
	}
	j.run(st, args(st, m), func(s *State, ret []Value, pos token.Pos) { spec(j, s, m, ret, pos) })
	return j
}

// sound requires a well-formed tree and returns its elements in order.
func (j *Job) sound(s *State, m *treeModel, pos token.Pos) ([]Value, bool) {
	w := s.walk(s.cell(m.t, ".root"))
	if len(w.bad)+len(w.colour) > 0 && debugOn {
		dbg("at exit: %s\n%s", strings.Join(append(w.bad, w.colour...), "; "), s.dump())
	}
	if len(w.bad) > 0 {
		j.fail(pos, "%s %s", w.bad[0], j.path(s))
		return nil, false
	}
	if len(w.colour) > 0 {
		j.fail(pos, "%s %s", w.colour[0], j.path(s))
		return nil, false
	}
	j.mustEq(s, s.cell(m.t, ".keyCmp"), VUnk{"cmp"}, pos, "the comparator is replaced")
	return w.items, true
}

func showItems(l []Value) string {
	var out []string
	for _, x := range l {
		out = append(out, showVal(x))
	}
	return strings.Join(out, " ")
}

// holds requires exactly these elements.
func (j *Job) holds(s *State, m *treeModel, want []Value, size Lin, pos token.Pos) {
	have, ok := j.sound(s, m, pos)
	if !ok {
		return
	}
	same := len(have) == len(want)
	for i := 0; same && i < len(have); i++ {
		same = valEq(have[i], want[i])
	}
	if !same {
		if debugOn {
			dbg("have %s\nwant %s\n%s", showItems(have), showItems(want), s.dump())
		}
		j.fail(pos, "the tree does not hold the entries it should hold, in order %s", j.path(s))
	}
	j.mustEq(s, s.cell(m.t, ".size"), I(size), pos, "wrong size")
}

func (j *Job) unchangedTree(s *State, m *treeModel, pos token.Pos) {
	j.holds(s, m, s.elems(), m.size, pos)
}

func init() {
	checks["C08"] = func(p *Prog, r *Result) {
		r.Rule("abstract interpretation of Insert, Delete and Clear on red-black trees of unknown size (subtrees and root paths are summaries with black-height, root colour and the elements they hold; they are unfolded where the code looks and folded at loop heads); at every exit the links, the parent links, the colours, the black-heights, the in-order sequence of entries and the size are compared with the specification")
		r.Assumption("the comparator is a total preorder; the node given to Delete is a node of the tree or nil")
		treeJob(p, r, p.Method(rbRel, "RbTree", "Insert"), rbRel+" RbTree.Insert", (*State).wholeTree,
			func(s *State, m *treeModel) []Value { return []Value{VPtr{m.t, ""}, T("key"), T("value")} },
			func(j *Job, s *State, m *treeModel, ret []Value, pos token.Pos) {
				have, ok := j.sound(s, m, pos)
				if !ok {
					return
				}
				at := -1
				var rest []Value
				for i, x := range have {
					if valEq(x, T("entry", T("key"), T("value"))) && at < 0 {
						at = i
						continue
					}
					rest = append(rest, x)
				}
				if at < 0 {
					j.fail(pos, "the new entry is not in the tree %s", j.path(s))
					return
				}
				same := len(rest) == len(s.elems())
				for i := 0; same && i < len(rest); i++ {
					same = valEq(rest[i], s.elems()[i])
				}
				if !same {
					j.fail(pos, "the other entries are not the same in the same order %s", j.path(s))
					return
				}
				for i, x := range rest {
					if i < at && s.maskOf(x)&mNeg != 0 {
						j.fail(pos, "the new entry may come behind a greater one %s", j.path(s))
						return
					}
					if i >= at && s.maskOf(x)&(mZero|mPos) != 0 {
						j.fail(pos, "the new entry may come before one that is not greater %s", j.path(s))
						return
					}
				}
				j.mustEq(s, s.cell(m.t, ".size"), I(m.size.addk(1)), pos, "wrong size")
			})
		for _, red := range []bool{false, true} {
			red := red
			treeJob(p, r, p.Method(rbRel, "RbTree", "Delete"), rbRel+" RbTree.Delete", func(s *State) *treeModel { return s.treeAround(red) },
				func(s *State, m *treeModel) []Value {
					delete(s.keep, "node")
					return []Value{VPtr{m.t, ""}, m.node}
				},
				func(j *Job, s *State, m *treeModel, ret []Value, pos token.Pos) {
					var want []Value
					for _, x := range s.elems() {
						if x != m.elem {
							want = append(want, x)
						}
					}
					j.holds(s, m, want, m.size.addk(-1), pos)
				})
		}
		treeJob(p, r, p.Method(rbRel, "RbTree", "Delete"), rbRel+" RbTree.Delete", (*State).wholeTree,
			func(s *State, m *treeModel) []Value { return []Value{VPtr{m.t, ""}, VNil{}} },
			func(j *Job, s *State, m *treeModel, ret []Value, pos token.Pos) { j.unchangedTree(s, m, pos) })
		treeJob(p, r, p.Method(rbRel, "RbTree", "Clear"), rbRel+" RbTree.Clear", (*State).wholeTree,
			func(s *State, m *treeModel) []Value { return []Value{VPtr{m.t, ""}} },
			func(j *Job, s *State, m *treeModel, ret []Value, pos token.Pos) { j.holds(s, m, nil, K(0), pos) })
		r.Need("clauses", 5)
	}
}

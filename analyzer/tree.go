package main

// The shape domain for red-black trees. Besides explicit nodes a state holds
//   sub: a subtree of unknown size (possibly empty): black-height, colour of its root, elements;
//   seg: a path of unknown length from a parent down to a hole in which the rest hangs:
//        black-height expected of the hole, elements before and after it;
//   run: an unknown number of elements in order; elem: one element.
// A sub or the lower end of a seg turns into explicit nodes, by a case distinction, as soon as
// the code looks into it. At loop heads explicit nodes no register refers to are folded back.
// keep["E"] lists the elements the tree held at the start, in order; it is refined along with
// the tree, so that the order of the elements at an exit can be compared with it.

import (
	"fmt"
	"strings"
)

func lazySite(s string) bool { return s == "sub" || s == "seg" }

const (
	mNeg = 1 << iota
	mZero
	mPos
	mAny = mNeg | mZero | mPos
)

func mask(m int) Value     { return VTerm{F: fmt.Sprint(m)} }
func flagV(b byte) Value   { return VTerm{F: string(b)} }
func seqV(v []Value) Value { return VTuple{v} }

func (s *State) flag(o int, n string) byte {
	if t, ok := s.cell(o, n).(VTerm); ok && len(t.F) == 1 {
		return t.F[0]
	}
	return '?'
}

func (s *State) list(o int, n string) []Value {
	if t, ok := s.cell(o, n).(VTuple); ok {
		return t.E
	}
	return nil
}

func (s *State) maskOf(item Value) int {
	if p, ok := item.(VPtr); ok {
		if t, ok := s.cell(p.Obj, "m").(VTerm); ok && len(t.F) == 1 {
			return int(t.F[0] - '0')
		}
	}
	return mAny
}

func (s *State) isRun(item Value) bool {
	p, ok := item.(VPtr)
	return ok && s.heap[p.Obj] != nil && s.heap[p.Obj].Site == "run"
}

func (s *State) newItem(site string, m int) Value {
	o := s.newObj(site)
	s.setCell(o, "m", mask(m))
	if s.keep["counted"] != nil {
		n := K(1)
		if site == "run" {
			n = s.fresh("n", K(0))
		}
		s.setCell(o, "n", I(n))
	}
	return VPtr{o, ""}
}

// sameCount: the items of l together hold as many elements as it.
func (s *State) sameCount(it Value, l ...Value) {
	p, ok := it.(VPtr)
	if !ok || s.keep["counted"] == nil {
		return
	}
	n := s.cellLin(p.Obj, "n").sub(s.count(l))
	s.addFact(n)
	s.addFact(n.neg())
}

func (s *State) count(l []Value) Lin {
	n := K(0)
	for _, x := range l {
		if q, ok := x.(VPtr); ok {
			n = n.add(s.cellLin(q.Obj, "n"))
		}
	}
	return n
}

func ofKey(e Value) Value { return T("k", e) }
func ofVal(e Value) Value { return T("v", e) }

// ---- substitution of pointers

func mapVal(v Value, f func(Value) Value) Value {
	many := func(vs []Value) []Value {
		out := make([]Value, len(vs))
		for i, x := range vs {
			out[i] = mapVal(x, f)
		}
		return out
	}
	switch x := v.(type) {
	case VTerm:
		if len(x.A) > 0 {
			return VTerm{x.F, many(x.A)}
		}
	case VStruct:
		return VStruct{many(x.F)}
	case VTuple:
		return VTuple{many(x.E)}
	case VClo:
		return VClo{x.Fn, many(x.Bind)}
	case VIface:
		return VIface{x.Dyn, mapVal(x.V, f)}
	case VPtr:
		return f(x)
	}
	return v
}

func (s *State) mapPtrs(f func(Value) Value) {
	for _, fr := range s.frames {
		for i, v := range fr.regs {
			if v != nil {
				fr.regs[i] = mapVal(v, f)
			}
		}
		for i, v := range fr.ret {
			fr.ret[i] = mapVal(v, f)
		}
		nd := append([]deferred(nil), fr.defers...)
		for i := range nd {
			nd[i].fn = mapVal(nd[i].fn, f)
			args := append([]Value(nil), nd[i].args...)
			for k := range args {
				args[k] = mapVal(args[k], f)
			}
			nd[i].args = args
		}
		fr.defers = nd
	}
	for _, id := range sortedInts(s.heap) {
		o := s.heap[id]
		if o.IsArr {
			continue
		}
		n := o.clone()
		for k, v := range n.Cells {
			n.Cells[k] = mapVal(v, f)
		}
		s.heap[id] = n
	}
	for k, v := range s.keep {
		s.keep[k] = mapVal(v, f)
	}
}

func sortedInts(m map[int]*Obj) []int {
	var out []int
	for k := range m {
		out = append(out, k)
	}
	// insertion order of identifiers
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j-1] > out[j]; j-- {
			out[j-1], out[j] = out[j], out[j-1]
		}
	}
	return out
}

func (s *State) substPtr(from VPtr, to Value) {
	s.mapPtrs(func(v Value) Value {
		p := v.(VPtr)
		if p.Obj != from.Obj || !strings.HasPrefix(p.Path, from.Path) {
			return v
		}
		if q, ok := to.(VPtr); ok {
			return VPtr{q.Obj, q.Path + p.Path[len(from.Path):]}
		}
		return to
	})
}

// replaceItem rewrites an item of the list of original elements.
func (s *State) replaceItem(it Value, by ...Value) {
	e, ok := s.keep["E"].(VTuple)
	if !ok {
		return
	}
	var out []Value
	for _, x := range e.E {
		if valEq(x, it) {
			out = append(out, by...)
		} else {
			out = append(out, x)
		}
	}
	s.keep["E"] = VTuple{out}
}

// noItems: the items denote no element at all.
func (s *State) noItems(items []Value) bool {
	for _, it := range items {
		if !s.isRun(it) {
			return false
		}
		s.sameCount(it)
		s.replaceItem(it)
	}
	return true
}

// splitItem takes the run it apart into an element with a run on either side.
func (s *State) splitItem(it Value) (before, e, after Value) {
	m := s.maskOf(it)
	before, e, after = s.newItem("run", m), s.newItem("elem", m), s.newItem("run", m)
	s.sameCount(it, before, e, after)
	s.replaceItem(it, before, e, after)
	return
}

// ---- subtrees

func (s *State) newSub(parent Value, bh, h Lin, col byte, items []Value) VPtr {
	if len(items) == 0 {
		// no element, no node; the caller has checked that the black-height allows it
		h = K(0)
	}
	o := s.newObj("sub")
	c := s.heap[o].Cells
	c[".parent"], c["bh"], c["h"], c["col"], c["nn"], c["items"] = parent, I(bh), I(h), flagV(col), flagV('?'), seqV(items)
	return VPtr{o, ""}
}

func (s *State) cellLin(o int, n string) Lin {
	v, _ := s.cell(o, n).(VInt)
	return v.L
}

// subEmpty makes the subtree empty.
func (s *State) subEmpty(id int) bool {
	if s.flag(id, "col") == 'r' || s.flag(id, "nn") == 'y' || !s.noItems(s.list(id, "items")) {
		return false
	}
	bh, h := s.cellLin(id, "bh"), s.cellLin(id, "h")
	if !s.addFact(bh.neg()) || !s.addFact(h.neg()) {
		return false
	}
	s.substPtr(VPtr{id, ""}, VNil{})
	delete(s.heap, id)
	return true
}

// wantNonNil decides whether the subtree is empty.
func (s *State) wantNonNil(id int) {
	if s.flag(id, "nn") == 'y' {
		return
	}
	panic(forkErr{[]func(*State) bool{
		func(t *State) bool { return t.subEmpty(id) },
		func(t *State) bool {
			t.setCell(id, "nn", flagV('y'))
			return len(t.list(id, "items")) > 0 && t.addFact(t.cellLin(id, "h").addk(-1))
		},
	}})
}

// expand makes the root of a subtree an explicit node.
func (s *State) expand(id int) {
	s.wantNonNil(id)
	var alts []func(*State) bool
	n := len(s.list(id, "items"))
	for _, red := range []bool{false, true} {
		if red && s.flag(id, "col") == 'b' || !red && s.flag(id, "col") == 'r' {
			continue
		}
		for i := 0; i < n; i++ {
			red, i := red, i
			alts = append(alts, func(t *State) bool { return t.expandAs(id, red, i) })
		}
	}
	panic(forkErr{alts})
}

func (s *State) expandAs(id int, red bool, i int) bool {
	items := s.list(id, "items")
	bh, h := s.cellLin(id, "bh"), s.cellLin(id, "h")
	parent := s.cell(id, ".parent")
	l, r := append([]Value(nil), items[:i]...), append([]Value(nil), items[i+1:]...)
	e := items[i]
	if s.isRun(e) {
		if s.maskOf(e) == 0 {
			return false
		}
		a, m, b := s.splitItem(e)
		l, e, r = append(l, a), m, append([]Value{b}, r...)
	}
	col := byte('?')
	if red {
		col = 'b'
	} else {
		bh = bh.addk(-1)
	}
	hl, hr := s.fresh("h", K(0)), s.fresh("h", K(0))
	if !s.addFact(bh) || !s.addFact(h.sub(hl).addk(-1)) || !s.addFact(h.sub(hr).addk(-1)) {
		return false
	}
	self := VPtr{id, ""}
	s.makeNode(id, parent, red, e)
	s.setCell(id, ".left", s.newSub(self, bh, hl, col, l))
	s.setCell(id, ".right", s.newSub(self, bh, hr, col, r))
	return true
}

func (s *State) makeNode(id int, parent Value, red bool, e Value) {
	var k, v Value = ofKey(e), ofVal(e)
	s.heap[id] = &Obj{Site: "node", Cells: map[string]Value{".parent": parent, ".color": boolV(!red), ".key": k, ".value": v,
		".left": VNil{}, ".right": VNil{}}}
}

// ---- path segments

func (s *State) newSeg(up, hole Value, bh, d Lin, bot byte, pre, suf []Value) int {
	o := s.newObj("seg")
	c := s.heap[o].Cells
	c["up"], c["hole"], c["bh"], c["d"], c["bot"], c["top"], c["ne"] = up, hole, I(bh), I(d), flagV(bot), flagV('?'), flagV('?')
	c["tbh"] = I(bh)
	c["pre"], c["suf"] = seqV(pre), seqV(suf)
	return o
}

func segBot(o int) VPtr { return VPtr{o, "bot"} }
func segTop(o int) VPtr { return VPtr{o, "top"} }

// segEmpty makes the segment empty: the hole is where its top was.
func (s *State) segEmpty(id int) bool {
	if s.flag(id, "ne") == 'y' || !s.noItems(s.list(id, "pre")) || !s.noItems(s.list(id, "suf")) {
		return false
	}
	if !s.addFact(s.cellLin(id, "d").neg()) {
		return false
	}
	up, hole := s.cell(id, "up"), s.cell(id, "hole")
	if up != Value(VNil{}) {
		if t, b := s.cellLin(id, "tbh"), s.cellLin(id, "bh"); !s.addFact(t.sub(b)) || !s.addFact(b.sub(t)) {
			return false
		}
	}
	s.substPtr(segBot(id), up)
	s.substPtr(segTop(id), hole)
	delete(s.heap, id)
	return true
}

func (s *State) wantNonEmpty(id int) {
	if s.flag(id, "ne") == 'y' {
		return
	}
	panic(forkErr{[]func(*State) bool{
		func(t *State) bool { return t.segEmpty(id) },
		func(t *State) bool {
			t.setCell(id, "ne", flagV('y'))
			return t.addFact(t.cellLin(id, "d").addk(-1))
		},
	}})
}

// openBottom makes the lowest node of a segment explicit.
func (s *State) openBottom(id int) {
	s.wantNonEmpty(id)
	var alts []func(*State) bool
	for _, red := range []bool{false, true} {
		if red && s.flag(id, "bot") == 'b' {
			continue
		}
		for _, side := range []string{"pre", "suf"} {
			red, side := red, side
			l := s.list(id, side)
			// the node is the item next to the hole, or comes out of the run there; its other
			// subtree takes the items up to some cut
			for i := range l {
				if i > 0 && !s.isRun(near(l, side, i-1)) {
					break
				}
				for cut := i; cut < len(l); cut++ {
					i, cut := i, cut
					if cut == i && !s.isRun(near(l, side, i)) && i+1 < len(l) && s.isRun(near(l, side, i+1)) {
						continue // a cut inside the run that follows covers this one
					}
					alts = append(alts, func(t *State) bool { return t.openAs(id, red, side, i, cut) })
				}
			}
		}
	}
	panic(forkErr{alts})
}

// near is the i-th item counted from the hole.
func near(l []Value, side string, i int) Value {
	if side == "pre" {
		return l[len(l)-1-i]
	}
	return l[i]
}

func reverse(l []Value) []Value {
	out := make([]Value, len(l))
	for i, x := range l {
		out[len(l)-1-i] = x
	}
	return out
}

func (s *State) openAs(id int, red bool, side string, i, cut int) bool {
	l := append([]Value(nil), s.list(id, side)...)
	if side == "pre" {
		l = reverse(l) // nearest to the hole first
	}
	if !s.noItems(l[:i]) {
		return false
	}
	l, cut = l[i:], cut-i
	var sib, rest []Value
	e := l[0]
	split := func(it Value) (Value, Value) {
		m := s.maskOf(it)
		a, b := s.newItem("run", m), s.newItem("run", m)
		s.sameCount(it, a, b)
		if side == "pre" {
			s.replaceItem(it, b, a)
		} else {
			s.replaceItem(it, a, b)
		}
		return a, b
	}
	if s.isRun(e) {
		if s.maskOf(e) == 0 {
			return false
		}
		a, m, b := s.splitItem(e)
		if side == "pre" {
			a, b = b, a
		}
		// between the hole and the node there is nothing
		if !s.noItems([]Value{a}) {
			return false
		}
		e = m
		l = append([]Value{e, b}, l[1:]...)
		cut++
	}
	if cut == 0 {
		// the subtree is cut off directly behind the element
		sib, rest = nil, l[1:]
	} else {
		sib = append(sib, l[1:cut]...)
		it := l[cut]
		if s.isRun(it) {
			a, b := split(it)
			sib = append(sib, a)
			rest = append([]Value{b}, l[cut+1:]...)
		} else {
			sib = append(sib, it)
			rest = l[cut+1:]
		}
	}
	bh, d := s.cellLin(id, "bh"), s.cellLin(id, "d")
	if !s.addFact(d.addk(-1)) {
		return false
	}
	o := s.newObj("node")
	self := VPtr{o, ""}
	hole := s.cell(id, "hole")
	s.substPtr(segBot(id), self)
	s.makeNode(o, segBot(id), red, e)
	col, bot, ne := byte('?'), byte('?'), byte('?')
	if red {
		col, bot = 'b', 'b'
		if s.cell(id, "up") == Value(VNil{}) || s.flag(id, "top") == 'b' {
			ne = 'y' // the topmost node is black, so it is another one
		}
	}
	if side == "pre" {
		sib, rest = reverse(sib), reverse(rest)
	}
	sub := s.newSub(self, bh, s.fresh("h", K(0)), col, sib)
	if side == "pre" {
		s.setCell(o, ".right", hole)
		s.setCell(o, ".left", sub)
	} else {
		s.setCell(o, ".left", hole)
		s.setCell(o, ".right", sub)
	}
	if !red {
		bh = bh.addk(1)
	}
	m := s.mut(id)
	m.Cells["bh"], m.Cells["d"], m.Cells["bot"], m.Cells["ne"] = I(bh), I(d.addk(-1)), flagV(bot), flagV(ne)
	m.Cells["hole"] = self
	m.Cells[side] = seqV(rest)
	if ne == 'y' && !s.addFact(d.addk(-2)) {
		return false
	}
	return true
}

// ---- access from the code

func (s *State) lazyLoad(a VPtr) Value {
	o := s.heap[a.Obj]
	if o.Site == "sub" {
		s.wantNonNil(a.Obj)
		switch a.Path {
		case ".parent":
			return o.Cells[".parent"]
		case ".color":
			switch s.flag(a.Obj, "col") {
			case 'b':
				return bTrue
			case 'r':
				return bFalse
			}
			id := a.Obj
			panic(forkErr{[]func(*State) bool{
				func(t *State) bool { t.setCell(id, "col", flagV('b')); return t.addFact(t.cellLin(id, "bh").addk(-1)) },
				func(t *State) bool { t.setCell(id, "col", flagV('r')); return true },
			}})
		}
		s.expand(a.Obj)
	}
	s.segAccess(a)
	if strings.HasPrefix(a.Path, "top") {
		switch a.Path[3:] {
		case ".color":
			if o.Cells["up"] == Value(VNil{}) || s.flag(a.Obj, "top") == 'b' {
				return bTrue
			}
		case ".parent":
			return o.Cells["up"]
		}
		giveUp("reading the top of a path of unknown length")
	}
	s.openBottom(a.Obj)
	return nil
}

func (s *State) segAccess(a VPtr) { s.wantNonEmpty(a.Obj) }

// lazyStore stores into a summary; it reports whether the store is done.
func (s *State) lazyStore(a VPtr, v Value) bool {
	o := s.heap[a.Obj]
	if o.Site == "sub" {
		s.wantNonNil(a.Obj)
		if a.Path == ".parent" {
			s.setCell(a.Obj, ".parent", v)
			return true
		}
		s.expand(a.Obj)
	}
	s.segAccess(a)
	if strings.HasPrefix(a.Path, "top") {
		if a.Path == "top.color" && isOp(v, 'T') && (o.Cells["up"] == Value(VNil{}) || s.flag(a.Obj, "top") == 'b') {
			return true // it is black already
		}
		giveUp("writing the top of a path of unknown length")
	}
	s.openBottom(a.Obj)
	return true
}

// lazyEq compares pointers one of which is a summary.
func (s *State) lazyEq(a, b Value) (VBool, bool) {
	lazy := func(v Value) (VPtr, string) {
		if p, ok := v.(VPtr); ok {
			if o := s.heap[p.Obj]; o != nil && lazySite(o.Site) {
				return p, o.Site
			}
		}
		return VPtr{}, ""
	}
	pa, la := lazy(a)
	pb, lb := lazy(b)
	if la == "" && lb == "" {
		return VBool{}, false
	}
	if la == "" {
		a, b, pa, la, pb, lb = b, a, pb, lb, pa, la
	}
	switch b.(type) {
	case VPtr, VNil:
	default:
		return VBool{}, false
	}
	if a == b {
		if la == "sub" || pa.Path == "bot" || pa.Path == "top" {
			return bTrue, true
		}
	}
	for _, x := range []struct {
		p VPtr
		l string
	}{{pa, la}, {pb, lb}} {
		if x.l == "seg" {
			s.wantNonEmpty(x.p.Obj)
		}
	}
	if la == "seg" && lb == "seg" && pa.Obj == pb.Obj {
		// top and bottom of the same path
		s.openBottom(pa.Obj)
	}
	if b == Value(VNil{}) {
		if la == "sub" {
			s.wantNonNil(pa.Obj)
		}
		return bFalse, true
	}
	if la == "sub" && lb == "sub" {
		s.wantNonNil(pa.Obj)
	}
	return bFalse, true
}

// ---- walking

type treeWalk struct {
	s       *State
	seen    map[int]bool
	items   []Value
	bad     []string // what is wrong with links
	colour  []string // what is wrong with colours and black-heights
	sig     strings.Builder
	nodes   []int
	segs    []int
	depth   Lin
	unknown bool
}

func (w *treeWalk) wrong(f string, a ...any) { w.bad = append(w.bad, fmt.Sprintf(f, a...)) }
func (w *treeWalk) paint(f string, a ...any) { w.colour = append(w.colour, fmt.Sprintf(f, a...)) }

// isNode: an explicit node, of the model or allocated by the code.
func isNode(o *Obj) bool {
	if o == nil || o.IsArr {
		return false
	}
	_, l := o.Cells[".left"]
	_, r := o.Cells[".right"]
	return l && r
}

func isOp(v Value, op byte) bool { b, ok := v.(VBool); return ok && b.Op == op }

func (s *State) colorOf(o int) byte {
	switch c := s.cell(o, ".color"); {
	case isOp(c, 'T'):
		return 'b'
	case isOp(c, 'F'):
		return 'r'
	}
	return '?'
}

// nodeItem names the element a node holds.
func (s *State) nodeItem(o int) Value {
	k, v := s.cell(o, ".key"), s.cell(o, ".value")
	if tk, ok := k.(VTerm); ok && tk.F == "k" && len(tk.A) == 1 {
		if tv, ok := v.(VTerm); ok && tv.F == "v" && len(tv.A) == 1 && valEq(tv.A[0], tk.A[0]) {
			return tk.A[0]
		}
	}
	return T("entry", k, v)
}

func (s *State) walk(root Value) *treeWalk {
	w := &treeWalk{s: s, seen: map[int]bool{}, depth: K(0)}
	_, col := w.visit(root, VNil{})
	if col != 'b' {
		w.paint("the root may be red")
	}
	return w
}

// visit checks what hangs at v below parent; it returns the black-height and the root's colour.
func (w *treeWalk) visit(v, parent Value) (Lin, byte) {
	s := w.s
	p, ok := v.(VPtr)
	if !ok {
		if v != Value(VNil{}) {
			w.wrong("a link leads to %s", showVal(v))
		}
		w.sig.WriteByte('.')
		return K(0), 'b'
	}
	o := s.heap[p.Obj]
	if o == nil || w.seen[p.Obj] {
		w.wrong("the links run in a circle or out of the tree")
		return K(0), 'b'
	}
	w.seen[p.Obj] = true
	items := func(l []Value) {
		for _, it := range l {
			w.items = append(w.items, it)
			if t, ok := s.cellOf(it, "m").(VTerm); ok {
				w.sig.WriteString(t.F)
			}
			if !s.isRun(it) {
				w.sig.WriteByte('!')
			}
		}
	}
	switch {
	case o.Site == "sub" && p.Path == "":
		fmt.Fprintf(&w.sig, "s%c%c(", s.flag(p.Obj, "col"), s.flag(p.Obj, "nn"))
		items(s.list(p.Obj, "items"))
		w.sig.WriteByte(')')
		if o.Cells[".parent"] != parent && !s.entails(s.cellLin(p.Obj, "h").neg()) {
			w.wrong("a parent link is wrong (%s instead of %s)", showVal(o.Cells[".parent"]), showVal(parent))
		}
		return s.cellLin(p.Obj, "bh"), s.flag(p.Obj, "col")
	case o.Site == "seg" && p.Path == "top":
		w.segs = append(w.segs, p.Obj)
		w.depth = w.depth.add(s.cellLin(p.Obj, "d"))
		if o.Cells["up"] != parent {
			w.wrong("a parent link is wrong at the top of a path (%s instead of %s)", showVal(o.Cells["up"]), showVal(parent))
		}
		fmt.Fprintf(&w.sig, "g%c%c%c(", s.flag(p.Obj, "bot"), s.flag(p.Obj, "top"), s.flag(p.Obj, "ne"))
		items(s.list(p.Obj, "pre"))
		w.sig.WriteByte(',')
		bh, col := w.visit(o.Cells["hole"], segBot(p.Obj))
		w.sig.WriteByte(',')
		items(s.list(p.Obj, "suf"))
		w.sig.WriteByte(')')
		if !s.entailsEq(bh.sub(s.cellLin(p.Obj, "bh"))) {
			w.paint("the number of black nodes below %s differs from that of its siblings", showVal(o.Cells["hole"]))
		}
		atRoot := o.Cells["up"] == Value(VNil{})
		if col != 'b' && !(s.flag(p.Obj, "bot") == 'b' && (s.flag(p.Obj, "ne") == 'y' || !atRoot)) {
			w.paint("a red node may have a red child")
		}
		if atRoot {
			return K(0), 'b'
		}
		return s.cellLin(p.Obj, "tbh"), s.flag(p.Obj, "top")
	case isNode(o) && p.Path == "":
		w.depth = w.depth.addk(1)
		w.nodes = append(w.nodes, p.Obj)
		if o.Cells[".parent"] != parent {
			w.wrong("a parent link is wrong (%s instead of %s)", showVal(o.Cells[".parent"]), showVal(parent))
		}
		col := s.colorOf(p.Obj)
		fmt.Fprintf(&w.sig, "n%c(", col)
		lb, lc := w.visit(o.Cells[".left"], p)
		w.sig.WriteByte(',')
		items([]Value{s.nodeItem(p.Obj)})
		w.sig.WriteByte(',')
		rb, rc := w.visit(o.Cells[".right"], p)
		w.sig.WriteByte(')')
		if !s.entailsEq(lb.sub(rb)) {
			w.paint("the two sides of a node may contain different numbers of black nodes")
		}
		if col != 'b' && (lc != 'b' || rc != 'b') {
			w.paint("a red node may have a red child")
		}
		if col == 'b' {
			lb = lb.addk(1)
		}
		return lb, col
	}
	w.wrong("a link leads to %s", showVal(v))
	return K(0), 'b'
}

func (s *State) cellOf(v Value, n string) Value {
	if p, ok := v.(VPtr); ok {
		return s.cell(p.Obj, n)
	}
	return nil
}

// ---- folding

// pinned collects the objects that registers and the specification refer to.
func (s *State) pinned(tree int) (map[int]bool, map[VPtr]bool) {
	pin, ptr := map[int]bool{}, map[VPtr]bool{}
	var val func(v Value)
	seen := map[int]bool{}
	val = func(v Value) {
		mapVal(v, func(x Value) Value {
			p := x.(VPtr)
			pin[p.Obj], ptr[p] = true, true
			// through objects that are no part of the tree
			if o := s.heap[p.Obj]; o != nil && !seen[p.Obj] && p.Obj != tree && !lazySite(o.Site) && !isNode(o) && o.Site != "run" && o.Site != "elem" {
				seen[p.Obj] = true
				for _, c := range sortedKeys(o.Cells) {
					val(o.Cells[c])
				}
			}
			return x
		})
	}
	for _, fr := range s.frames {
		for _, v := range fr.regs {
			if v != nil {
				val(v)
			}
		}
		for _, d := range fr.defers {
			for _, v := range d.args {
				val(v)
			}
			val(d.fn)
		}
	}
	for k, v := range s.keep {
		if k != "E" {
			val(v)
		}
	}
	return pin, ptr
}

// foldTree folds everything no register refers to.
func (s *State) foldTree(tree int) {
	w := s.walk(s.cell(tree, ".root"))
	if len(w.bad) > 0 {
		return // links are being changed; nothing is folded now
	}
	pin, ptr := s.pinned(tree)
	isSum := func(v Value) bool {
		if v == Value(VNil{}) {
			return true
		}
		p, ok := v.(VPtr)
		return ok && p.Path == "" && s.heap[p.Obj].Site == "sub"
	}
	sum := func(v Value) (bh, h Lin, col byte, items []Value) {
		if p, ok := v.(VPtr); ok {
			return s.cellLin(p.Obj, "bh"), s.cellLin(p.Obj, "h"), s.flag(p.Obj, "col"), s.list(p.Obj, "items")
		}
		return K(0), K(0), 'b', nil
	}
	// a path that leads to a summary is a summary
	closeSegs := func() {
		for i := len(w.segs) - 1; i >= 0; i-- {
			id := w.segs[i]
			o := s.heap[id]
			if o == nil || pin[id] || !isSum(o.Cells["hole"]) {
				continue
			}
			hole, _ := o.Cells["hole"].(VPtr)
			if pin[hole.Obj] {
				continue
			}
			bh, h, col, items := sum(o.Cells["hole"])
			atRoot := o.Cells["up"] == Value(VNil{})
			ne := s.flag(id, "ne") == 'y'
			if !s.entailsEq(bh.sub(s.cellLin(id, "bh"))) || col != 'b' && !(s.flag(id, "bot") == 'b' && (ne || !atRoot)) {
				continue
			}
			all := append(append(append([]Value(nil), s.list(id, "pre")...), items...), s.list(id, "suf")...)
			nh := s.fresh("h", K(0))
			s.addFact(nh.sub(h).sub(s.cellLin(id, "d")))
			c := s.flag(id, "top")
			if atRoot {
				c = 'b'
			} else if !ne && c != col {
				c = '?'
			}
			nn := ne || hole.Obj != 0 && s.flag(hole.Obj, "nn") == 'y'
			if !nn && len(all) == 0 {
				continue
			}
			sub := s.newSub(o.Cells["up"], s.cellLin(id, "tbh"), nh, c, all)
			if nn {
				s.heap[sub.Obj].Cells["nn"] = flagV('y')
			}
			n := s.heap[sub.Obj]
			delete(s.heap, sub.Obj)
			s.heap[id] = n
			s.substPtr(segTop(id), VPtr{id, ""})
			if hole.Obj != 0 {
				delete(s.heap, hole.Obj)
			}
		}
	}
	closeSegs()
	// children come after their parent in w.nodes
	for i := len(w.nodes) - 1; i >= 0; i-- {
		id := w.nodes[i]
		o := s.heap[id]
		if s.segBelow(o) {
			closeSegs()
			o = s.heap[id]
		}
		if pin[id] || !isSum(o.Cells[".left"]) || !isSum(o.Cells[".right"]) {
			continue
		}
		lp, _ := o.Cells[".left"].(VPtr)
		rp, _ := o.Cells[".right"].(VPtr)
		if pin[lp.Obj] || pin[rp.Obj] {
			continue
		}
		lb, lh, lc, li := sum(o.Cells[".left"])
		rb, rh, rc, ri := sum(o.Cells[".right"])
		col := s.colorOf(id)
		if col == '?' || col == 'r' && (lc != 'b' || rc != 'b') {
			continue
		}
		if !s.entailsEq(lb.sub(rb)) {
			continue
		}
		if col == 'b' {
			lb = lb.addk(1)
		}
		items := append(append(append([]Value(nil), li...), s.nodeItem(id)), ri...)
		h := s.fresh("h", K(1))
		s.addFact(h.sub(lh).addk(-1))
		s.addFact(h.sub(rh).addk(-1))
		parent := o.Cells[".parent"]
		sub := s.newSub(parent, lb, h, col, items)
		s.heap[sub.Obj].Cells["nn"] = flagV('y')
		s.heap[id] = s.heap[sub.Obj]
		delete(s.heap, sub.Obj)
		for _, c := range []VPtr{lp, rp} {
			if c.Obj != 0 {
				delete(s.heap, c.Obj)
			}
		}
	}
	// nodes above: one child is a summary, the other leads on
	for _, id := range w.nodes {
		o := s.heap[id]
		if !isNode(o) || pin[id] {
			continue
		}
		l, r := o.Cells[".left"], o.Cells[".right"]
		on, sib, side := l, r, "suf"
		if isSum(l) {
			on, sib, side = r, l, "pre"
		}
		if p, _ := on.(VPtr); p.Obj != 0 && isSum(on) {
			// a summary that is pinned
			if !pin[p.Obj] {
				q, _ := sib.(VPtr)
				if !pin[q.Obj] {
					continue
				}
				on, sib = sib, on
				if side == "pre" {
					side = "suf"
				} else {
					side = "pre"
				}
			}
		}
		if !isSum(sib) || on == Value(VNil{}) {
			continue
		}
		if p, ok := sib.(VPtr); ok && pin[p.Obj] {
			continue
		}
		bh, _, sc, si := sum(sib)
		black := s.colorOf(id) == 'b'
		if s.colorOf(id) == '?' {
			continue
		}
		if !black && (sc != 'b' || o.Cells[".parent"] == Value(VNil{})) {
			continue
		}
		tbh, bot := bh, byte('?')
		if black {
			tbh, bot = bh.addk(1), 'b'
		}
		var above VPtr
		if p, ok := o.Cells[".parent"].(VPtr); ok && s.heap[p.Obj] != nil && s.heap[p.Obj].Site == "seg" {
			above = p
			if !s.entailsEq(s.cellLin(p.Obj, "bh").sub(tbh)) || !black && !(s.flag(p.Obj, "bot") == 'b' && s.flag(p.Obj, "ne") == 'y') {
				continue
			}
		}
		e := s.nodeItem(id)
		var pre, suf []Value
		if side == "pre" {
			pre = append(append([]Value(nil), si...), e)
		} else {
			suf = append([]Value{e}, si...)
		}
		g := s.newSeg(o.Cells[".parent"], on, bh, K(1), bot, pre, suf)
		c := s.heap[g].Cells
		c["ne"], c["tbh"], c["top"] = flagV('y'), I(tbh), flagV(bot)
		if p, ok := sib.(VPtr); ok {
			delete(s.heap, p.Obj)
		}
		delete(s.heap, id)
		// links to the node
		s.mapPtrs(func(v Value) Value {
			if v == Value(VPtr{id, ""}) {
				return segTop(g)
			}
			return v
		})
		s.setParent(on, segBot(g))
		if above.Obj != 0 {
			s.mergeSegs(above.Obj, g, ptr)
		}
		if p, ok := on.(VPtr); ok && p.Path == "top" {
			s.mergeSegs(g, p.Obj, ptr)
		}
	}
	s.foldItems(tree, pin)
}

// segBelow: a path starts at a child of the node.
func (s *State) segBelow(o *Obj) bool {
	for _, c := range []string{".left", ".right"} {
		if p, ok := o.Cells[c].(VPtr); ok && p.Path == "top" {
			return true
		}
	}
	return false
}

// setParent redirects the parent link of what hangs at v.
func (s *State) setParent(v, to Value) {
	p, ok := v.(VPtr)
	if !ok {
		return
	}
	if s.heap[p.Obj].Site == "seg" {
		s.setCell(p.Obj, "up", to)
	} else {
		s.setCell(p.Obj, ".parent", to)
	}
}

// mergeSegs joins segment b, which hangs in the hole of a, with a.
func (s *State) mergeSegs(a, b int, ptr map[VPtr]bool) {
	if ptr[segBot(a)] || ptr[segTop(b)] || s.heap[a] == nil || s.heap[b] == nil || s.cell(a, "hole") != Value(segTop(b)) {
		return
	}
	ne := s.flag(a, "ne") == 'y'
	red := s.flag(b, "top") != 'b'
	if red && !(s.flag(a, "bot") == 'b' && ne) || !s.entailsEq(s.cellLin(a, "bh").sub(s.cellLin(b, "tbh"))) {
		return
	}
	cat := func(x, y []Value) Value { return seqV(append(append([]Value(nil), x...), y...)) }
	m := s.mut(b)
	m.Cells["pre"] = cat(s.list(a, "pre"), s.list(b, "pre"))
	m.Cells["suf"] = cat(s.list(b, "suf"), s.list(a, "suf"))
	m.Cells["d"] = I(s.cellLin(a, "d").add(s.cellLin(b, "d")))
	m.Cells["up"], m.Cells["tbh"] = s.cell(a, "up"), s.cell(a, "tbh")
	if ne {
		m.Cells["top"] = s.cell(a, "top")
	} else if s.flag(a, "top") != s.flag(b, "top") {
		m.Cells["top"] = flagV('?')
	}
	m.Cells["ne"] = flagV('y')
	s.substPtr(segTop(a), segTop(b))
	delete(s.heap, a)
}

// foldItems merges neighbouring elements of summaries that are neighbours in the original too.
func (s *State) foldItems(tree int, pin map[int]bool) {
	w := s.walk(s.cell(tree, ".root"))
	e, ok := s.keep["E"].(VTuple)
	if !ok {
		return
	}
	count := map[Value]int{}
	for _, it := range w.items {
		if p, ok := it.(VPtr); ok {
			count[p]++
		}
	}
	at := map[Value]int{}
	for i, x := range e.E {
		at[x] = i
	}
	inNode := map[Value]bool{}
	for _, n := range w.nodes {
		if isNode(s.heap[n]) {
			if it, ok := s.nodeItem(n).(VPtr); ok {
				inNode[it] = true
			}
		}
	}
	by := map[Value]Value{} // first item of a group -> its run
	gone := map[Value]bool{}
	group := func(l []Value) []Value {
		var out []Value
		for i := 0; i < len(l); {
			p, isP := l[i].(VPtr)
			k, known := 0, false
			if isP {
				k, known = at[p]
			}
			if !isP || pin[p.Obj] || !known || count[l[i]] != 1 || inNode[l[i]] {
				out = append(out, l[i])
				i++
				continue
			}
			j, m := i, 0
			for j < len(l) {
				q, isQ := l[j].(VPtr)
				kk, known := 0, false
				if isQ {
					kk, known = at[q]
				}
				if !isQ || pin[q.Obj] || !known || kk != k+j-i || count[l[j]] != 1 || inNode[l[j]] {
					break
				}
				m |= s.maskOf(l[j])
				j++
			}
			if j == i+1 && s.isRun(l[i]) {
				out = append(out, l[i])
			} else {
				r := s.newItem("run", m)
				if s.keep["counted"] != nil {
					s.setCell(r.(VPtr).Obj, "n", I(s.count(l[i:j])))
				}
				by[l[i]] = r
				for x := i + 1; x < j; x++ {
					gone[l[x]] = true
				}
				out = append(out, r)
			}
			i = j
		}
		return out
	}
	for _, id := range sortedInts(s.heap) {
		o := s.heap[id]
		for _, c := range map[string][]string{"sub": {"items"}, "seg": {"pre", "suf"}}[o.Site] {
			s.setCell(id, c, seqV(group(s.list(id, c))))
		}
	}
	var out []Value
	for _, x := range e.E {
		if r, ok := by[x]; ok {
			out = append(out, r)
		} else if !gone[x] {
			out = append(out, x)
		}
	}
	s.keep["E"] = VTuple{out}
}

// treePart names the shape of the tree and what registers point at.
func (s *State) treePart(tree int) string {
	w := s.walk(s.cell(tree, ".root"))
	num := map[int]int{}
	for i, n := range w.nodes {
		num[n] = i + 1
	}
	b := &w.sig
	for i, fr := range s.frames {
		for k, v := range fr.regs {
			if p, ok := v.(VPtr); ok && num[p.Obj] > 0 {
				fmt.Fprintf(b, " %d.%d=%d", i, k, num[p.Obj])
			} else if v == Value(VNil{}) {
				fmt.Fprintf(b, " %d.%d=0", i, k)
			} else if ok && s.heap[p.Obj] != nil && s.heap[p.Obj].Site == "seg" {
				fmt.Fprintf(b, " %d.%d=%s", i, k, p.Path)
			}
		}
	}
	// and what other objects (iterators) point at
	seen := map[int]bool{}
	for i, fr := range s.frames {
		for k, v := range fr.regs {
			p, ok := v.(VPtr)
			if !ok || p.Obj == tree || num[p.Obj] > 0 || seen[p.Obj] || s.heap[p.Obj] == nil {
				continue
			}
			if site := s.heap[p.Obj].Site; site == "seg" || site == "sub" || site == "run" {
				continue
			}
			seen[p.Obj] = true
			cells := s.heap[p.Obj].Cells
			for _, c := range sortedKeys(cells) {
				if q, ok := cells[c].(VPtr); ok && num[q.Obj] > 0 {
					fmt.Fprintf(b, " %d.%d%s=%d", i, k, c, num[q.Obj])
				} else if cells[c] == Value(VNil{}) {
					fmt.Fprintf(b, " %d.%d%s=0", i, k, c)
				}
			}
		}
	}
	if e, ok := s.keep["E"].(VTuple); ok {
		b.WriteString(" E")
		for _, x := range e.E {
			fmt.Fprint(b, s.maskOf(x))
			if !s.isRun(x) {
				b.WriteByte('!')
			}
		}
	}
	return b.String()
}

// solveEqualities replaces symbols the facts determine by what they equal.
func (s *State) solveEqualities() {
	keep := map[Sym]bool{}
	if v, ok := s.keep["size"].(VInt); ok {
		for _, t := range v.L.t {
			keep[t.s] = true
		}
	}
	for {
		have := map[string]bool{}
		for _, f := range s.facts {
			have[f.key()] = true
		}
		var eq Lin
		var x Sym
		var k int64
		for _, f := range s.facts {
			if !have[f.neg().key()] {
				continue
			}
			for _, t := range f.t {
				if (t.k == 1 || t.k == -1) && !keep[t.s] {
					eq, x, k = f, t.s, t.k
				}
			}
			if x != 0 {
				break
			}
		}
		if x == 0 {
			return
		}
		// k*x + rest = 0
		s.substSym(x, eq.sub(S(x).mul(k)).mul(-k))
	}
}

func (s *State) substSym(x Sym, by Lin) {
	m := map[Sym]Lin{x: by}
	one := func(v Value) Value {
		if v == nil {
			return nil
		}
		return substVal(v, m)
	}
	for _, fr := range s.frames {
		for i, v := range fr.regs {
			fr.regs[i] = one(v)
		}
		for i, v := range fr.ret {
			fr.ret[i] = one(v)
		}
	}
	for _, id := range sortedInts(s.heap) {
		n := s.heap[id].clone()
		for c, v := range n.Cells {
			n.Cells[c] = one(v)
		}
		s.heap[id] = n
	}
	for c, v := range s.keep {
		s.keep[c] = one(v)
	}
	facts := s.facts
	s.facts = nil
	for _, f := range facts {
		s.addFact(f.subst(m))
	}
}

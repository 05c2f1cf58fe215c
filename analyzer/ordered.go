package main

// Ordered sequences: what a red-black tree is to its users (C08 and C10 show that it is
// one). The domain is relative to one arbitrary key: a sequence is a list of runs and single
// elements, each known to lie before the key, to be equal to it, or to lie behind it.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const seqCell = "E"

// isSeq: an object that stands for a tree.
func (s *State) isSeq(id int) bool {
	o := s.heap[id]
	return o != nil && !o.IsArr && o.Cells[seqCell] != nil
}

func (s *State) seqs() (out []int) {
	for _, id := range sortedInts(s.heap) {
		if s.isSeq(id) {
			out = append(out, id)
		}
	}
	return
}

// newSeq makes a sequence: any number of elements before the key, equal ones as given, any
// number behind.
func (s *State) newOrdSeq(eq ...Value) int {
	o := s.newObj("otree")
	s.setCell(o, ".keyCmp", VUnk{"cmp"})
	e := append([]Value{s.newItem("run", mPos)}, eq...)
	s.setCell(o, seqCell, seqV(append(e, s.newItem("run", mNeg))))
	return o
}

// seqOf is the sequence a tree pointer stands for; trees made by the code start empty.
func (s *State) seqOf(v Value) int {
	if v == Value(VNil{}) {
		panic(goPanicErr{"nil dereference"})
	}
	p, ok := v.(VPtr)
	if !ok || s.heap[p.Obj] == nil {
		giveUp("a tree that is not known")
	}
	if !s.isSeq(p.Obj) {
		if s.cell(p.Obj, ".root") != Value(VNil{}) {
			giveUp("a tree that is not known")
		}
		s.setCell(p.Obj, seqCell, seqV(nil))
		s.setCell(p.Obj, "loose", bTrue)
	}
	return p.Obj
}

// ownerOf finds the sequence that holds an element.
func (s *State) ownerOf(e Value) (id, at int) {
	for _, id := range s.seqs() {
		if k := indexItem(s.list(id, seqCell), e); k >= 0 {
			return id, k
		}
	}
	return 0, -1
}

// newEntry makes an entry of the original content.
func (s *State) newEntry(m int) Value {
	e := s.newItem("elem", m)
	s.setEntry(e, ofKey(e), ofVal(e))
	return e
}

func (s *State) setEntry(e, k, v Value) {
	s.setCell(e.(VPtr).Obj, ".key", k)
	s.setCell(e.(VPtr).Obj, ".value", v)
}

func (s *State) keyAt(e Value) Value { return s.cellOf(e, ".key") }
func (s *State) valAt(e Value) Value { return s.cellOf(e, ".value") }

// added: an entry that was not there before; changed: one whose value is new.
func (s *State) added(e Value) bool {
	return !s.isRun(e) && !valEq(s.keyAt(e), ofKey(e)) && !s.moved(e)
}

func (s *State) moved(e Value) bool {
	t, ok := s.keyAt(e).(VTerm)
	return ok && t.F == "k"
}

func (s *State) changed(e Value) bool {
	if s.isRun(e) {
		return false
	}
	k, ok1 := s.keyAt(e).(VTerm)
	v, ok2 := s.valAt(e).(VTerm)
	return !ok1 || !ok2 || k.F != "k" || v.F != "v" || !valEq(k.A[0], v.A[0])
}

// pick delivers the first element (the last one for by < 0) from index k on whose mask lies
// in hit, or nil.
func (s *State) pick(id, k, by, hit int) Value {
	l := s.list(id, seqCell)
	for ; k >= 0 && k < len(l); k += by {
		if s.maskOf(l[k])&hit == 0 {
			continue
		}
		if !s.isRun(l[k]) {
			return l[k]
		}
		n := s.cellLin(l[k].(VPtr).Obj, "n")
		if !s.need(condGE(n.addk(-1))) {
			continue
		}
		m := s.maskOf(l[k])
		e, rest := s.newEntry(m), s.newItem("run", m)
		s.setCell(rest.(VPtr).Obj, "n", I(n.addk(-1)))
		mid := []Value{e, rest}
		if by < 0 {
			mid = []Value{rest, e}
		}
		out := append(append(append([]Value(nil), l[:k]...), mid...), l[k+1:]...)
		s.setCell(id, seqCell, seqV(out))
		return e
	}
	return VNil{}
}

// pickSome answers a search for a key before or behind the one looked at: any of the
// elements on that side, or none of them (then the first one behind, for a bound).
func (s *State) pickSome(id, m int, bound bool) (outs []Out) {
	l := s.list(id, seqCell)
	for k, x := range l {
		if s.maskOf(x) != m {
			continue
		}
		t := s.clone()
		if !s.isRun(x) {
			outs = append(outs, Out{t, []Value{x}})
			continue
		}
		n := t.cellLin(x.(VPtr).Obj, "n")
		a, e, b := t.newItem("run", m), t.newEntry(m), t.newItem("run", m)
		rest := n.addk(-1).sub(t.cellLin(a.(VPtr).Obj, "n"))
		t.setCell(b.(VPtr).Obj, "n", I(rest))
		if t.addFact(rest) {
			t.setCell(id, seqCell, seqV(append(append(append([]Value(nil), l[:k]...), a, e, b), l[k+1:]...)))
			outs = append(outs, Out{t, []Value{e}})
		}
	}
	none := Value(VNil{})
	if bound {
		none = s.pick(id, 0, 1, m-1)
	}
	return append(outs, Out{s, []Value{none}})
}

// live requires a node pointer that still denotes its entry.
func (s *State) live(v Value) (VPtr, int, int) {
	if v == Value(VNil{}) {
		panic(goPanicErr{"nil dereference"})
	}
	p, ok := v.(VPtr)
	if !ok || p.Path != "" {
		giveUp("a node that is not known (%s)", showVal(v))
	}
	id, k := s.ownerOf(p)
	if k < 0 {
		giveUp("a node is used whose entry was deleted or moved")
	}
	return p, id, k
}

func rbMethod(f *ssa.Function) (typ, name string) {
	if f == nil || f.Signature.Recv() == nil {
		return
	}
	for _, n := range []string{"RbTree", "Node"} {
		if isRbPtr(f.Signature.Recv().Type(), n) {
			return n, f.Name()
		}
	}
	return
}

// seqStatic answers the operations of the tree and its nodes as documented.
func seqStatic(c *callCtx) ([]Out, bool) {
	typ, name := rbMethod(c.fn)
	if typ == "" {
		return nil, false
	}
	s := c.st
	one := func(v ...Value) ([]Out, bool) { return []Out{{s, v}}, true }
	if typ == "Node" {
		e, id, k := s.live(c.args[0])
		switch name {
		case "Key":
			return one(s.keyAt(e))
		case "Value":
			return one(s.valAt(e))
		case "SetValue":
			s.setCell(id, "touched", bTrue)
			s.setCell(e.Obj, ".value", c.args[1])
			return one()
		case "Next":
			return one(s.pick(id, k+1, 1, mAny))
		case "Prev":
			return one(s.pick(id, k-1, -1, mAny))
		}
		return nil, false
	}
	switch name {
	case "Compare", "IterFirst", "IterLast", "Traversal":
		return nil, false // what they are made of is answered
	}
	id := s.seqOf(c.args[0])
	l := s.list(id, seqCell)
	byKey := func(hit int) Value {
		if !valEq(c.args[1], T("key")) {
			giveUp("search for another key")
		}
		return s.pick(id, 0, 1, hit)
	}
	if strings.HasPrefix(name, "Find") && !valEq(c.args[1], T("key")) && name != "Find" {
		if m := s.keyClass(c.args[1]); m == mPos || m == mNeg {
			return s.pickSome(id, m, name != "FindNode"), true
		} else if m == mZero {
			c.args = append([]Value{c.args[0], T("key")}, c.args[2:]...)
		}
	}
	switch name {
	case "FindNode":
		return one(byKey(mZero))
	case "FindLowerBoundNode":
		return one(byKey(mZero | mNeg))
	case "FindUpperBoundNode":
		return one(byKey(mNeg))
	case "Find":
		n := byKey(mZero)
		if n == Value(VNil{}) {
			return one(T("no value"), VIface{"model:error", VNil{}})
		}
		return one(s.valAt(n), VNil{})
	case "First", "Begin":
		return one(s.pick(id, 0, 1, mAny))
	case "Last", "RBegin":
		return one(s.pick(id, len(l)-1, -1, mAny))
	case "Size":
		return one(I(s.count(l)))
	case "Empty":
		return one(condEQ(s.count(l)))
	case "Clear":
		s.setCell(id, seqCell, seqV(nil))
		s.setCell(id, "touched", bTrue)
		return one()
	case "Delete":
		if c.args[1] == Value(VNil{}) {
			return one()
		}
		e, at, k := s.live(c.args[1])
		if at != id {
			giveUp("a node of another tree is deleted")
		}
		if s.maskOf(e) != mZero {
			s.setCell(id, "odd", T("an entry with another key is deleted"))
		}
		s.setCell(id, "touched", bTrue)
		out := append(append([]Value(nil), l[:k]...), l[k+1:]...)
		if k < len(out) && !s.isRun(out[k]) {
			// the entry behind may move to another node
			n := s.newItem("elem", s.maskOf(out[k]))
			s.setEntry(n, s.keyAt(out[k]), s.valAt(out[k]))
			out[k] = n
		}
		s.setCell(id, seqCell, seqV(out))
		return one()
	case "Insert":
		m := s.keyClass(c.args[1])
		if m == 0 {
			giveUp("insertion of a key that is not known (%s)", showVal(c.args[1]))
		}
		loose := s.cell(id, "loose") != nil
		if m != mZero && !loose {
			s.setCell(id, "odd", T("an entry with another key is inserted"))
		}
		k := 0
		for k < len(l) && s.maskOf(l[k]) >= m {
			k++
		}
		e := s.newEntry(m)
		if !loose {
			s.setCell(id, "touched", bTrue)
			s.setEntry(e, c.args[1], c.args[2])
		}
		s.setCell(id, seqCell, seqV(append(append(append([]Value(nil), l[:k]...), e), l[k:]...)))
		return one()
	}
	return nil, false
}

// keyClass tells on which side of the key a key lies.
func (s *State) keyClass(v Value) int {
	t, ok := v.(VTerm)
	if !ok {
		return 0
	}
	if t.F == "key" {
		return mZero
	}
	if t.F == "k" && len(t.A) == 1 {
		return s.maskOf(t.A[0])
	}
	return 0
}

// seqCmp answers the comparator.
func seqCmp(c *callCtx) ([]Out, bool) {
	u, ok := c.recv.(VUnk)
	if !ok || u.Name != "cmp" || len(c.args) != 2 {
		return nil, false
	}
	s := c.st
	answer := func(t *State, sign int) Out {
		y := S(newSym("cmp"))
		switch sign {
		case mPos:
			t.addFact(y.addk(-1))
		case mNeg:
			t.addFact(y.neg().addk(-1))
		case mZero:
			y = K(0)
		}
		return Out{t, []Value{I(y)}}
	}
	a, b := s.keyClass(c.args[0]), s.keyClass(c.args[1])
	switch {
	case a == 0 || b == 0:
		giveUp("comparison of %s with %s", showVal(c.args[0]), showVal(c.args[1]))
	case a == mZero && b == mZero:
		return []Out{answer(s, mZero)}, true
	case a > b: // a is before b: the order of the masks is the order of the sequence
		return []Out{answer(s, mNeg)}, true
	case a < b:
		return []Out{answer(s, mPos)}, true
	}
	return []Out{answer(s.clone(), mNeg), answer(s.clone(), mZero), answer(s, mPos)}, true
}

// seqPinned collects what registers and the specification refer to.
func (s *State) seqPinned() (pin map[int]bool, sig string) {
	pin = map[int]bool{}
	name := map[int]string{}
	for i, id := range s.seqs() {
		for k, x := range s.list(id, seqCell) {
			name[x.(VPtr).Obj] = fmt.Sprintf("%d.%d", i, k)
		}
	}
	var b strings.Builder
	seen := map[int]bool{}
	var visit func(path string, v Value)
	visit = func(path string, v Value) {
		if v == Value(VNil{}) {
			fmt.Fprintf(&b, " %s=0", path)
		}
		mapVal(v, func(x Value) Value {
			p := x.(VPtr)
			if name[p.Obj] != "" {
				fmt.Fprintf(&b, " %s=%s", path, name[p.Obj])
			}
			if pin[p.Obj] || seen[p.Obj] {
				return x
			}
			pin[p.Obj] = true
			if o := s.heap[p.Obj]; o != nil && !o.IsArr && name[p.Obj] == "" {
				seen[p.Obj] = true
				for _, c := range sortedKeys(o.Cells) {
					if c != seqCell {
						visit(path+c, o.Cells[c])
					}
				}
			}
			return x
		})
	}
	for i, fr := range s.frames {
		for k, v := range fr.regs {
			if v != nil {
				visit(fmt.Sprintf("%d.%d", i, k), v)
			}
		}
		for k, d := range fr.defers {
			for _, v := range append([]Value{d.fn}, d.args...) {
				visit(fmt.Sprintf("%d.d%d", i, k), v)
			}
		}
	}
	for _, k := range sortedKeys(s.keep) {
		visit(k, s.keep[k])
	}
	return pin, b.String()
}

// foldSeqs merges neighbouring elements nothing refers to.
func (s *State) foldSeqs() {
	pin, _ := s.seqPinned()
	for i, id := range s.seqs() {
		var out []Value
		free := func(x Value) bool {
			p := x.(VPtr)
			return !pin[p.Obj] && !s.added(x) && !s.changed(x)
		}
		l := s.list(id, seqCell)
		if s.inOrder(l) {
			// one run of each kind in every gap
			var can []Value
			at := mPos
			fill := func(to int) {
				for ; at > to; at /= 2 {
					r := s.newItem("run", at)
					s.setCell(r.(VPtr).Obj, "n", I(K(0)))
					can = append(can, r)
				}
			}
			for _, x := range l {
				m := s.maskOf(x)
				fill(m)
				if free(x) {
					can = append(can, x)
					at = m / 2
					continue
				}
				if len(can) == 0 || !free(can[len(can)-1]) || s.maskOf(can[len(can)-1]) != m {
					at = m
					fill(m / 2)
				}
				can = append(can, x)
				at = m
			}
			fill(0)
			l = can
		}
		for _, x := range l {
			if k := len(out) - 1; k >= 0 && free(x) && free(out[k]) && s.maskOf(x) == s.maskOf(out[k]) {
				r := s.newItem("run", s.maskOf(x))
				s.setCell(r.(VPtr).Obj, "n", I(s.count([]Value{out[k], x})))
				out[k] = r
				continue
			}
			if free(x) && !s.isRun(x) {
				r := s.newItem("run", s.maskOf(x))
				s.setCell(r.(VPtr).Obj, "n", I(K(1)))
				x = r
			}
			out = append(out, x)
		}
		if s.keep["coarse"] != nil {
			// how many there are of what the cursor left behind does not matter
			for k, x := range out {
				if pin[x.(VPtr).Obj] {
					break
				}
				if s.isRun(x) && s.maskOf(x) != mZero {
					out[k] = s.newItem("run", s.maskOf(x))
				}
			}
		}
		s.setCell(id, seqCell, seqV(out))
		// quantities for rankings
		after, before := K(0), K(0)
		first, last := -1, len(out)
		for k, x := range out {
			if pin[x.(VPtr).Obj] {
				if first < 0 {
					first = k
				}
				last = k
			}
		}
		ka, kb, kn := fmt.Sprintf("A%d", i), fmt.Sprintf("B%d", i), fmt.Sprintf("N%d", i)
		delete(s.keep, ka)
		delete(s.keep, kb)
		if first >= 0 {
			after, before = s.count(out[last:]), s.count(out[:first+1])
			s.keep[ka] = I(after)
		}
		if s.keep["coarse"] == nil {
			s.keep[kn] = I(s.count(out))
			if first >= 0 {
				s.keep[kb] = I(before)
			}
		}
	}
}

func (s *State) inOrder(l []Value) bool {
	for i := 1; i < len(l); i++ {
		if s.maskOf(l[i]) > s.maskOf(l[i-1]) {
			return false
		}
	}
	return true
}

func (s *State) seqPart() string {
	_, sig := s.seqPinned()
	var b strings.Builder
	for _, id := range s.seqs() {
		b.WriteByte('[')
		for _, x := range s.list(id, seqCell) {
			fmt.Fprint(&b, s.maskOf(x))
			if !s.isRun(x) {
				b.WriteByte('!')
			}
		}
		b.WriteByte(']')
	}
	return b.String() + sig
}

// seqVisit checks that the visitor sees every entry in order, each once, until it declines.
func seqVisit(j *Job, id int) func(c *callCtx) ([]Out, bool) {
	return func(c *callCtx) ([]Out, bool) {
		u, ok := c.recv.(VUnk)
		if !ok || u.Name != "visit" {
			return seqCmp(c)
		}
		s := c.st
		if s.keep["stopped"] != nil {
			j.fail(c.site.Pos(), "the visitor is called again after it returned false")
		}
		k := 0
		if cur, ok := s.keep["cur"].(VPtr); ok {
			k = indexItem(s.list(id, seqCell), cur) + 1
		}
		x := s.pick(id, k, 1, mAny)
		if x == Value(VNil{}) || !valEq(c.args[0], s.keyAt(x)) || len(c.args) > 1 && !valEq(c.args[1], s.valAt(x)) {
			if debugOn {
				dbg("visit %v at %d\n%s", c.args, k, s.dump())
			}
			j.fail(c.site.Pos(), "the visitor is not given the entries in order, each once")
		}
		if j.bad {
			c.ip.stop = true
			return nil, true
		}
		t := s.clone()
		s.keep["cur"], t.keep["cur"] = x, x
		t.keep["stopped"] = bTrue
		return []Out{{s, []Value{bTrue}}, {t, []Value{bFalse}}}, true
	}
}

// ---- operations

type ordModel struct {
	obj   int // the container
	id    int // its sequence
	equal Value
	n     Lin // number of equal entries
	all   Lin
	node  Value
}

func structType(n *types.Named) *types.Struct {
	st, _ := n.Underlying().(*types.Struct)
	return st
}

// fieldOf finds the one field of a struct whose type fits.
func fieldOf(n *types.Named, fit func(t types.Type) bool) string {
	st := structType(n)
	if st == nil {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if fit(st.Field(i).Type()) {
			return "." + st.Field(i).Name()
		}
	}
	return ""
}

// newOrdered makes a container around a sequence.
func (s *State) newOrdered(n *types.Named, id int) int {
	o := s.newObj(n.Obj().Name())
	st := structType(n)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		f := st.Field(i)
		c := "." + f.Name()
		switch u := f.Type().Underlying().(type) {
		case *types.Pointer:
			if isRbPtr(f.Type(), "RbTree") {
				s.setCell(o, c, VPtr{id, ""})
				continue
			}
		case *types.Interface:
			s.setCell(o, c, VIface{lockDyn, VNil{}})
			continue
		case *types.Signature:
			_ = u
			s.setCell(o, c, VUnk{"cmp"})
			continue
		}
		s.setCell(o, c, s.opaque(f.Type(), f.Name()))
	}
	return o
}

// ordJob analyses one operation. eq: 0 or 1 entry with the key, -1 any number of them.
func ordJob(p *Prog, r *Result, rel, typ, meth string, eq int, args func(s *State, m *ordModel) []Value, spec func(j *Job, s *State, m *ordModel, ret []Value, pos token.Pos)) {
	fn := p.Method(rel, typ, meth)
	n := p.Named(rel, typ)
	j := r.job(p, "ordered", fn, rel+" "+typ+"."+meth)
	if j == nil || n == nil {
		return
	}
	switch eq {
	case 0:
		j.name += " (key absent)"
	case 1:
		j.name += " (key present)"
	}
	r.Count("clauses", 1)
	st := j.ip.NewState()
	st.keep["counted"] = bTrue
	m := &ordModel{n: K(int64(eq))}
	var l []Value
	switch eq {
	case 1:
		m.equal = st.newEntry(mZero)
		l = append(l, m.equal)
		st.keep["equal"] = m.equal
	case -1:
		e := st.newItem("run", mZero)
		m.n = st.cellLin(e.(VPtr).Obj, "n")
		l = append(l, e)
	}
	m.id = st.newOrdSeq(l...)
	m.all = st.count(st.list(m.id, seqCell))
	m.obj = st.newOrdered(n, m.id)
	st.keep["con"] = VPtr{m.obj, ""}
	st.keep["tree"] = VPtr{m.id, ""}
	st.keep["n"], st.keep["all"] = I(m.n), I(m.all)
	j.useSeqs(m.id)
	a := append([]Value{VPtr{m.obj, ""}}, args(st, m)...)
	j.run(st, a, func(s *State, ret []Value, pos token.Pos) { spec(j, s, m, ret, pos) })
}

func (j *Job) useSeqs(id int) {
	j.ip.MaxSteps = 4000000
	j.ip.MaxHeads = 200
	j.ip.DropMixed = false
	j.ip.Static = seqStatic
	j.ip.Invoke = lockInvoke
	j.ip.Unknown = seqVisit(j, id)
	j.ip.AtHead = func(s *State) {
		// nodes know their tree
		var all []Value
		for _, id := range s.seqs() {
			all = append(all, VPtr{id, ""})
		}
		s.keep["trees"] = VTuple{all}
		s.gc()
		s.foldSeqs()
	}
	j.ip.Part = (*State).seqPart
}

func lockInvoke(c *callCtx) ([]Out, bool) {
	if r, ok := c.recv.(VIface); ok && r.Dyn == lockDyn {
		return []Out{{c.st, nil}}, true
	}
	return nil, false
}

// same requires that nothing happened to other entries, and delivers the equal ones.
func (j *Job) others(s *State, m *ordModel, pos token.Pos) ([]Value, bool) {
	if o := s.cell(m.id, "odd"); o != nil {
		j.fail(pos, "%s %s", o.(VTerm).F, j.path(s))
		return nil, false
	}
	var out []Value
	for _, x := range s.list(m.id, seqCell) {
		if s.maskOf(x) == mZero {
			out = append(out, x)
		} else if s.changed(x) {
			j.fail(pos, "the value of another entry is changed %s", j.path(s))
			return nil, false
		}
	}
	rest := s.count(s.list(m.id, seqCell)).sub(s.count(out))
	if !j.mustEq(s, I(rest), I(m.all.sub(m.n)), pos, "wrong number of other entries") {
		return nil, false
	}
	for _, f := range sortedKeys(s.heap[m.obj].Cells) {
		if s.heap[m.obj].Cells[f] == Value(VNil{}) {
			j.fail(pos, "a part of the container is gone %s", j.path(s))
		}
	}
	return out, true
}

// same requires that the content did not change.
func (j *Job) same(s *State, m *ordModel, pos token.Pos) {
	l, ok := j.others(s, m, pos)
	if !ok {
		return
	}
	for _, x := range l {
		if s.added(x) || s.changed(x) {
			j.fail(pos, "an entry is replaced %s", j.path(s))
			return
		}
	}
	j.mustEq(s, I(s.count(l)), I(m.n), pos, "wrong number of entries with the key")
}

func noArg0(s *State, m *ordModel) []Value { return nil }
func keyArg0(s *State, m *ordModel) []Value { return []Value{T("key")} }

// nodeIn delivers the node an iterator denotes.
func (j *Job) nodeIn(p *Prog, s *State, v Value, rel, typ string, pos token.Pos) (Value, bool) {
	f := fieldOf(p.Named(rel, typ), func(t types.Type) bool { return isRbPtr(t, "Node") })
	q, ok := stripIface(v).(VPtr)
	if !ok || f == "" || s.cell(q.Obj, f) == nil {
		j.fail(pos, "the result is no iterator of this container %s", j.path(s))
		return nil, false
	}
	return s.cell(q.Obj, f), true
}

// wantAt requires that v is the first element (last for by<0) in hit.
func (j *Job) wantAt(s *State, m *ordModel, v Value, by, hit int, pos token.Pos, what string) {
	k := 0
	if by < 0 {
		k = len(s.list(m.id, seqCell)) - 1
	}
	if w := s.pick(m.id, k, by, hit); !valEq(w, v) {
		j.fail(pos, "%s: the iterator denotes %s instead of %s %s", what, showVal(v), showVal(w), j.path(s))
	}
}

func init() {
	checks["C23"] = func(p *Prog, r *Result) {
		r.Rule("abstract interpretation of every operation of Map, MultiMap, Set and MultiSet over a sequence of entries of unknown length, seen from one arbitrary key (any number of entries before it, equal ones, any number behind), with the tree's operations answered as C08 and C10 show them to behave; content, results and iterators are compared with the documented behaviour")
		r.Assumption("the comparator is a total preorder; iterators are used while their entry exists; the tree behaves as C08 and C10 show")
		const mapRel, setRel = "ds/map", "ds/set"
		type con struct {
			rel, typ, iter string
			unique, kv     bool
		}
		for _, c := range []con{{mapRel, "Map", "MapIterator", true, true}, {mapRel, "MultiMap", "MapIterator", false, true},
			{setRel, "Set", "SetIterator", true, false}, {setRel, "MultiSet", "SetIterator", false, false}} {
			c := c
			eqs := []int{-1}
			if c.unique {
				eqs = []int{0, 1}
			}
			for _, eq := range eqs {
				eq := eq
				op := func(meth string, args func(s *State, m *ordModel) []Value, spec func(j *Job, s *State, m *ordModel, ret []Value, pos token.Pos)) {
					ordJob(p, r, c.rel, c.typ, meth, eq, args, spec)
				}
				op("Insert", func(s *State, m *ordModel) []Value {
					if c.kv {
						return []Value{T("key"), T("new")}
					}
					return []Value{T("key")}
				}, func(j *Job, s *State, m *ordModel, ret []Value, pos token.Pos) {
					l, ok := j.others(s, m, pos)
					if !ok {
						return
					}
					want := m.n.addk(1)
					if c.unique {
						want = K(1)
					}
					if !j.mustEq(s, I(s.count(l)), I(want), pos, "wrong number of entries with the key") {
						return
					}
					for i, x := range l {
						v := s.valAt(x)
						added := i == len(l)-1 && (!c.unique || eq == 0)
						switch {
						case !added && s.added(x) && !c.unique:
							j.fail(pos, "an entry that was there is replaced %s", j.path(s))
						case added && !s.added(x):
							j.fail(pos, "the new entry is not behind the equal ones %s", j.path(s))
						case c.kv && c.unique && !valEq(v, T("new")), c.kv && added && !valEq(v, T("new")):
							j.fail(pos, "the entry does not have the new value %s", j.path(s))
						case c.kv && !c.unique && !added && s.changed(x):
							j.fail(pos, "the value of another entry with the key is changed %s", j.path(s))
						}
					}
				})
				erase := func(all bool) func(j *Job, s *State, m *ordModel, ret []Value, pos token.Pos) {
					return func(j *Job, s *State, m *ordModel, ret []Value, pos token.Pos) {
						l, ok := j.others(s, m, pos)
						if !ok {
							return
						}
						want := K(0)
						if !all && s.need(condGE(m.n.addk(-1))) {
							want = m.n.addk(-1)
						}
						j.mustEq(s, I(s.count(l)), I(want), pos, "wrong number of entries with the key left")
						for _, x := range l {
							if s.changed(x) {
								j.fail(pos, "a value is changed %s", j.path(s))
							}
						}
					}
				}
				op("Erase", keyArg0, erase(c.typ != "MultiSet"))
				if c.typ == "MultiSet" {
					op("EraseAll", keyArg0, erase(true))
				}
				if c.typ == "Map" && eq == 1 {
					op("EraseIter", func(s *State, m *ordModel) []Value {
						it := s.newObj("iter")
						s.setCell(it, fieldOf(p.Named(c.rel, c.iter), func(t types.Type) bool { return isRbPtr(t, "Node") }), m.equal)
						return []Value{VIface{"*" + c.rel + "." + c.iter, VPtr{it, ""}}}
					}, erase(true))
					op("EraseIter", func(s *State, m *ordModel) []Value { return []Value{VIface{"model:foreign", VNil{}}} },
						func(j *Job, s *State, m *ordModel, ret []Value, pos token.Pos) { j.same(s, m, pos) })
				}
				if c.kv {
					op("Get", keyArg0, func(j *Job, s *State, m *ordModel, ret []Value, pos token.Pos) {
						w := s.pick(m.id, 0, 1, mZero)
						if w == Value(VNil{}) {
							if ret[1] == Value(VNil{}) {
								j.fail(pos, "no error although the key is absent %s", j.path(s))
							}
						} else {
							if ret[1] != Value(VNil{}) {
								j.fail(pos, "an error although the key is present %s", j.path(s))
								return
							}
							j.mustEq(s, ret[0], ofVal(w), pos, "not the value of the first entry with the key")
						}
						j.same(s, m, pos)
					})
				}
				for _, q := range []struct {
					n       string
					by, hit int
					key     bool
				}{{"Find", 1, mZero, true}, {"LowerBound", 1, mZero | mNeg, true}, {"UpperBound", 1, mNeg, true},
					{"Begin", 1, mAny, false}, {"First", 1, mAny, false}, {"Last", -1, mAny, false}} {
					q := q
					args := noArg0
					if q.key {
						args = keyArg0
					}
					op(q.n, args, func(j *Job, s *State, m *ordModel, ret []Value, pos token.Pos) {
						if at, ok := j.nodeIn(p, s, ret[0], c.rel, c.iter, pos); ok {
							j.wantAt(s, m, at, q.by, q.hit, pos, q.n)
							j.same(s, m, pos)
						}
					})
				}
				op("Contains", keyArg0, func(j *Job, s *State, m *ordModel, ret []Value, pos token.Pos) {
					j.mustEq(s, ret[0], boolV(s.need(condGE(m.n.addk(-1)))), pos, "wrong answer")
					j.same(s, m, pos)
				})
				op("Size", noArg0, func(j *Job, s *State, m *ordModel, ret []Value, pos token.Pos) {
					j.mustEq(s, ret[0], I(m.all), pos, "wrong size")
					j.same(s, m, pos)
				})
				if c.typ == "MultiSet" {
					op("Count", keyArg0, func(j *Job, s *State, m *ordModel, ret []Value, pos token.Pos) {
						j.mustEq(s, ret[0], I(m.n), pos, "wrong number")
						j.same(s, m, pos)
					})
				}
				op("Clear", noArg0, func(j *Job, s *State, m *ordModel, ret []Value, pos token.Pos) {
					t, ok := s.cell(m.obj, fieldOf(p.Named(c.rel, c.typ), func(t types.Type) bool { return isRbPtr(t, "RbTree") })).(VPtr)
					if !ok {
						j.fail(pos, "the tree is gone %s", j.path(s))
						return
					}
					id := s.seqOf(t)
					j.mustEq(s, I(s.count(s.list(id, seqCell))), I(K(0)), pos, "entries are left")
					j.mustEq(s, s.cell(id, ".keyCmp"), VUnk{"cmp"}, pos, "the order is changed")
				})
				op("Traversal", func(s *State, m *ordModel) []Value { return []Value{VUnk{"visit"}} }, func(j *Job, s *State, m *ordModel, ret []Value, pos token.Pos) {
					if s.keep["stopped"] == nil {
						k := 0
						if cur, ok := s.keep["cur"].(VPtr); ok {
							k = indexItem(s.list(m.id, seqCell), cur) + 1
						}
						if s.pick(m.id, k, 1, mAny) != Value(VNil{}) {
							j.fail(pos, "the traversal ends before the last entry %s", j.path(s))
						}
					}
					j.same(s, m, pos)
				})
			}
		}
		for _, c := range []struct{ rel, ctor, typ string }{{mapRel, "New", "Map"}, {mapRel, "NewMultiMap", "MultiMap"}, {setRel, "New", "Set"}, {setRel, "NewMultiSet", "MultiSet"}} {
			ordCtor(p, r, c.rel, c.ctor, c.typ)
		}
		ordIters(p, r, mapRel, "MapIterator", true)
		ordIters(p, r, setRel, "SetIterator", false)
		r.Need("clauses", 95)
	}
	checks["C29"] = func(p *Prog, r *Result) {
		r.Rule("abstract interpretation of Union, Intersect and Diff over two sets of unknown size and content (or one set twice), seen from one arbitrary key that is in none, one or both of them, with the tree's operations answered as C08 and C10 show them to behave; the result must hold that key exactly when the operation calls for it, and once")
		r.Assumption("both sets use the same total preorder, as documented; a set holds no two equal elements, as C23 shows")
		for _, meth := range []string{"Union", "Intersect", "Diff"} {
			for _, in := range []struct {
				a, b  int64
				alias bool
			}{{0, 0, false}, {0, 1, false}, {1, 0, false}, {1, 1, false}, {0, 0, true}, {1, 1, true}} {
				setAlgebra(p, r, meth, in.a, in.b, in.alias)
			}
		}
		r.Need("clauses", 18)
	}
}

func isTreeType(t types.Type) bool { return isRbPtr(t, "RbTree") }
func isNodeType(t types.Type) bool { return isRbPtr(t, "Node") }

// ordCtor: a new container is empty and ordered by the comparator given.
func ordCtor(p *Prog, r *Result, rel, ctor, typ string) {
	j := r.job(p, "ordered", p.Func(rel, ctor), rel+"."+ctor)
	n := p.Named(rel, typ)
	if j == nil || n == nil {
		return
	}
	r.Count("clauses", 1)
	st := j.ip.NewState()
	arr := st.newArr("options", K(0))
	st.heap[arr].Cols[""] = nil
	old := objCount
	j.run(st, []Value{VUnk{"cmp"}, VSlice{arr, K(0), K(0), K(0)}}, func(s *State, ret []Value, pos token.Pos) {
		q, ok := ret[0].(VPtr)
		if !ok || q.Obj <= old {
			j.fail(pos, "the result is not new")
			return
		}
		t, ok := s.cell(q.Obj, fieldOf(n, isTreeType)).(VPtr)
		if !ok || t.Obj <= old {
			j.fail(pos, "the container has no tree of its own")
			return
		}
		j.newTree(s, t, pos)
		if f := fieldOf(n, isFunc); f != "" {
			j.mustEq(s, s.cell(q.Obj, f), VUnk{"cmp"}, pos, "the comparator is not kept")
		}
	})
}

func isFunc(t types.Type) bool {
	_, ok := t.Underlying().(*types.Signature)
	return ok
}

// newTree requires an empty tree ordered by the comparator.
func (j *Job) newTree(s *State, t VPtr, pos token.Pos) {
	n := 0
	for _, c := range sortedKeys(s.heap[t.Obj].Cells) {
		switch v := s.heap[t.Obj].Cells[c].(type) {
		case VUnk:
			if v.Name == "cmp" {
				n++
			}
		case VInt:
			j.mustEq(s, v, I(K(0)), pos, "the tree is not empty")
		case VNil:
		case VTuple:
			j.mustEq(s, I(s.count(v.E)), I(K(0)), pos, "the tree is not empty")
		case VPtr:
			j.fail(pos, "the tree is not empty")
		}
	}
	if n == 0 {
		j.fail(pos, "the tree is not ordered by the comparator given")
	}
}

// ordIters: the iterators of the ordered containers.
func ordIters(p *Prog, r *Result, rel, typ string, kv bool) {
	named := p.Named(rel, typ)
	field := ""
	if named != nil {
		field = fieldOf(named, isNodeType)
	}
	job := func(meth string, at bool, extra func(s *State, m *ordModel) []Value, spec func(j *Job, s *State, m *ordModel, it VPtr, ret []Value, pos token.Pos)) {
		j := r.job(p, "ordered", p.Method(rel, typ, meth), rel+" "+typ+"."+meth)
		if j == nil {
			return
		}
		if field == "" {
			j.fail(j.fn.Pos(), "undecided: the iterator has no node")
			return
		}
		r.Count("clauses", 1)
		st := j.ip.NewState()
		st.keep["counted"] = bTrue
		m := &ordModel{n: K(1)}
		m.equal = st.newEntry(mZero)
		st.keep["equal"] = m.equal
		m.id = st.newOrdSeq(m.equal)
		m.all = st.count(st.list(m.id, seqCell))
		m.obj = st.newObj("con")
		st.keep["tree"] = VPtr{m.id, ""}
		st.keep["n"], st.keep["all"] = I(m.n), I(m.all)
		o := st.newObj("iter")
		m.node = VNil{}
		if at {
			m.node = m.equal
		}
		st.setCell(o, field, m.node)
		it := VPtr{o, ""}
		st.keep["it"] = it
		j.useSeqs(m.id)
		a := []Value{it}
		if extra != nil {
			a = append(a, extra(st, m)...)
		}
		j.run(st, a, func(s *State, ret []Value, pos token.Pos) { spec(j, s, m, it, ret, pos) })
	}
	stays := func(j *Job, s *State, m *ordModel, it VPtr, pos token.Pos) {
		j.mustEq(s, s.cell(it.Obj, field), m.node, pos, "the iterator moves")
		j.same(s, m, pos)
	}
	for _, at := range []bool{true, false} {
		at := at
		job("IsValid", at, nil, func(j *Job, s *State, m *ordModel, it VPtr, ret []Value, pos token.Pos) {
			j.mustEq(s, ret[0], boolV(at), pos, "wrong validity")
			stays(j, s, m, it, pos)
		})
		job("Clone", at, nil, func(j *Job, s *State, m *ordModel, it VPtr, ret []Value, pos token.Pos) {
			c, ok := stripIface(ret[0]).(VPtr)
			if !ok || c.Obj == it.Obj {
				j.fail(pos, "the clone is not an iterator of its own %s", j.path(s))
				return
			}
			j.mustEq(s, s.cell(c.Obj, field), m.node, pos, "the clone is elsewhere")
			stays(j, s, m, it, pos)
		})
		for _, by := range []int{1, -1} {
			by := by
			job(map[int]string{1: "Next", -1: "Prev"}[by], at, nil, func(j *Job, s *State, m *ordModel, it VPtr, ret []Value, pos token.Pos) {
				if stripIface(ret[0]) != Value(it) {
					j.fail(pos, "the iterator itself is not returned %s", j.path(s))
				}
				w := Value(VNil{})
				if at {
					_, k := s.ownerOf(m.equal)
					w = s.pick(m.id, k+by, by, mAny)
				}
				j.mustEq(s, s.cell(it.Obj, field), w, pos, "the iterator is not at the neighbour")
				j.same(s, m, pos)
			})
		}
		for _, same := range []bool{true, false} {
			same := same
			job("Equal", at, func(s *State, m *ordModel) []Value {
				o := s.newObj("iter")
				n := m.node
				if !same {
					e := s.newEntry(mPos)
					s.setCell(m.id, seqCell, seqV(append([]Value{e}, s.list(m.id, seqCell)...)))
					m.all = m.all.addk(1)
					s.keep["all"] = I(m.all)
					n = e
				}
				s.setCell(o, field, n)
				s.keep["other"] = VPtr{o, ""}
				return []Value{VIface{"*" + rel + "." + typ, VPtr{o, ""}}}
			}, func(j *Job, s *State, m *ordModel, it VPtr, ret []Value, pos token.Pos) {
				j.mustEq(s, ret[0], boolV(same), pos, "wrong answer about equality")
				stays(j, s, m, it, pos)
			})
		}
		job("Equal", at, func(s *State, m *ordModel) []Value { return []Value{VIface{"model:foreign", VNil{}}} },
			func(j *Job, s *State, m *ordModel, it VPtr, ret []Value, pos token.Pos) {
				j.mustEq(s, ret[0], bFalse, pos, "equal to an iterator of another kind")
			})
	}
	val := ofVal
	if !kv {
		val = ofKey
	}
	job("Value", true, nil, func(j *Job, s *State, m *ordModel, it VPtr, ret []Value, pos token.Pos) {
		j.mustEq(s, ret[0], val(m.equal), pos, "not what the entry holds")
		stays(j, s, m, it, pos)
	})
	if kv {
		job("Key", true, nil, func(j *Job, s *State, m *ordModel, it VPtr, ret []Value, pos token.Pos) {
			j.mustEq(s, ret[0], ofKey(m.equal), pos, "not the key of the entry")
			stays(j, s, m, it, pos)
		})
		job("SetValue", true, func(s *State, m *ordModel) []Value { return []Value{T("new")} }, func(j *Job, s *State, m *ordModel, it VPtr, ret []Value, pos token.Pos) {
			j.mustEq(s, s.valAt(m.equal), T("new"), pos, "the value is not set")
			s.setEntry(m.equal, s.keyAt(m.equal), ofVal(m.equal))
			stays(j, s, m, it, pos)
		})
	}
}

func setAlgebra(p *Prog, r *Result, meth string, a, b int64, alias bool) {
	const rel, typ = "ds/set", "Set"
	n := p.Named(rel, typ)
	j := r.job(p, "algebra", p.Method(rel, typ, meth), rel+" "+typ+"."+meth)
	if j == nil || n == nil {
		return
	}
	where := map[[2]int64]string{{0, 0}: "in neither", {0, 1}: "in the other only", {1, 0}: "in the receiver only", {1, 1}: "in both"}[[2]int64{a, b}]
	if alias {
		where += ", one set twice"
	}
	j.name += " (element " + where + ")"
	r.Count("clauses", 1)
	st := j.ip.NewState()
	st.keep["counted"] = bTrue
	mk := func(k int64, tag string) *ordModel {
		m := &ordModel{n: K(k)}
		var l []Value
		if k > 0 {
			m.equal = st.newEntry(mZero)
			l = append(l, m.equal)
		}
		m.id = st.newOrdSeq(l...)
		m.all = st.count(st.list(m.id, seqCell))
		m.obj = st.newOrdered(n, m.id)
		st.keep["con"+tag] = VPtr{m.obj, ""}
		return m
	}
	st.keep["coarse"] = bTrue
	x := mk(a, "1")
	y := x
	if !alias {
		y = mk(b, "2")
	}
	old := objCount
	j.useSeqs(x.id)
	j.run(st, []Value{VPtr{x.obj, ""}, VPtr{y.obj, ""}}, func(s *State, ret []Value, pos token.Pos) {
		q, ok := ret[0].(VPtr)
		if !ok || q.Obj <= old || s.heap[q.Obj] == nil {
			j.fail(pos, "the result is not a new set %s", j.path(s))
			return
		}
		t, ok := s.cell(q.Obj, fieldOf(n, isTreeType)).(VPtr)
		if !ok || t.Obj <= old {
			j.fail(pos, "the result shares its tree %s", j.path(s))
			return
		}
		id := s.seqOf(t)
		var eq []Value
		for _, e := range s.list(id, seqCell) {
			if s.maskOf(e) == mZero {
				eq = append(eq, e)
			}
		}
		want := map[string]int64{"Union": a | b, "Intersect": a & b, "Diff": a &^ b}[meth]
		j.mustEq(s, I(s.count(eq)), I(K(want)), pos, "the result holds an element the wrong number of times")
		for _, f := range []string{fieldOf(n, isFunc)} {
			if f != "" {
				j.mustEq(s, s.cell(q.Obj, f), VUnk{"cmp"}, pos, "the result has another comparator")
			}
		}
		cmp := false
		for _, c := range sortedKeys(s.heap[id].Cells) {
			cmp = cmp || s.heap[id].Cells[c] == Value(VUnk{"cmp"})
		}
		if !cmp {
			j.fail(pos, "the tree of the result is not ordered by the comparator %s", j.path(s))
		}
		for _, m := range []*ordModel{x, y} {
			if s.cell(m.id, "touched") != nil || s.cell(m.obj, fieldOf(n, isTreeType)) != Value(VPtr{m.id, ""}) {
				j.fail(pos, "an operand is changed %s", j.path(s))
			}
		}
	})
}

package main

// C16, C17: sorting algorithms. Elements are abstracted to their side of an arbitrary
// threshold (order), to "marked or not" (permutation), to their place relative to two
// equivalent elements (stability); the content of the range is a sequence of segments
// of such classes. Recursive functions are analysed once from an arbitrary range and
// replaced by that result where they are called.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// recursive tells whether f can reach itself by static calls inside the module.
func (p *Prog) recursive(f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(g *ssa.Function) bool
	visit = func(g *ssa.Function) bool {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				h := ci.Common().StaticCallee()
				if h == nil {
					continue
				}
				h = origin(h)
				if h == f {
					return true
				}
				if !seen[h] && p.inModule(h) {
					seen[h] = true
					if visit(h) {
						return true
					}
				}
			}
		}
		return false
	}
	return visit(f)
}

type sortContract struct {
	fn     *ssa.Function
	ia, ib int
	d      int64 // the range is [arg ia, arg ib + d)
	done   bool
}

type sortRun struct {
	p         *Prog
	r         *Result
	rule      string
	mode      string // shape, order, mark, stable, nth
	classes   int64
	contracts map[*ssa.Function]*sortContract
	todo      []*sortContract
	j         *Job
	inner     bool
	eager     bool // classes are decided when elements are read
	fn        *ssa.Function
}

var anyEl = T("any")

func classTerm(k int64) Value { return T(fmt.Sprintf("c%d", k)) }

func classOfTerm(v Value) (int64, bool) {
	t, ok := v.(VTerm)
	if !ok {
		return 0, false
	}
	switch t.F {
	case "c0":
		return 0, true
	case "c1":
		return 1, true
	case "e":
		if x, ok := t.A[0].(VInt); ok {
			return x.L.c, x.L.isConst()
		}
		return classOfTerm(t.A[0])
	}
	return 0, false
}

// checkSort verifies one exported algorithm in one mode.
func checkSort(p *Prog, r *Result, pkg, name, rule, mode string) {
	m := &sortRun{p: p, r: r, rule: rule, mode: mode, classes: 2, contracts: map[*ssa.Function]*sortContract{}}
	m.eager = name != "Stable"
	fn := p.Func(pkg, name)
	if fn == nil {
		r.job(p, rule, nil, pkg+"."+name)
		return
	}
	r.Count("obligations", 1)
	r.Sample(fmt.Sprintf("%s: %s", p.fname(fn), mode))
	jobTime = 400 * time.Second
	defer func() { jobTime = 60 * time.Second }()
	m.run(fn, nil)
	for len(m.todo) > 0 {
		c := m.todo[0]
		m.todo = m.todo[1:]
		m.r.Count("recursive functions", 1)
		m.run(c.fn, c)
	}
}

func isIterType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && strings.HasSuffix(n.Obj().Name(), "Iterator") && types.IsInterface(n)
}

func (m *sortRun) run(fn *ssa.Function, con *sortContract) {
	m.fn = fn
	m.inner = con != nil
	mk := func(st *State) []Value {
		n := st.fresh("len", K(0))
		f := st.freshIn("first", K(0), n)
		l := st.freshIn("last", f, n)
		seq := st.newSeq(n)
		st.keep["seq"] = VPtr{seq, ""}
		st.keep["f"], st.keep["l"] = I(f), I(l)
		var args []Value
		k := 0
		for i := range fn.Params {
			t := fn.Params[i].Type()
			switch {
			case isIterType(t):
				k++
				if con == nil && k == 1 || con != nil && i == con.ia {
					args = append(args, st.newIter(seq, f))
				} else if con == nil && k == 2 {
					args = append(args, st.newIter(seq, l))
				} else if con != nil && i == con.ib {
					args = append(args, st.newIter(seq, l.addk(-con.d)))
				} else {
					giveUp("an iterator parameter is not accounted for")
				}
			case isInteger(t):
				y := S(newSym("n"))
				if m.mode == "nth" {
					st.addFact(y)
					st.addFact(l.sub(f).sub(y).addk(-1))
				}
				st.keep["n"] = I(y)
				args = append(args, I(y))
			default:
				switch t.Underlying().(type) {
				case *types.Signature:
					args = append(args, VUnk{"cmp"})
				case *types.Slice:
					v, sn := newSliceModel(st, "temp", "junk")
					st.heap[v.Arr].Cols[""] = []Seg{{K(0), st.heap[v.Arr].Len, T("junk")}}
					st.addFact(sn.sub(l.sub(f)))
					args = append(args, v)
				default:
					giveUp("parameter %s", fn.Params[i].Name())
				}
			}
		}
		return args
	}
	starts, argss := m.contents(mk)
	for i, st := range starts {
		m.j = m.r.job(m.p, m.rule, fn, m.p.fname(fn))
		j := m.j
		j.ip.K = 1
		j.ip.JoinAll = m.eager && m.mode != "shape"
		j.ip.NoSums = m.mode != "shape"
		j.noTerm = m.mode != "shape"
		j.ip.Invoke = m.invoke
		j.ip.Unknown = m.cmp
		j.ip.Static = m.static
		j.ip.AtHead = m.atHead
		j.ip.Part = m.partition
		if m.mode != "shape" {
			j.ip.Cands = m.cands
		}
		j.run(st, argss[i], func(s *State, ret []Value, pos token.Pos) { m.check(s, pos) })
		if j.bad {
			return
		}
	}
}

// contents builds the initial states of the mode.
func (m *sortRun) contents(mk func(st *State) []Value) (sts []*State, args [][]Value) {
	add := func(build func(st *State, f, l Lin) []Seg) {
		st := newInterp(m.p).NewState()
		var as []Value
		ok := true
		func() {
			defer func() {
				if e := recover(); e != nil {
					if u, is := e.(undecidedErr); is {
						m.r.Fail(m.rule, m.p.fname(m.fn), m.p.Pos(m.fn.Pos()), "undecided: %s", u.msg)
						ok = false
						return
					}
					panic(e)
				}
			}()
			as = mk(st)
		}()
		if !ok {
			return
		}
		f, l := lin(st.keep["f"]), lin(st.keep["l"])
		seq := st.keep["seq"].(VPtr).Obj
		segs := build(st, f, l)
		segs = append([]Seg{{K(0), f, T("out")}}, segs...)
		segs = append(segs, Seg{l, st.heap[seq].Len, T("out")})
		st.ip = newInterp(m.p)
		st.heap[seq].Cols[""] = st.normSegs(segs)
		sts = append(sts, st)
		args = append(args, as)
	}
	switch m.mode {
	case "shape":
		add(func(st *State, f, l Lin) []Seg { return []Seg{{f, l, T("el")}} })
	case "order", "stable":
		add(func(st *State, f, l Lin) []Seg { return []Seg{{f, l, anyEl}} })
	case "nth":
		add(func(st *State, f, l Lin) []Seg {
			st.keep["Z"] = I(st.freshIn("Z", K(0), l.sub(f)))
			return []Seg{{f, l, anyEl}}
		})
	case "mark":
		add(func(st *State, f, l Lin) []Seg {
			i := st.freshIn("i", f, l.addk(-1))
			return []Seg{{f, i, classTerm(0)}, {i, i.addk(1), classTerm(1)}, {i.addk(1), l, classTerm(0)}}
		})
	}
	return
}

// partition keeps apart states with different class layouts and iterators in different
// segments of them.
func (m *sortRun) partition(s *State) string {
	if m.mode == "shape" {
		return ""
	}
	var ids []int
	for id, o := range s.heap {
		if o.IsArr {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	var b strings.Builder
	for k, id := range ids {
		fmt.Fprintf(&b, "%d:", k)
		for _, g := range s.heap[id].Cols[""] {
			if t, ok := g.V.(VTerm); ok {
				b.WriteString(t.F + ",")
			} else {
				b.WriteString("?,")
			}
		}
	}
	for _, pl := range m.places(s) {
		at := 0
		for k, lo := range pl {
			at = 2 * (k + 1)
			if !s.need(condGE(lo)) {
				at = 2*k + 1
				break
			}
			if !s.need(condGE(lo.addk(-1))) {
				break
			}
			at++
		}
		fmt.Fprintf(&b, " %d", at)
	}
	return b.String()
}

// places lists, for every position that is followed, its distances from the beginnings
// of the segments it may lie in.
func (m *sortRun) places(s *State) (out [][]Lin) {
	seq, f, _ := m.rng(s)
	place := func(p Lin, segs []Seg) {
		var r []Lin
		for k, g := range segs {
			if k > 0 && !g.Lo.eq(f) {
				r = append(r, p.sub(g.Lo))
			}
		}
		out = append(out, r)
	}
	var its []int
	for id, o := range s.heap {
		if _, ok := o.Cells[".pos"]; ok {
			its = append(its, id)
		}
	}
	sort.Ints(its)
	for _, id := range its {
		place(lin(s.heap[id].Cells[".pos"]), s.col(seq, ""))
	}
	top := s.top()
	var off Lin
	buf := -1
	for _, v := range top.regs {
		if x, ok := v.(VSlice); ok {
			off, buf = x.Off, x.Arr
		}
	}
	if buf >= 0 {
		for _, v := range top.regs {
			if x, ok := v.(VInt); ok {
				place(off.add(x.L), s.col(buf, ""))
			}
		}
	}
	return
}

func (m *sortRun) cands(s *State) (out []Lin) {
	for _, p := range m.places(s) {
		out = append(out, p...)
	}
	return
}

func (m *sortRun) rng(s *State) (seq int, f, l Lin) {
	return s.keep["seq"].(VPtr).Obj, lin(s.keep["f"]), lin(s.keep["l"])
}

func (m *sortRun) invoke(c *callCtx) ([]Out, bool) {
	r, ok := c.recv.(VIface)
	if !ok || r.Dyn != iterDyn || (c.meth != "Value" && c.meth != "SetValue") {
		return iterInvoke(c)
	}
	s := c.st
	seq, f, l := m.rng(s)
	i := s.iterPos(c.recv)
	if !s.need(condGE(i.sub(f))) || !s.need(condGE(l.sub(i).addk(-1))) {
		panic(goPanicErr{"access to an element outside the range"})
	}
	if c.meth == "SetValue" {
		s.arrSet(seq, "", i, bare(c.args[0]))
		s.keep["moved"] = Kv(1)
		return []Out{{s, nil}}, true
	}
	v := s.arrGet(seq, "", i)
	if valEq(v, anyEl) {
		if m.eager {
			var outs []Out
			for k := int64(0); k < m.classes; k++ {
				st := s.clone()
				st.arrSet(seq, "", i, classTerm(k))
				outs = append(outs, Out{st, []Value{classTerm(k)}})
			}
			return outs, true
		}
		y := s.freshIn("c", K(0), K(m.classes-1))
		s.arrSet(seq, "", i, I(y))
		v = I(y)
	}
	if m.mode == "stable" && s.keep["moved"] == nil {
		v = T("e", v, I(i)) // remembers where it was
	}
	return []Out{{s, []Value{v}}}, true
}

// bare forgets where an element came from.
func bare(v Value) Value {
	if t, ok := v.(VTerm); ok && t.F == "e" {
		return t.A[0]
	}
	return v
}

// before tells whether the element found at p was before the one found at q initially:
// elements have only been exchanged within the ranges handed to recursive calls.
func (m *sortRun) before(s *State, p, q Lin) bool {
	if !s.need(condGE(q.sub(p).addk(-1))) {
		return false
	}
	for k := 0; ; k++ {
		a, ok := s.keep[fmt.Sprintf("ra%d", k)]
		if !ok {
			return true
		}
		b := s.keep[fmt.Sprintf("rb%d", k)]
		if s.need(condGE(p.sub(lin(a)))) && s.need(condGE(lin(b).sub(q).addk(-1))) {
			return false
		}
	}
}

// class forces the class of an element.
func (m *sortRun) class(s *State, v Value) int64 {
	if k, ok := classOfTerm(v); ok {
		return k
	}
	x, ok := v.(VInt)
	if !ok {
		giveUp("comparison of %s", showVal(v))
	}
	for k := int64(0); k < m.classes-1; k++ {
		if s.need(condEQ(x.L.addk(-k))) {
			return k
		}
	}
	return m.classes - 1
}

func (m *sortRun) cmp(c *callCtx) ([]Out, bool) {
	if len(c.args) != 2 {
		return nil, false
	}
	s := c.st
	var outs []Out
	res := func(st *State, sg int) {
		switch sg {
		case 0:
			outs = append(outs, Out{st, []Value{Kv(0)}})
		case 1:
			outs = append(outs, Out{st, []Value{I(st.fresh("r", K(1)))}})
		case -1:
			outs = append(outs, Out{st, []Value{I(st.fresh("r", K(1)).neg())}})
		}
	}
	anySign := func() {
		for _, sg := range []int{-1, 0, 1} {
			res(s.clone(), sg)
		}
	}
	switch m.mode {
	case "shape":
		anySign()
	case "mark":
		for _, a := range c.args {
			if _, ok := classOfTerm(a); !ok {
				giveUp("comparison of %s", showVal(a))
			}
		}
		anySign()
	default:
		k := func(v Value) Lin {
			v = bare(v)
			if k, ok := classOfTerm(v); ok {
				return K(k)
			}
			x, ok := v.(VInt)
			if !ok {
				giveUp("comparison of %s", showVal(v))
			}
			return x.L
		}
		a, b := k(c.args[0]), k(c.args[1])
		for _, st := range assumeAll([]*State{s.clone()}, condGE(b.sub(a))) {
			res(st, -1)
		}
		same := condEQ(b.sub(a))
		if m.mode == "stable" {
			// the classes separate equal elements by their initial order
			same = boolV(true)
			x, isx := c.args[0].(VTerm)
			y, isy := c.args[1].(VTerm)
			if isx && isy && x.F == "e" && y.F == "e" {
				if m.before(s, lin(x.A[1]), lin(y.A[1])) {
					same = condGE(b.sub(a))
				} else if m.before(s, lin(y.A[1]), lin(x.A[1])) {
					same = condGE(a.sub(b))
				}
			}
		}
		for _, st := range assumeAll([]*State{s.clone()}, same) {
			res(st, 0)
		}
		for _, st := range assumeAll([]*State{s.clone()}, condGE(a.sub(b))) {
			res(st, 1)
		}
	}
	return outs, true
}

// atHead generalises the classes of single elements before states are joined.
func (m *sortRun) atHead(s *State) {
	if m.mode == "stable" {
		for id, o := range s.heap {
			for p, c := range o.Cols {
				n := append([]Seg(nil), c...)
				ch := false
				for k, g := range n {
					if b := bare(g.V); !valEq(b, g.V) {
						n[k].V, ch = b, true
					}
				}
				if ch {
					s.mut(id).Cols[p] = s.normSegs(n)
				}
			}
		}
		for _, fr := range s.frames {
			for k, v := range fr.regs {
				fr.regs[k] = bare(v)
			}
		}
	}
	cls := map[Sym]bool{}
	each := func(f func(id int, k int, g Seg, x Lin)) {
		var ids []int
		for id, o := range s.heap {
			if o.IsArr {
				ids = append(ids, id)
			}
		}
		sort.Ints(ids)
		for _, id := range ids {
			for k, g := range s.heap[id].Cols[""] {
				if x, ok := g.V.(VInt); ok {
					f(id, k, g, x.L)
				}
			}
		}
	}
	each(func(id, k int, g Seg, x Lin) {
		for _, t := range x.t {
			cls[t.s] = true
		}
	})
	type rep struct {
		id, k int
		v     Value
	}
	var reps []rep
	each(func(id, k int, g Seg, x Lin) {
		for c := int64(0); c < m.classes; c++ {
			if s.entailsEq(x.addk(-c)) {
				reps = append(reps, rep{id, k, classTerm(c)})
				return
			}
		}
		// what is known about it relative to other elements would be lost
		for _, f := range s.facts {
			n := 0
			has := false
			for _, t := range f.t {
				if cls[t.s] {
					n++
				}
				if x.coef(t.s) != 0 {
					has = true
				}
			}
			if has && n > 1 {
				s.need(condEQ(x))
			}
		}
		reps = append(reps, rep{id, k, anyEl})
	})
	for _, r := range reps {
		o := s.mut(r.id)
		c := append([]Seg(nil), o.Cols[""]...)
		c[r.k].V = r.v
		o.Cols[""] = c
	}
	if m.mode == "order" || m.mode == "nth" || m.mode == "stable" {
		seq, _, _ := m.rng(s)
		c := m.coarsen(s, s.col(seq, ""))
		if c != nil && m.eager {
			c = m.coarsen(s, m.unitsAtIterators(s))
		}
		if c != nil {
			s.mut(seq).Cols[""] = s.normSegs(c)
		}
	}
}

// unitsAtIterators cuts the segments so that every element an iterator points to is alone.
func (m *sortRun) unitsAtIterators(s *State) []Seg {
	seq, f, l := m.rng(s)
	c := append([]Seg(nil), s.col(seq, "")...)
	var ids []int
	for id := range s.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		p, ok := s.heap[id].Cells[".pos"].(VInt)
		if !ok || !s.need(condGE(p.L.sub(f))) || !s.need(condGE(l.sub(p.L).addk(-1))) {
			continue
		}
		c = s.cut(s.cut(c, p.L), p.L.addk(1))
	}
	return c
}

// coarsen forgets the classes of elements in layouts that would otherwise grow without
// bound: runs between unknown elements, and runs out of order when there are several.
func (m *sortRun) coarsen(s *State, in []Seg) []Seg {
	c := append([]Seg(nil), in...)
	// an element an iterator points to keeps its class
	held := map[int]bool{}
	for _, o := range s.heap {
		if p, ok := o.Cells[".pos"].(VInt); ok {
			for k, g := range c {
				if g.Lo.eq(p.L) && g.Hi.eq(p.L.addk(1)) {
					held[k] = true
				}
			}
		}
	}
	generic := func(k int) bool {
		v := c[k].V
		return !held[k] && (valEq(v, classTerm(0)) || valEq(v, classTerm(1)))
	}
	changed := false
	var inv []int
	for k := 1; k < len(c); k++ {
		if generic(k) && generic(k-1) {
			a, _ := classOfTerm(c[k-1].V)
			b, _ := classOfTerm(c[k].V)
			if a > b {
				inv = append(inv, k)
			}
		}
	}
	if len(inv) > 1 || m.eager && len(inv) > 0 {
		for _, k := range inv {
			c[k-1].V, c[k].V = anyEl, anyEl
			changed = true
		}
	}
	last := -1
	for k := range c {
		switch {
		case valEq(c[k].V, anyEl):
			if last >= 0 {
				for i := last + 1; i < k; i++ {
					c[i].V = anyEl
					changed = true
				}
			}
			last = k
		case !generic(k):
			last = -1
		}
	}
	if !changed {
		return nil
	}
	return c
}

// static replaces calls of recursive functions by their contract.
func (m *sortRun) static(c *callCtx) ([]Out, bool) {
	if c.fn == nil || len(c.fn.Blocks) == 0 || !m.p.inModule(c.fn) || !m.p.recursive(c.fn) {
		return nil, false
	}
	s := c.st
	seq, f, l := m.rng(s)
	con := m.contracts[c.fn]
	if con == nil {
		con = &sortContract{fn: c.fn, ia: -1, ib: -1}
		for i, a := range c.args {
			if v, ok := a.(VIface); ok && v.Dyn == iterDyn {
				if con.ia < 0 {
					con.ia = i
				} else if con.ib < 0 {
					con.ib = i
				} else {
					giveUp("recursive function %s with more than two iterators", c.fn.Name())
				}
			}
		}
		if con.ib < 0 {
			giveUp("recursive function %s without a range", c.fn.Name())
		}
		b := s.iterPos(c.args[con.ib])
		switch {
		case s.entailsEq(l.sub(b)):
		case s.entailsEq(l.sub(b).addk(-1)):
			con.d = 1
		default:
			giveUp("the range handed to %s is not the whole range", c.fn.Name())
		}
		m.contracts[c.fn] = con
		m.todo = append(m.todo, con)
	}
	a, b := s.iterPos(c.args[con.ia]), s.iterPos(c.args[con.ib]).addk(con.d)
	stop := func(f string, x ...any) ([]Out, bool) {
		if debugOn {
			dbg("recursive call [%s,%s)\n%s", a, b, s.dump())
		}
		m.j.fail(c.site.Pos(), f, x...)
		return []Out{}, true
	}
	if !s.need(condGE(b.sub(a))) {
		return stop("%s is called with an end before its beginning %s", c.fn.Name(), m.j.path(s))
	}
	if !s.need(condGE(a.sub(f))) || !s.need(condGE(l.sub(b))) {
		return stop("%s is called on elements outside the range %s", c.fn.Name(), m.j.path(s))
	}
	if m.inner && !s.need(condGE(l.sub(f).sub(b.sub(a)).addk(-1))) {
		return stop("the recursion does not get smaller %s", m.j.path(s))
	}
	var n Lin
	for i, v := range c.args {
		switch x := v.(type) {
		case VSlice:
			if !s.need(condGE(x.Len.sub(b.sub(a)))) {
				return stop("the buffer handed to %s is smaller than the range %s", c.fn.Name(), m.j.path(s))
			}
			if m.mode == "shape" {
				s.arrFill(x.Arr, "", x.Off, x.Off.add(x.Len), T("el"))
			} else {
				s.arrFill(x.Arr, "", x.Off, x.Off.add(x.Len), T("junk"))
			}
		case VInt:
			n = x.L
			_ = i
		}
	}
	return m.effect(s, seq, a, b, n, stop), true
}

// effect is what a call that satisfies its contract does to [a,b).
func (m *sortRun) effect(s *State, seq int, a, b, n Lin, stop func(string, ...any) ([]Out, bool)) (outs []Out) {
	if !s.need(condGE(b.sub(a).addk(-1))) {
		return []Out{{s, nil}}
	}
	if m.mode == "shape" {
		return []Out{{s, nil}}
	}
	if m.mode == "stable" {
		if s.keep["moved"] != nil {
			giveUp("a recursive call after elements have been moved")
		}
		k := 0
		for ; s.keep[fmt.Sprintf("ra%d", k)] != nil; k++ {
			if !s.need(condGE(a.sub(lin(s.keep[fmt.Sprintf("rb%d", k)])))) && !s.need(condGE(lin(s.keep[fmt.Sprintf("ra%d", k)]).sub(b))) {
				giveUp("overlapping recursive calls")
			}
		}
		s.keep[fmt.Sprintf("ra%d", k)], s.keep[fmt.Sprintf("rb%d", k)] = I(a), I(b)
	}
	var in []Value
	same := true
	for _, g := range s.segSlice(s.col(seq, ""), a, b, K(0)) {
		if !s.need(condGE(g.Hi.sub(g.Lo).addk(-1))) {
			continue
		}
		v := g.V
		if _, ok := v.(VInt); ok {
			v = classTerm(m.class(s, v))
		}
		in = append(in, v)
		if !valEq(v, in[0]) {
			same = false
		}
	}
	if same && len(in) > 0 && !valEq(in[0], anyEl) {
		return []Out{{s, nil}}
	}
	has := func(t string) int {
		r := -1
		for i, v := range in {
			if valEq(v, T(t)) {
				if r >= 0 {
					giveUp("an element is duplicated")
				}
				r = i
			}
		}
		return r
	}
	// the new content is written in every case of its layout
	var puts []func(s *State)
	put := func(lo, hi Lin, v Value) {
		puts = append(puts, func(s *State) { s.arrFill(seq, "", lo, hi, v) })
	}
	defer func() {
		if e := splitRun(s, func(st *State) {
			for _, p := range puts {
				p(st)
			}
			outs = append(outs, Out{st, nil})
		}); e != "" {
			giveUp("%s", e)
		}
	}()
	switch m.mode {
	case "order", "stable":
		z := s.freshIn("z", a, b)
		put(a, b, classTerm(1))
		put(a, z, classTerm(0))
	case "mark":
		if has("c1") < 0 {
			return nil
		}
		i := s.freshIn("i", a, b.addk(-1))
		put(a, b, classTerm(0))
		put(i, i.addk(1), classTerm(1))
	case "nth":
		_, f, l := m.rng(s)
		z := lin(s.keep["Z"])
		known := true
		for _, rg := range [][2]Lin{{f, a}, {b, l}} {
			for _, g := range s.segSlice(s.col(seq, ""), rg[0], rg[1], K(0)) {
				if !s.need(condGE(g.Hi.sub(g.Lo).addk(-1))) {
					continue
				}
				if valEq(g.V, anyEl) {
					known = false
					continue
				}
				if m.class(s, g.V) == 0 {
					z = z.sub(g.Hi.sub(g.Lo))
				}
			}
		}
		if !known {

			z = s.freshIn("Z", K(0), b.sub(a))
		}
		put(a, b, anyEl)
		puts = append(puts, func(s *State) {
			if s.need(condGE(n)) && s.need(condGE(b.sub(a).sub(n).addk(-1))) {
				k := int64(1)
				if s.need(condGE(z.sub(n).addk(-1))) {
					k = 0
				}
				s.arrFill(seq, "", a.add(n), a.add(n).addk(1), classTerm(k))
			}
		})
	}
	return
}

// check compares the final content with what the mode demands.
func (m *sortRun) check(s *State, pos token.Pos) {
	j := m.j
	seq, f, l := m.rng(s)
	var segs []Seg
	for _, g := range s.segSlice(s.col(seq, ""), f, l, K(0)) {
		if s.need(condGE(g.Hi.sub(g.Lo).addk(-1))) {
			if x, ok := g.V.(VInt); ok {
				g.V = classTerm(m.class(s, x))
			}
			segs = append(segs, g)
		}
	}
	fail := func(f string, a ...any) {
		if debugOn {
			dbg("final content of %s (%s)\n%s", j.name, m.mode, s.dump())
		}
		j.fail(pos, f+" "+j.path(s), a...)
	}
	switch m.mode {
	case "shape":
	case "order", "stable":
		cur := int64(0)
		for _, g := range segs {
			if valEq(g.V, anyEl) {
				if cur > 0 || !s.need(condGE(g.Lo.sub(g.Hi).addk(1))) {
					fail("the range is not sorted as required at the end: the order of elements %s..%s is not established", g.Lo, g.Hi.addk(-1))
					return
				}
				cur = m.classes - 1
				continue
			}
			k, ok := classOfTerm(g.V)
			if !ok {
				fail("the range holds %s at the end, which it did not before", showVal(g.V))
				return
			}
			if k < cur {
				fail("a larger element comes before a smaller one at %s", g.Lo)
				return
			}
			cur = k
		}
	case "mark":
		n := 0
		for _, g := range segs {
			k, ok := classOfTerm(g.V)
			if !ok {
				fail("the range holds %s at the end, which it did not before", showVal(g.V))
				return
			}
			if k == 1 {
				n++
				if !s.need(condEQ(g.Hi.sub(g.Lo).addk(-1))) {
					n++
				}
			}
		}
		if n > 1 {
			fail("an element is duplicated")
		} else if n == 0 {
			fail("an element is lost")
		}
	case "nth":
		z, n := lin(s.keep["Z"]), lin(s.keep["n"])
		if v := s.arrGet(seq, "", f.add(n)); valEq(v, anyEl) {
			for k := int64(0); k < m.classes; k++ {
				st := s.clone()
				st.arrSet(seq, "", f.add(n), classTerm(k))
				if e := splitRun(st, func(st *State) { m.check(st, pos) }); e != "" {
					giveUp("%s", e)
				}
			}
			return
		}
		lo, hi := K(0), K(0)
		for _, g := range segs {
			d := g.Hi.sub(g.Lo)
			if valEq(g.V, anyEl) {
				hi = hi.add(d)
			} else if k, ok := classOfTerm(g.V); !ok {
				fail("the range holds %s at the end, which it did not before", showVal(g.V))
				return
			} else if k == 0 {
				lo, hi = lo.add(d), hi.add(d)
			}
		}
		if !s.addFact(z.sub(lo)) || !s.addFact(hi.sub(z)) {
			return // contradicts the number of smaller elements
		}
		v := s.arrGet(seq, "", f.add(n))
		if (m.class(s, v) == 0) != s.need(condGE(z.sub(n).addk(-1))) {
			fail("the element at the requested position is not the one a sorted range would have there")
		}
	}
}

func init() {
	checks["C16"] = func(p *Prog, r *Result) {
		r.Rule("abstract interpretation of Sort and Stable over a range of symbolic length whose elements are abstracted by (a) their side of an arbitrary threshold, (b) one arbitrary marked element, (c) for Stable their side of an arbitrary threshold among elements ordered by the comparator and, when it finds them equal, by their initial position; at every exit the classes must be in order and the marked element must occur exactly once; recursion by induction over the length of the range; accesses outside the range are reported; loops need a ranking")
		r.Assumption("first and last delimit a valid range of one container; the comparator is a deterministic total preorder; position arithmetic does not overflow")
		sortParts(p, r, "C16", [][3]string{
			{"Stable", "sorted and stable", "stable"},
			{"Stable", "permutation", "mark"},
			{"Sort", "sorted", "order"},
			{"Sort", "permutation", "mark"},
			{"Sort", "confined", "shape"},
			{"Stable", "confined", "shape"},
		})
		r.Need("obligations", 6)
	}
	checks["C17"] = func(p *Prog, r *Result) {
		r.Rule("abstract interpretation of NthElement over a range of symbolic length whose elements are abstracted by their side of an arbitrary threshold; the number of smaller elements decides what the element at the requested position must be; a marked element must survive exactly once; recursion by induction over the length; accesses outside the range are reported; loops need a ranking")
		r.Assumption("first and last delimit a valid range of one container; the comparator is a deterministic total preorder; position arithmetic does not overflow")
		sortParts(p, r, "C17", [][3]string{
			{"NthElement", "nth", "nth"},
			{"NthElement", "permutation", "mark"},
			{"NthElement", "confined", "shape"},
		})
		r.Need("obligations", 3)
	}
}

func sortParts(p *Prog, r *Result, id string, jobs [][3]string) {
	var names []string
	for _, j := range jobs {
		names = append(names, j[0]+":"+j[2])
	}
	parts(p, r, id, names, func(name string) {
		for _, j := range jobs {
			if j[0]+":"+j[2] == name {
				checkSort(p, r, "algorithm/sort", j[0], j[1], j[2])
			}
		}
	})
}

package main

// Loop heads: states are joined per call string and head block until a fixpoint.

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type entry struct {
	st    *State
	joins int
}

type flow struct {
	head    map[*ssa.BasicBlock]bool
	live    map[*ssa.BasicBlock]map[ssa.Value]bool // live after the phis of the block
	liveOut map[*ssa.BasicBlock]map[ssa.Value]bool
}

var flowCache = map[*ssa.Function]*flow{}

func flowOf(f *ssa.Function) *flow {
	if r, ok := flowCache[f]; ok {
		return r
	}
	r := &flow{map[*ssa.BasicBlock]bool{}, map[*ssa.BasicBlock]map[ssa.Value]bool{}, map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	for _, b := range f.Blocks {
		for _, p := range b.Preds {
			if b.Dominates(p) {
				r.head[b] = true
			}
		}
		r.live[b] = map[ssa.Value]bool{}
		r.liveOut[b] = map[ssa.Value]bool{}
	}
	track := func(v ssa.Value) bool {
		_, ok := numbering(f).idx[v]
		return ok
	}
	for ch := true; ch; {
		ch = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			out := r.liveOut[b]
			for _, sc := range b.Succs {
				pi := -1
				for k, p := range sc.Preds {
					if p == b {
						pi = k
					}
				}
				phis := map[ssa.Value]bool{}
				for _, in := range sc.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					phis[ph] = true
					if track(ph.Edges[pi]) && !out[ph.Edges[pi]] {
						out[ph.Edges[pi]] = true
						ch = true
					}
				}
				for v := range r.live[sc] {
					if !phis[v] && !out[v] {
						out[v] = true
						ch = true
					}
				}
			}
			l := liveBefore(b, 0, out, track)
			for v := range l {
				if !r.live[b][v] {
					r.live[b][v] = true
					ch = true
				}
			}
		}
	}
	flowCache[f] = r
	return r
}

// liveBefore computes the values live before instruction pc of b (phis skipped).
func liveBefore(b *ssa.BasicBlock, pc int, out map[ssa.Value]bool, track func(ssa.Value) bool) map[ssa.Value]bool {
	l := map[ssa.Value]bool{}
	for v := range out {
		l[v] = true
	}
	for i := len(b.Instrs) - 1; i >= pc; i-- {
		in := b.Instrs[i]
		if _, ok := in.(*ssa.Phi); ok {
			break
		}
		if v, ok := in.(ssa.Value); ok {
			delete(l, v)
		}
		var ops []*ssa.Value
		for _, o := range in.Operands(ops) {
			if *o != nil && track(*o) {
				l[*o] = true
			}
		}
	}
	return l
}

func isHead(f *ssa.Function, b *ssa.BasicBlock) bool { return flowOf(f).head[b] }
func liveAt(f *ssa.Function, b *ssa.BasicBlock) map[ssa.Value]bool {
	return flowOf(f).live[b]
}

// liveRegs lists the register numbers of a frame that matter from here on.
func (fr *Frame) liveRegs(top bool) []int {
	r := numbering(fr.fn)
	fl := flowOf(fr.fn)
	track := func(v ssa.Value) bool { _, ok := r.idx[v]; return ok }
	pc := fr.pc
	if !top {
		pc++ // after the call
	}
	l := liveBefore(fr.block, pc, fl.liveOut[fr.block], track)
	if !top {
		if v, ok := fr.block.Instrs[fr.pc].(ssa.Value); ok {
			delete(l, v)
		}
	}
	var out []int
	for v := range l {
		out = append(out, r.idx[v])
	}
	sort.Ints(out)
	return out
}

var idleCache = map[*ssa.Function]map[ssa.Value]bool{}

// idle lists the values of a function that are only handed around: they flow into nothing
// but phis of the same kind and parameters nobody reads.
func idle(f *ssa.Function) map[ssa.Value]bool {
	if m, ok := idleCache[f]; ok {
		return m
	}
	m := map[ssa.Value]bool{}
	for v := range numbering(f).idx {
		if v.Referrers() != nil {
			m[v] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for v := range m {
			for _, in := range *v.Referrers() {
				used := true
				switch x := in.(type) {
				case *ssa.DebugRef:
					used = false
				case *ssa.Phi:
					used = !m[x]
				case *ssa.Call:
					if g := x.Call.StaticCallee(); g != nil && x.Call.Value != v {
						g = origin(g)
						used = false
						for i, a := range x.Call.Args {
							if a == v && (i >= len(g.Params) || len(g.Blocks) == 0 || g.Params[i].Referrers() == nil || len(*g.Params[i].Referrers()) > 0) {
								used = true
							}
						}
					}
				}
				if used {
					delete(m, v)
					ch = true
					break
				}
			}
		}
	}
	idleCache[f] = m
	return m
}

func (ip *Interp) headKey(s *State) string {
	var b strings.Builder
	for _, f := range s.frames {
		fmt.Fprintf(&b, "%p/%d/%d;", f.fn, f.block.Index, f.pc)
	}
	return b.String()
}

// atHead joins s into the table of its loop head; it reports whether exploration continues.
func (ip *Interp) atHead(s *State) bool {
	// dead registers are cleared, conditions held in registers are decided
	for i, fr := range s.frames {
		live := fr.liveRegs(i == len(s.frames)-1)
		regs := make([]Value, len(fr.regs))
		for v := range idle(fr.fn) {
			if k := numbering(fr.fn).idx[v]; fr.regs[k] != nil {
				fr.regs[k] = VTop{}
			}
		}
		for _, k := range live {
			v := fr.regs[k]
			if b, ok := v.(VBool); ok && b.Op != 'T' && b.Op != 'F' {
				v = boolV(s.need(b))
			}
			regs[k] = v
		}
		fr.regs = regs
	}
	s.gc()
	s.tidy()
	if ip.AtHead != nil {
		ip.AtHead(s)
		s.tidy()
	}
	if ip.rank == nil {
		s.dropDead(ip.DropMixed)
	}
	s.trace = nil
	key := ip.headKey(s)
	if ip.rank != nil && ip.rank.arrive(ip, s, key) {
		return false
	}
	if ip.Part != nil {
		key += "#" + ip.Part(s)
	}
	es := ip.heads[key]
	for _, e := range es {
		if ip.subsumed(s, e.st) {
			return false
		}
	}
	var cands []*entry
	for _, e := range es {
		if z, _ := zipStates(e.st, s, false); z.ok {
			cands = append(cands, e)
		} else if debugOn && dbgJoin {
			dbg("no join at %s: %s", s.top().fn.Name(), z.why)
		}
	}
	if len(cands) >= ip.K && len(cands) > 0 {
		// join with the closest partner
		var best *entry
		var bj *State
		bs := 1 << 30
		for _, e := range cands {
			z, _ := zipStates(e.st, s, false)
			sc := len(z.slots)*4 + z.tops*3 - min(e.joins, 3)
			if sc < bs {
				bs, best = sc, e
			}
		}
		bj = ip.join(best.st, s, best.joins)
		best.st = bj
		best.joins++
		ip.joins++
		if best.joins > 40 {
			giveUp("no fixpoint at a loop of %s", ip.p.fname(s.top().fn))
		}
		n := bj.clone()
		n.trace = s.trace
		*s = *n
		// drop the other entries the new one covers
		var ne []*entry
		for _, e := range es {
			if e == best || !ip.subsumed(e.st, best.st) {
				ne = append(ne, e)
			}
		}
		ip.heads[key] = ne
		if ip.OnHead != nil {
			ip.OnHead(s)
		}
		return true
	}
	if len(es) >= ip.MaxHeads {
		giveUp("too many distinct shapes at a loop of %s", ip.p.fname(s.top().fn))
	}
	if debugOn && dbgJoin {
		dbg("NEW %s\n%s", key, s.dump())
	}
	ip.heads[key] = append(es, &entry{st: s.clone()})
	if ip.OnHead != nil {
		ip.OnHead(s)
	}
	return true
}

var dbgJoin = os.Getenv("DBGJOIN") != ""

// gc removes unreachable objects.
func (s *State) gc() {
	seen := map[int]bool{}
	var visit func(v Value)
	var obj func(id int)
	obj = func(id int) {
		if id == 0 || seen[id] || s.heap[id] == nil {
			return
		}
		seen[id] = true
		o := s.heap[id]
		for _, v := range o.Cells {
			visit(v)
		}
		for _, c := range o.Cols {
			for _, g := range c {
				visit(g.V)
			}
		}
	}
	visit = func(v Value) {
		switch x := v.(type) {
		case VPtr:
			obj(x.Obj)
		case VElem:
			obj(x.Arr)
		case VSlice:
			obj(x.Arr)
		case VTerm:
			for _, y := range x.A {
				visit(y)
			}
		case VStruct:
			for _, y := range x.F {
				visit(y)
			}
		case VTuple:
			for _, y := range x.E {
				visit(y)
			}
		case VClo:
			for _, y := range x.Bind {
				visit(y)
			}
		case VIface:
			visit(x.V)
		}
	}
	for _, v := range s.keep {
		visit(v)
	}
	for _, f := range s.frames {
		for _, v := range f.regs {
			visit(v)
		}
		for _, d := range f.defers {
			visit(d.fn)
			for _, v := range d.args {
				visit(v)
			}
		}
	}
	for id := range s.heap {
		if !seen[id] {
			delete(s.heap, id)
		}
	}
}

// dropDead removes facts that have nothing to do with symbols still in use; with mixed also
// those that involve others besides.
func (s *State) dropDead(mixed bool) {
	live := map[Sym]bool{}
	lin := func(l Lin) {
		for _, t := range l.t {
			live[t.s] = true
		}
	}
	var val func(v Value)
	vals := func(vs []Value) {
		for _, v := range vs {
			val(v)
		}
	}
	val = func(v Value) {
		switch x := v.(type) {
		case VInt:
			lin(x.L)
		case VBool:
			lin(x.L)
		case VElem:
			lin(x.Idx)
		case VSlice:
			lin(x.Off)
			lin(x.Len)
			lin(x.Cap)
		case VTerm:
			vals(x.A)
		case VStruct:
			vals(x.F)
		case VTuple:
			vals(x.E)
		case VClo:
			vals(x.Bind)
		case VIface:
			val(x.V)
		}
	}
	for _, v := range s.keep {
		val(v)
	}
	for _, f := range s.frames {
		vals(f.regs)
		vals(f.ret)
		for _, d := range f.defers {
			val(d.fn)
			vals(d.args)
		}
	}
	for _, o := range s.heap {
		for _, v := range o.Cells {
			val(v)
		}
		lin(o.Len)
		for _, c := range o.Cols {
			for _, g := range c {
				lin(g.Lo)
				lin(g.Hi)
				val(g.V)
			}
		}
	}
	for ch := !mixed; ch; {
		ch = false
		for _, f := range s.facts {
			some, all := false, true
			for _, t := range f.t {
				some = some || live[t.s]
				all = all && live[t.s]
			}
			if some && !all {
				ch = true
				lin(f)
			}
		}
	}
	var out []Lin
	for _, f := range s.facts {
		keep := len(f.t) == 0 || live[f.t[0].s]
		for _, t := range f.t {
			keep = keep && live[t.s]
		}
		if keep {
			out = append(out, f)
		}
	}
	s.facts = out
}

// tidy renormalises array columns with the facts now known.
func (s *State) tidy() {
	for id, o := range s.heap {
		if !o.IsArr {
			continue
		}
		var m *Obj
		for p, c := range o.Cols {
			if len(c) < 2 {
				continue
			}
			n := s.normSegs(c)
			if len(n) != len(c) {
				if m == nil {
					m = o.clone()
				}
				m.Cols[p] = n
			}
		}
		if m != nil {
			s.heap[id] = m
		}
	}
}

type slot struct {
	a, b Lin
	w    Sym
	c0   int64
	old  bool // generalised by an earlier join already: widening applies
}

// joinSyms are the symbols introduced by joins.
var joinSyms = map[Sym]bool{}

type zip struct {
	a, b    *State
	m, r    map[int]int
	slots   []slot
	byKey   map[string]int
	ok      bool
	why     string
	queue   [][2]int
	tops    int
	subsume bool
	same    []Lin // linear forms equal on both sides
	heap    map[int]*Obj
}

func (z *zip) fail(f string, a ...any) Value {
	if z.ok {
		z.ok = false
		z.why = fmt.Sprintf(f, a...)
	}
	return VTop{}
}

func (z *zip) lin(x, y Lin) Lin {
	if x.eq(y) {
		z.same = append(z.same, x)
		return x
	}
	k := x.coef(iotaSym)
	if k != y.coef(iotaSym) {
		z.fail("different index templates")
		return x
	}
	off := K(0)
	if k != 0 {
		off = S(iotaSym).mul(k)
		x, y = x.sub(off), y.sub(off)
	}
	c := x.c
	x, y = x.addk(-c), y.addk(-c)
	key := x.key() + "|" + y.key()
	i, ok := z.byKey[key]
	if !ok {
		i = len(z.slots)
		z.byKey[key] = i
		z.slots = append(z.slots, slot{a: x.addk(c), b: y.addk(c), c0: c})
		if !z.subsume {
			z.slots[i].w = newSym("w")
			if len(x.t) == 1 && x.t[0].k == 1 && joinSyms[x.t[0].s] {
				z.slots[i].old = true
			}
			joinSyms[z.slots[i].w] = true
		}
	}
	if z.subsume {
		return x
	}
	return S(z.slots[i].w).addk(c - z.slots[i].c0).add(off)
}

func (z *zip) obj(i, j int) int {
	if i == 0 || j == 0 {
		if i != j {
			z.fail("nil and non-nil backing array")
		}
		return i
	}
	mi, ok1 := z.m[i]
	mj, ok2 := z.r[j]
	if ok1 || ok2 {
		if mi != j || mj != i {
			z.fail("different sharing of objects %d/%d", i, j)
		}
		return i
	}
	z.m[i], z.r[j] = j, i
	z.queue = append(z.queue, [2]int{i, j})
	return i
}

func (z *zip) top() Value { z.tops++; return VTop{} }

func (z *zip) val(a, b Value) Value {
	if !z.ok {
		return a
	}
	if _, ok := a.(VTop); ok {
		return a
	}
	switch x := a.(type) {
	case nil:
		if b == nil {
			return nil
		}
		return z.fail("undefined register")
	case VInt:
		if y, ok := b.(VInt); ok {
			return VInt{z.lin(x.L, y.L)}
		}
	case VBool:
		y, ok := b.(VBool)
		if ok && x.Op == y.Op && x.L.eq(y.L) {
			return x
		}
		return z.fail("different booleans")
	case VNil:
		if _, ok := b.(VNil); ok {
			return x
		}
	case VPtr:
		if y, ok := b.(VPtr); ok && x.Path == y.Path {
			return VPtr{z.obj(x.Obj, y.Obj), x.Path}
		}
	case VElem:
		if y, ok := b.(VElem); ok && x.Path == y.Path {
			return VElem{z.obj(x.Arr, y.Arr), z.lin(x.Idx, y.Idx), x.Path}
		}
	case VTerm:
		if y, ok := b.(VTerm); ok {
			if x.F == y.F && len(x.A) == len(y.A) {
				return VTerm{x.F, z.vals(x.A, y.A)}
			}
			if z.subsume {
				return z.fail("different terms %s/%s", x.F, y.F)
			}
			return z.top()
		}
		if _, ok := b.(VTop); ok && !z.subsume {
			return z.top()
		}
	case VStruct:
		if y, ok := b.(VStruct); ok && len(x.F) == len(y.F) {
			return VStruct{z.vals(x.F, y.F)}
		}
	case VTuple:
		if y, ok := b.(VTuple); ok && len(x.E) == len(y.E) {
			return VTuple{z.vals(x.E, y.E)}
		}
	case VClo:
		if y, ok := b.(VClo); ok && x.Fn == y.Fn {
			return VClo{x.Fn, z.vals(x.Bind, y.Bind)}
		}
	case VUnk:
		if y, ok := b.(VUnk); ok && x == y {
			return x
		}
	case VIface:
		if y, ok := b.(VIface); ok && x.Dyn == y.Dyn {
			return VIface{x.Dyn, z.val(x.V, y.V)}
		}
	case VSlice:
		if y, ok := b.(VSlice); ok {
			return VSlice{z.obj(x.Arr, y.Arr), z.lin(x.Off, y.Off), z.lin(x.Len, y.Len), z.lin(x.Cap, y.Cap)}
		}
	}
	return z.fail("%s against %s", showVal(a), showVal(b))
}

func (z *zip) vals(a, b []Value) []Value {
	out := make([]Value, len(a))
	for i := range a {
		out[i] = z.val(a[i], b[i])
	}
	return out
}

// zipStates walks two states in lock step and builds their structural join.
func zipStates(a, b *State, subsume bool) (*zip, *State) {
	z := &zip{a: a, b: b, m: map[int]int{}, r: map[int]int{}, byKey: map[string]int{}, ok: true, subsume: subsume, heap: map[int]*Obj{}}
	j := a.clone()
	if len(a.frames) != len(b.frames) || a.panicV != b.panicV {
		z.fail("different call stacks")
		return z, j
	}
	for _, k := range sortedKeys(a.keep) {
		j.keep[k] = z.val(a.keep[k], b.keep[k])
	}
	for i, fa := range a.frames {
		fb := b.frames[i]
		if fa.fn != fb.fn || fa.site != fb.site || len(fa.defers) != len(fb.defers) || fa.rd != fb.rd || fa.unwind != fb.unwind {
			z.fail("different frames")
			return z, j
		}
		for k := range fa.regs {
			if fa.regs[k] == nil && fb.regs[k] == nil {
				continue
			}
			j.frames[i].regs[k] = z.val(fa.regs[k], fb.regs[k])
		}
		nd := append([]deferred(nil), fa.defers...)
		for k := range nd {
			if nd[k].site != fb.defers[k].site {
				z.fail("different deferred calls")
				return z, j
			}
			nd[k].fn = z.val(fa.defers[k].fn, fb.defers[k].fn)
			nd[k].args = z.vals(fa.defers[k].args, fb.defers[k].args)
		}
		j.frames[i].defers = nd
	}
	for len(z.queue) > 0 && z.ok {
		q := z.queue[0]
		z.queue = z.queue[1:]
		oa, ob := a.heap[q[0]], b.heap[q[1]]
		if oa == nil || ob == nil || oa.IsArr != ob.IsArr || oa.Site != ob.Site {
			z.fail("different objects (%v/%v)", oa, ob)
			break
		}
		n := oa.clone()
		for _, p := range sortedKeys(oa.Cells) {
			vb, ok := ob.Cells[p]
			if !ok {
				z.fail("cell %s missing", p)
				break
			}
			n.Cells[p] = z.val(oa.Cells[p], vb)
			if !z.ok {
				z.why = fmt.Sprintf("o%d%s: %s", q[0], p, z.why)
			}
		}
		if len(ob.Cells) != len(oa.Cells) {
			z.fail("cells of %s differ", oa.Site)
		}
		if oa.IsArr {
			n.Len = z.lin(oa.Len, ob.Len)
			for _, p := range sortedKeys(oa.Cols) {
				cb, ok := ob.Cols[p]
				if !ok {
					cb = []Seg{{K(0), ob.Len, VTop{}}}
				}
				n.Cols[p] = z.segs(oa.Cols[p], cb)
				if !z.ok {
					z.why = fmt.Sprintf("a%d%s: %s", q[0], p, z.why)
				}
			}
		}
		z.heap[q[0]] = n
	}
	j.heap = z.heap
	return z, j
}

func skel(s *State, v Value) string {
	switch x := v.(type) {
	case VInt:
		return fmt.Sprintf("i%d", x.L.coef(iotaSym))
	case VPtr:
		if o := s.heap[x.Obj]; o != nil {
			return "p" + o.Site + x.Path
		}
		return "p"
	case VElem:
		if o := s.heap[x.Arr]; o != nil {
			return fmt.Sprintf("e%d", x.Idx.coef(iotaSym)) + o.Site + x.Path
		}
		return "e"
	case VTerm:
		r := x.F + "("
		for _, y := range x.A {
			r += skel(s, y) + ","
		}
		return r + ")"
	case VIface:
		return x.Dyn + ":" + skel(s, x.V)
	case VSlice:
		return "s"
	case VStruct:
		r := "{"
		for _, y := range x.F {
			r += skel(s, y) + ","
		}
		return r + "}"
	}
	return showVal(v)
}

// segs aligns two segmentations (missing segments are taken as empty) and joins them.
func (z *zip) segs(a, b []Seg) []Seg {
	if !z.subsume {
		a, b = harmonise(z.a, a, b), harmonise(z.b, b, a)
	}
	if !z.subsume && len(a) != len(b) {
		if len(a) < len(b) {
			a = splitLike(z.a, a, b)
		} else {
			b = splitLike(z.b, b, a)
		}
	}
	n, m := len(a), len(b)
	sa := make([]string, n)
	sb := make([]string, m)
	for i := range a {
		sa[i] = skel(z.a, a[i].V)
	}
	for i := range b {
		sb[i] = skel(z.b, b[i].V)
	}
	sc := func(i, j int) int {
		_, topA := a[i].V.(VTop)
		if sa[i] != sb[j] && !topA {
			return -1
		}
		r := 10
		if sa[i] == sb[j] {
			r += 5
		}
		if valEq(a[i].V, b[j].V) {
			r += 4
		}
		if a[i].Lo.eq(b[j].Lo) {
			r += 3
		}
		if a[i].Hi.eq(b[j].Hi) {
			r += 3
		}
		return r
	}
	dp := make([][]int, n+1)
	for i := range dp {
		dp[i] = make([]int, m+1)
	}
	for i := n - 1; i >= 0; i-- {
		for j := m - 1; j >= 0; j-- {
			dp[i][j] = max(dp[i+1][j], dp[i][j+1])
			if w := sc(i, j); w >= 0 && dp[i+1][j+1]+w >= dp[i][j] {
				dp[i][j] = dp[i+1][j+1] + w
			}
		}
	}
	var out []Seg
	i, j := 0, 0
	posA, posB := K(0), K(0)
	if n > 0 {
		posA = a[0].Lo
	}
	if m > 0 {
		posB = b[0].Lo
	}
	for i < n || j < m {
		switch {
		case i < n && j < m && sc(i, j) >= 0 && dp[i][j] == dp[i+1][j+1]+sc(i, j):
			out = append(out, Seg{z.lin(a[i].Lo, b[j].Lo), z.lin(a[i].Hi, b[j].Hi), z.val(a[i].V, b[j].V)})
			posA, posB = a[i].Hi, b[j].Hi
			i++
			j++
		case i < n && (j >= m || dp[i][j] == dp[i+1][j]):
			// b has no such segment: empty there
			out = append(out, Seg{z.lin(a[i].Lo, posB), z.lin(a[i].Hi, posB), z.oneSided(a[i].V, true)})
			posA = a[i].Hi
			i++
		default:
			if z.subsume {
				z.fail("segment without counterpart")
				return out
			}
			out = append(out, Seg{z.lin(posA, b[j].Lo), z.lin(posA, b[j].Hi), z.oneSided(b[j].V, false)})
			posB = b[j].Hi
			j++
		}
	}
	if len(out) > 14 {
		z.fail("too many segments")
	}
	return out
}

// harmonise writes segments of at most one element with the template the other side uses.
func harmonise(st *State, a, b []Seg) []Seg {
	for i, g := range a {
		if hasIota(g.V) || !st.entails(g.Lo.sub(g.Hi).addk(1)) {
			continue
		}
		for _, h := range b {
			if hasIota(h.V) && st.sameVal(at(g.V, g.Lo), at(h.V, g.Lo)) {
				a = append([]Seg(nil), a...)
				a[i].V = h.V
				break
			}
		}
	}
	return a
}

func hasIota(v Value) bool {
	r := false
	mapLins(v, func(l Lin) Lin {
		if l.coef(iotaSym) != 0 {
			r = true
		}
		return l
	})
	return r
}

// splitLike cuts segments of a where b shows the same template interrupted by another one,
// so that the interruption is aligned with an empty segment at its own place.
func splitLike(st *State, a, b []Seg) []Seg {
	for j := 0; j+2 < len(b); j++ {
		if !valEq(b[j].V, b[j+2].V) || valEq(b[j].V, b[j+1].V) {
			continue
		}
		x := b[j+1].Lo
		for i := range a {
			if valEq(a[i].V, b[j].V) && st.knows(x) && st.entails(x.sub(a[i].Lo)) && st.entails(a[i].Hi.sub(x)) {
				if i+1 < len(a) && valEq(a[i+1].V, b[j+1].V) {
					break
				}
				na := append([]Seg(nil), a[:i]...)
				na = append(na, Seg{a[i].Lo, x, a[i].V}, Seg{x, x, b[j+1].V}, Seg{x, a[i].Hi, a[i].V})
				a = append(na, a[i+1:]...)
				break
			}
		}
	}
	return a
}

// knows reports whether all symbols of l occur in the facts of the state.
func (s *State) knows(l Lin) bool {
	for _, t := range l.t {
		ok := false
		for _, f := range s.facts {
			if f.coef(t.s) != 0 {
				ok = true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// oneSided renames the objects of a template that exists on one side only; its
// linear leaves are kept as they are (the segment is empty on the other side).
func (z *zip) oneSided(v Value, fromA bool) Value {
	switch x := v.(type) {
	case VPtr:
		return VPtr{z.one(x.Obj, fromA), x.Path}
	case VElem:
		return VElem{z.one(x.Arr, fromA), x.Idx, x.Path}
	case VIface:
		return VIface{x.Dyn, z.oneSided(x.V, fromA)}
	case VTerm:
		var as []Value
		for _, y := range x.A {
			as = append(as, z.oneSided(y, fromA))
		}
		return VTerm{x.F, as}
	case VSlice, VClo, VStruct:
		return z.fail("one-sided template %s", showVal(v))
	}
	return v
}

func (z *zip) one(id int, fromA bool) int {
	if fromA {
		if _, ok := z.m[id]; !ok {
			z.fail("object of a one-sided segment not shared")
		}
		return id
	}
	r, ok := z.r[id]
	if !ok {
		z.fail("object of a one-sided segment not shared")
	}
	return r
}

// subsumed reports n ⊑ e.
func (ip *Interp) subsumed(n, e *State) bool {
	z, _ := zipStates(e, n, true)
	if !z.ok {
		return false
	}
	sub := map[Sym]Lin{}
	for _, l := range z.same {
		for _, t := range l.t {
			sub[t.s] = S(t.s)
		}
	}
	for _, p := range z.slots {
		if len(p.a.t) == 1 && (p.a.t[0].k == 1 || p.a.t[0].k == -1) {
			if _, ok := sub[p.a.t[0].s]; !ok {
				sub[p.a.t[0].s] = p.b.addk(-p.a.c).mul(p.a.t[0].k)
			}
		}
	}
	for _, p := range z.slots {
		if !n.entailsEq(p.a.subst(sub).sub(p.b)) {
			return false
		}
	}
	for _, f := range e.facts {
		f = f.subst(sub)
		if !n.entails(f) && !ip.always(f) {
			return false
		}
	}
	return true
}

// always reports that a fact about initial values held at the start, and so holds forever.
func (ip *Interp) always(f Lin) bool {
	k := f.norm().key()
	for _, b := range ip.base {
		if b.norm().key() == k {
			return true
		}
	}
	return false
}

// join computes an abstract state covering a and b.
func (ip *Interp) join(a, b *State, joins int) *State {
	z, j := zipStates(a, b, false)
	if !z.ok {
		giveUp("join failed: %s", z.why)
	}
	toA, toB := map[Sym]Lin{}, map[Sym]Lin{}
	for _, p := range z.slots {
		toA[p.w], toB[p.w] = p.a, p.b
	}
	seen := map[string]bool{}
	var facts []Lin
	try := func(f Lin) bool {
		f = f.norm()
		if f.isConst() {
			return true
		}
		k := f.key()
		if seen[k] {
			return false
		}
		seen[k] = true
		if !a.entails(f.subst(toA)) || !b.entails(f.subst(toB)) {
			return false
		}
		facts = append(facts, f)
		return true
	}
	// symbols that stay meaningful in the joined state
	liveSyms := map[Sym]bool{}
	for _, p := range z.slots {
		liveSyms[p.w] = true
	}
	sameSyms := map[Sym]bool{}
	for _, l := range z.same {
		for _, t := range l.t {
			liveSyms[t.s] = true
			sameSyms[t.s] = true
		}
	}
	// 1/2: the facts of both sides, rewritten to the new symbols
	rewrite := func(facts []Lin, pick func(slot) Lin) {
		alts := map[Sym][]Lin{}
		for _, p := range z.slots {
			l := pick(p)
			if len(l.t) == 1 && (l.t[0].k == 1 || l.t[0].k == -1) {
				s := l.t[0]
				alts[s.s] = append(alts[s.s], S(p.w).addk(-l.c).mul(s.k))
			}
		}
		facts = project(facts, func(s Sym) bool { return liveSyms[s] || len(alts[s]) > 0 })
		var plain []Lin
		for _, f := range facts {
			big := 0
			for _, t := range f.t {
				if t.k > 2 || t.k < -2 {
					big++
				}
			}
			if big < 2 {
				plain = append(plain, f)
			}
		}
		facts = plain
		for _, f := range facts {
			forms := []Lin{f}
			for _, t := range f.t {
				var nf []Lin
				for _, g := range forms {
					nf = append(nf, g)
					for _, al := range alts[t.s] {
						nf = append(nf, g.subst(map[Sym]Lin{t.s: al}))
					}
				}
				if len(nf) > 64 {
					nf = nf[:64]
				}
				forms = nf
			}
			for _, g := range forms {
				ok := true
				for _, t := range g.t {
					if !liveSyms[t.s] {
						ok = false
					}
				}
				if ok {
					try(g)
				}
			}
		}
	}
	rewrite(a.facts, func(p slot) Lin { return p.a })
	{
		if joins < 3 {
			rewrite(b.facts, func(p slot) Lin { return p.b })
		} else {
			// facts about symbols that did not change
			for _, f := range b.facts {
				ok := true
				for _, t := range f.t {
					if !sameSyms[t.s] {
						ok = false
					}
				}
				if ok {
					try(f)
				}
			}
		}
		// 3: constant and equal differences
		for i, p := range z.slots {
			dp := p.b.sub(p.a)
			usable := func(l Lin) bool {
				for _, t := range l.t {
					if !liveSyms[t.s] {
						return false
					}
				}
				return true
			}
			for _, pv := range []Lin{p.a, p.b} {
				if usable(pv) {
					try(S(p.w).sub(pv))
					try(pv.sub(S(p.w)))
				}
			}
			for _, q := range z.slots[:i] {
				dq := q.b.sub(q.a)
				var e Lin
				switch {
				case dp.isConst() && dq.isConst() && dp.c != 0 && dq.c != 0:
					e = S(p.w).sub(p.a).mul(dq.c).sub(S(q.w).sub(q.a).mul(dp.c))
				case dp.eq(dq):
					e = S(p.w).sub(p.a).sub(S(q.w).sub(q.a))
				case dp.eq(dq.neg()):
					e = S(p.w).sub(p.a).add(S(q.w).sub(q.a))
				default:
					continue
				}
				ok := true
				for _, t := range e.t {
					if !liveSyms[t.s] {
						ok = false
					}
				}
				if ok {
					try(e)
					try(e.neg())
				}
			}
		}
		// 4: orders between new symbols and everything live
		var others []Lin
		others = append(others, K(0))
		ss := []int{}
		for s := range liveSyms {
			if s != iotaSym {
				ss = append(ss, int(s))
			}
		}
		sort.Ints(ss)
		if len(ss) < 36 {
			for _, s := range ss {
				others = append(others, S(Sym(s)))
			}
			// orders that were implied by facts the join loses
			for _, x := range ss {
				if !joinSyms[Sym(x)] || !sameSyms[Sym(x)] {
					continue
				}
				for _, y := range ss {
					if e := S(Sym(x)).sub(S(Sym(y))); x != y && sameSyms[Sym(y)] {
						try(e)
						try(e.neg())
					}
				}
			}
			if len(z.slots) <= 7 && !ip.NoSums {
				// sums and differences of two new symbols against everything live
				for i, p := range z.slots {
					for _, q := range z.slots[:i] {
						if joins > 0 && p.old && q.old {
							continue
						}
						for _, sg := range []int64{1, -1} {
							l := linComb(S(p.w), 1, S(q.w), sg)
							for _, o := range others {
								e := l.sub(o)
								if len(e.t) != 3 {
									continue
								}
								try(e)
								try(e.neg())
							}
						}
					}
				}
			}
			for _, p := range z.slots {
				for _, o := range others {
					d := S(p.w).sub(o)
					if len(d.t) == 0 {
						continue
					}
					for _, sg := range []int64{1, -1} {
						e := d.mul(sg)
						va, vb := e.subst(toA), e.subst(toB)
						if va.isConst() && vb.isConst() {
							if joins >= 3 && va.c > vb.c && p.old {
								continue
							}
							try(e.addk(-min(va.c, vb.c)))
							continue
						}
						if ip.NoSums && (try(e.addk(-4)) || try(e.addk(-3)) || try(e.addk(-2))) {
							continue
						}
						if !try(e.addk(-1)) && !try(e) {
							try(e.addk(1))
						}
					}
				}
			}
		}
	}
	// orders the partition of the states speaks about
	if ip.Cands != nil {
		for _, c := range ip.Cands(j) {
			for _, e := range []Lin{c, c.neg()} {
				if !try(e.addk(-1)) {
					try(e)
				}
			}
		}
	}
	// 5: equations between the new symbols and everything live
	{
		var vars []Sym
		va, vb := map[Sym]Lin{}, map[Sym]Lin{}
		for _, p := range z.slots {
			vars = append(vars, p.w)
			va[p.w], vb[p.w] = p.a, p.b
		}
		var same []int
		for s := range sameSyms {
			if s != iotaSym && va[s].t == nil {
				same = append(same, int(s))
			}
		}
		sort.Ints(same)
		for _, s := range same {
			if _, ok := va[Sym(s)]; !ok {
				vars = append(vars, Sym(s))
				va[Sym(s)], vb[Sym(s)] = S(Sym(s)), S(Sym(s))
			}
		}
		for _, e := range affineHull(vars, [2]map[Sym]Lin{va, vb}, [2][]Lin{equations(a), equations(b)}) {
			try(e)
			try(e.neg())
		}
	}
	j.facts = reduceFacts(facts)
	// what held initially about symbols that are still there holds forever
	have := map[string]bool{}
	for _, f := range j.facts {
		have[f.norm().key()] = true
	}
	for _, f := range ip.base {
		ok := !have[f.norm().key()]
		for _, t := range f.t {
			if !sameSyms[t.s] {
				ok = false
			}
		}
		if ok {
			j.facts = append(j.facts, f)
		}
	}
	if debugOn && dbgJoin {
		for x := range liveSyms {
			for y := range liveSyms {
				if x != y && x != iotaSym && y != iotaSym {
					e := S(x).sub(S(y))
					if a.entails(e.subst(toA)) && b.entails(e.subst(toB)) && !j.entails(e) {
						dbg("LOST %s", e)
					}
				}
			}
		}
		dbg("JOIN at %s (joins %d)\n-- A\n%s-- B\n%s-- J\n%s", j.top().fn.Name(), joins, a.dump(), b.dump(), j.dump())
	}
	return j
}

// reduceFacts removes facts implied by the others.
func reduceFacts(fs []Lin) []Lin {
	fs = prune(fs)
	sort.SliceStable(fs, func(i, k int) bool { return len(fs[i].t) < len(fs[k].t) })
	for i := len(fs) - 1; i >= 0; i-- {
		rest := append(append([]Lin(nil), fs[:i]...), fs[i+1:]...)
		if cachedInfeasible(rest, fs[i].neg().addk(-1)) {
			fs = rest
		}
	}
	return fs
}

// project eliminates the symbols that are not kept (Fourier-Motzkin, budgeted).
func project(fs []Lin, keep func(Sym) bool) []Lin {
	cur := append([]Lin(nil), fs...)
	for round := 0; round < 60; round++ {
		cnt := map[Sym][2]int{}
		for _, l := range cur {
			for _, t := range l.t {
				if keep(t.s) {
					continue
				}
				c := cnt[t.s]
				if t.k > 0 {
					c[0]++
				} else {
					c[1]++
				}
				cnt[t.s] = c
			}
		}
		if len(cnt) == 0 {
			return cur
		}
		var best Sym
		bc := 1 << 30
		ks := []int{}
		for s := range cnt {
			ks = append(ks, int(s))
		}
		sort.Ints(ks)
		for _, s := range ks {
			c := cnt[Sym(s)]
			if p := c[0] * c[1]; p < bc {
				bc, best = p, Sym(s)
			}
		}
		var next, ps, ns []Lin
		for _, l := range cur {
			switch k := l.coef(best); {
			case k == 0:
				next = append(next, l)
			case k > 0:
				ps = append(ps, l)
			default:
				ns = append(ns, l)
			}
		}
		if bc <= 40 {
			for _, p := range ps {
				for _, n := range ns {
					l := linComb(p, -n.coef(best), n, p.coef(best)).norm()
					if !l.isConst() {
						next = append(next, l)
					}
				}
			}
		}
		cur = prune(next)
	}
	var out []Lin
	for _, l := range cur {
		ok := true
		for _, t := range l.t {
			if !keep(t.s) {
				ok = false
			}
		}
		if ok {
			out = append(out, l)
		}
	}
	return out
}

package main

// The consistent-hash ring (C21), seen from one arbitrary position X = hash(node, I): the
// map is answered as C23 shows it to behave, reduced to whether X is on the ring and whom it
// belongs to. Other positions may coincide with X or not.

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const ringRel = "ds/ketama"

type ringModel struct {
	ptr, ring VPtr
	replicas  Lin
	idx       Lin // I
	pos       Lin // J, the node's place in the list
	with      bool
	seed      *Value
	mode      string // "Add", "Remove", "Get"
	j         *Job
}

func hasLeaf(v, leaf Value) bool {
	if valEq(v, leaf) {
		return true
	}
	if t, ok := v.(VTerm); ok {
		for _, a := range t.A {
			if hasLeaf(a, leaf) {
				return true
			}
		}
	}
	return false
}

func (s *State) hasLeafEq(v, leaf Value) bool {
	if s.sameVal(v, leaf) {
		return true
	}
	if t, ok := v.(VTerm); ok {
		for _, a := range t.A {
			if s.hasLeafEq(a, leaf) {
				return true
			}
		}
	}
	return false
}

func newRing(st *State, mode string, has Value, own Value) *ringModel {
	m := &ringModel{mode: mode}
	m.replicas = st.fresh("replicas", K(0))
	m.idx = st.fresh("I", K(0))
	st.addFact(m.replicas.sub(m.idx).addk(-1))
	o := st.newObj("model-ring")
	st.setCell(o, "has", has)
	st.setCell(o, "own", own)
	st.setCell(o, "n", I(st.fresh("others", K(0))))
	st.setCell(o, "memo", VNil{})
	st.setCell(o, "lb", VNil{})
	m.ring = VPtr{o, ""}
	k := st.newObj("Ketama")
	st.setCell(k, ".m", m.ring)
	st.setCell(k, ".replicas", I(m.replicas))
	st.setCell(k, ".locker", VIface{"model:locker", VNil{}})
	m.ptr = VPtr{k, ""}
	st.keep["k"], st.keep["ring"] = m.ptr, m.ring
	st.keep["I"] = I(m.idx)
	return m
}

// nodesArg makes the list of nodes: T("node") at position at (if any), others elsewhere.
func (m *ringModel) nodesArg(st *State, with bool) VSlice {
	n := st.fresh("count", K(0))
	a := st.newArr("nodes", n)
	other := T("other", I(S(iotaSym)))
	if !with {
		st.heap[a].Cols[""] = []Seg{{K(0), n, other}}
	} else {
		p := st.fresh("J", K(0))
		st.addFact(n.sub(p).addk(-1))
		m.pos, m.with = p, true
		st.keep["J"] = I(p)
		st.heap[a].Cols[""] = []Seg{{K(0), p, other}, {p, p.addk(1), T("node")}, {p.addk(1), n, other}}
	}
	sl := VSlice{a, K(0), n, n}
	st.keep["nodes"] = sl
	return sl
}

// lookup tells, by cases, whether the key is X and whether it is on the ring.
func (m *ringModel) lookup(s *State, key Value, f func(s *State, isX, present bool) Out) []Out {
	o := m.ring.Obj
	if t, ok := s.cell(o, "memo").(VTuple); ok && s.sameVal(t.E[0], key) {
		isX := s.need(t.E[1].(VBool))
		p := t.E[2].(VBool)
		if isX {
			p = s.cell(o, "has").(VBool)
		}
		return []Out{f(s, isX, s.need(p))}
	}
	var outs []Out
	yes, no := true, true
	if t, ok := key.(VTerm); ok && t.F == "hash" && hasLeaf(t.A[0], T("node")) {
		if *m.seed == nil {
			*m.seed = t.A[0]
		}
		if s.sameVal(*m.seed, t.A[0]) {
			if i, ok := t.A[1].(VInt); ok && s.need(condEQ(i.L.sub(m.idx))) {
				no = false
			}
		}
	}
	if yes {
		c := s.clone()
		c.setCell(o, "memo", VTuple{[]Value{key, bTrue, bTrue}})
		outs = append(outs, f(c, true, c.need(c.cell(o, "has").(VBool))))
	}
	if no {
		for _, p := range []bool{true, false} {
			c := s.clone()
			c.setCell(o, "memo", VTuple{[]Value{key, bFalse, boolV(p)}})
			if p && !c.addFact(lin(c.cell(o, "n")).addk(-1)) {
				continue
			}
			outs = append(outs, f(c, false, p))
		}
	}
	return outs
}

func (s *State) newMapIter(c *callCtx, kind string, key, val Value) Value {
	o := s.newObj("model-mapiter")
	s.setCell(o, "kind", T(kind))
	s.setCell(o, "key", key)
	s.setCell(o, "val", val)
	return VPtr{o, ""}
}

func (m *ringModel) put(s *State, key, val Value, isX, present bool) {
	o := m.ring.Obj
	t, ok := key.(VTerm)
	if m.mode != "Add" {
		m.j.fail(token.NoPos, "%s puts %s on the ring", m.mode, showVal(key))
		return
	}
	if !ok || t.F != "hash" || !s.hasLeafEq(t.A[0], val) {
		m.j.fail(token.NoPos, "position %s is given to %s", showVal(key), showVal(val))
		return
	}
	if i, ok := t.A[1].(VInt); !ok || s.decide(condGE(m.replicas.sub(i.L).addk(-1))) != 1 {
		m.j.fail(token.NoPos, "position %s is not one of the replicas of its node", showVal(key))
	}
	if isX {
		s.setCell(o, "has", bTrue)
		s.setCell(o, "own", val)
	} else if !present {
		s.setCell(o, "n", I(lin(s.cell(o, "n")).addk(1)))
	}
	s.setCell(o, "memo", VTuple{[]Value{key, boolV(isX), bTrue}})
}

func (m *ringModel) drop(s *State, key Value, isX bool) {
	o := m.ring.Obj
	if m.mode == "Get" {
		m.j.fail(token.NoPos, "Get takes a position off the ring")
		return
	}
	if isX {
		s.setCell(o, "has", bFalse)
		s.setCell(o, "own", VNil{})
	} else {
		n := lin(s.cell(o, "n"))
		s.addFact(n.addk(-1))
		s.setCell(o, "n", I(n.addk(-1)))
	}
	s.setCell(o, "memo", VTuple{[]Value{key, boolV(isX), bFalse}})
}

func (m *ringModel) static(c *callCtx) ([]Out, bool) {
	s := c.st
	one := func(v ...Value) ([]Out, bool) { return []Out{{s, v}}, true }
	if isCall(c, "algorithm/hash", "", "GenHashInts") {
		n, ok := c.args[1].(VInt)
		if !ok || !s.need(condGE(n.L)) {
			giveUp("the number of hashes asked for")
		}
		a := s.newArr(c.ip.siteName(c.site), n.L)
		s.heap[a].Cols[""] = s.normSegs([]Seg{{K(0), n.L, T("hash", c.args[0], I(S(iotaSym)))}})
		return one(VSlice{a, K(0), n.L, n.L})
	}
	if c.fn == nil || len(c.args) == 0 || !strings.HasPrefix(c.ip.p.fname(c.fn), "ds/map.") {
		return nil, false
	}
	p, ok := c.args[0].(VPtr)
	if !ok || s.heap[p.Obj] == nil {
		return nil, false
	}
	name := c.fn.Name()
	if s.heap[p.Obj].Site == "model-mapiter" {
		kind := s.cell(p.Obj, "kind").(VTerm).F
		switch name {
		case "IsValid":
			return one(boolV(kind != "none"))
		case "Value", "Key":
			if kind == "none" {
				panic(goPanicErr{"nil dereference"})
			}
			if name == "Key" {
				return one(s.cell(p.Obj, "key"))
			}
			return one(s.cell(p.Obj, "val"))
		}
		giveUp("%s of a map iterator is not expected here", name)
	}
	if s.heap[p.Obj].Site != "model-ring" {
		return nil, false
	}
	o := p.Obj
	size := lin(s.cell(o, "n"))
	if s.need(s.cell(o, "has").(VBool)) {
		size = size.addk(1)
	}
	find := func(f func(s *State, isX, present bool) []Value) ([]Out, bool) {
		return m.lookup(s, c.args[1], func(s *State, isX, present bool) Out {
			return Out{s, f(s, isX, present)}
		}), true
	}
	ownOf := func(s *State, key Value, isX bool) Value {
		if isX {
			return s.cell(o, "own")
		}
		return T("owner-of", key)
	}
	switch name {
	case "Size":
		return one(I(size))
	case "Contains":
		return find(func(s *State, isX, present bool) []Value { return []Value{boolV(present)} })
	case "Get":
		return find(func(s *State, isX, present bool) []Value {
			if !present {
				return []Value{T(`"`), VIface{"model:error", VNil{}}}
			}
			return []Value{ownOf(s, c.args[1], isX), VNil{}}
		})
	case "Find":
		return find(func(s *State, isX, present bool) []Value {
			if !present {
				return []Value{s.newMapIter(c, "none", c.args[1], VNil{})}
			}
			return []Value{s.newMapIter(c, "at", c.args[1], ownOf(s, c.args[1], isX))}
		})
	case "Insert":
		return find(func(s *State, isX, present bool) []Value {
			m.put(s, c.args[1], c.args[2], isX, present)
			return nil
		})
	case "Erase":
		return find(func(s *State, isX, present bool) []Value {
			if present {
				m.drop(s, c.args[1], isX)
			}
			return nil
		})
	case "Clear":
		if m.mode == "Get" || m.mode == "Empty" {
			m.j.fail(token.NoPos, "%s clears the ring", m.mode)
			return one()
		}
		s.setCell(o, "has", bFalse)
		s.setCell(o, "own", VNil{})
		s.setCell(o, "n", I(K(0)))
		s.setCell(o, "memo", VNil{})
		return one()
	case "EraseIter":
		i, ok := c.args[1].(VIface)
		if !ok {
			giveUp("EraseIter of %s", showVal(c.args[1]))
		}
		it, ok := i.V.(VPtr)
		if !ok || s.heap[it.Obj] == nil || s.heap[it.Obj].Site != "model-mapiter" {
			giveUp("EraseIter of %s", showVal(c.args[1]))
		}
		switch s.cell(it.Obj, "kind").(VTerm).F {
		case "none":
			return one()
		case "at":
			key := s.cell(it.Obj, "key")
			return m.lookup(s, key, func(s *State, isX, present bool) Out {
				if present {
					m.drop(s, key, isX)
				}
				return Out{s, nil}
			}), true
		}
		m.j.fail(token.NoPos, "an entry found by position is taken off the ring")
		return one()
	case "LowerBound", "UpperBound":
		if m.mode != "Get" {
			giveUp("%s of the ring is not expected here", name)
		}
		if !ofKeyOnly(c.args[1]) {
			m.j.fail(token.NoPos, "the position looked up, %s, does not depend on the key alone", showVal(c.args[1]))
		}
		what := map[string]string{"LowerBound": "lb", "UpperBound": "ub"}[name]
		none := s.clone()
		none.setCell(o, what, bFalse)
		outs := []Out{{none, []Value{none.newMapIter(c, "none", VNil{}, VNil{})}}}
		if s.addFact(size.addk(-1)) && !infeasible(s.facts) {
			s.setCell(o, what, bTrue)
			s.setCell(o, what+"key", c.args[1])
			outs = append(outs, Out{s, []Value{s.newMapIter(c, what, c.args[1], T(what+"val"))}})
		}
		return outs, true
	case "First", "Begin", "Last":
		if m.mode != "Get" && m.mode != "Empty" {
			giveUp("%s of the ring is not expected here", name)
		}
		if !s.need(condGE(size.addk(-1))) {
			return one(s.newMapIter(c, "none", VNil{}, VNil{}))
		}
		v := "firstval"
		if name == "Last" {
			v = "lastval"
		}
		return one(s.newMapIter(c, "first", T("key-of-"+v), T(v)))
	}
	giveUp("%s of the map is not expected here", name)
	return nil, false
}

// headCounters: the registers that the loops of f carry from turn to turn.
func headCounters(f *ssa.Function) (out []int) {
	num := numbering(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok && isHead(f, b) {
				out = append(out, num.idx[ph])
			}
		}
	}
	return out
}

// phaseOf: which side of the place p the counter x is known to be.
func phaseOf(s *State, x, p Lin) string {
	k := ""
	for _, d := range []Lin{p.sub(x).addk(-1), p.sub(x), x.sub(p), x.sub(p).addk(-1)} {
		if s.decide(condGE(d)) == 1 {
			k += "1"
		} else {
			k += "0"
		}
	}
	return k
}

func skelOwn(v Value) Value {
	if t, ok := v.(VTerm); ok {
		return T(t.F)
	}
	return v
}

// ofKeyOnly: a hash of the key and constants.
func ofKeyOnly(v Value) bool {
	switch x := v.(type) {
	case VInt:
		return x.L.isConst()
	case VTerm:
		if len(x.A) == 0 {
			return x.F == "key" || strings.HasPrefix(x.F, `"`)
		}
		for _, a := range x.A {
			if !ofKeyOnly(a) {
				return false
			}
		}
		return true
	}
	return false
}

func ringJob(p *Prog, r *Result, meth, clause string, has Value, own Value, with bool, seed *Value, check func(j *Job, s *State, m *ringModel, ret []Value, pos token.Pos)) {
	st := newInterp(p).NewState()
	m := newRing(st, meth, has, own)
	m.seed = seed
	j := r.job(p, "ring", p.Method(ringRel, "Ketama", meth), ringRel+".(Ketama)."+meth)
	if j == nil {
		return
	}
	m.j = j
	r.Count("clauses", 1)
	r.Sample(j.name + ": " + clause)
	j.ip.Terms = true
	j.ip.Static = m.static
	j.ip.Invoke = lockerInvoke
	j.ip.AtHead = func(s *State) { s.setCell(m.ring.Obj, "memo", VNil{}) }
	j.ip.Part = func(s *State) string {
		k := showVal(s.cell(m.ring.Obj, "has")) + showVal(skelOwn(s.cell(m.ring.Obj, "own")))
		for _, fr := range s.frames {
			if m.with {
				for _, r := range headCounters(fr.fn) {
					if x, ok := fr.regs[r].(VInt); ok {
						k += phaseOf(s, x.L, m.pos) + phaseOf(s, x.L, m.idx) + ","
					}
				}
			}
			for _, v := range fr.regs {
				if t, ok := v.(VTerm); ok {
					switch t.F {
					case "node", "other":
						k += t.F[:1]
					case "hash":
						k += "h"
					}
				}
			}
		}
		return k
	}
	j.ip.Compare = func(s *State, a, b Value) (VBool, bool) {
		x, ok1 := a.(VTerm)
		y, ok2 := b.(VTerm)
		if !ok1 || !ok2 {
			return bTrue, false
		}
		if s.sameVal(a, b) {
			return bTrue, true
		}
		// the owner looked at in this clause is none of the nodes named
		for _, q := range [][2]VTerm{{x, y}, {y, x}} {
			if q[0].F == "stranger" && (q[1].F == "node" || q[1].F == "other") {
				return bFalse, true
			}
		}
		return bTrue, false
	}
	var args Value
	if meth == "Get" {
		args = T("key")
	} else if meth != "Empty" {
		args = m.nodesArg(st, with)
	}
	all := []Value{m.ptr, args}
	if meth == "Empty" {
		all = all[:1]
	}
	j.run(st, all, func(s *State, ret []Value, pos token.Pos) {
		if !j.mustEq(s, s.cell(m.ptr.Obj, ".replicas"), I(m.replicas), pos, "number of replicas") || s.cell(m.ptr.Obj, ".m") != Value(m.ring) {
			j.fail(pos, "the ring or its parameters are replaced")
		}
		check(j, s, m, ret, pos)
	})
}

func init() {
	checks["C21"] = func(p *Prog, r *Result) {
		sloped = true
		defer func() { sloped = false }()
		r.Rule("abstract interpretation of Add, Remove and Get over any number of nodes, replicas and ring positions, seen from one arbitrary position; the map under the ring is answered as C23 shows it to behave, positions may coincide by chance")
		r.Assumption("every position on the ring is one of the replica positions of its owner, which Add is shown to keep up; GenHashInts is a function of its arguments that delivers as many numbers as asked for, as C19 shows; the ordered map behaves as C23 shows")
		var seed Value
		has := func(s *State, m *ringModel) bool { return s.need(s.cell(m.ring.Obj, "has").(VBool)) }
		ringJob(p, r, "Add", "a taken position keeps its owner", bTrue, T("stranger"), true, &seed, func(j *Job, s *State, m *ringModel, ret []Value, pos token.Pos) {
			if !has(s, m) || !valEq(s.cell(m.ring.Obj, "own"), T("stranger")) {
				j.fail(pos, "a position that was taken changes hands or is freed by Add %s", j.path(s))
			}
		})
		ringJob(p, r, "Add", "every replica of every node gets its position", bFalse, VNil{}, true, &seed, func(j *Job, s *State, m *ringModel, ret []Value, pos token.Pos) {
			if !has(s, m) {
				j.fail(pos, "a replica position of an added node is not on the ring %s", j.path(s))
			}
		})
		ringJob(p, r, "Add", "no other position is taken", bFalse, VNil{}, false, &seed, func(j *Job, s *State, m *ringModel, ret []Value, pos token.Pos) {})
		ringJob(p, r, "Remove", "the positions of the node are freed", bTrue, T("node"), true, &seed, func(j *Job, s *State, m *ringModel, ret []Value, pos token.Pos) {
			if has(s, m) {
				j.fail(pos, "a position of a removed node stays on the ring %s", j.path(s))
			}
		})
		ringJob(p, r, "Remove", "positions of other nodes stay", bTrue, T("stranger"), true, &seed, func(j *Job, s *State, m *ringModel, ret []Value, pos token.Pos) {
			if !has(s, m) || !valEq(s.cell(m.ring.Obj, "own"), T("stranger")) {
				j.fail(pos, "a position of a node that is not removed is freed or changes hands %s", j.path(s))
			}
		})
		ringJob(p, r, "Remove", "free positions stay free", bFalse, VNil{}, true, &seed, func(j *Job, s *State, m *ringModel, ret []Value, pos token.Pos) {
			if has(s, m) {
				j.fail(pos, "Remove takes a position %s", j.path(s))
			}
		})
		ringJob(p, r, "Get", "the first position at or behind the key's, around the ring", bFalse, VNil{}, false, &seed, func(j *Job, s *State, m *ringModel, ret []Value, pos token.Pos) {
			found, ok := ret[1].(VBool)
			if !ok {
				giveUp("Get delivers %s", showVal(ret[1]))
			}
			n := lin(s.cell(m.ring.Obj, "n"))
			want := "firstval"
			switch lb := s.cell(m.ring.Obj, "lb").(type) {
			case VBool:
				if s.need(lb) {
					want = "lbval"
				}
			default:
				if s.need(condGE(n.addk(-2))) {
					want = "lbval" // not looked for
				}
			}
			if !s.need(condGE(n.addk(-1))) {
				j.must(s, found.not(), pos, "an empty ring delivers a node")
				if !valEq(ret[0], T(`"`)) {
					j.fail(pos, "an empty ring delivers %s", showVal(ret[0]))
				}
				return
			}
			j.must(s, found, pos, "a ring with nodes delivers none")
			if !valEq(ret[0], T(want)) {
				j.fail(pos, "Get delivers %s where the owner of the %s position is due %s", showVal(ret[0]), map[string]string{"lbval": "first following", "firstval": "first"}[want], j.path(s))
			}
		})
		for _, has := range []Value{bTrue, bFalse} {
			ringJob(p, r, "Empty", "true exactly when no position is taken", has, VNil{}, false, &seed, func(j *Job, s *State, m *ringModel, ret []Value, pos token.Pos) {
				e, ok := ret[0].(VBool)
				if !ok {
					giveUp("Empty delivers %s", showVal(ret[0]))
				}
				n := lin(s.cell(m.ring.Obj, "n"))
				if s.need(s.cell(m.ring.Obj, "has").(VBool)) {
					n = n.addk(1)
				}
				if s.need(condGE(n.addk(-1))) {
					e = e.not()
				}
				j.must(s, e, pos, "Empty tells whether a position is taken")
			})
		}
		newRingJob(p, r, false)
		newRingJob(p, r, true)
		r.Need("clauses", 11)
	}
}

// newRingJob: what New makes, with and without WithReplicas.
func newRingJob(p *Prog, r *Result, opt bool) {
	c := p.Func(ringRel, "New")
	o := p.Func(ringRel, "WithReplicas")
	if c == nil || o == nil {
		r.Fail("ring", ringRel+".New", "-", "New or WithReplicas is not declared any more")
		return
	}
	r.Count("clauses", 1)
	what := "New()"
	ip := newInterp(p)
	states, vals := []*State{ip.NewState()}, [][]Value{nil}
	n := states[0].fresh("replicas", K(1))
	states[0].keep["replicas"] = I(n)
	if opt {
		what = "New(WithReplicas(n))"
		outs, ok := r.runExits(p, "ring", o, states[0], []Value{I(n)}, nil)
		if !ok {
			return
		}
		states, vals = nil, nil
		for _, x := range outs {
			states, vals = append(states, x.St), append(vals, []Value{x.Ret[0]})
		}
	}
	r.Sample(p.fname(c) + ": " + what)
	exits := 0
	for i, s := range states {
		a := s.newArr("opts", K(int64(len(vals[i]))))
		for k, v := range vals[i] {
			s.heap[a].Cols[""] = append(s.heap[a].Cols[""], Seg{K(int64(k)), K(int64(k + 1)), v})
		}
		l := K(int64(len(vals[i])))
		outs, ok := r.runExits(p, "ring", c, s, []Value{VSlice{a, K(0), l, l}}, func(ip *Interp) {
			ip.Static = func(c *callCtx) ([]Out, bool) {
				if !isCall(c, "ds/map", "", "New") {
					return nil, false
				}
				m := c.st.newObj("model-ring")
				c.st.setCell(m, "cmp", c.args[0])
				return []Out{{c.st, []Value{VPtr{m, ""}}}}, true
			}
		})
		if !ok {
			return
		}
		exits += len(outs)
		fail := func(format string, a ...any) { r.Fail("ring", p.fname(c), p.Pos(c.Pos()), what+": "+format, a...) }
		for _, x := range outs {
			k, ok := x.Ret[0].(VPtr)
			if !ok {
				fail("no ring delivered")
				continue
			}
			reps, ok := x.St.cell(k.Obj, ".replicas").(VInt)
			if !ok {
				fail("the number of replicas is not set")
				continue
			}
			if opt && x.St.decide(condEQ(reps.L.sub(n))) != 1 {
				fail("the number of replicas is %s, not the one asked for", showVal(reps))
			}
			if !opt && x.St.decide(condGE(K(0).sub(reps.L))) == 1 {
				fail("a ring without options has %s replicas of each node", showVal(reps))
			}
			m, ok := x.St.cell(k.Obj, ".m").(VPtr)
			if !ok || x.St.heap[m.Obj].Site != "model-ring" {
				fail("the ring is not backed by an empty ordered map")
				continue
			}
			cmp, ok := x.St.cell(m.Obj, "cmp").(VClo)
			if !ok {
				fail("the order of positions is %s", showVal(x.St.cell(m.Obj, "cmp")))
				continue
			}
			for sg := int64(-1); sg <= 1; sg++ {
				st := newInterp(p).NewState()
				x, y := st.fresh("x", K(0)), st.fresh("y", K(0))
				switch sg {
				case -1:
					st.addFact(y.sub(x).addk(-1))
				case 0:
					y = x
				case 1:
					st.addFact(x.sub(y).addk(-1))
				}
				cs, ok := r.runExits(p, "ring", cmp.Fn, st, []Value{I(x), I(y)}, nil)
				if !ok {
					return
				}
				for _, o := range cs {
					d, ok := o.Ret[0].(VInt)
					if !ok || !map[int64]bool{-1: o.St.decide(condGE(K(-1).sub(d.L))) == 1, 0: o.St.decide(condEQ(d.L)) == 1, 1: o.St.decide(condGE(d.L.addk(-1))) == 1}[sg] {
						fail("positions are not ordered by their number")
					}
				}
			}
		}
	}
	if exits == 0 {
		r.Fail("ring", p.fname(c), p.Pos(c.Pos()), "%s: the constructor does not return", what)
	}
}

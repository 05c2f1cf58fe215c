package main

// C18: Swap, Reverse and NextPermutation, compared element by element with their
// documentation at an arbitrary position w.

import (
	"fmt"
	"go/token"
)

// retemplate writes elements of the sequence that agree with a formula in the position as
// that formula, so that neighbours merge.
func retemplate(s *State, seq int, ts []Value) {
	c := append([]Seg(nil), s.col(seq, "")...)
	ch := false
	for k, g := range c {
		if hasIota(g.V) || !s.entails(g.Lo.sub(g.Hi).addk(1)) {
			continue
		}
		for _, t := range ts {
			if s.sameVal(at(g.V, g.Lo), at(t, g.Lo)) {
				c[k].V, ch = t, true
				break
			}
		}
	}
	if ch {
		s.mut(seq).Cols[""] = s.normSegs(c)
	}
}

// layout names the kinds of segments of the sequence, so that only states with the same
// kinds in the same order are joined.
func layout(s *State, seq int) string {
	r := ""
	for _, g := range s.col(seq, "") {
		k := "x"
		if t, ok := g.V.(VTerm); ok && t.F == "el" {
			if x, ok := t.A[0].(VInt); ok {
				switch x.L.coef(iotaSym) {
				case 1:
					k = "="
				case -1:
					k = "~"
				}
			}
		}
		r += k
	}
	return r
}

// mirrored is the element at the mirror image of a position: lo+hi-i.
func mirrored(lo, hi Lin) Value { return T("el", I(lo.add(hi).sub(S(iotaSym)))) }

// content requires that position w holds the given original element.
func (j *Job) content(s *State, seq int, w, orig Lin, pos token.Pos, what string) {
	j.mustEq(s, s.arrGet(seq, "", w), T("el", I(orig)), pos, "%s", what)
}

func init() {
	checks["C18"] = func(p *Prog, r *Result) {
		r.Rule("abstract interpretation of Swap, Reverse and NextPermutation over a sequence of symbolic length and content; at every exit the element at an arbitrary position is compared with the one the documentation puts there, for NextPermutation relative to the answers the comparator gave; accesses outside the range are reported; loops need a ranking")
		r.Assumption("first and last delimit a valid range of one container; the comparator is a deterministic total preorder; position arithmetic does not overflow")
		checkSwap(p, r)
		checkReverse(p, r)
		checkNextPermutation(p, r)
		r.Need("algorithms", 3)
	}
}

func permSetup(st *State) (seq int, f, l Lin, first, last Value) {
	seq, f, l, first, last = foldSetup(st)
	w := st.freshIn("w", K(0), st.heap[seq].Len.addk(-1))
	st.keep["w"] = I(w)
	return
}

func (j *Job) confined(seq int, f, l Lin) {
	j.ip.Invoke = func(c *callCtx) ([]Out, bool) {
		if (c.meth == "Value" || c.meth == "SetValue") && c.recv != nil {
			if r, ok := c.recv.(VIface); ok && r.Dyn == iterDyn {
				i := c.st.iterPos(c.recv)
				if !c.st.need(condGE(i.sub(f))) || !c.st.need(condGE(l.sub(i).addk(-1))) {
					panic(goPanicErr{"access to an element outside the range"})
				}
			}
		}
		return iterInvoke(c)
	}
}

func checkSwap(p *Prog, r *Result) {
	j := r.algJob(p, "algorithm", "Swap")
	if j == nil {
		return
	}
	st := j.ip.NewState()
	seq, f, l, _, _ := permSetup(st)
	a := st.freshIn("a", f, l.addk(-1))
	b := st.freshIn("b", f, l.addk(-1))
	j.confined(seq, f, l)
	j.run(st, []Value{st.newIter(seq, a), st.newIter(seq, b)}, func(s *State, ret []Value, pos token.Pos) {
		w := lin(s.keep["w"])
		switch {
		case s.need(condEQ(w.sub(a))):
			j.content(s, seq, w, b, pos, "the first position does not hold the second element")
		case s.need(condEQ(w.sub(b))):
			j.content(s, seq, w, a, pos, "the second position does not hold the first element")
		default:
			j.content(s, seq, w, w, pos, "another element is changed")
		}
	})
}

func checkReverse(p *Prog, r *Result) {
	j := r.algJob(p, "algorithm", "Reverse")
	if j == nil {
		return
	}
	st := j.ip.NewState()
	seq, f, l, first, last := permSetup(st)
	j.confined(seq, f, l)
	j.ip.AtHead = func(s *State) { retemplate(s, seq, []Value{mirrored(f, l.addk(-1))}) }
	j.ip.Part = func(s *State) string { return layout(s, seq) }
	j.run(st, []Value{first, last}, func(s *State, ret []Value, pos token.Pos) {
		w := lin(s.keep["w"])
		if s.need(condGE(w.sub(f))) && s.need(condGE(l.sub(w).addk(-1))) {
			j.content(s, seq, w, f.add(l).addk(-1).sub(w), pos, "the range is not reversed")
		} else {
			j.content(s, seq, w, w, pos, "an element outside the range is changed")
		}
	})
}

// checkNextPermutation follows what the comparator said about neighbours (column adj: G
// when an element is not greater than its left neighbour, L when it is) and, once the
// pivot is known, which elements behind it are greater than it.
func checkNextPermutation(p *Prog, r *Result) {
	j := r.algJob(p, "algorithm/sort", "NextPermutation")
	if j == nil {
		return
	}
	const adj = ".adj"
	st := j.ip.NewState()
	seq, f, l, first, last := permSetup(st)
	j.confined(seq, f, l)
	st.heap[seq].Cols[adj] = []Seg{{K(0), st.heap[seq].Len, T("U")}}
	j.ip.AtHead = func(s *State) {
		if pv := s.keep["pivot"]; pv != nil {
			retemplate(s, seq, []Value{mirrored(lin(pv), l)})
		}
	}
	j.ip.Unknown = func(c *callCtx) ([]Out, bool) {
		if len(c.args) != 2 {
			return nil, false
		}
		s := c.st
		x, ok1 := elIdx(c.args[0])
		y, ok2 := elIdx(c.args[1])
		if !ok1 || !ok2 {
			giveUp("comparison of %s with %s", showVal(c.args[0]), showVal(c.args[1]))
		}
		var outs []Out
		// sg: sign of the left one minus the right one
		res := func(st *State, sg int64) {
			if sg == 0 {
				outs = append(outs, Out{st, []Value{Kv(0)}})
			} else {
				outs = append(outs, Out{st, []Value{I(st.fresh("c", K(1)).mul(sg))}})
			}
		}
		pv := s.keep["pivot"]
		flip := int64(1)
		if s.need(condGE(x.sub(y).addk(-1))) {
			x, y, flip = y, x, -1
		}
		if s.need(condEQ(x.sub(y))) {
			res(s, 0)
			return outs, true
		}
		// x < y; the sign of el(x) compared with el(y) times flip is returned
		if s.need(condEQ(y.sub(x).addk(-1))) {
			switch v := s.arrGet(seq, adj, y).(VTerm).F; v {
			case "G":
				res(s.clone(), 0)
				res(s.clone(), flip)
			case "L":
				res(s, -flip)
			default:
				n := s.clone()
				n.arrSet(seq, adj, y, T("G"))
				res(n, 0)
				res(n.clone(), flip)
				n = s.clone()
				n.arrSet(seq, adj, y, T("L"))
				if pv == nil {
					n.keep["pivot"] = I(x)
					n.keep["gt"], n.keep["le"] = I(y), I(l)
				}
				res(n, -flip)
			}
			return outs, true
		}
		if pv == nil || !s.need(condEQ(x.sub(lin(pv)))) {
			// nothing is concluded from other comparisons
			for _, sg := range []int64{-1, 0, 1} {
				res(s.clone(), sg)
			}
			return outs, true
		}
		switch {
		case s.need(condGE(lin(s.keep["gt"]).sub(y))):
			res(s, -flip)
		case s.need(condGE(y.sub(lin(s.keep["le"])))):
			res(s.clone(), 0)
			res(s.clone(), flip)
		default:
			n := s.clone()
			n.keep["gt"] = I(y)
			res(n, -flip)
			n = s.clone()
			n.keep["le"] = I(y)
			res(n, 0)
			res(n.clone(), flip)
		}
		return outs, true
	}
	j.ip.Part = func(s *State) string {
		k := fmt.Sprint(layout(s, seq), s.keep["pivot"] != nil)
		for _, g := range s.col(seq, adj) {
			k += showVal(g.V)
		}
		return k
	}
	j.run(st, []Value{first, last, VUnk{"cmp"}}, func(s *State, ret []Value, pos token.Pos) {
		w := lin(s.keep["w"])
		descending := func(lo Lin) bool {
			if !s.need(condGE(l.sub(lo).addk(-1))) {
				return true
			}
			for _, g := range s.segSlice(s.col(seq, adj), lo, l, K(0)) {
				if s.need(condGE(g.Hi.sub(g.Lo).addk(-1))) && !valEq(g.V, T("G")) {
					return false
				}
			}
			return true
		}
		pv := s.keep["pivot"]
		if !s.need(ret[0].(VBool)) {
			if pv != nil || !descending(f.addk(1)) {
				j.fail(pos, "answers false although a greater permutation was not excluded %s", j.path(s))
				return
			}
			j.content(s, seq, w, w, pos, "an element is changed although there is no next permutation")
			return
		}
		if pv == nil {
			j.fail(pos, "answers true although no ascending pair was found %s", j.path(s))
			return
		}
		x, gt := lin(pv), lin(s.keep["gt"])
		if !descending(x.addk(2)) {
			j.fail(pos, "the pivot is not the last ascending position %s", j.path(s))
			return
		}
		if !j.must(s, condEQ(lin(s.keep["le"]).sub(gt).addk(-1)), pos, "the last element greater than the pivot was not determined") {
			return
		}
		switch {
		case s.need(condEQ(w.sub(x))):
			j.content(s, seq, w, gt, pos, "the pivot is not replaced by the last greater element behind it")
		case s.need(condGE(w.sub(x).addk(-1))) && s.need(condGE(l.sub(w).addk(-1))):
			o := x.add(l).sub(w)
			if s.need(condEQ(o.sub(gt))) {
				o = x
			}
			j.content(s, seq, w, o, pos, "the elements behind the pivot are not reversed")
		default:
			j.content(s, seq, w, w, pos, "an element before the pivot or outside the range is changed")
		}
	})
}

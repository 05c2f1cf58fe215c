package main

// C13: binary search and bounds on sorted ranges. C18 (part): Swap and Reverse.

import (
	"go/token"
)

func init() {
	checks["C13"] = func(p *Prog, r *Result) {
		r.Rule("abstract interpretation of BinarySearch, LowerBound and UpperBound over a sorted range of symbolic length, the sorted order being given by the two symbolic positions where the comparison with the value changes sign; every exit is compared with those positions, every access must be in range and every loop needs a ranking")
		r.Assumption("first and last are random access iterators delimiting a range of one container that is sorted by the comparator; the comparator is a total preorder; position arithmetic does not overflow")
		for _, n := range []string{"BinarySearch", "LowerBound", "UpperBound"} {
			checkSearch(p, r, n)
		}
		r.Need("algorithms", 3)
	}
}

func checkSearch(p *Prog, r *Result, name string) {
	j := r.algJob(p, "algorithm/sort", name)
	if j == nil {
		return
	}
	st := j.ip.NewState()
	seq, f, l, first, last := foldSetup(st)
	lb := st.freshIn("lb", f, l)
	ub := st.freshIn("ub", lb, l)
	st.keep["lb"], st.keep["ub"] = I(lb), I(ub)
	j.ip.K = 3
	j.ip.Invoke = iterInvoke
	j.ip.Unknown = func(c *callCtx) ([]Out, bool) {
		s := c.st
		if len(c.args) != 2 {
			return nil, false
		}
		a, b, sg := c.args[0], c.args[1], int64(1)
		if !valEq(a, T("value")) {
			a, b, sg = b, a, -1
		}
		if !valEq(a, T("value")) {
			giveUp("comparison of %s with %s", showVal(a), showVal(b))
		}
		if valEq(b, T("value")) {
			return []Out{{s, []Value{Kv(0)}}}, true
		}
		i, ok := elIdx(b)
		if !ok {
			giveUp("comparison with %s", showVal(b))
		}
		if !s.need(condGE(i.sub(f))) || !s.need(condGE(l.sub(i).addk(-1))) {
			panic(goPanicErr{"element outside the range examined"})
		}
		switch {
		case s.need(condGE(lb.sub(i).addk(-1))):
			return []Out{{s, []Value{I(s.fresh("c", K(1)).mul(sg))}}}, true
		case s.need(condGE(ub.sub(i).addk(-1))):
			return []Out{{s, []Value{Kv(0)}}}, true
		}
		return []Out{{s, []Value{I(s.fresh("c", K(1)).mul(-sg))}}}, true
	}
	j.run(st, []Value{first, last, T("value"), VUnk{"cmp"}}, func(s *State, ret []Value, pos token.Pos) {
		switch name {
		case "BinarySearch":
			if s.need(condGE(ub.sub(lb).addk(-1))) != s.need(ret[0].(VBool)) {
				j.fail(pos, "the answer does not agree with the presence of the value %s", j.path(s))
			}
		case "LowerBound":
			j.mustEq(s, I(s.iterPos(ret[0])), I(lb), pos, "the position is not the first element >= value (last if none)")
		case "UpperBound":
			j.mustEq(s, I(s.iterPos(ret[0])), I(ub), pos, "the position is not the first element > value (last if none)")
		}
		if s.heap[seq] == nil {
			return
		}
	})
}

package main

// C14: counting, searching, minimum/maximum and predicate algorithms give the answer
// their documentation describes, on every range.

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// foldSetup builds a sequence with a valid range [f,l) and iterators for its ends.
func foldSetup(st *State) (seq int, f, l Lin, first, last Value) {
	n := st.fresh("len", K(0))
	f = st.freshIn("first", K(0), n)
	l = st.freshIn("last", f, n)
	seq = st.newSeq(n)
	first, last = st.newIter(seq, f), st.newIter(seq, l)
	st.keep["seq"] = VPtr{seq, ""}
	st.keep["f"], st.keep["l"] = I(f), I(l)
	return
}

// elIdx recognises an element of the original sequence.
func elIdx(v Value) (Lin, bool) {
	t, ok := v.(VTerm)
	if !ok || t.F != "el" {
		return Lin{}, false
	}
	return t.A[0].(VInt).L, true
}

const (
	ghKnown = ".known" // column: element already examined
)

func ghost(st *State, name string) Lin {
	return st.cell(st.keep["ghost"].(VPtr).Obj, name).(VInt).L
}
func setGhost(st *State, name string, l Lin) { st.setCell(st.keep["ghost"].(VPtr).Obj, name, I(l)) }

// observe records the outcome of a test on element i: on the first test the state
// forks on the answer; the number of satisfying and failing elements and the first
// satisfying position are kept as ghost values.
func observe(st *State, seq int, i Lin) []struct {
	st  *State
	yes bool
} {
	type res = struct {
		st  *State
		yes bool
	}
	if valEq(st.arrGet(seq, ghKnown, i), T("K")) {
		// asked again: the answer is some fixed truth value, not tracked further
		a, b := st.clone(), st.clone()
		return []res{{a, true}, {b, false}}
	}
	st.arrSet(seq, ghKnown, i, T("K"))
	no := st.clone()
	setGhost(no, "no", ghost(no, "no").addk(1))
	yes := st
	earlier := yes.need(condGE(ghost(yes, "minY").sub(i).addk(-1)))
	setGhost(yes, "yes", ghost(yes, "yes").addk(1))
	if earlier {
		setGhost(yes, "minY", i)
	}
	return []res{{yes, true}, {no, false}}
}

func foldGhost(st *State, seq int, f, l Lin) {
	o := st.newObj("ghost")
	st.keep["ghost"] = VPtr{o, ""}
	st.heap[o].Cells["yes"] = Kv(0)
	st.heap[o].Cells["no"] = Kv(0)
	st.heap[o].Cells["minY"] = I(l) // first satisfying position, l when none is known
	st.heap[seq].Cols[ghKnown] = []Seg{{K(0), f, T("X")}, {f, l, T("U")}, {l, st.heap[seq].Len, T("X")}}
}

// knownAll requires that every element of [lo,hi) was examined.
func (j *Job) knownAll(s *State, seq int, lo, hi Lin, pos token.Pos, what string) {
	if !s.need(condGE(hi.sub(lo).addk(-1))) {
		return
	}
	for _, g := range s.segSlice(s.col(seq, ghKnown), lo, hi, K(0)) {
		if s.need(condGE(g.Hi.sub(g.Lo).addk(-1))) && !valEq(g.V, T("K")) {
			if debugOn {
				dbg("unexamined %s..%s\n%s", g.Lo, g.Hi, s.dump())
			}
			j.fail(pos, "%s although elements %s..%s of the range were never examined %s", what, g.Lo, g.Hi, j.path(s))
			return
		}
	}
}

func init() {
	checks["C14"] = func(p *Prog, r *Result) {
		r.Rule("abstract interpretation of each algorithm over a sequence of symbolic length and content, a ghost record of the elements examined and of the answers given, and a comparison of every exit with the documented result; loops by fixpoint over linear invariants")
		r.Assumption("first and last delimit a valid range of one container, last reachable from first; comparators and predicates are deterministic and do not move what they are given; comparators are symmetric in the sense of C05")
		for _, name := range []string{"Count", "CountIf", "Find", "FindIf", "AnyOf", "AllOf", "NoneOf"} {
			checkFold(p, r, name)
		}
		checkExtremum(p, r, "MaxElement", 1)
		checkExtremum(p, r, "MinElement", -1)
		r.Need("algorithms", 9)
	}
}

func (r *Result) algJob(p *Prog, pkg, name string) *Job {
	j := r.job(p, "result", p.Func(pkg, name), pkg+"."+name)
	if j != nil {
		r.Count("algorithms", 1)
		r.Sample(j.name)
	}
	return j
}

func checkFold(p *Prog, r *Result, name string) {
	j := r.algJob(p, "algorithm", name)
	if j == nil {
		return
	}
	st := j.ip.NewState()
	seq, f, l, first, last := foldSetup(st)
	foldGhost(st, seq, f, l)
	j.ip.Invoke = iterInvoke
	var args []Value
	byValue := name == "Count" || name == "Find"
	if byValue {
		args = []Value{first, last, T("value"), VUnk{"cmp"}}
	} else {
		args = []Value{first, last, VUnk{"pred"}}
	}
	j.ip.Unknown = func(c *callCtx) ([]Out, bool) {
		s := c.st
		var i Lin
		if byValue {
			if len(c.args) != 2 {
				return nil, false
			}
			a, b := c.args[0], c.args[1]
			if !valEq(b, T("value")) {
				a, b = b, a
			}
			x, ok := elIdx(a)
			if !ok || !valEq(b, T("value")) {
				giveUp("comparison of %s with %s", showVal(c.args[0]), showVal(c.args[1]))
			}
			i = x
		} else {
			i = s.iterPos(c.args[0])
			if !s.need(condGE(i)) || !s.need(condGE(s.heap[seq].Len.sub(i).addk(-1))) {
				panic(goPanicErr{"predicate applied out of range"})
			}
		}
		if !s.need(condGE(i.sub(f))) || !s.need(condGE(l.sub(i).addk(-1))) {
			panic(goPanicErr{"element outside the range examined"})
		}
		var outs []Out
		for _, o := range observe(s, seq, i) {
			var v Value = boolV(o.yes)
			if byValue {
				if o.yes {
					v = Kv(0)
				} else {
					// non-zero of either sign
					for _, sg := range []int64{1, -1} {
						n := o.st.clone()
						outs = append(outs, Out{n, []Value{I(n.fresh("c", K(1)).mul(sg))}})
					}
					continue
				}
			}
			outs = append(outs, Out{o.st, []Value{v}})
		}
		return outs, true
	}
	j.run(st, args, func(s *State, ret []Value, pos token.Pos) {
		yes, no, minY := ghost(s, "yes"), ghost(s, "no"), ghost(s, "minY")
		all := func(what string) { j.knownAll(s, seq, f, l, pos, what) }
		switch name {
		case "Count", "CountIf":
			all("returns a count")
			j.mustEq(s, ret[0], I(yes), pos, "the count is not the number of elements that satisfy the condition")
		case "Find", "FindIf":
			j.knownAll(s, seq, f, minY, pos, "returns a position")
			j.mustEq(s, I(s.iterPos(ret[0])), I(minY), pos, "the position returned is not the first satisfying element (or last when there is none)")
		case "AnyOf", "NoneOf", "AllOf":
			b := s.need(ret[0].(VBool))
			ex := yes
			if name == "AllOf" {
				ex = no
			}
			if b == (name == "AnyOf") {
				j.must(s, condGE(ex.addk(-1)), pos, "answers %v without a witness", b)
			} else {
				all("answers for all elements")
				j.must(s, condEQ(ex), pos, "answers %v although a counterexample was seen", b)
			}
		}
	})
}

func checkExtremum(p *Prog, r *Result, name string, dir int64) {
	j := r.algJob(p, "algorithm", name)
	if j == nil {
		return
	}
	st := j.ip.NewState()
	seq, f, l, first, last := foldSetup(st)
	o := st.newObj("ghost")
	st.keep["ghost"] = VPtr{o, ""}
	st.heap[o].Cells["best"] = VNil{} // position of the first best element among those examined
	st.heap[seq].Cols[ghKnown] = []Seg{{K(0), f, T("X")}, {f, l, T("U")}, {l, st.heap[seq].Len, T("X")}}
	j.ip.Invoke = iterInvoke
	j.ip.Unknown = func(c *callCtx) ([]Out, bool) {
		s := c.st
		if len(c.args) != 2 {
			return nil, false
		}
		x, ok1 := elIdx(c.args[0])
		y, ok2 := elIdx(c.args[1])
		if !ok1 || !ok2 {
			giveUp("comparison of %s with %s", showVal(c.args[0]), showVal(c.args[1]))
		}
		for _, i := range []Lin{x, y} {
			if !s.need(condGE(i.sub(f))) || !s.need(condGE(l.sub(i).addk(-1))) {
				panic(goPanicErr{"element outside the range examined"})
			}
		}
		if valEq(s.cell(s.keep["ghost"].(VPtr).Obj, "best"), VNil{}) {
			setGhost(s, "best", y)
			s.arrSet(seq, ghKnown, y, T("K"))
		}
		best := ghost(s, "best")
		if s.need(condEQ(x.sub(y))) {
			return []Out{{s, []Value{Kv(0)}}}, true
		}
		other, sg := x, dir // sg * result > 0 means other is better
		switch {
		case s.need(condEQ(y.sub(best))):
		case s.need(condEQ(x.sub(best))):
			other, sg = y, -dir
		default:
			return []Out{{s, []Value{I(S(newSym("c")))}}}, true
		}
		if valEq(s.arrGet(seq, ghKnown, other), T("K")) {
			return []Out{{s, []Value{I(S(newSym("c")))}}}, true
		}
		s.arrSet(seq, ghKnown, other, T("K"))
		before := s.need(condGE(best.sub(other).addk(-1)))
		mk := func(sign int64) Out {
			n := s.clone()
			c := n.fresh("c", K(1)).mul(sign * sg)
			if sign == 0 {
				c = K(0)
			}
			if sign > 0 || sign == 0 && before {
				setGhost(n, "best", other)
			}
			return Out{n, []Value{I(c)}}
		}
		return []Out{mk(1), mk(0), mk(-1)}, true
	}
	j.run(st, []Value{first, last, VUnk{"cmp"}}, func(s *State, ret []Value, pos token.Pos) {
		at := s.iterPos(ret[0])
		if s.need(condEQ(l.sub(f))) {
			j.mustEq(s, I(at), I(l), pos, "an empty range must give last")
			return
		}
		if valEq(s.cell(s.keep["ghost"].(VPtr).Obj, "best"), VNil{}) {
			j.must(s, condEQ(l.sub(f).addk(-1)), pos, "no comparison was made on a range of several elements")
			j.mustEq(s, I(at), I(f), pos, "the only element is the extremum")
			return
		}
		best := ghost(s, "best")
		j.knownAll(s, seq, f, l, pos, "returns an extremum")
		j.mustEq(s, I(at), I(best), pos, "the position returned is not the first extremum")
	})
}

var _ *ssa.Function

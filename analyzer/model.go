package main

// Harness for Engine B: an obligation analyses one exported operation from a fully
// general abstract pre-state and compares every exit with its specification.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Job is the analysis of one operation under one specification.
type Job struct {
	p    *Prog
	r    *Result
	rule string
	name string // construct reported
	fn   *ssa.Function
	ip   *Interp
	bad  bool
	// what the specification calls the exits it accepts
	normal, panics int
	allowPanic     bool
	noTerm         bool
	onPanic        func(s *State, o Outcome)
}

// job prepares the analysis of fn; it returns nil (and reports) when fn does not exist.
func (r *Result) job(p *Prog, rule string, fn *ssa.Function, what string) *Job {
	if debugOn {
		dbg("JOB %s", what)
	}
	if fn == nil {
		r.Fail(rule, what, "-", "%s is not declared any more, so the property cannot be established for it", what)
		return nil
	}
	j := &Job{p: p, r: r, rule: rule, name: p.fname(fn), fn: fn}
	setDeadline()
	knownBits = map[int64][]Lin{}
	j.ip = newInterp(p)
	j.ip.Undecided = func(msg string, pos token.Pos) {
		j.bad = true
		r.Fail(rule, j.name, p.Pos(pos), "undecided: %s", msg)
	}
	return j
}

func (j *Job) fail(pos token.Pos, f string, a ...any) {
	j.bad = true
	j.r.Fail(j.rule, j.name, j.p.Pos(pos), f, a...)
}

// run analyses the operation; end is called for every normal exit in every case split.
func (j *Job) run(st *State, args []Value, end func(st *State, ret []Value, pos token.Pos)) {
	j.ip.End = func(st *State, o Outcome) {
		if o.Panic != "" {
			j.panics++
			if !j.allowPanic {
				if debugOn {
					dbg("panic %s in %s\n%s", o.Panic, j.name, st.dump())
				}
				j.fail(o.Pos, "the operation can panic (%s) %s", o.Panic, j.path(st))
				return
			}
			if j.onPanic != nil {
				if e := splitRun(st, func(s *State) { j.onPanic(s, o) }); e != "" {
					j.fail(o.Pos, "undecided at the panic: %s", e)
				}
			}
			return
		}
		j.normal++
		st.keep["ret"] = VTuple{o.Ret}
		if e := splitRun(st, func(s *State) { end(s, s.keep["ret"].(VTuple).E, o.Pos) }); e != "" {
			j.fail(o.Pos, "undecided at exit: %s", e)
		}
	}
	j.ip.Analyse(j.fn, st, args)
	j.done()
}

// runBound analyses a closure value.
func (j *Job) runBound(st *State, c VClo, args []Value, end func(st *State, ret []Value, pos token.Pos)) {
	j.ip.bound = c.Bind
	j.fn = c.Fn
	j.run(st, args, end)
}

func (j *Job) done() {
	defer setDeadline()
	if !j.bad && !j.noTerm {
		var bad []string
		var ok int
		func() {
			defer func() {
				if e := recover(); e != nil {
					if u, is := e.(undecidedErr); is {
						j.fail(j.fn.Pos(), "termination undecided: %s", u.msg)
						return
					}
					panic(e)
				}
			}()
			bad, ok = j.ip.Terminates()
		}()
		for _, b := range bad {
			j.fail(j.fn.Pos(), "no ranking shows that %s terminates", b)
		}
		j.r.Count("loops ranked", ok)
	}
	if j.normal == 0 && !j.bad && !j.allowPanic {
		j.fail(j.fn.Pos(), "no normal exit is reachable")
	}
	j.r.Count("exits", j.normal+j.panics)
	j.r.Count("basic blocks", len(j.ip.nblocks))
	j.r.Count("functions", len(j.ip.nfuncs))
}

func (j *Job) path(st *State) string {
	if len(st.trace) == 0 {
		return ""
	}
	var p []string
	last := ""
	for _, t := range st.trace {
		s := j.p.Pos(t)
		if s != "-" && s != last {
			p = append(p, s)
		}
		last = s
	}
	if len(p) > 8 {
		p = p[len(p)-8:]
	}
	return "after branches at " + strings.Join(p, ", ")
}

// must checks a goal at an exit.
func (j *Job) must(st *State, c VBool, pos token.Pos, f string, a ...any) bool {
	if st.decide(c) == 1 {
		return true
	}
	if debugOn {
		dbg("goal %s not shown in %s: %s\n%s", showVal(c), j.name, fmt.Sprintf(f, a...), st.dump())
	}
	j.fail(pos, "%s %s", fmt.Sprintf(f, a...), j.path(st))
	return false
}

func (j *Job) mustEq(st *State, a, b Value, pos token.Pos, f string, x ...any) bool {
	if st.sameVal(a, b) {
		return true
	}
	if debugOn {
		dbg("goal %s = %s not shown in %s: %s\n%s", showVal(a), showVal(b), j.name, fmt.Sprintf(f, x...), st.dump())
	}
	j.fail(pos, "%s (found %s, expected %s) %s", fmt.Sprintf(f, x...), showVal(a), showVal(b), j.path(st))
	return false
}

// splitRun runs f on st and, whenever f needs an open condition, on its cases.
func splitRun(st *State, f func(*State)) (undecided string) {
	n := 0
	var rec func(s *State)
	rec = func(s *State) {
		n++
		if n > 400 {
			undecided = "too many cases"
			return
		}
		var split *splitErr
		var fork []*State
		func() {
			defer func() {
				switch e := recover().(type) {
				case nil:
				case splitErr:
					split = &e
				case forkErr:
					fork = e.states(s)
				case undecidedErr:
					undecided = e.msg
				case goPanicErr:
					undecided = "specification reads through " + e.kind
				default:
					panic(e)
				}
			}()
			f(s.clone())
		}()
		for _, m := range fork {
			rec(m)
		}
		if split != nil {
			for _, c := range []VBool{split.cond, split.cond.not()} {
				for _, m := range s.assume(c) {
					rec(m)
				}
			}
		}
	}
	rec(st)
	return
}

// fresh integer with bounds lo <= x (<= hi).
func (s *State) fresh(name string, lo Lin) Lin {
	y := S(newSym(name))
	s.addFact(y.sub(lo))
	return y
}

func (s *State) freshIn(name string, lo, hi Lin) Lin {
	y := s.fresh(name, lo)
	s.addFact(hi.sub(y))
	return y
}

// ---- model sequences and iterators

const iterDyn = "model:iter"

// newSeq makes a modelled container holding el(0..n-1).
func (s *State) newSeq(n Lin) int {
	a := s.newArr("seq", n)
	s.heap[a].Cols[""] = []Seg{{K(0), n, T("el", I(S(iotaSym)))}}
	return a
}

func (s *State) newIter(seq int, pos Lin) Value {
	o := s.newObj("iter")
	s.heap[o].Cells[".seq"] = VPtr{seq, ""}
	s.heap[o].Cells[".pos"] = I(pos)
	return VIface{iterDyn, VPtr{o, ""}}
}

func (s *State) iterPos(v Value) Lin {
	i, ok := v.(VIface)
	if !ok || i.Dyn != iterDyn {
		giveUp("%s is not a modelled iterator", showVal(v))
	}
	return s.cell(i.V.(VPtr).Obj, ".pos").(VInt).L
}

// iterInvoke models the documented behaviour of random access iterators: Next moves
// unless past the end, Prev unless before the beginning; Value and SetValue need a position in range.
func iterInvoke(c *callCtx) ([]Out, bool) {
	r, ok := c.recv.(VIface)
	if !ok || r.Dyn != iterDyn {
		return nil, false
	}
	s := c.st
	o := r.V.(VPtr).Obj
	seq := s.cell(o, ".seq").(VPtr).Obj
	pos := s.cell(o, ".pos").(VInt).L
	n := s.heap[seq].Len
	one := func(v ...Value) ([]Out, bool) { return []Out{{s, v}}, true }
	inRange := func() {
		if !s.need(condGE(pos)) || !s.need(condGE(n.sub(pos).addk(-1))) {
			panic(goPanicErr{c.meth + " through an iterator that is out of range"})
		}
	}
	switch c.meth {
	case "IsValid":
		if !s.need(condGE(pos)) {
			return one(bFalse)
		}
		return one(condGE(n.sub(pos).addk(-1)))
	case "Next":
		if s.need(condGE(n.sub(pos).addk(-1))) {
			s.setCell(o, ".pos", I(pos.addk(1)))
		}
		return one(c.recv)
	case "Prev":
		if s.need(condGE(pos)) {
			s.setCell(o, ".pos", I(pos.addk(-1)))
		}
		return one(c.recv)
	case "Value":
		inRange()
		return one(s.arrGet(seq, "", pos))
	case "SetValue":
		inRange()
		s.arrSet(seq, "", pos, c.args[0])
		return one()
	case "Clone":
		return one(s.newIter(seq, pos))
	case "Equal":
		o2, ok := c.args[0].(VIface)
		if !ok || o2.Dyn != iterDyn {
			return one(bFalse)
		}
		if s.cell(o2.V.(VPtr).Obj, ".seq").(VPtr).Obj != seq {
			return one(bFalse)
		}
		return one(condEQ(pos.sub(s.iterPos(o2))))
	case "Position":
		return one(I(pos))
	case "IteratorAt":
		p, ok := c.args[0].(VInt)
		if !ok {
			giveUp("IteratorAt with an untracked position")
		}
		return one(s.newIter(seq, p.L))
	}
	return nil, false
}

// paramIs tells whether the i-th parameter of f has the given named type suffix.
func paramType(f *ssa.Function, i int) types.Type { return f.Params[i].Type() }

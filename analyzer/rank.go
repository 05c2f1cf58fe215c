package main

// Termination of loops: after the fixpoint, one more pass around each loop from its
// invariant records how the linear quantities change; a lexicographic ranking over
// templates x and x-y must decrease on every way around the loop.

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type transition struct {
	st  *State
	old map[string]Lin
	new map[string]Lin
	// from and to are the abstract states at the head the way leads between (to: -1 unknown)
	from, to int
}

type rankCtx struct {
	key   string
	depth int // index of the frame that owns the loop
	fn    *ssa.Function
	body  map[*ssa.BasicBlock]bool
	trans []transition
	names []string
	es    []*entry
	from  int
}

// loopBody is the natural loop of a head.
func loopBody(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{h: true}
	var stack []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			stack = append(stack, p)
		}
	}
	for len(stack) > 0 {
		b := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if body[b] {
			continue
		}
		body[b] = true
		stack = append(stack, b.Preds...)
	}
	return body
}

func loopPos(b *ssa.BasicBlock) (p token.Pos) {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return b.Parent().Pos()
}

// quantities names the linear quantities of a state by access path.
func (s *State) quantities() map[string]Lin {
	out := map[string]Lin{}
	seen := map[int]bool{}
	var visit func(path string, v Value)
	var obj func(path string, id int)
	obj = func(path string, id int) {
		o := s.heap[id]
		if o == nil || seen[id] {
			return
		}
		seen[id] = true
		if o.IsArr {
			out[path+".len"] = o.Len
			for _, c := range sortedKeys(o.Cols) {
				for i, g := range o.Cols[c] {
					if i > 0 {
						out[fmt.Sprintf("%s%s[%d]", path, c, i)] = g.Lo
					}
				}
			}
			return
		}
		for _, c := range sortedKeys(o.Cells) {
			visit(path+c, o.Cells[c])
		}
	}
	visit = func(path string, v Value) {
		switch x := v.(type) {
		case VInt:
			out[path] = x.L
		case VElem:
			out[path+".idx"] = x.Idx
			obj(path+"*", x.Arr)
		case VPtr:
			obj(path+"*", x.Obj)
		case VIface:
			visit(path, x.V)
		case VSlice:
			out[path+".off"] = x.Off
			out[path+".len"] = x.Len
			obj(path+"*", x.Arr)
		case VStruct:
			for i, y := range x.F {
				visit(fmt.Sprintf("%s.%d", path, i), y)
			}
		case VTuple:
			for i, y := range x.E {
				visit(fmt.Sprintf("%s.%d", path, i), y)
			}
		case VClo:
			for i, y := range x.Bind {
				visit(fmt.Sprintf("%s.%d", path, i), y)
			}
		}
	}
	for i, fr := range s.frames {
		for k, v := range fr.regs {
			if v != nil {
				visit(fmt.Sprintf("f%d.r%d", i, k), v)
			}
		}
	}
	for _, k := range sortedKeys(s.keep) {
		if !strings.HasPrefix(k, "rank:") {
			visit(k, s.keep[k])
		}
	}
	return out
}

// inLoop: is the state still inside the loop being ranked?
func (rc *rankCtx) inLoop(s *State) bool {
	if len(s.frames) <= rc.depth {
		return false
	}
	fr := s.frames[rc.depth]
	return fr.fn == rc.fn && rc.body[fr.block]
}

// arrive is called at a head during ranking; it reports whether the state was consumed.
func (rc *rankCtx) arrive(ip *Interp, s *State, key string) bool {
	if !rc.inLoop(s) {
		return true
	}
	if key != rc.key {
		return false
	}
	t := transition{st: s, old: map[string]Lin{}, new: s.quantities(), from: rc.from, to: -1}
	c := s.clone()
	for k := range c.keep {
		if strings.HasPrefix(k, "rank:") {
			delete(c.keep, k)
		}
	}
	for i, e := range rc.es {
		if ip.subsumed(c, e.st) {
			t.to = i
			break
		}
	}
	for k, v := range s.keep {
		if strings.HasPrefix(k, "rank:") {
			t.old[k[5:]] = v.(VInt).L
		}
	}
	rc.trans = append(rc.trans, t)
	return true
}

// Terminates checks every loop met by the analysis and returns the unproved ones.
func (ip *Interp) Terminates() (bad []string, proved int) {
	heads := ip.heads
	var keys []string
	loops := map[string][]*entry{}
	for _, k := range sortedKeys(heads) {
		b, _, _ := strings.Cut(k, "#")
		if loops[b] == nil {
			keys = append(keys, b)
		}
		loops[b] = append(loops[b], heads[k]...)
	}
	sort.Strings(keys)
	for _, k := range keys {
		es := loops[k]
		if len(es) == 0 {
			continue
		}
		s0 := es[0].st
		fr := s0.top()
		rc := &rankCtx{key: k, depth: len(s0.frames) - 1, fn: fr.fn, body: loopBody(fr.block), es: es}
		ip.heads = map[string][]*entry{}
		ip.rank = rc
		for i, e := range es {
			rc.from = i
			n := e.st.clone()
			for name, l := range n.quantities() {
				n.keep["rank:"+name] = I(l)
			}
			ip.work = append(ip.work, n)
			for len(ip.work) > 0 && !ip.stop {
				s := ip.work[len(ip.work)-1]
				ip.work = ip.work[:len(ip.work)-1]
				ip.run(s)
			}
		}
		ip.rank = nil
		if ip.stop {
			return
		}
		if !rc.ranked() {
			bad = append(bad, ip.p.fname(fr.fn)+" (loop at "+ip.p.Pos(loopPos(fr.block))+")")
		} else {
			proved++
		}
	}
	ip.heads = heads
	return
}

// ranked looks for a lexicographic linear ranking.
func (rc *rankCtx) ranked() bool {
	rest := rc.cyclic()
	changed := map[string]bool{}
	common := map[string]int{}
	for _, t := range rest {
		for n, o := range t.old {
			if v, ok := t.new[n]; ok {
				common[n]++
				if !v.eq(o) {
					changed[n] = true
				}
			}
		}
	}
	var ch, all []string
	for _, n := range sortedKeys(common) {
		all = append(all, n)
		if changed[n] {
			ch = append(ch, n)
		}
	}
	if debugOn {
		dbg("ranking %s block: %d ways around, changing %v", rc.fn.Name(), len(rest), ch)
	}
	type cand struct {
		x, y string
		k    int64
	}
	var cands []cand
	for _, x := range ch {
		cands = append(cands, cand{x, "", 1}, cand{x, "", -1})
	}
	for _, x := range ch {
		for _, y := range all {
			if x != y {
				cands = append(cands, cand{x, y, 1}, cand{x, y, -1})
			}
		}
	}
	eval := func(m map[string]Lin, c cand) (Lin, bool) {
		x, ok := m[c.x]
		if !ok {
			return x, false
		}
		if c.y == "" {
			return x.mul(c.k), true
		}
		y, ok := m[c.y]
		return x.sub(y).mul(c.k), ok
	}
	for len(rest) > 0 {
		progress := false
		for _, c := range cands {
			var left []transition
			ok := true
			for _, t := range rest {
				o, ok1 := eval(t.old, c)
				n, ok2 := eval(t.new, c)
				if !ok1 || !ok2 || !t.st.entails(o.sub(n)) {
					ok = false
					break
				}
				if !(t.st.entails(o.sub(n).addk(-1)) && t.st.entails(o.addk(4))) {
					left = append(left, t)
				}
			}
			if ok && len(left) < len(rest) {
				rest = left
				progress = true
				break
			}
		}
		if !progress {
			if debugOn {
				for _, t := range rest {
					dbg("no ranking for way around:")
					for _, n := range ch {
						dbg("   %s: %s -> %s", n, t.old[n], t.new[n])
					}
					for _, f := range t.st.facts {
						dbg("   %s>=0", f)
					}
				}
			}
			return false
		}
	}
	return true
}

// cyclic drops the ways around the loop that cannot be part of an infinite run: those that
// lead to an abstract state from which their own start is never reached again.
func (rc *rankCtx) cyclic() []transition {
	next := map[int]map[int]bool{}
	for _, t := range rc.trans {
		if t.to < 0 {
			return rc.trans
		}
		if next[t.from] == nil {
			next[t.from] = map[int]bool{}
		}
		next[t.from][t.to] = true
	}
	reach := func(a, b int) bool {
		seen := map[int]bool{a: true}
		work := []int{a}
		for len(work) > 0 {
			x := work[len(work)-1]
			work = work[:len(work)-1]
			if x == b {
				return true
			}
			for y := range next[x] {
				if !seen[y] {
					seen[y] = true
					work = append(work, y)
				}
			}
		}
		return false
	}
	var out []transition
	for _, t := range rc.trans {
		if reach(t.to, t.from) {
			out = append(out, t)
		}
	}
	return out
}

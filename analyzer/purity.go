package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// observers are the exported operations that answer a question about a container,
// element, node or iterator; calling one must not change anything its operands reach.
var observers = map[string]bool{
	"Size": true, "Len": true, "Empty": true, "Get": true, "Contains": true, "Find": true, "FindNode": true,
	"LowerBound": true, "UpperBound": true, "FindLowerBoundNode": true, "FindUpperBoundNode": true,
	"At": true, "Front": true, "Back": true, "Top": true, "Begin": true, "End": true, "First": true, "Last": true, "RBegin": true,
	"IterAt": true, "IterFirst": true, "IterLast": true, "IsValid": true, "Value": true, "Key": true, "Clone": true, "Equal": true,
	"Position": true, "IteratorAt": true, "String": true, "Data": true, "Keys": true, "StringKeys": true, "Traversal": true,
	"IsSet": true, "Count": true, "Capacity": true, "Compare": true, "IsRbTree": true, "Union": true, "Intersect": true, "Diff": true,
	"FrontNode": true, "BackNode": true, "Less": true, "Type": true, "BitPosNum": true, "Index": true,
}

// readOnlyAlgorithms must not write anything reachable from their iterator arguments.
var readOnlyAlgorithms = map[string][]string{
	"algorithm":      {"Count", "CountIf", "Find", "FindIf", "MaxElement", "MinElement", "AnyOf", "AllOf", "NoneOf"},
	"algorithm/sort": {"BinarySearch", "LowerBound", "UpperBound"},
}

func hasMethods(n *types.Named, names ...string) bool {
	ms := map[string]bool{}
	for i := 0; i < n.NumMethods(); i++ {
		ms[n.Method(i).Name()] = true
	}
	for _, x := range names {
		if !ms[x] {
			return false
		}
	}
	return true
}

// iteratorTypes lists the concrete iterator types of the module.
func (p *Prog) iteratorTypes() map[string]*types.Named {
	out := map[string]*types.Named{}
	for _, tp := range p.TPkgs {
		for _, name := range tp.Scope().Names() {
			tn, ok := tp.Scope().Lookup(name).(*types.TypeName)
			if !ok {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if ok && !types.IsInterface(n) && hasMethods(n, "IsValid", "Next", "Value", "Clone", "Equal") {
				out[typeKey(n)] = n
			}
		}
	}
	return out
}

func isIteratorIface(t types.Type) bool {
	return strings.HasPrefix(typeKey(t), "utils/iterator.")
}

func init() {
	checks["C27"] = func(p *Prog, r *Result) {
		r.Rule("an observing operation (by public name, on every module type) has an empty interprocedural write set on its receiver and container operands; Next/Prev of an iterator write only the iterator's own fields, SetValue never does")
		sums := p.Summaries()
		iters := p.iteratorTypes()
		for _, f := range p.Funcs {
			if f.Parent() != nil || f.Signature.Recv() == nil || !token.IsExported(f.Name()) {
				continue
			}
			rt := namedOf(f.Signature.Recv().Type())
			if rt == nil || isLockerType(rt) {
				continue
			}
			s := sums[f]
			name := p.fname(f)
			_, isIter := iters[typeKey(rt)]
			switch {
			case observers[f.Name()]:
				r.Count("observers", 1)
				r.Sample(name)
				for i, pa := range f.Params {
					if i > 0 && !isModuleNamed(pa.Type()) {
						continue
					}
					root := "p" + string(rune('0'+i))
					for _, d := range sortedKeys(s.Writes[root]) {
						st := s.Writes[root][d]
						r.Fail("observer-writes", name+":"+root, p.Pos(st.Pos), "%s only observes its operands but performs: %s, in %s", name, d, p.fname(st.Fn))
					}
				}
			case isIter && (f.Name() == "Next" || f.Name() == "Prev"):
				r.Count("iterator_moves", 1)
				for _, d := range sortedKeys(s.Writes["p0"]) {
					if !strings.HasPrefix(d, "write of "+typeKey(rt)+".") {
						st := s.Writes["p0"][d]
						r.Fail("move-writes", name, p.Pos(st.Pos), "%s moves an iterator but also performs: %s, in %s", name, d, p.fname(st.Fn))
					}
				}
			case isIter && f.Name() == "SetValue":
				r.Count("iterator_stores", 1)
				for _, d := range sortedKeys(s.Writes["p0"]) {
					if strings.HasPrefix(d, "write of "+typeKey(rt)+".") {
						st := s.Writes["p0"][d]
						r.Fail("store-moves", name, p.Pos(st.Pos), "%s stores a value but also moves the iterator: %s", name, d)
					}
				}
			}
		}
		r.Need("observers", 190)
		r.Need("iterator_moves", 14)
		r.Need("iterator_stores", 6)
		r.Assumption("caller-supplied comparators, visitors and element types have no side effects on the container")
	}
	checks["C15"] = func(p *Prog, r *Result) {
		r.Rule("interprocedural write sets with interface calls resolved to every iterator implementation in the module: no exported algorithm writes a field of an iterator reachable from its arguments, and the read-only algorithms write nothing reachable from them")
		sums := p.Summaries()
		iters := p.iteratorTypes()
		for _, rel := range []string{"algorithm", "algorithm/sort"} {
			ro := map[string]bool{}
			for _, n := range readOnlyAlgorithms[rel] {
				ro[n] = true
				if p.Func(rel, n) == nil {
					r.Fail("anchor", rel+"."+n, "-", "the public algorithm %s.%s is gone", rel, n)
				}
			}
			for _, f := range p.Funcs {
				if f.Parent() != nil || f.Signature.Recv() != nil || !token.IsExported(f.Name()) || p.rel(f) != rel {
					continue
				}
				s := sums[f]
				name := p.fname(f)
				for i, pa := range f.Params {
					if !isIteratorIface(pa.Type()) {
						continue
					}
					r.Count("iterator_arguments", 1)
					r.Sample(name + " argument " + pa.Name())
					root := "p" + string(rune('0'+i))
					for _, d := range sortedKeys(s.Writes[root]) {
						st := s.Writes[root][d]
						itf := ""
						for k := range iters {
							if strings.HasPrefix(d, "write of "+k+".") {
								itf = k
							}
						}
						if itf != "" {
							r.Fail("moves-argument", name+":"+pa.Name(), p.Pos(st.Pos), "%s moves the iterator its caller passed as %s: %s, in %s", name, pa.Name(), d, p.fname(st.Fn))
						} else if ro[f.Name()] {
							r.Fail("writes-elements", name+":"+pa.Name(), p.Pos(st.Pos), "%s is read-only but performs: %s, in %s", name, d, p.fname(st.Fn))
						}
					}
				}
			}
		}
		r.Count("iterator_implementations", len(iters))
		r.Need("iterator_arguments", 36)
		r.Need("iterator_implementations", 9)
		r.Assumption("caller-supplied predicates and comparators do not move the iterator or change the elements they are handed")
	}
	checks["C28"] = func(p *Prog, r *Result) {
		r.Rule("no function outside package initialisation writes memory reachable from a package variable, no exported constructor returns such memory, and no copying operation leaves its result reachable from, or reaching, its source's memory (interprocedural alias summaries)")
		sums := p.Summaries()
		for _, f := range p.Funcs {
			if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
				continue
			}
			s := sums[f]
			name := p.fname(f)
			r.Count("functions", 1)
			for _, root := range sortedKeys(s.Writes) {
				if strings.HasPrefix(root, "g:") {
					for _, d := range sortedKeys(s.Writes[root]) {
						st := s.Writes[root][d]
						r.Fail("global-write", p.fname(st.Fn)+":"+root, p.Pos(st.Pos), "%s writes memory shared by all instances (%s): %s", p.fname(st.Fn), strings.TrimPrefix(root, "g:"), d)
					}
				}
			}
			if f.Parent() != nil || !token.IsExported(f.Name()) {
				continue
			}
			if strings.HasPrefix(f.Name(), "New") && f.Signature.Recv() == nil {
				r.Count("constructors", 1)
				r.Sample(name)
				for i := range s.Results {
					for _, root := range allRoots(s, i) {
						if strings.HasPrefix(root, "g:") {
							r.Fail("shared-instance", name, p.Pos(f.Pos()), "%s returns memory reachable from package variable %s, so instances share state", name, strings.TrimPrefix(root, "g:"))
						}
					}
				}
			}
		}
		type cp struct {
			rel, typ, fn string
			params       []int
		}
		for _, c := range []cp{
			{"ds/array", "", "NewFromArray", []int{0}},
			{"ds/vector", "", "NewFromVector", []int{0}},
			{"ds/set", "Set", "Union", []int{0, 1}},
			{"ds/set", "Set", "Intersect", []int{0, 1}},
			{"ds/set", "Set", "Diff", []int{0, 1}},
			{"ds/bloomfilter", "BloomFilter", "Data", []int{0}},
			{"ds/skiplist", "Skiplist", "Keys", []int{0}},
			{"ds/hamt", "Hamt", "StringKeys", []int{0}},
		} {
			var f *ssa.Function
			if c.typ == "" {
				f = p.Func(c.rel, c.fn)
			} else {
				f = p.Method(c.rel, c.typ, c.fn)
			}
			if f == nil {
				r.Fail("anchor", c.rel+"."+c.fn, "-", "the copying operation %s.%s is gone", c.rel, c.fn)
				continue
			}
			r.Count("copying_operations", 1)
			s := sums[f]
			for _, i := range c.params {
				root := "p" + string(rune('0'+i))
				for ri := range s.Results {
					for _, x := range allRoots(s, ri) {
						if x == root {
							r.Fail("copy-aliases", p.fname(f)+":"+root, p.Pos(f.Pos()), "the result of %s can share memory with its operand %d, so changing one changes the other", p.fname(f), i)
						}
					}
				}
			}
		}
		for _, m := range []string{"PushBackList", "PushFrontList"} {
			f := p.Method("ds/list/bidlist", "List", m)
			if f == nil {
				r.Fail("anchor", m, "-", "the copying operation %s is gone", m)
				continue
			}
			r.Count("copying_operations", 1)
			s := sums[f]
			if len(s.Flows["p0"]["p1"]) > 0 || len(s.Flows["p1"]["p0"]) > 0 {
				r.Fail("copy-aliases", p.fname(f), p.Pos(f.Pos()), "%s links nodes of one list into the other instead of copying values", p.fname(f))
			}
			for _, d := range sortedKeys(s.Writes["p1"]) {
				r.Fail("copy-writes-source", p.fname(f), p.Pos(s.Writes["p1"][d].Pos), "%s changes the list it copies from: %s", p.fname(f), d)
			}
		}
		for _, m := range []struct {
			rel, typ, fn string
		}{{"ds/array", "Array", "SwapArray"}} {
			if p.Method(m.rel, m.typ, m.fn) == nil {
				r.Fail("anchor", m.fn, "-", "%s is gone", m.fn)
			}
		}
		r.Need("constructors", 18)
		r.Need("copying_operations", 10)
	}
}

// allRoots lists everything result i may be or reach.
func allRoots(s *Summary, i int) []string {
	out := rset{}
	out.add(s.Results[i])
	for k := range s.ResCont[i] {
		out[k] = true
	}
	return sortedKeys(out)
}

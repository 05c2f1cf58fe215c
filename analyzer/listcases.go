package main

import "go/token"

type listPost = func(j *Job, s *State, m, o *listModel, a, ret []Value, old int, pos token.Pos)

func both(ps ...listPost) listPost {
	return func(j *Job, s *State, m, o *listModel, a, ret []Value, old int, pos token.Pos) {
		for _, p := range ps {
			p(j, s, m, o, a, ret, old, pos)
		}
	}
}

// result requires a particular answer and an unchanged list.
func result(f func(s *State, m *listModel) Value) listPost { return retValue(f, allOf) }

func resultBool(f func(s *State, m *listModel) bool) listPost {
	return func(j *Job, s *State, m, o *listModel, a, ret []Value, old int, pos token.Pos) {
		w := f(s, m)
		if s.need(ret[0].(VBool)) != w {
			j.fail(pos, "the answer must be %v %s", w, j.path(s))
		}
		j.listSame(s, m, "el", pos)
	}
}

func isEmpty(s *State, m *listModel) bool { return s.need(condEQ(m.n)) }

func lenV(s *State, m *listModel) Value { return I(m.n) }

// nextOr is the node after k, or what lies behind the last.
func nextOf(name string) func(s *State, m *listModel) Value {
	return func(s *State, m *listModel) Value {
		k := kept(s, name)
		if s.need(condEQ(k.addk(1).sub(m.n))) {
			return VNil{}
		}
		return m.node(k.addk(1))
	}
}

func prevOf(name string) func(s *State, m *listModel) Value {
	return func(s *State, m *listModel) Value {
		k := kept(s, name)
		if s.need(condEQ(k)) {
			return VNil{}
		}
		return m.node(k.addk(-1))
	}
}

func retNil(s *State, m *listModel) Value { return VNil{} }

func detachedArg(s *State, m, o *listModel) []Value { return []Value{detached(s)} }

func keepDetached(j *Job, s *State, m, o *listModel, a, ret []Value, old int, pos token.Pos) {
	d := s.keep["detached"]
	for _, f := range []string{".list", ".next", ".prev"} {
		j.mustEq(s, s.link(d, f), VNil{}, pos, "a node that is in no list is linked")
	}
}

func iterOn(st *State, m *listModel, at func(s *State, m *listModel) Value) Value {
	o := st.newObj("iter")
	st.heap[o].Cells[".node"] = at(st, m)
	st.keep["iter"] = VPtr{o, ""}
	return VPtr{o, ""}
}

func iterArgs(at func(s *State, m *listModel) Value, more ...Value) func(s *State, m, o *listModel) []Value {
	return func(s *State, m, o *listModel) []Value {
		return append([]Value{iterOn(s, m, at)}, more...)
	}
}

func anyNode(s *State, m *listModel) Value { return m.node(nodeAt(s, m, "k")) }
func keptNode(s *State, m *listModel) Value {
	return m.node(kept(s, "k"))
}

// standsAt requires the iterator's node, and its identity where it returns itself.
func standsAt(at func(s *State, m *listModel) Value, self bool) listPost {
	return func(j *Job, s *State, m, o *listModel, a, ret []Value, old int, pos token.Pos) {
		it := s.keep["iter"].(VPtr)
		j.mustEq(s, s.cell(it.Obj, ".node"), at(s, m), pos, "the iterator stands at the wrong node")
		if self {
			j.mustEq(s, ret[0], VIface{"*" + m.pkg + ".ListIterator", it}, pos, "the iterator does not return itself")
		}
		j.listSame(s, m, "el", pos)
	}
}

// cloned requires a new iterator at the same node.
func cloned(at func(s *State, m *listModel) Value) listPost {
	return func(j *Job, s *State, m, o *listModel, a, ret []Value, old int, pos token.Pos) {
		i, ok := ret[0].(VIface)
		var p VPtr
		if ok {
			p, ok = i.V.(VPtr)
		} else {
			p, ok = ret[0].(VPtr)
		}
		if !ok || i.Dyn != "" && i.Dyn != "*"+m.pkg+".ListIterator" || s.heap[p.Obj] == nil {
			j.fail(pos, "the result is not a list iterator (%s)", showVal(ret[0]))
			return
		}
		if it, has := s.keep["iter"].(VPtr); has && it == p {
			j.fail(pos, "the clone is the iterator itself")
		}
		if p.Obj <= old {
			j.fail(pos, "the result is not a new iterator")
		}
		j.mustEq(s, s.cell(p.Obj, ".node"), at(s, m), pos, "the new iterator stands at the wrong node")
	}
}

func iterEq(second func(s *State, m, o *listModel) Value) func(s *State, m, o *listModel) []Value {
	return func(s *State, m, o *listModel) []Value {
		a := iterOn(s, m, anyNode)
		b := s.newObj("iter2")
		s.heap[b].Cells[".node"] = second(s, m, o)
		return []Value{a, VIface{"*" + m.pkg + ".ListIterator", VPtr{b, ""}}}
	}
}

// setVal requires that only the value of node k changed.
func setVal(j *Job, s *State, m, o *listModel, a, ret []Value, old int, pos token.Pos) {
	k := kept(s, "k")
	one := m.one(k)
	one.val = T("value")
	j.wantList(s, m, []piece{m.rng(K(0), k), one, m.rng(k.addk(1), m.n)}, pos)
}

func cat(a ...[]listCase) []listCase {
	var out []listCase
	for _, x := range a {
		out = append(out, x...)
	}
	return out
}

var listCommon = []listCase{
	{recv: "func", meth: "New", empty: true, post: func(j *Job, s *State, m, o *listModel, a, ret []Value, old int, pos token.Pos) {
		p, ok := ret[0].(VPtr)
		if !ok || p.Obj <= old {
			j.fail(pos, "the result is not a new list")
			return
		}
		e := &listModel{pkg: m.pkg, bid: m.bid, n: K(0), id: p.Obj, ptr: p, arr: m.arr}
		for _, f := range []string{".head", ".tail"} {
			if s.cell(p.Obj, f) == nil {
				s.setCell(p.Obj, f, VNil{})
			}
		}
		if s.cell(p.Obj, ".len") == nil {
			s.setCell(p.Obj, ".len", Kv(0))
		}
		j.wantList(s, e, nil, pos)
	}},
	{meth: "Len", post: result(lenV)},
	{meth: "PushBack", args: valArg, post: insertAt(func(s *State, m *listModel) Lin { return m.n }, lastLink, false)},
	{meth: "PushFront", args: valArg, post: insertAt(zeroK, frontLink, false)},
	{meth: "InsertAfter", when: "mark in the list", min: 1, args: func(s *State, m, o *listModel) []Value {
		return []Value{T("value"), anyNode(s, m)}
	}, post: insertAt(func(s *State, m *listModel) Lin { return kept(s, "k").addk(1) }, func(s *State, m *listModel) Value {
		return s.link(keptNode(s, m), ".next")
	}, true)},
	{meth: "FrontNode", when: "not empty", min: 1, post: result(nodeK(zeroK))},
	{meth: "FrontNode", when: "empty", empty: true, post: result(retNil)},
	{meth: "BackNode", when: "not empty", min: 1, post: result(nodeK(lastK))},
	{meth: "BackNode", when: "empty", empty: true, post: result(retNil)},
	{meth: "Traversal", loops: true, args: func(s *State, m, o *listModel) []Value { return []Value{VUnk{"visitor"}} },
		post: visitedAll(func(m *listModel) Lin { return m.n })},
	{recv: "Node", meth: "Next", min: 1, args: nodeArg("k"), post: result(nextOf("k"))},
	// iterators
	{recv: "func", meth: "NewIterator", min: 1, args: nodeArg("k"), post: cloned(keptNode)},
	{recv: "ListIterator", meth: "IsValid", when: "at a node", min: 1, args: iterArgs(anyNode), post: resultBool(func(s *State, m *listModel) bool { return true })},
	{recv: "ListIterator", meth: "IsValid", when: "past the end", args: iterArgs(retNil), post: resultBool(func(s *State, m *listModel) bool { return false })},
	{recv: "ListIterator", meth: "Next", when: "at a node", min: 1, args: iterArgs(anyNode), post: standsAt(nextOf("k"), true)},
	{recv: "ListIterator", meth: "Next", when: "past the end", args: iterArgs(retNil), post: standsAt(retNil, true)},
	{recv: "ListIterator", meth: "Value", when: "at a node", min: 1, args: iterArgs(anyNode), post: both(result(elK(keptK("k"))), standsAt(keptNode, false))},
	{recv: "ListIterator", meth: "Value", when: "past the end", args: iterArgs(retNil), panics: true},
	{recv: "ListIterator", meth: "SetValue", when: "at a node", min: 1, args: iterArgs(anyNode, T("value")), post: setVal},
	{recv: "ListIterator", meth: "SetValue", when: "past the end", args: iterArgs(retNil, T("value")), post: standsAt(retNil, false)},
	{recv: "ListIterator", meth: "Clone", min: 1, args: iterArgs(anyNode), post: both(cloned(keptNode), standsAt(keptNode, false))},
	{recv: "ListIterator", meth: "Equal", when: "two nodes of one list", min: 1, args: iterEq(func(s *State, m, o *listModel) Value { return m.node(nodeAt(s, m, "k2")) }),
		post: resultBool(func(s *State, m *listModel) bool { return s.need(condEQ(kept(s, "k").sub(kept(s, "k2")))) })},
	{recv: "ListIterator", meth: "Equal", when: "past the end and a node", min: 1, args: iterEq(func(s *State, m, o *listModel) Value { return VNil{} }),
		post: resultBool(func(s *State, m *listModel) bool { return false })},
	{recv: "ListIterator", meth: "Equal", when: "nodes of two lists", min: 1, other: true, args: iterEq(func(s *State, m, o *listModel) Value { return foreignNode(s, m, o) }),
		post: resultBool(func(s *State, m *listModel) bool { return false })},
}

var bidCases = cat(listCommon, []listCase{
	{meth: "Size", post: result(lenV)},
	{meth: "Empty", post: resultBool(isEmpty)},
	{meth: "Front", when: "not empty", min: 1, post: result(elK(zeroK))},
	{meth: "Front", when: "empty", empty: true, panics: true},
	{meth: "Back", when: "not empty", min: 1, post: result(elK(lastK))},
	{meth: "Back", when: "empty", empty: true, panics: true},
	{meth: "InsertAfter", when: "mark of another list", other: true, args: func(s *State, m, o *listModel) []Value {
		return []Value{T("value"), foreignNode(s, m, o)}
	}, post: result(retNil)},
	{meth: "InsertAfter", when: "mark in no list", args: func(s *State, m, o *listModel) []Value {
		return []Value{T("value"), detached(s)}
	}, post: both(result(retNil), keepDetached)},
	{meth: "InsertBefore", when: "mark in the list", min: 1, args: func(s *State, m, o *listModel) []Value {
		return []Value{T("value"), anyNode(s, m)}
	}, post: insertAt(keptK("k"), func(s *State, m *listModel) Value {
		return s.link(keptNode(s, m), ".prev")
	}, true)},
	{meth: "InsertBefore", when: "mark of another list", other: true, args: func(s *State, m, o *listModel) []Value {
		return []Value{T("value"), foreignNode(s, m, o)}
	}, post: result(retNil)},
	{meth: "InsertBefore", when: "mark in no list", args: func(s *State, m, o *listModel) []Value {
		return []Value{T("value"), detached(s)}
	}, post: both(result(retNil), keepDetached)},
	{meth: "Remove", when: "node of the list", min: 1, args: nodeArg("k"), post: gone(keptK("k"), retValue(elK(keptK("k")), without(keptK("k"))))},
	{meth: "Remove", when: "node of another list", other: true, args: func(s *State, m, o *listModel) []Value { return []Value{foreignNode(s, m, o)} },
		post: func(j *Job, s *State, m, o *listModel, a, ret []Value, old int, pos token.Pos) {
			j.mustEq(s, ret[0], T("oel", I(kept(s, "fk"))), pos, "wrong result")
			j.listSame(s, m, "el", pos)
		}},
	{meth: "Remove", when: "node in no list", args: detachedArg, post: both(result(constV(T("dv"))), keepDetached)},
	{meth: "Clear", loops: true, post: func(j *Job, s *State, m, o *listModel, a, ret []Value, old int, pos token.Pos) {
		j.wantList(s, m, nil, pos)
		j.wantCol(s, m.arr, ".list", K(0), []Seg{{K(0), m.n, VNil{}}}, pos, "owner of the removed nodes")
	}},
	{meth: "PopBack", when: "not empty", min: 1, post: gone(lastK, retValue(elK(lastK), without(lastK)))},
	{meth: "PopBack", when: "empty", empty: true, panics: true},
	{meth: "PopFront", when: "not empty", min: 1, post: gone(zeroK, retValue(elK(zeroK), without(zeroK)))},
	{meth: "PopFront", when: "empty", empty: true, panics: true},
	{meth: "MoveToFront", when: "node of the list", min: 1, args: nodeArg("k"), post: moveTo(func(s *State, m *listModel) []piece {
		k := kept(s, "k")
		return []piece{m.one(k), m.rng(K(0), k), m.rng(k.addk(1), m.n)}
	})},
	{meth: "MoveToFront", when: "node of another list", other: true, args: func(s *State, m, o *listModel) []Value { return []Value{foreignNode(s, m, o)} }, post: unchanged},
	{meth: "MoveToFront", when: "node in no list", args: detachedArg, post: both(unchanged, keepDetached)},
	{meth: "MoveToBack", when: "node of the list", min: 1, args: nodeArg("k"), post: moveTo(func(s *State, m *listModel) []piece {
		k := kept(s, "k")
		return []piece{m.rng(K(0), k), m.rng(k.addk(1), m.n), m.one(k)}
	})},
	{meth: "MoveToBack", when: "node of another list", other: true, args: func(s *State, m, o *listModel) []Value { return []Value{foreignNode(s, m, o)} }, post: unchanged},
	{meth: "MoveToBack", when: "node in no list", args: detachedArg, post: both(unchanged, keepDetached)},
	{meth: "MoveAfter", when: "two nodes of the list", min: 1, args: func(s *State, m, o *listModel) []Value {
		return []Value{m.node(nodeAt(s, m, "k")), m.node(nodeAt(s, m, "k2"))}
	}, post: moveTo(func(s *State, m *listModel) []piece {
		a, b := kept(s, "k"), kept(s, "k2")
		switch {
		case s.need(condEQ(a.sub(b))):
			return allOf(s, m)
		case s.need(condGE(b.sub(a))):
			return []piece{m.rng(K(0), a), m.rng(a.addk(1), b.addk(1)), m.one(a), m.rng(b.addk(1), m.n)}
		}
		return []piece{m.rng(K(0), b.addk(1)), m.one(a), m.rng(b.addk(1), a), m.rng(a.addk(1), m.n)}
	})},
	{meth: "MoveAfter", when: "mark of another list", min: 1, other: true, args: func(s *State, m, o *listModel) []Value {
		return []Value{anyNode(s, m), foreignNode(s, m, o)}
	}, post: unchanged},
	{meth: "MoveAfter", when: "node of another list", min: 1, other: true, args: func(s *State, m, o *listModel) []Value {
		return []Value{foreignNode(s, m, o), anyNode(s, m)}
	}, post: unchanged},
	{meth: "MoveAfter", when: "node in no list", min: 1, args: func(s *State, m, o *listModel) []Value {
		return []Value{detached(s), anyNode(s, m)}
	}, post: both(unchanged, keepDetached)},
	{meth: "MoveAfter", when: "mark in no list", min: 1, args: func(s *State, m, o *listModel) []Value {
		return []Value{anyNode(s, m), detached(s)}
	}, post: both(unchanged, keepDetached)},
	{meth: "PushBackList", when: "another list", other: true, loops: true, args: func(s *State, m, o *listModel) []Value { return []Value{o.ptr} }, post: appended(false, false)},
	{meth: "PushBackList", when: "itself", loops: true, args: func(s *State, m, o *listModel) []Value { return []Value{m.ptr} }, post: appended(false, true)},
	{meth: "PushFrontList", when: "another list", other: true, loops: true, args: func(s *State, m, o *listModel) []Value { return []Value{o.ptr} }, post: appended(true, false)},
	{meth: "PushFrontList", when: "itself", loops: true, args: func(s *State, m, o *listModel) []Value { return []Value{m.ptr} }, post: appended(true, true)},
	{recv: "Node", meth: "Prev", min: 1, args: nodeArg("k"), post: result(prevOf("k"))},
	{recv: "Node", meth: "Next", when: "node in no list", args: detachedArg, post: result(retNil)},
	{recv: "Node", meth: "Prev", when: "node in no list", args: detachedArg, post: result(retNil)},
	{recv: "ListIterator", meth: "Prev", when: "at a node", min: 1, args: iterArgs(anyNode), post: standsAt(prevOf("k"), true)},
	{recv: "ListIterator", meth: "Prev", when: "before the beginning", args: iterArgs(retNil), post: standsAt(retNil, true)},
})

// firstNode and laterNode hand an arbitrary node with its predecessor.
func firstNode(s *State, m, o *listModel) []Value {
	s.keep["k"] = Kv(0)
	return []Value{VNil{}, m.node(K(0))}
}

func laterNode(s *State, m, o *listModel) []Value {
	k := s.freshIn("k", K(1), m.n.addk(-1))
	s.keep["k"] = I(k)
	return []Value{m.node(k.addk(-1)), m.node(k)}
}

func simpleMoves(front bool) listPost {
	return moveTo(func(s *State, m *listModel) []piece {
		k := kept(s, "k")
		if front {
			return []piece{m.one(k), m.rng(K(0), k), m.rng(k.addk(1), m.n)}
		}
		return []piece{m.rng(K(0), k), m.rng(k.addk(1), m.n), m.one(k)}
	})
}

var simpleCases = cat(listCommon, []listCase{
	{meth: "Remove", when: "front node", min: 1, args: firstNode, post: retValue(elK(keptK("k")), without(keptK("k")))},
	{meth: "Remove", when: "later node", min: 2, args: laterNode, post: retValue(elK(keptK("k")), without(keptK("k")))},
	{meth: "MoveToFront", when: "front node", min: 1, args: firstNode, post: simpleMoves(true)},
	{meth: "MoveToFront", when: "later node", min: 2, args: laterNode, post: simpleMoves(true)},
	{meth: "MoveToBack", when: "front node", min: 1, args: firstNode, post: simpleMoves(false)},
	{meth: "MoveToBack", when: "later node", min: 2, args: laterNode, post: simpleMoves(false)},
})

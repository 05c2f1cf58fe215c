package main

// Bytes as vectors of bits: the bitmap (C20). A byte is eight bits, each 0, 1, or a named
// bit of the original content, possibly complemented; positions are split by their residue.

import (
	"go/token"
	"go/types"
)

const byteTag = "byte8"

// mkByte makes a byte of the given bits, lowest first.
func mkByte(bits []Value) Value {
	c := int64(0)
	for i, b := range bits {
		switch b.(VTerm).F {
		case "b0":
		case "b1":
			c |= 1 << uint(i)
		default:
			return VTerm{byteTag, bits}
		}
	}
	return Kv(c)
}

func origByte(idx Lin) Value {
	var b []Value
	for r := int64(0); r < 8; r++ {
		b = append(b, T("bit", I(idx), Kv(r)))
	}
	return VTerm{byteTag, b}
}

func isByte(v Value) bool {
	t, ok := v.(VTerm)
	return ok && t.F == byteTag
}

func bitsOf(v Value) []Value {
	switch x := v.(type) {
	case VTerm:
		if x.F == byteTag {
			return x.A
		}
	case VInt:
		if x.L.isConst() {
			var b []Value
			for r := uint(0); r < 8; r++ {
				b = append(b, constBit(x.L.c>>r&1 == 1))
			}
			return b
		}
	}
	giveUp("the bits of %s are not known", showVal(v))
	return nil
}

func constBit(b bool) Value {
	if b {
		return T("b1")
	}
	return T("b0")
}

func bitNot(b Value) Value {
	t := b.(VTerm)
	switch t.F {
	case "b0":
		return T("b1")
	case "b1":
		return T("b0")
	case "bit":
		return VTerm{"nbit", t.A}
	}
	return VTerm{"bit", t.A}
}

func bitAnd(a, b Value) Value {
	x, y := a.(VTerm), b.(VTerm)
	switch {
	case x.F == "b0" || y.F == "b0":
		return T("b0")
	case x.F == "b1":
		return b
	case y.F == "b1" || valEq(a, b):
		return a
	case valEq(a, bitNot(b)):
		return T("b0")
	}
	giveUp("the conjunction of two bits is not followed")
	return nil
}

var knownBits = map[int64][]Lin{}

// bitSym is the integer 0 or 1 a named bit stands for.
// The same bit may be named by indices that are only known to be equal.
func (s *State) bitSym(t VTerm) Lin {
	name := func(idx, r Lin) Lin {
		y := S(termSym("bit:"+idx.key()+"/"+r.key(), "bit"))
		s.addFact(y)
		s.addFact(K(1).sub(y))
		return y
	}
	idx, r := t.A[0].(VInt).L, t.A[1].(VInt).L
	y := name(idx, r)
	if hasIota(t) {
		return y
	}
	known := false
	for _, o := range knownBits[r.c] {
		if o.eq(idx) {
			known = true
		} else if s.entailsEq(o.sub(idx)) {
			z := name(o, r)
			s.addFact(y.sub(z))
			s.addFact(z.sub(y))
		}
	}
	if !known {
		knownBits[r.c] = append(knownBits[r.c], idx)
	}
	return y
}

// bitsOp evaluates an operation on bytes; handled is false when none is involved.
func (s *State) bitsOp(op token.Token, a, b Value, t, rt types.Type) (Value, bool) {
	if !isByte(a) && !isByte(b) {
		return nil, false
	}
	_, hi, bounded := intRange8(rt)
	byteSized := bounded && hi == 255
	switch op {
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		for _, v := range []Value{a, b} {
			if x, ok := v.(VInt); ok && (!x.L.isConst() || op != token.AND && op != token.AND_NOT && (x.L.c < 0 || x.L.c > 255)) {
				giveUp("an untracked mask")
			}
		}
		if !isByte(a) && op == token.AND_NOT && a.(VInt).L.c > 255 {
			giveUp("an untracked mask")
		}
		x, y := s.settle(bitsOf(a)), s.settle(bitsOf(b))
		var out []Value
		for i := range x {
			switch op {
			case token.AND:
				out = append(out, bitAnd(x[i], y[i]))
			case token.OR:
				out = append(out, bitNot(bitAnd(bitNot(x[i]), bitNot(y[i]))))
			case token.AND_NOT:
				out = append(out, bitAnd(x[i], bitNot(y[i])))
			case token.XOR:
				switch {
				case x[i].(VTerm).F == "b0":
					out = append(out, y[i])
				case x[i].(VTerm).F == "b1":
					out = append(out, bitNot(y[i]))
				case y[i].(VTerm).F == "b0":
					out = append(out, x[i])
				case y[i].(VTerm).F == "b1":
					out = append(out, bitNot(x[i]))
				case valEq(x[i], y[i]):
					out = append(out, T("b0"))
				default:
					giveUp("the difference of two bits is not followed")
				}
			}
		}
		return mkByte(out), true
	case token.SHL, token.SHR:
		n, ok := b.(VInt)
		if !ok || !n.L.isConst() || n.L.c < 0 || op == token.SHL && !byteSized {
			giveUp("an untracked shift")
		}
		x := bitsOf(a)
		out := make([]Value, 8)
		for i := range out {
			j := int64(i) + n.L.c
			if op == token.SHL {
				j = int64(i) - n.L.c
			}
			out[i] = T("b0")
			if j >= 0 && j < 8 {
				out[i] = x[j]
			}
		}
		return mkByte(out), true
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		la, oka := s.byteLin(a)
		lb, okb := s.byteLin(b)
		if !oka || !okb {
			return nil, false
		}
		d := la.sub(lb)
		switch op {
		case token.EQL:
			return condEQ(d), true
		case token.NEQ:
			return condNE(d), true
		case token.LSS:
			return condGE(d.neg().addk(-1)), true
		case token.LEQ:
			return condGE(d.neg()), true
		case token.GTR:
			return condGE(d.addk(-1)), true
		}
		return condGE(d), true
	case token.ADD, token.SUB:
		// without carries, addition is a disjunction and subtraction takes bits away
		x, y := s.settle(bitsOf(a)), s.settle(bitsOf(b))
		out := make([]Value, 8)
		for i := range out {
			y0 := y[i].(VTerm).F == "b0"
			switch x0 := x[i].(VTerm).F; {
			case y0:
				out[i] = x[i]
			case op == token.ADD && x0 == "b0":
				out[i] = y[i]
			case op == token.SUB && x0 == "b1":
				out[i] = bitNot(y[i])
			case op == token.SUB && valEq(x[i], y[i]):
				out[i] = T("b0")
			default:
				giveUp("arithmetic on bytes is not followed")
			}
		}
		return mkByte(out), true
	case token.MUL, token.QUO, token.REM:
		giveUp("arithmetic on bytes is not followed")
	}
	return nil, false
}

// settle replaces bits whose value is known here.
func (s *State) settle(bits []Value) []Value {
	out := make([]Value, len(bits))
	for i, b := range bits {
		out[i] = b
		t := b.(VTerm)
		if t.F != "bit" && t.F != "nbit" {
			continue
		}
		switch y := s.bitSym(t); {
		case s.entails(y.addk(-1)):
			out[i] = constBit(t.F == "bit")
		case s.entails(y.neg()):
			out[i] = constBit(t.F != "bit")
		}
	}
	return out
}

func (s *State) sameByte(a, b Value) bool {
	x, ok1 := s.byteLin(a)
	y, ok2 := s.byteLin(b)
	return ok1 && ok2 && s.entailsEq(x.sub(y))
}

// byteLin is the number a byte stands for.
func (s *State) byteLin(v Value) (Lin, bool) {
	if x, ok := v.(VInt); ok {
		return x.L, true
	}
	if !isByte(v) {
		return Lin{}, false
	}
	r := K(0)
	for i, b := range v.(VTerm).A {
		t := b.(VTerm)
		k := int64(1) << uint(i)
		switch t.F {
		case "b0":
		case "b1":
			r = r.addk(k)
		case "bit":
			r = r.add(s.bitSym(t).mul(k))
		case "nbit":
			r = r.addk(k).sub(s.bitSym(t).mul(k))
		}
	}
	return r, true
}

func intRange8(t types.Type) (lo, hi int64, bounded bool) {
	if !isInteger(t) {
		return 0, 0, false
	}
	return intRange(t)
}

// ---- the bitmap

const bmRel = "ds/bitmap"

// newBitmap makes a bitmap of n bytes with named bits.
func newBitmap(st *State, name string) (ptr VPtr, sl VSlice, n Lin) {
	off := st.fresh("off", K(0))
	n = st.fresh("n", K(0))
	c := st.fresh("cap", n)
	size := st.fresh("size", off.add(c))
	arr := st.newArr(name, size)
	bits := substVal(origByte(S(iotaSym)), map[Sym]Lin{iotaSym: S(iotaSym).sub(off)})
	st.heap[arr].Cols[""] = st.normSegs([]Seg{{K(0), off, T("junk")}, {off, off.add(n), bits}, {off.add(n), size, T("junk")}})
	sl = VSlice{arr, off, n, c}
	o := st.newObj("Bitmap")
	st.heap[o].Cells[".data"] = sl
	st.heap[o].Cells[".size"] = I(n.mul(8))
	return VPtr{o, ""}, sl, n
}

// wantBits requires that the bitmap behind v holds the given bytes, and that its size says so.
func (j *Job) wantBits(s *State, v Value, n Lin, want []Seg, pos token.Pos, what string) bool {
	p, ok := v.(VPtr)
	if !ok {
		j.fail(pos, "%s: no bitmap", what)
		return false
	}
	sl, ok := asSlice(s.cell(p.Obj, ".data"))
	if !ok {
		giveUp("the storage of the bitmap is %s", showVal(s.cell(p.Obj, ".data")))
	}
	return j.mustEq(s, s.cell(p.Obj, ".size"), I(n.mul(8)), pos, "%s: wrong size", what) &&
		j.wantSeq(s, sl, n, want, pos, what)
}

func init() {
	checks["C20"] = func(p *Prog, r *Result) {
		sloped = true
		defer func() { sloped = false }()
		r.Rule("abstract interpretation of every bitmap operation on a bitmap of unknown length and content, bytes being vectors of eight bits and positions being split by their residue; at every exit the size and every bit are compared with the documented result")
		r.Assumption("sizes near 2^64 do not overflow; the memory asked for can be allocated")
		orig := func(n Lin) []Seg { return []Seg{{K(0), n, origByte(S(iotaSym))}} }
		method := func(meth string, clause string, args func(st *State, n Lin) []Value, fact func(st *State, n Lin) []VBool,
			spec func(j *Job, s *State, b VPtr, n Lin, ret []Value, pos token.Pos)) {
			st := newInterp(p).NewState()
			b, sl, n := newBitmap(st, "bytes")
			st.keep["b"], st.keep["orig"], st.keep["n"] = b, sl, I(n)
			var a []Value
			if args != nil {
				a = args(st, n)
			}
			st.keep["args"] = VTuple{a}
			j := r.job(p, "bits", p.Method(bmRel, "Bitmap", meth), bmRel+".(Bitmap)."+meth)
			if j == nil {
				return
			}
			sts := []*State{st}
			if fact != nil {
				sts = assumeAll(sts, fact(st, n)...)
			}
			r.Sample(j.name + ": " + clause)
			for i, s0 := range sts {
				if i > 0 {
					j = r.job(p, "bits", p.Method(bmRel, "Bitmap", meth), bmRel+".(Bitmap)."+meth)
				}
				r.Count("clauses", 1)
				j.run(s0, append([]Value{b}, a...), func(s *State, ret []Value, pos token.Pos) { spec(j, s, b, n, ret, pos) })
			}
		}
		isBool := func(j *Job, s *State, v Value, want VBool, pos token.Pos, what string) {
			b, ok := v.(VBool)
			if !ok {
				giveUp("%s: result %s", what, showVal(v))
			}
			if s.need(b) {
				j.must(s, want, pos, "%s: the result is true", what)
			} else {
				j.must(s, want.not(), pos, "%s: the result is false", what)
			}
		}
		for res := int64(0); res < 8; res++ {
			res := res
			q := S(newSym("q"))
			at := func(st *State, n Lin) []Value {
				st.addFact(q)
				return []Value{I(q.mul(8).addk(res))}
			}
			in := func(st *State, n Lin) []VBool { return []VBool{condGE(n.sub(q).addk(-1))} }
			out := func(st *State, n Lin) []VBool { return []VBool{condGE(q.sub(n))} }
			for _, m := range []string{"Set", "Unset", "IsSet"} {
				m := m
				method(m, "position inside", at, in, func(j *Job, s *State, b VPtr, n Lin, ret []Value, pos token.Pos) {
					bits := append([]Value(nil), origByte(q).(VTerm).A...)
					want := []Seg{{K(0), q, origByte(S(iotaSym))}, {q, q.addk(1), nil}, {q.addk(1), n, origByte(S(iotaSym))}}
					switch m {
					case "IsSet":
						isBool(j, s, ret[0], condEQ(s.bitSym(bits[res].(VTerm)).addk(-1)), pos, "IsSet")
					default:
						isBool(j, s, ret[0], bTrue, pos, m)
						bits[res] = constBit(m == "Set")
					}
					want[1].V = mkByte(bits)
					j.wantBits(s, b, n, want, pos, "the bitmap after "+m)
				})
				method(m, "position outside", at, out, func(j *Job, s *State, b VPtr, n Lin, ret []Value, pos token.Pos) {
					isBool(j, s, ret[0], bFalse, pos, m+" of a position outside")
					j.wantBits(s, b, n, orig(n), pos, "the bitmap after a refused "+m)
				})
			}
			up := q
			if res > 0 {
				up = q.addk(1)
			}
			method("Resize", "content kept", at, nil, func(j *Job, s *State, b VPtr, n Lin, ret []Value, pos token.Pos) {
				keep := n
				if s.need(condGE(n.sub(up))) {
					keep = up
				}
				j.wantBits(s, b, up, []Seg{{K(0), keep, origByte(S(iotaSym))}, {keep, up, Kv(0)}}, pos, "the bitmap after Resize")
			})
			st := newInterp(p).NewState()
			st.addFact(q)
			if j := r.job(p, "bits", p.Func(bmRel, "New"), bmRel+".New"); j != nil {
				r.Count("clauses", 1)
				j.run(st, []Value{I(q.mul(8).addk(res))}, func(s *State, ret []Value, pos token.Pos) {
					j.wantBits(s, ret[0], up, []Seg{{K(0), up, Kv(0)}}, pos, "a new bitmap")
				})
			}
		}
		method("Clear", "no bit left", nil, nil, func(j *Job, s *State, b VPtr, n Lin, ret []Value, pos token.Pos) {
			j.wantBits(s, b, n, []Seg{{K(0), n, Kv(0)}}, pos, "the bitmap after Clear")
		})
		method("Size", "number of bits", nil, nil, func(j *Job, s *State, b VPtr, n Lin, ret []Value, pos token.Pos) {
			j.mustEq(s, ret[0], I(n.mul(8)), pos, "Size")
			j.wantBits(s, b, n, orig(n), pos, "the bitmap after Size")
		})
		method("Data", "all bytes", nil, nil, func(j *Job, s *State, b VPtr, n Lin, ret []Value, pos token.Pos) {
			sl, ok := asSlice(ret[0])
			if !ok {
				giveUp("Data delivers %s", showVal(ret[0]))
			}
			j.wantSeq(s, sl, n, orig(n), pos, "the data")
			j.wantBits(s, b, n, orig(n), pos, "the bitmap after Data")
		})
		st := newInterp(p).NewState()
		_, sl, n := newBitmap(st, "bytes")
		st.keep["data"], st.keep["n"] = sl, I(n)
		if j := r.job(p, "bits", p.Func(bmRel, "NewFromData"), bmRel+".NewFromData"); j != nil {
			r.Count("clauses", 1)
			j.run(st, []Value{sl}, func(s *State, ret []Value, pos token.Pos) {
				j.wantBits(s, ret[0], n, orig(n), pos, "a bitmap made from data")
			})
		}
		r.Need("clauses", 67)
	}
}

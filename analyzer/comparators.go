package main

// C05: the built-in comparators are exact three-way comparisons of the natural order.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func stripConv(v Value) Value {
	for {
		t, ok := v.(VTerm)
		if !ok || t.F != "conv" || len(t.A) != 1 {
			return v
		}
		v = t.A[0]
	}
}

// orderModel interprets comparisons of uninterpreted ordered operands: per pair of leaves
// one integer whose sign is the order, and per leaf a NaN flag when nan is set.
type orderModel struct {
	nan bool
}

func (m *orderModel) ord(st *State, a, b Value) (Lin, bool) {
	ka, kb := showVal(a), showVal(b)
	if ka == kb {
		return K(0), true
	}
	sg := int64(1)
	if ka > kb {
		ka, kb, sg = kb, ka, -1
	}
	y := S(termSym("ord:"+ka+"|"+kb, "ord"))
	return y.mul(sg), true
}

func (m *orderModel) isNaN(st *State, a Value) bool {
	if !m.nan {
		return false
	}
	y := S(termSym("nan:"+showVal(a), "nan"))
	return st.need(condGE(y))
}

func (m *orderModel) compare(st *State, a, b Value) (VBool, bool) {
	op := "=="
	if b == nil {
		t := a.(VTerm)
		op = t.F
		a, b = t.A[0], t.A[1]
	}
	a, b = stripConv(a), stripConv(b)
	ta, ok1 := a.(VTerm)
	tb, ok2 := b.(VTerm)
	if !ok1 || !ok2 || strings.HasPrefix(ta.F, "const:") || strings.HasPrefix(tb.F, "const:") || strings.HasPrefix(ta.F, `"`) || strings.HasPrefix(tb.F, `"`) {
		return bFalse, false
	}
	if strings.HasPrefix(ta.F, "cplx") && strings.HasPrefix(tb.F, "cplx") && op == "==" {
		r1, _ := m.compare(st, T("real", a), T("real", b))
		if !st.need(r1) {
			return bFalse, true
		}
		return m.compare(st, T("imag", a), T("imag", b))
	}
	if m.isNaN(st, a) || m.isNaN(st, b) {
		return bFalse, true
	}
	o, _ := m.ord(st, a, b)
	switch op {
	case "==":
		return condEQ(o), true
	case "<":
		return condGE(o.neg().addk(-1)), true
	case "<=":
		return condGE(o.neg()), true
	case ">":
		return condGE(o.addk(-1)), true
	case ">=":
		return condGE(o), true
	}
	return bFalse, false
}

func init() {
	checks["C05"] = func(p *Prog, r *Result) {
		r.Rule("abstract interpretation of every function of utils/comparator with two arguments of one type and an int result, over all orderings (and NaN cases for floats): the result is exactly -1, 0 or 1 according to the natural order")
		r.Assumption("complex operands have no NaN components; OrderedTypeCmp is judged on values other than NaN; integer arithmetic and sign-changing conversions inside a comparator are treated as wrapping")
		pk := p.TPkgs["utils/comparator"]
		if pk == nil {
			r.Fail("comparator", "utils/comparator", "-", "package missing")
			return
		}
		for _, name := range pk.Scope().Names() {
			fo, ok := pk.Scope().Lookup(name).(*types.Func)
			if !ok || !fo.Exported() {
				continue
			}
			sig := fo.Type().(*types.Signature)
			f := p.Func("utils/comparator", name)
			if sig.Params().Len() == 2 && sig.Results().Len() == 1 && types.Identical(sig.Params().At(0).Type(), sig.Params().At(1).Type()) && isInteger(sig.Results().At(0).Type()) {
				checkComparator(p, r, f, sig.Params().At(0).Type())
				r.Count("comparators", 1)
			}
		}
		for _, n := range []string{"Int", "Uint", "Int8", "Uint8", "Int16", "Uint16", "Int32", "Uint32", "Int64", "Uint64", "Float32", "Float64", "String", "Uintptr", "Bool", "Complex64", "Complex128"} {
			if p.Func("utils/comparator", n+"Comparator") == nil {
				r.Fail("comparator", n+"Comparator", "-", "comparator is not declared any more")
			}
		}
		r.Need("comparators", 18)
		checkReverseComparator(p, r)
	}
}

func checkComparator(p *Prog, r *Result, f *ssa.Function, t types.Type) {
	j := r.job(p, "three-way", f, "comparator")
	if j == nil {
		return
	}
	st := j.ip.NewState()
	m := &orderModel{}
	j.ip.Compare = m.compare
	j.ip.Strict = true
	var a, b Value = T("a"), T("b")
	kind := "term"
	bt, _ := types.Unalias(t).Underlying().(*types.Basic)
	switch {
	case isTypeParam(t):
	case isInteger(t):
		kind = "int"
		mk := func(n string) Value {
			y := S(newSym(n))
			if lo, hi, ok := intRange(t); ok {
				st.addFact(y.addk(-lo))
				st.addFact(K(hi).sub(y))
			} else if isUnsigned(t) {
				st.addFact(y)
			}
			return I(y)
		}
		a, b = mk("a"), mk("b")
	case isBool(t):
		kind = "bool"
		mk := func(n string) Value { return condGE(S(newSym(n))) }
		a, b = mk("a"), mk("b")
	case bt != nil && bt.Info()&types.IsComplex != 0:
		kind = "complex"
		a, b = T("cplxA"), T("cplxB")
	case bt != nil && bt.Info()&types.IsFloat != 0:
		m.nan = true
	case bt != nil && bt.Info()&types.IsString != 0:
	default:
		j.fail(f.Pos(), "comparator over %s has no natural order here", t)
		return
	}
	j.ip.Static = func(c *callCtx) ([]Out, bool) {
		if c.fn.Name() == "IsNaN" && len(c.args) == 1 {
			return []Out{{c.st, []Value{boolV(m.isNaN(c.st, stripConv(c.args[0])))}}}, true
		}
		return nil, false
	}
	j.run(st, []Value{a, b}, func(s *State, ret []Value, pos token.Pos) {
		rv := ret[0].(VInt).L
		want := func(n int64) {
			j.must(s, condEQ(rv.addk(-n)), pos, "does not return %d where the natural order requires it", n)
		}
		sign := func(o Lin) {
			switch {
			case s.need(condGE(o.addk(-1))):
				want(1)
			case s.need(condGE(o)):
				want(0)
			default:
				want(-1)
			}
		}
		switch kind {
		case "int":
			sign(a.(VInt).L.sub(b.(VInt).L))
		case "bool":
			x, y := s.need(a.(VBool)), s.need(b.(VBool))
			switch {
			case x == y:
				want(0)
			case x:
				want(1)
			default:
				want(-1)
			}
		case "complex":
			o, _ := m.ord(s, T("real", a), T("real", b))
			if s.need(condEQ(o)) {
				o, _ = m.ord(s, T("imag", a), T("imag", b))
			}
			sign(o)
		default:
			na, nb := m.isNaN(s, a), m.isNaN(s, b)
			switch {
			case na && nb:
				want(0)
			case na:
				want(-1)
			case nb:
				want(1)
			default:
				o, _ := m.ord(s, a, b)
				sign(o)
			}
		}
	})
	r.Sample(j.name)
}

// checkReverseComparator: Reverse(cmp)(a,b) has the opposite sign of cmp(a,b).
func checkReverseComparator(p *Prog, r *Result) {
	f := p.Func("utils/comparator", "Reverse")
	j := r.job(p, "reverse", f, "utils/comparator.Reverse")
	if j == nil {
		return
	}
	st := j.ip.NewState()
	var clo Value
	j.run(st, []Value{VUnk{"cmp"}}, func(s *State, ret []Value, pos token.Pos) { clo, st = ret[0], s })
	c, ok := clo.(VClo)
	if !ok {
		if !j.bad {
			j.fail(f.Pos(), "does not return a comparator of its own")
		}
		return
	}
	j2 := r.job(p, "reverse", c.Fn, "utils/comparator.Reverse")
	x := st.freshIn("cmp", K(-1), K(1))
	j2.ip.Unknown = func(cc *callCtx) ([]Out, bool) {
		if len(cc.args) == 2 && valEq(cc.args[0], T("a")) && valEq(cc.args[1], T("b")) {
			return []Out{{cc.st, []Value{I(x)}}}, true
		}
		if len(cc.args) == 2 && valEq(cc.args[0], T("b")) && valEq(cc.args[1], T("a")) {
			return []Out{{cc.st, []Value{I(x.neg())}}}, true
		}
		return nil, false
	}
	j2.runBound(st, c, []Value{T("a"), T("b")}, func(s *State, ret []Value, pos token.Pos) {
		j2.must(s, condEQ(ret[0].(VInt).L.add(x)), pos, "the reversed comparator does not negate the order")
	})
	r.Count("comparator adapters", 1)
}

package main

// Linear-inequality domain: integer terms are linear expressions over symbols;
// a state carries a conjunction of constraints  L >= 0.  Entailment is decided
// by Fourier-Motzkin projection (the polyhedra domain's own operation) with
// integer tightening; when the projection exceeds its budget the answer is
// "not entailed", which is the sound direction.

import (
	"fmt"
	"sort"
	"strings"
)

type Sym int

type term struct {
	s Sym
	k int64
}

// Lin is c + sum k_i*s_i, terms sorted by symbol, no zero coefficient.
type Lin struct {
	c int64
	t []term
}

func K(c int64) Lin         { return Lin{c: c} }
func S(s Sym) Lin           { return Lin{t: []term{{s, 1}}} }
func (a Lin) isConst() bool { return len(a.t) == 0 }
func (a Lin) add(b Lin) Lin { return linComb(a, 1, b, 1) }
func (a Lin) sub(b Lin) Lin { return linComb(a, 1, b, -1) }
func (a Lin) addk(k int64) Lin {
	return Lin{c: a.c + k, t: a.t}
}
func (a Lin) mul(k int64) Lin {
	if k == 0 {
		return K(0)
	}
	r := Lin{c: a.c * k, t: make([]term, len(a.t))}
	for i, x := range a.t {
		r.t[i] = term{x.s, x.k * k}
	}
	return r
}
func (a Lin) neg() Lin { return a.mul(-1) }

func linComb(a Lin, ka int64, b Lin, kb int64) Lin {
	r := Lin{c: a.c*ka + b.c*kb}
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j >= len(b.t) || (i < len(a.t) && a.t[i].s < b.t[j].s):
			r.t = append(r.t, term{a.t[i].s, a.t[i].k * ka})
			i++
		case i >= len(a.t) || b.t[j].s < a.t[i].s:
			r.t = append(r.t, term{b.t[j].s, b.t[j].k * kb})
			j++
		default:
			k := a.t[i].k*ka + b.t[j].k*kb
			if k != 0 {
				r.t = append(r.t, term{a.t[i].s, k})
			}
			i++
			j++
		}
	}
	return r
}

func (a Lin) eq(b Lin) bool {
	if a.c != b.c || len(a.t) != len(b.t) {
		return false
	}
	for i := range a.t {
		if a.t[i] != b.t[i] {
			return false
		}
	}
	return true
}

func (a Lin) coef(s Sym) int64 {
	for _, x := range a.t {
		if x.s == s {
			return x.k
		}
	}
	return 0
}

// subst replaces symbols by expressions.
func (a Lin) subst(m map[Sym]Lin) Lin {
	r := K(a.c)
	for _, x := range a.t {
		if e, ok := m[x.s]; ok {
			r = linComb(r, 1, e, x.k)
		} else {
			r = linComb(r, 1, S(x.s), x.k)
		}
	}
	return r
}

func (a Lin) key() string {
	var b strings.Builder
	for _, x := range a.t {
		fmt.Fprintf(&b, "%d*s%d+", x.k, x.s)
	}
	fmt.Fprintf(&b, "%d", a.c)
	return b.String()
}

// symNames gives symbols readable names in reports.
var symNames = map[Sym]string{}
var symCount Sym
var symByTerm = map[string]Sym{}

func newSym(name string) Sym {
	symCount++
	symNames[symCount] = name
	return symCount
}

// termSym interns an uninterpreted application (division, mask, hash, ...).
func termSym(key, name string) Sym {
	if s, ok := symByTerm[key]; ok {
		return s
	}
	s := newSym(name)
	symByTerm[key] = s
	return s
}

func (a Lin) String() string {
	if len(a.t) == 0 {
		return fmt.Sprint(a.c)
	}
	var p []string
	for _, x := range a.t {
		n := symNames[x.s]
		if n == "" || strings.HasPrefix(n, "w") {
			n = fmt.Sprintf("%s%d", n, x.s)
		}
		switch x.k {
		case 1:
			p = append(p, n)
		case -1:
			p = append(p, "-"+n)
		default:
			p = append(p, fmt.Sprintf("%d*%s", x.k, n))
		}
	}
	if a.c != 0 {
		p = append(p, fmt.Sprint(a.c))
	}
	return strings.ReplaceAll(strings.Join(p, "+"), "+-", "-")
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// norm divides by the gcd of the coefficients and tightens the constant (L>=0 over integers).
func (a Lin) norm() Lin {
	if len(a.t) == 0 {
		return a
	}
	g := int64(0)
	for _, x := range a.t {
		g = gcd(g, x.k)
	}
	if g <= 1 {
		return a
	}
	r := Lin{c: floorDiv(a.c, g), t: make([]term, len(a.t))}
	for i, x := range a.t {
		r.t[i] = term{x.s, x.k / g}
	}
	return r
}

const fmBudget = 1500

// infeasible reports whether the conjunction of cs (each >= 0) has no integer
// solution, as far as Fourier-Motzkin with tightening can tell.
func infeasible(cs []Lin) bool {
	cur := make([]Lin, 0, len(cs))
	seen := map[string]bool{}
	push := func(dst *[]Lin, l Lin, sn map[string]bool) bool {
		l = l.norm()
		if len(l.t) == 0 {
			return l.c < 0
		}
		k := l.key()
		if !sn[k] {
			sn[k] = true
			*dst = append(*dst, l)
		}
		return false
	}
	for _, c := range cs {
		if push(&cur, c, seen) {
			return true
		}
	}
	for len(cur) > 0 {
		// choose the variable with the smallest pos*neg product
		pos := map[Sym]int{}
		neg := map[Sym]int{}
		vars := map[Sym]bool{}
		for _, l := range cur {
			for _, x := range l.t {
				vars[x.s] = true
				if x.k > 0 {
					pos[x.s]++
				} else {
					neg[x.s]++
				}
			}
		}
		var best Sym
		bc := 1 << 30
		vs := make([]int, 0, len(vars))
		for v := range vars {
			vs = append(vs, int(v))
		}
		sort.Ints(vs)
		for _, v := range vs {
			c := pos[Sym(v)] * neg[Sym(v)]
			if c < bc {
				bc = c
				best = Sym(v)
			}
		}
		var next []Lin
		sn := map[string]bool{}
		var ps, ns []Lin
		for _, l := range cur {
			k := l.coef(best)
			switch {
			case k == 0:
				if push(&next, l, sn) {
					return true
				}
			case k > 0:
				ps = append(ps, l)
			default:
				ns = append(ns, l)
			}
		}
		unitP, unitN := true, true
		for _, p := range ps {
			unitP = unitP && p.coef(best) == 1
		}
		for _, n := range ns {
			unitN = unitN && n.coef(best) == -1
		}
		if !unitP && !unitN {
			// eliminating this symbol loses integer information; an equality with a unit
			// coefficient can be solved for its symbol without loss
			if eq, v := equality(cur); v != 0 {
				next = next[:0]
				sn = map[string]bool{}
				k := eq.coef(v)
				for _, l := range cur {
					if c := l.coef(v); c != 0 {
						l = linComb(l, 1, eq, -c*k)
					}
					if push(&next, l, sn) {
						return true
					}
				}
				cur = prune(next)
				continue
			}
		}
		for _, p := range ps {
			for _, n := range ns {
				kp, kn := p.coef(best), -n.coef(best)
				if push(&next, linComb(p, kn, n, kp), sn) {
					return true
				}
			}
		}
		if len(next) > fmBudget {
			return false
		}
		next = prune(next)
		cur = next
	}
	return false
}

// equality finds two opposite constraints with a symbol whose coefficient is 1 or -1.
func equality(cs []Lin) (Lin, Sym) {
	have := map[string]bool{}
	for _, l := range cs {
		have[l.key()] = true
	}
	for _, l := range cs {
		unit := Sym(0)
		for _, x := range l.t {
			if x.k == 1 || x.k == -1 {
				unit = x.s
				break
			}
		}
		if unit != 0 && have[l.neg().key()] {
			return l, unit
		}
	}
	return Lin{}, 0
}

// prune drops constraints dominated by one with the same linear part.
func prune(ls []Lin) []Lin {
	best := map[string]int{}
	var out []Lin
	for _, l := range ls {
		k := Lin{t: l.t}.key()
		if i, ok := best[k]; ok {
			if l.c < out[i].c {
				out[i] = l
			}
			continue
		}
		best[k] = len(out)
		out = append(out, l)
	}
	return out
}

// relevant returns the constraints connected to the symbols of q.
func relevant(cs []Lin, q ...Lin) []Lin {
	syms := map[Sym]bool{}
	for _, l := range q {
		for _, x := range l.t {
			syms[x.s] = true
		}
	}
	used := make([]bool, len(cs))
	var out []Lin
	for ch := true; ch; {
		ch = false
		for i, c := range cs {
			if used[i] {
				continue
			}
			hit := len(c.t) == 0
			for _, x := range c.t {
				if syms[x.s] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				out = append(out, c)
				for _, x := range c.t {
					syms[x.s] = true
				}
			}
		}
	}
	return out
}

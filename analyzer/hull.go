package main

// Affine hull of two states (Karr's domain): the linear equations that hold in both.

import (
	"math/big"
	"sort"
)

// equations lists equations the facts imply.
func equations(s *State) []Lin {
	seen := map[string]bool{}
	var out []Lin
	fs := append([]Lin(nil), s.facts...)
	for round := 0; round < 3; round++ {
		n := len(out)
		for _, f := range fs {
			f = f.norm()
			if seen[f.key()] || f.isConst() {
				continue
			}
			if s.entails(f.neg()) {
				out = append(out, f)
				seen[f.neg().norm().key()] = true
			}
			seen[f.key()] = true
		}
		if len(out) == n {
			break
		}
		// substituting an equation can tighten another fact
		for _, e := range out[n:] {
			for i := len(e.t) - 1; i >= 0; i-- {
				t := e.t[i]
				if t.k != 1 && t.k != -1 {
					continue
				}
				m := map[Sym]Lin{t.s: S(t.s).sub(e.mul(t.k))}
				for j := range fs {
					if fs[j].coef(t.s) != 0 {
						fs[j] = fs[j].subst(m).norm()
					}
				}
				break
			}
		}
	}
	return out
}

type ratVec map[int]*big.Rat // column -> coefficient; column -1 is the constant

func ratOf(l Lin, col func(Sym) int) ratVec {
	v := ratVec{}
	for _, t := range l.t {
		v[col(t.s)] = big.NewRat(t.k, 1)
	}
	if l.c != 0 {
		v[-1] = big.NewRat(l.c, 1)
	}
	return v
}

func (v ratVec) addMul(w ratVec, k *big.Rat) {
	for c, x := range w {
		y := new(big.Rat).Mul(x, k)
		if z, ok := v[c]; ok {
			y.Add(y, z)
		}
		if y.Sign() == 0 {
			delete(v, c)
		} else {
			v[c] = y
		}
	}
}

func (v ratVec) clone() ratVec {
	w := ratVec{}
	for c, x := range v {
		w[c] = x
	}
	return w
}

// affineHull returns equations e = 0 over vars that hold on both sides, where side k
// reads variable v as vals[k][v] under the equations eqs[k].
func affineHull(vars []Sym, vals [2]map[Sym]Lin, eqs [2][]Lin) []Lin {
	if len(vars) > 48 {
		return nil
	}
	// unknowns: one coefficient per variable and a constant; one linear condition for
	// every symbol and the constant of each side
	type row = ratVec // columns: unknown indices (len(vars) is the constant)
	var rows []row
	for side := 0; side < 2; side++ {
		// eliminate with the equations of the side
		ids := map[Sym]int{}
		col := func(s Sym) int {
			if _, ok := ids[s]; !ok {
				ids[s] = len(ids)
			}
			return ids[s]
		}
		type piv struct {
			c int
			v ratVec
		}
		var ps []piv
		red := func(v ratVec) {
			for _, p := range ps {
				if x, ok := v[p.c]; ok {
					v.addMul(p.v, new(big.Rat).Neg(x))
				}
			}
		}
		for _, e := range eqs[side] {
			v := ratOf(e, col)
			red(v)
			best := -1
			for c := range v {
				if c > best {
					best = c
				}
			}
			if best < 0 {
				continue
			}
			inv := new(big.Rat).Inv(v[best])
			w := ratVec{}
			w.addMul(v, inv)
			for i := range ps {
				if x, ok := ps[i].v[best]; ok {
					ps[i].v.addMul(w, new(big.Rat).Neg(x))
				}
			}
			ps = append(ps, piv{best, w})
		}
		by := map[int]row{}
		for i, s := range vars {
			v := ratOf(vals[side][s], col)
			red(v)
			for c, x := range v {
				if by[c] == nil {
					by[c] = row{}
				}
				by[c][i] = x
			}
		}
		if by[-1] == nil {
			by[-1] = row{}
		}
		by[-1][len(vars)] = big.NewRat(1, 1)
		cs := []int{}
		for c := range by {
			cs = append(cs, c)
		}
		sort.Ints(cs)
		for _, c := range cs {
			rows = append(rows, by[c])
		}
	}
	// reduced row echelon form
	n := len(vars) + 1
	pivot := map[int]row{}
	for _, r := range rows {
		r = r.clone()
		for c := 0; c < n; c++ {
			if x, ok := r[c]; ok && pivot[c] != nil {
				r.addMul(pivot[c], new(big.Rat).Neg(x))
			}
		}
		best := -1
		for c := 0; c < n; c++ {
			if _, ok := r[c]; ok {
				best = c
				if c < n-1 {
					break
				}
			}
		}
		if best < 0 {
			continue
		}
		w := ratVec{}
		w.addMul(r, new(big.Rat).Inv(r[best]))
		for c, p := range pivot {
			if x, ok := p[best]; ok {
				p.addMul(w, new(big.Rat).Neg(x))
			}
			_ = c
		}
		pivot[best] = w
	}
	var out []Lin
	for free := 0; free < n; free++ {
		if pivot[free] != nil {
			continue
		}
		// the free unknown is 1, the other free ones 0
		sol := map[int]*big.Rat{free: big.NewRat(1, 1)}
		for c, p := range pivot {
			if x, ok := p[free]; ok {
				sol[c] = new(big.Rat).Neg(x)
			}
		}
		lcm := big.NewInt(1)
		for _, x := range sol {
			d := x.Denom()
			g := new(big.Int).GCD(nil, nil, lcm, d)
			lcm.Mul(lcm, new(big.Int).Div(d, g))
		}
		e := K(0)
		ok := true
		for c := 0; c < n; c++ {
			x, has := sol[c]
			if !has {
				continue
			}
			y := new(big.Rat).Mul(x, new(big.Rat).SetInt(lcm))
			if !y.IsInt() || !y.Num().IsInt64() {
				ok = false
				break
			}
			k := y.Num().Int64()
			if c < len(vars) && (k > 4 || k < -4) {
				ok = false
				break
			}
			if c < len(vars) {
				e = linComb(e, 1, S(vars[c]), k)
			} else {
				e = e.addk(k)
			}
		}
		if ok && len(e.t) > 0 {
			out = append(out, e)
		}
	}
	return out
}

package main

// The Bloom filter (C19). Positions are terms over the hash of a value; a bitmap is the set
// of positions set in it. Encoded filters are byte sequences that name the number and the
// place a byte comes from.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const bloomRel = "ds/bloomfilter"

func isCall(c *callCtx, rel, typ, name string) bool {
	return c.fn != nil && c.ip.p.fname(c.fn) == rel+"."+map[bool]string{true: "(" + typ + ").", false: ""}[typ != ""]+name
}

func stdCall(c *callCtx) string {
	if c.fn == nil {
		return ""
	}
	f := c.fn
	if f.Origin() != nil {
		f = f.Origin()
	}
	n := f.String()
	return n
}

// matchIdx finds an index at which the template equals the value.
func (s *State) matchIdx(tmpl, v Value) (Lin, bool) {
	var cand []Lin
	var walk func(a, b Value)
	walk = func(a, b Value) {
		switch x := a.(type) {
		case VInt:
			y, ok := b.(VInt)
			if k := x.L.coef(iotaSym); ok && (k == 1 || k == -1) {
				// k*ι + rest = y
				rest := x.L.sub(S(iotaSym).mul(k))
				cand = append(cand, y.L.sub(rest).mul(k))
			}
		case VTerm:
			y, ok := b.(VTerm)
			if ok && x.F == y.F && len(x.A) == len(y.A) {
				for i := range x.A {
					walk(x.A[i], y.A[i])
				}
			}
		}
	}
	walk(tmpl, v)
	for _, c := range cand {
		if s.sameVal(at(tmpl, c), v) {
			return c, true
		}
	}
	return Lin{}, false
}

// inLog tells whether the log holds the position; the log consists of segments up to its count.
func (s *State) inLog(log VPtr, p Value) bool {
	n := s.cell(log.Obj, "n").(VInt).L
	arr := s.cell(log.Obj, "arr").(VPtr).Obj
	for _, g := range s.col(arr, "") {
		i, ok := g.Lo, false
		if hasIota(g.V) {
			i, ok = s.matchIdx(g.V, p)
		} else {
			ok = s.entails(g.Hi.sub(g.Lo).addk(-1)) && s.sameVal(g.V, p)
		}
		if ok && s.decide(condGE(i.sub(g.Lo))) == 1 && s.decide(condGE(g.Hi.sub(i).addk(-1))) == 1 && s.decide(condGE(n.sub(i).addk(-1))) == 1 {
			return true
		}
	}
	return false
}

func (s *State) logAdd(log VPtr, p Value) {
	n := s.cell(log.Obj, "n").(VInt).L
	arr := s.cell(log.Obj, "arr").(VPtr).Obj
	s.addFact(s.heap[arr].Len.sub(n).addk(-1))
	s.arrSet(arr, "", n, p)
	s.setCell(log.Obj, "n", I(n.addk(1)))
}

func (s *State) newLog(name string) VPtr {
	a := s.newArr(name+"-entries", s.fresh("room", K(1)))
	s.heap[a].Cols[""] = []Seg{{K(0), s.heap[a].Len, T("junk")}}
	o := s.newObj(name)
	s.setCell(o, "n", Kv(0))
	s.setCell(o, "arr", VPtr{a, ""})
	return VPtr{o, ""}
}

// bloomModel is a filter of m bits and k hashes.
type bloomModel struct {
	ptr, bm, set, yes VPtr
	m, k              Lin
}

func newBloom(st *State) *bloomModel {
	b := &bloomModel{}
	b.m, b.k = st.fresh("m", K(1)), st.fresh("k", K(0))
	size := st.fresh("size", b.m)
	b.set, b.yes = st.newLog("set"), st.newLog("yes")
	bm := st.newObj("model-bitmap")
	st.setCell(bm, "size", I(size))
	st.setCell(bm, "set", b.set)
	st.setCell(bm, "yes", b.yes)
	st.setCell(bm, "no", VNil{})
	b.bm = VPtr{bm, ""}
	o := st.newObj("BloomFilter")
	st.setCell(o, ".m", I(b.m))
	st.setCell(o, ".k", I(b.k))
	st.setCell(o, ".b", b.bm)
	st.setCell(o, ".locker", VIface{"model:locker", VNil{}})
	b.ptr = VPtr{o, ""}
	st.keep["bf"] = b.ptr
	return b
}

func lockerInvoke(c *callCtx) ([]Out, bool) {
	if r, ok := c.recv.(VIface); ok && r.Dyn == "model:locker" {
		return []Out{{c.st, nil}}, true
	}
	return nil, false
}

// bloomStatic answers the hash and the bitmap.
func bloomStatic(j *Job) func(c *callCtx) ([]Out, bool) {
	return func(c *callCtx) ([]Out, bool) {
		s := c.st
		one := func(v ...Value) ([]Out, bool) { return []Out{{s, v}}, true }
		if isCall(c, "algorithm/hash", "", "GenHashInts") {
			n, ok := c.args[1].(VInt)
			if !ok || !s.need(condGE(n.L)) {
				giveUp("the number of hashes asked for")
			}
			a := s.newArr(c.ip.siteName(c.site), n.L)
			s.heap[a].Cols[""] = s.normSegs([]Seg{{K(0), n.L, T("hash", c.args[0], I(S(iotaSym)))}})
			return one(VSlice{a, K(0), n.L, n.L})
		}
		if len(c.args) == 0 || c.fn == nil || !strings.HasPrefix(c.ip.p.fname(c.fn), bmRel+".") {
			return nil, false
		}
		bp, ok := c.args[0].(VPtr)
		if !ok || s.heap[bp.Obj] == nil || s.heap[bp.Obj].Site != "model-bitmap" {
			return nil, false
		}
		size := s.cell(bp.Obj, "size").(VInt).L
		inRange := func(p Value) bool {
			switch x := p.(type) {
			case VInt:
				return s.need(condGE(size.sub(x.L).addk(-1)))
			case VTerm:
				if l, ok := x.A[0].(VTerm); x.F == "%" && !(ok && strings.HasPrefix(l.F, "conv:")) {
					if m, ok := x.A[1].(VInt); ok {
						return s.need(condGE(size.sub(m.L)))
					}
				}
			}
			return false
		}
		switch c.fn.Name() {
		case "Set":
			if !inRange(c.args[1]) {
				giveUp("position %s is not kept below the size of the bitmap, so Set may be refused", showVal(c.args[1]))
			}
			s.logAdd(s.cell(bp.Obj, "set").(VPtr), c.args[1])
			return one(bTrue)
		case "IsSet":
			if !inRange(c.args[1]) {
				return one(bFalse)
			}
			p := c.args[1]
			if s.inLog(s.cell(bp.Obj, "set").(VPtr), p) || s.inLog(s.cell(bp.Obj, "yes").(VPtr), p) {
				if !s.inLog(s.cell(bp.Obj, "yes").(VPtr), p) {
					s.logAdd(s.cell(bp.Obj, "yes").(VPtr), p)
				}
				return one(bTrue)
			}
			no := s.clone()
			no.setCell(bp.Obj, "no", p)
			s.logAdd(s.cell(bp.Obj, "yes").(VPtr), p)
			return []Out{{s, []Value{bTrue}}, {no, []Value{bFalse}}}, true
		case "Size":
			return one(I(size))
		}
		giveUp("%s of the bitmap is not expected here", c.fn.Name())
		return nil, false
	}
}

func (p *Prog) bloomJob(r *Result, meth string) *Job {
	j := r.job(p, "probes", p.Method(bloomRel, "BloomFilter", meth), bloomRel+".(BloomFilter)."+meth)
	if j != nil {
		r.Count("clauses", 1)
		j.ip.Terms = true
		j.ip.Static = bloomStatic(j)
		j.ip.Invoke = lockerInvoke
	}
	return j
}

// ---- encoded data

// encStatic models package encoding/binary and bytes buffers.
func encStatic(c *callCtx) ([]Out, bool) {
	s := c.st
	one := func(v ...Value) ([]Out, bool) { return []Out{{s, v}}, true }
	piece := func(order string, w int64, v Value) VSlice {
		a := s.newArr(c.ip.siteName(c.site)+"-enc", K(w))
		s.heap[a].Cols[""] = []Seg{{K(0), K(w), T("byteof:"+order, Kv(w), v, I(S(iotaSym)))}}
		return VSlice{a, K(0), K(w), K(w)}
	}
	concat := func(a, b VSlice) VSlice {
		n := a.Len.add(b.Len)
		x := s.newArr(c.ip.siteName(c.site)+"-buf", n)
		s.heap[x].Cols[""] = nil
		s.heap[x].Cols[""] = []Seg{{K(0), n, VTop{}}}
		if a.Arr != 0 {
			s.copyRange(x, K(0), a.Arr, a.Off, a.Len)
		}
		if b.Arr != 0 {
			s.copyRange(x, a.Len, b.Arr, b.Off, b.Len)
		}
		return VSlice{x, K(0), n, n}
	}
	// decode reads w bytes of a slice from offset off.
	decode := func(order string, w int64, sl VSlice, off Lin, t types.Type) Value {
		var v Value
		for i := int64(0); i < w; i++ {
			b := s.arrGet(sl.Arr, "", sl.Off.add(off).addk(i))
			x, ok := b.(VTerm)
			if !ok || x.F != "byteof:"+order || !valEq(x.A[0], Kv(w)) || !s.sameVal(x.A[2], Kv(i)) || v != nil && !s.sameVal(v, x.A[1]) {
				return s.opaque(t, "decoded")
			}
			v = x.A[1]
		}
		return v
	}
	orderOf := func(v Value) string {
		if i, ok := v.(VIface); ok {
			return i.Dyn[strings.LastIndex(i.Dyn, ".")+1:]
		}
		giveUp("an unknown byte order")
		return ""
	}
	width := map[string]int64{"uint64": 8, "int64": 8, "uint32": 4, "int32": 4, "uint16": 2, "int16": 2, "uint8": 1, "byte": 1}
	buffer := func(v Value) VPtr {
		if i, ok := v.(VIface); ok {
			v = i.V
		}
		p, ok := v.(VPtr)
		if !ok || s.heap[p.Obj] == nil {
			giveUp("an unknown buffer")
		}
		if s.cell(p.Obj, "#buf") == nil {
			s.setCell(p.Obj, "#buf", VSlice{0, K(0), K(0), K(0)})
			s.setCell(p.Obj, "#pos", Kv(0))
		}
		return p
	}
	content := func(p VPtr) (VSlice, Lin) {
		sl, _ := asSlice(s.cell(p.Obj, "#buf"))
		return sl, s.cell(p.Obj, "#pos").(VInt).L
	}
	bytesArg := func(v Value) VSlice {
		sl, ok := asSlice(v)
		if !ok {
			giveUp("unknown bytes %s", showVal(v))
		}
		return sl
	}
	name := stdCall(c)
	switch name {
	case "bytes.NewBuffer", "bytes.NewReader":
		o := s.newObj(c.ip.siteName(c.site))
		s.setCell(o, "#buf", bytesArg(c.args[0]))
		s.setCell(o, "#pos", Kv(0))
		return one(VPtr{o, ""})
	case "(*bytes.Buffer).Grow":
		return one()
	case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).Len", "(*bytes.Reader).Len":
		sl, pos := content(buffer(c.args[0]))
		if strings.HasSuffix(name, "Len") {
			return one(I(sl.Len.sub(pos)))
		}
		return one(VSlice{sl.Arr, sl.Off.add(pos), sl.Len.sub(pos), sl.Len.sub(pos)})
	case "(*bytes.Buffer).Write":
		p := buffer(c.args[0])
		sl, _ := content(p)
		x := bytesArg(c.args[1])
		s.setCell(p.Obj, "#buf", concat(sl, x))
		return one(I(x.Len), VNil{})
	case "encoding/binary.Write":
		p := buffer(c.args[0])
		sl, _ := content(p)
		d, ok := c.args[2].(VIface)
		if !ok {
			giveUp("binary.Write of %s", showVal(c.args[2]))
		}
		if x, ok := asSlice(d.V); ok && d.Dyn == "[]byte" {
			s.setCell(p.Obj, "#buf", concat(sl, x))
			return one(VNil{})
		}
		w, ok := width[d.Dyn]
		if !ok {
			giveUp("binary.Write of %s", d.Dyn)
		}
		s.setCell(p.Obj, "#buf", concat(sl, piece(orderOf(c.args[1]), w, d.V)))
		return one(VNil{})
	case "encoding/binary.Read":
		p := buffer(c.args[0])
		sl, pos := content(p)
		d, ok := c.args[2].(VIface)
		w := int64(0)
		if ok {
			w = width[strings.TrimPrefix(d.Dyn, "*")]
		}
		if w == 0 || !strings.HasPrefix(d.Dyn, "*") {
			giveUp("binary.Read into %s", showVal(c.args[2]))
		}
		if !s.need(condGE(sl.Len.sub(pos).addk(-w))) {
			s.setCell(p.Obj, "#pos", I(sl.Len))
			return one(T("error"))
		}
		t := types.Universe.Lookup(strings.TrimPrefix(d.Dyn, "*")).Type()
		s.store(d.V, decode(orderOf(c.args[1]), w, sl, pos, t), t)
		s.setCell(p.Obj, "#pos", I(pos.addk(w)))
		return one(VNil{})
	}
	for _, order := range []string{"littleEndian", "bigEndian"} {
		m := strings.TrimPrefix(name, "(encoding/binary."+order+").")
		if m == name {
			continue
		}
		for w, tn := range map[int64]string{8: "64", 4: "32", 2: "16"} {
			t := types.Universe.Lookup("uint" + tn).Type()
			switch m {
			case "Uint" + tn:
				sl := bytesArg(c.args[1])
				if !s.need(condGE(sl.Len.addk(-w))) {
					panic(goPanicErr{"index out of range"})
				}
				return one(decode(order, w, sl, K(0), t))
			case "PutUint" + tn:
				sl := bytesArg(c.args[1])
				if !s.need(condGE(sl.Len.addk(-w))) {
					panic(goPanicErr{"index out of range"})
				}
				x := piece(order, w, c.args[2])
				s.copyRange(sl.Arr, sl.Off, x.Arr, K(0), K(w))
				return one()
			case "AppendUint" + tn:
				return one(concat(bytesArg(c.args[1]), piece(order, w, c.args[2])))
			}
		}
	}
	return nil, false
}

// constantGlobal: the variable is only read, or set up by the package initialiser.
func (p *Prog) constantGlobal(g *ssa.Global) bool {
	switch g.Type().(*types.Pointer).Elem().Underlying().(type) {
	case *types.Basic, *types.Interface, *types.Struct, *types.Array:
	default:
		return false
	}
	for _, f := range p.Funcs {
		if f.Pkg != g.Pkg && f.Pkg != nil && !g.Object().Exported() {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
						continue
					}
					if f.Name() == "init" && f.Synthetic != "" {
						continue
					}
					return false
				}
			}
		}
	}
	return true
}

// deterministic requires that what f computes depends on its arguments alone.
func (p *Prog) deterministic(r *Result, f *ssa.Function) {
	if f == nil {
		r.Fail("deterministic", "algorithm/hash.GenHashInts", "-", "GenHashInts is not declared any more")
		return
	}
	r.Count("clauses", 1)
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		r.Count("functions", 1)
		bad := func(in ssa.Instruction, what string) {
			r.Fail("deterministic", p.fname(f), p.Pos(in.Pos()), "%s, so two calls with the same seed need not agree", what)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok {
						bad(in, "it ranges over a map")
					}
				case *ssa.Select, *ssa.Go, *ssa.Send:
					bad(in, "it depends on the scheduler")
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						bad(in, "it depends on the scheduler")
					}
				}
				for _, op := range in.Operands(nil) {
					switch y := (*op).(type) {
					case *ssa.Global:
						if pk := y.Pkg.Pkg.Path(); (pk == modPath || strings.HasPrefix(pk, modPath+"/")) && !p.constantGlobal(y) {
							bad(in, "it uses the variable "+y.Name()+", which changes")
						} else if pk == "crypto/rand" || pk == "os" {
							bad(in, "it uses "+pk+"."+y.Name())
						}
					case *ssa.Function:
						if len(y.Blocks) > 0 && p.inModule(y) {
							visit(y)
							continue
						}
						pk := ""
						if y.Pkg != nil {
							pk = y.Pkg.Pkg.Path()
						} else if y.Object() != nil && y.Object().Pkg() != nil {
							pk = y.Object().Pkg().Path()
						}
						switch {
						case pk == "math/rand", pk == "math/rand/v2", pk == "crypto/rand", pk == "time", pk == "os", pk == "runtime", pk == "unsafe", pk == "hash/maphash", pk == "reflect", pk == "net":
							bad(in, "it calls "+y.String())
						}
					}
				}
			}
		}
	}
	visit(f)
}

func init() {
	checks["C19"] = func(p *Prog, r *Result) {
		sloped = true
		defer func() { sloped = false }()
		r.Rule("abstract interpretation of Add and Contains over any number of hashes and bits: the positions Contains probes are compared with those Add sets; the hash is a function of its seed (shown by a scan of everything GenHashInts calls) and delivers as many numbers as asked for; Data followed by NewFromData is interpreted with bytes that remember the number they encode")
		r.Assumption("m is at least 1; the bitmap behaves as C20 shows; standard library hashes are deterministic and deliver at least 8 bytes")
		p.deterministic(r, p.Func("algorithm/hash", "GenHashInts"))
		// the hash delivers n numbers
		st := newInterp(p).NewState()
		if j := r.job(p, "hash", p.Func("algorithm/hash", "GenHashInts"), "algorithm/hash.GenHashInts"); j != nil {
			r.Count("clauses", 1)
			n := st.fresh("n", K(0))
			st.keep["n"] = I(n)
			j.ip.Static = func(c *callCtx) ([]Out, bool) {
				if stdCall(c) == "encoding/binary.Read" {
					if d, ok := c.args[2].(VIface); ok {
						if sl, ok := asSlice(d.V); ok && sl.Arr != 0 {
							c.st.setCol(sl.Arr, "", []Seg{{K(0), c.st.heap[sl.Arr].Len, VTop{}}})
						}
					}
					return []Out{{c.st, []Value{VNil{}}}}, true
				}
				if c.fn != nil && !c.ip.p.inModule(c.fn) {
					rs := c.fn.Signature.Results()
					var out []Value
					for i := 0; i < rs.Len(); i++ {
						out = append(out, sumResult(c, rs.At(i).Type()))
					}
					return []Out{{c.st, out}}, true
				}
				return nil, false
			}
			j.ip.Invoke = func(c *callCtx) ([]Out, bool) {
				rs := c.sig.Results()
				var out []Value
				for i := 0; i < rs.Len(); i++ {
					out = append(out, sumResult(c, rs.At(i).Type()))
				}
				return []Out{{c.st, out}}, true
			}
			seed := st.newArr("seed", st.fresh("seedlen", K(0)))
			st.heap[seed].Cols[""] = []Seg{{K(0), st.heap[seed].Len, VTop{}}}
			blind, j.noTerm = true, true
			j.run(st, []Value{VSlice{seed, K(0), st.heap[seed].Len, st.heap[seed].Len}, I(n)}, func(s *State, ret []Value, pos token.Pos) {
				sl, ok := asSlice(ret[0])
				if !ok {
					giveUp("the hash delivers %s", showVal(ret[0]))
				}
				j.mustEq(s, I(sl.Len), I(n), pos, "number of hashes")
			})
			blind = false
		}
		// what Add sets is what Contains probes
		type added struct {
			log  VPtr
			s    *State
			k, m Lin
		}
		var after []added
		st = newInterp(p).NewState()
		b := newBloom(st)
		st.keep["val"] = T("val")
		if j := p.bloomJob(r, "Add"); j != nil {
			j.run(st, []Value{b.ptr, T("val")}, func(s *State, ret []Value, pos token.Pos) {
				if s.cell(b.ptr.Obj, ".b") != Value(b.bm) || !j.mustEq(s, s.cell(b.ptr.Obj, ".k"), I(b.k), pos, "k after Add") || !j.mustEq(s, s.cell(b.ptr.Obj, ".m"), I(b.m), pos, "m after Add") {
					j.fail(pos, "Add replaces the bitmap or its parameters")
				}
				if n := s.cell(b.set.Obj, "n").(VInt).L; s.need(condGE(b.k.addk(-1))) {
					j.must(s, condGE(n.addk(-1)), pos, "Add sets at least one bit")
				}
				after = append(after, added{b.set, s.clone(), b.k, b.m})
			})
		}
		for _, a := range after {
			s0 := a.s.clone()
			s0.trace = nil
			j := p.bloomJob(r, "Contains")
			if j == nil {
				break
			}
			j.run(s0, []Value{b.ptr, T("val")}, func(s *State, ret []Value, pos token.Pos) {
				v, ok := ret[0].(VBool)
				if !ok || s.need(v.not()) {
					j.fail(pos, "a value that was added is reported as absent: position %s is probed but not set by Add %s", showVal(s.cell(b.bm.Obj, "no")), j.path(s))
				}
			})
			// exactness: on a filter of unknown content
			st := newInterp(p).NewState()
			b2 := newBloom(st)
			j = p.bloomJob(r, "Contains")
			j.run(st, []Value{b2.ptr, T("val")}, func(s *State, ret []Value, pos token.Pos) {
				v, ok := ret[0].(VBool)
				if !ok {
					giveUp("Contains delivers %s", showVal(ret[0]))
				}
				want := func(s *State, v Value) Value {
					return substVal(v, map[Sym]Lin{symOf(a.k): b2.k, symOf(a.m): b2.m})
				}
				n := substLin(a.s.cell(a.log.Obj, "n").(VInt).L, map[Sym]Lin{symOf(a.k): b2.k, symOf(a.m): b2.m})
				segs := a.s.col(a.s.cell(a.log.Obj, "arr").(VPtr).Obj, "")
				if !s.need(v) {
					return
				}
				for _, g := range segs {
					lo := substLin(g.Lo, map[Sym]Lin{symOf(a.k): b2.k})
					hi := substLin(g.Hi, map[Sym]Lin{symOf(a.k): b2.k})
					c := s.clone()
					for _, f := range a.s.facts {
						c.addFact(substLin(f, map[Sym]Lin{symOf(a.k): b2.k, symOf(a.m): b2.m}))
					}
					i := c.fresh("i", lo)
					if !c.addFact(hi.sub(i).addk(-1)) || !c.addFact(n.sub(i).addk(-1)) || infeasible(c.facts) {
						continue
					}
					if q := at(want(c, g.V), i); !c.inLog(b2.yes, q) {
						if debugOn {
							dbg("wanted %s\n%s", showVal(q), c.dump())
						}
						j.fail(pos, "Contains reports a value as present without having found position %s set", showVal(q))
					}
				}
			})
		}
		// round trip
		st = newInterp(p).NewState()
		bmp, sl, n := newBitmap(st, "bits")
		o := st.newObj("BloomFilter")
		m, k := st.fresh("m", K(1)), st.fresh("k", K(0))
		st.addFact(n.mul(8).sub(m))
		st.setCell(o, ".m", I(m))
		st.setCell(o, ".k", I(k))
		st.setCell(o, ".b", bmp)
		st.setCell(o, ".locker", VIface{"model:locker", VNil{}})
		st.keep["bf"], st.keep["bits"], st.keep["n"] = VPtr{o, ""}, sl, I(n)
		type enc struct {
			s *State
			v Value
		}
		var encs []enc
		if j := p.bloomJob(r, "Data"); j != nil {
			j.ip.Static = encStatic
			j.run(st, []Value{VPtr{o, ""}}, func(s *State, ret []Value, pos token.Pos) {
				j.wantBits(s, bmp, n, []Seg{{K(0), n, origByte(S(iotaSym))}}, pos, "the bitmap after Data")
				j.mustEq(s, s.cell(o, ".m"), I(m), pos, "m after Data")
				j.mustEq(s, s.cell(o, ".k"), I(k), pos, "k after Data")
				encs = append(encs, enc{s.clone(), ret[0]})
			})
		}
		for _, e := range encs {
			j := r.job(p, "round trip", p.Func(bloomRel, "NewFromData"), bloomRel+".NewFromData")
			if j == nil {
				break
			}
			r.Count("clauses", 1)
			j.ip.Terms = true
			j.ip.Static = encStatic
			j.ip.Invoke = lockerInvoke
			s0 := e.s.clone()
			s0.trace = nil
			j.run(s0, []Value{e.v, VSlice{0, K(0), K(0), K(0)}}, func(s *State, ret []Value, pos token.Pos) {
				bf, ok := ret[0].(VPtr)
				if !ok {
					j.fail(pos, "no filter delivered")
					return
				}
				if _, ok := s.cell(bf.Obj, ".locker").(VIface); !ok {
					j.fail(pos, "the filter has no locker")
				}
				j.mustEq(s, s.cell(bf.Obj, ".m"), I(m), pos, "number of bits of the rebuilt filter")
				j.mustEq(s, s.cell(bf.Obj, ".k"), I(k), pos, "number of hashes of the rebuilt filter")
				j.wantBits(s, s.cell(bf.Obj, ".b"), n, []Seg{{K(0), n, origByte(S(iotaSym))}}, pos, "the bitmap of the rebuilt filter")
			})
		}
		// a new filter is empty and has room for m bits
		st = newInterp(p).NewState()
		m, k = st.fresh("m", K(1)), st.fresh("k", K(0))
		st.keep["m"], st.keep["k"] = I(m), I(k)
		if j := r.job(p, "new", p.Func(bloomRel, "New"), bloomRel+".New"); j != nil {
			r.Count("clauses", 1)
			j.run(st, []Value{I(m), I(k), VSlice{0, K(0), K(0), K(0)}}, func(s *State, ret []Value, pos token.Pos) {
				bf, ok := ret[0].(VPtr)
				if !ok {
					j.fail(pos, "no filter delivered")
					return
				}
				j.mustEq(s, s.cell(bf.Obj, ".m"), I(m), pos, "number of bits of a new filter")
				j.mustEq(s, s.cell(bf.Obj, ".k"), I(k), pos, "number of hashes of a new filter")
				bp, ok := s.cell(bf.Obj, ".b").(VPtr)
				if !ok {
					j.fail(pos, "a new filter has no bitmap")
					return
				}
				size := s.cell(bp.Obj, ".size").(VInt).L
				j.must(s, condGE(size.sub(m)), pos, "the bitmap has room for m bits")
				d, _ := asSlice(s.cell(bp.Obj, ".data"))
				j.wantBits(s, bp, d.Len, []Seg{{K(0), d.Len, Kv(0)}}, pos, "the bitmap of a new filter")
			})
		}
		r.Need("clauses", 8)
	}
}

func symOf(l Lin) Sym { return l.t[0].s }
func substLin(l Lin, m map[Sym]Lin) Lin { return l.subst(m) }

// sumResult: what a standard function delivers; byte slices have at least 8 bytes.
func sumResult(c *callCtx, t types.Type) Value {
	if sl, ok := t.Underlying().(*types.Slice); ok {
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			n := c.st.fresh("sumlen", K(8))
			a := c.st.newArr(c.ip.siteName(c.site), n)
			c.st.heap[a].Cols[""] = []Seg{{K(0), n, VTop{}}}
			return VSlice{a, K(0), n, n}
		}
	}
	if types.IsInterface(t) {
		if t.String() == "error" {
			return VNil{}
		}
		return VIface{"model:std", VNil{}}
	}
	if _, ok := t.Underlying().(*types.Array); ok {
		return VTop{}
	}
	if _, ok := t.(*types.Pointer); ok {
		return VPtr{c.st.newObj(c.ip.siteName(c.site)), ""}
	}
	return c.st.opaque(t, "std")
}

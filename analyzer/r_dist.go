package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C25", Rule: "each distance and kernel of the pairwise package is brought into algebraic normal form over the elements of its two operands (element loops, the gonum elementwise operations, sums and dot products, and helper methods are modelled; running maxima become MAX) and compared with the normal form of its definition; and no result is returned before the operands' shapes were compared (by the function itself or by the gonum operation it applies to both).", Run: runC25})
}

// matDef: how a matrix made inside the function is computed from others.
type matDef struct {
	op   string
	a, b string
	k    Sym
}

func isDense(v ssa.Value) bool {
	n := namedOf(v.Type())
	return n != nil && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/mat") && n.Obj().Name() == "Dense"
}

func matCall(c ssa.CallInstruction, name string) bool {
	o := calleeObj(c)
	return o != nil && o.Name() == name && o.Pkg() != nil && strings.HasSuffix(o.Pkg().Path(), "/mat")
}

var elementwise = map[string]bool{"Sub": true, "Add": true, "MulElem": true, "DivElem": true}

// elem: the element of a matrix at (i, j).
func (f *sumFrame) elem(m, i, j string) (Sym, bool) {
	d, ok := f.mats[m]
	if !ok {
		if strings.ContainsAny(m, "?@") {
			return Sym{}, false
		}
		return symAtom(m + "[" + i + "," + j + "]"), true
	}
	a, ok := f.elem(d.a, i, j)
	if !ok {
		return Sym{}, false
	}
	var b Sym
	if elementwise[d.op] {
		if b, ok = f.elem(d.b, i, j); !ok {
			return Sym{}, false
		}
	}
	switch d.op {
	case "Sub":
		return a.Sub(b), true
	case "Add":
		return a.Add(b), true
	case "MulElem":
		return a.Mul(b), true
	case "DivElem":
		return a.Div(b), true
	case "Scale":
		return a.Mul(d.k), true
	}
	return Sym{}, false
}

func (f *sumFrame) newMat(d matDef) Sym {
	n := fmt.Sprintf("mat:%s(%s,%s)", d.op, d.a, d.b)
	if d.op == "Scale" {
		n = fmt.Sprintf("mat:Scale(%s,%s)", d.k.String(), d.a)
	}
	f.mats[n] = d
	return symAtom(n)
}

// dense: what the operations applied to a freshly made matrix leave in it.
func (f *sumFrame) dense(v ssa.Value) (Sym, bool) {
	var ops []*ssa.Call
	for _, r := range *v.Referrers() {
		c, ok := r.(*ssa.Call)
		if !ok {
			if _, dbg := r.(*ssa.DebugRef); dbg {
				continue
			}
			if _, mi := r.(*ssa.MakeInterface); mi {
				continue // read through an interface
			}
			return Sym{}, false
		}
		o := calleeObj(c)
		if o == nil {
			return Sym{}, false
		}
		if recvOf(c) != v || !strings.HasSuffix(o.Pkg().Path(), "/mat") {
			continue
		}
		switch o.Name() {
		case "Reset", "Dims", "At", "ColView", "RowView", "Caps", "IsEmpty", "IsZero":
		default:
			ops = append(ops, c)
		}
	}
	if len(ops) == 0 {
		return Sym{}, false
	}
	// of several operations the last one counts, if it does not build on the earlier ones
	c := ops[0]
	for _, o := range ops[1:] {
		if o.Block() != c.Block() {
			return symAtom("?"), true
		}
		if idxIn(o) > idxIn(c) {
			c = o
		}
	}
	name := calleeObj(c).Name()
	as := argsOf(c)
	if len(ops) > 1 {
		for _, a := range as {
			if mi, ok := a.(*ssa.MakeInterface); ok {
				a = mi.X
			}
			if a == v {
				return symAtom("?"), true
			}
		}
	}
	ev := func(v ssa.Value) string {
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		return f.eval(v).String()
	}
	switch {
	case elementwise[name]:
		return f.newMat(matDef{op: name, a: ev(as[0]), b: ev(as[1])}), true
	case name == "Scale":
		return f.newMat(matDef{op: name, k: f.eval(as[0]), a: ev(as[1])}), true
	}
	return Sym{}, false
}

func (f *sumFrame) double(term func(i, j string) (Sym, bool)) (Sym, bool) {
	k1 := fmt.Sprintf("⟪%d⟫", f.level)
	k2 := fmt.Sprintf("⟪%d⟫", f.level+1)
	t, ok := term(k1, k2)
	if !ok {
		return Sym{}, false
	}
	return sumOver(sumOver(t, "0..cols", k2, ""), "0..rows", k1, ""), true
}

// matrixAtoms: the meaning of the gonum operations used on dense matrices.
func matrixAtoms(f *sumFrame, v ssa.Value) (Sym, bool) {
	strip := func(v ssa.Value) ssa.Value {
		if mi, ok := v.(*ssa.MakeInterface); ok {
			return mi.X
		}
		return v
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		if isDense(x.X) {
			return f.eval(x.X), true
		}
	case *ssa.Alloc:
		if isDense(x) {
			return f.dense(x)
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok && matCall(c, "Dims") {
			return symAtom([]string{"rows", "cols"}[x.Index]), true
		}
	case *ssa.Call:
		switch {
		case matCall(x, "NewDense"):
			return f.dense(x)
		case matCall(x, "At") && isDense(recvOf(x)):
			as := argsOf(x)
			return f.elem(f.eval(recvOf(x)).String(), f.eval(as[0]).String(), f.eval(as[1]).String())
		case matCall(x, "Sum"):
			m := strip(x.Call.Args[0])
			if !isDense(m) {
				return Sym{}, false
			}
			n := f.eval(m).String()
			return f.double(func(i, j string) (Sym, bool) { return f.elem(n, i, j) })
		case matCall(x, "Norm"):
			m := strip(x.Call.Args[0])
			if k, ok := x.Call.Args[1].(*ssa.Const); ok && isDense(m) {
				if z, ok := constFloat(k); ok && z == 2 {
					n := f.eval(m).String()
					s, ok := f.double(func(i, j string) (Sym, bool) {
						e, ok := f.elem(n, i, j)
						return e.Mul(e), ok
					})
					if !ok {
						return Sym{}, false
					}
					return f.sqrt(s), true
				}
			}
		case matCall(x, "Dot"):
			col := func(v ssa.Value) (string, string, bool) {
				c, ok := strip(v).(*ssa.Call)
				if !ok || !matCall(c, "ColView") {
					return "", "", false
				}
				return f.eval(recvOf(c)).String(), f.eval(argsOf(c)[0]).String(), true
			}
			m1, k1, ok1 := col(x.Call.Args[0])
			m2, k2, ok2 := col(x.Call.Args[1])
			if !ok1 || !ok2 {
				return Sym{}, false
			}
			k := fmt.Sprintf("⟪%d⟫", f.level)
			a, oka := f.elem(m1, k, k1)
			b, okb := f.elem(m2, k, k2)
			if !oka || !okb {
				return Sym{}, false
			}
			return sumOver(a.Mul(b), "0..rows", k, ""), true
		}
	}
	return Sym{}, false
}

func runC25(c *Ctx) {
	p := c.P
	base := newSumFrame(p, matrixAtoms)
	el := func(m string, i, j string) Sym { return symAtom(m + "[" + i + "," + j + "]") }
	abs := func(s Sym) Sym {
		s = s.reduce()
		if n := symInt(0).Sub(s).reduce(); n.String() < s.String() {
			s = n
		}
		return symAtom("abs(" + s.String() + ")")
	}
	sum := func(t func(x, y Sym) Sym) Sym {
		s, _ := base.double(func(i, j string) (Sym, bool) { return t(el("X", i, j), el("Y", i, j)), true })
		return s
	}
	mul := func(a, b Sym) Sym { return a.Mul(b) }
	sq := sum(func(x, y Sym) Sym { return x.Sub(y).Mul(x.Sub(y)) })
	dot := sum(mul)
	xx := sum(func(x, y Sym) Sym { return x.Mul(x) })
	yy := sum(func(x, y Sym) Sym { return y.Mul(y) })
	cheb := symAtom("MAX{⟨1⟩∈0..rows}{⟨0⟩∈0..cols}" + abs(el("X", "⟨1⟩", "⟨0⟩").Sub(el("Y", "⟨1⟩", "⟨0⟩"))).String())
	coldot := symAtom("Σ{⟨0⟩∈0..rows}X[⟨0⟩,0]*Y[⟨0⟩,0]")
	table := []struct {
		name string
		want func(fr *sumFrame) Sym
		what string
	}{
		{"(*metrics/pairwise.Manhattan).Distance", func(*sumFrame) Sym { return sum(func(x, y Sym) Sym { return abs(x.Sub(y)) }) }, "the Manhattan distance"},
		{"(*metrics/pairwise.Chebyshev).Distance", func(*sumFrame) Sym { return cheb }, "the Chebyshev distance"},
		{"(*metrics/pairwise.Euclidean).InnerProduct", func(*sumFrame) Sym { return dot }, "the Euclidean inner product"},
		{"(*metrics/pairwise.Euclidean).Distance", func(f *sumFrame) Sym { return f.sqrt(sq) }, "the Euclidean distance"},
		{"(*metrics/pairwise.Cosine).Dot", func(*sumFrame) Sym { return dot }, "the dot product"},
		{"(*metrics/pairwise.Cosine).Distance", func(f *sumFrame) Sym { return symInt(1).Sub(dot.Div(f.sqrt(xx).Mul(f.sqrt(yy)))) }, "the cosine distance"},
		{"(*metrics/pairwise.Cranberra).Distance", func(*sumFrame) Sym {
			return sum(func(x, y Sym) Sym { return abs(x.Sub(y)).Div(abs(x).Add(abs(y))) })
		}, "the Canberra distance"},
		{"(*metrics/pairwise.PolyKernel).InnerProduct", func(*sumFrame) Sym {
			return symAtom("pow(" + symInt(1).Add(coldot).reduce().String() + ",.degree)")
		}, "the polynomial kernel"},
		{"(*metrics/pairwise.RBFKernel).InnerProduct", func(*sumFrame) Sym {
			return symAtom("exp(" + symInt(0).Sub(symAtom(".gamma").Mul(sq)).reduce().String() + ")")
		}, "the radial basis function kernel"},
	}
	seen := 0
	for _, t := range table {
		f := p.Func(t.name)
		if f == nil || len(f.Params) != 3 {
			continue
		}
		seen++
		fr := newSumFrame(p, matrixAtoms)
		fr.bind[f.Params[1]] = symAtom("X")
		fr.bind[f.Params[2]] = symAtom("Y")
		formula(c, f, 0, fr, t.want(fr), "distance:"+t.name, t.what)
		ok := shapesCompared(p, f, f.Params[1], f.Params[2], 0)
		c.Check(ok, "shape:"+t.name, p.Pos(f.Pos()), "different shapes are rejected", "a result is returned although the operands may have different shapes")
	}
	c.Floor("distances and kernels", seen, 5)
}

// shapesCompared: no return is reached unless the shapes of x and y were compared and found equal.
func shapesCompared(p *Prog, f *ssa.Function, x, y ssa.Value, depth int) bool {
	if depth > 4 {
		return false
	}
	of := func(v ssa.Value) ssa.Value {
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		if c, ok := v.(*ssa.Call); ok && (matCall(c, "ColView") || matCall(c, "RowView")) {
			v = recvOf(c)
		}
		return v
	}
	both := func(as []ssa.Value) (int, int) {
		ix, iy := -1, -1
		for i, a := range as {
			if of(a) == x {
				ix = i
			}
			if of(a) == y {
				iy = i
			}
		}
		return ix, iy
	}
	// by an operation on both
	var by []ssa.Instruction
	for _, call := range calls(f) {
		o := calleeObj(call)
		as := argsOf(call)
		ix, iy := both(as)
		if ix < 0 || iy < 0 || o == nil || o.Pkg() == nil {
			continue
		}
		if strings.HasSuffix(o.Pkg().Path(), "/mat") && (elementwise[o.Name()] || o.Name() == "Dot") {
			by = append(by, call)
			continue
		}
		if g := call.Common().StaticCallee(); g != nil && p.IsLibFunc(g) && len(g.Blocks) > 0 {
			off := len(g.Params) - len(as)
			if off >= 0 && shapesCompared(p, g, g.Params[ix+off], g.Params[iy+off], depth+1) {
				by = append(by, call)
			}
		}
	}
	dim := func(v ssa.Value) (ssa.Value, int) {
		e, ok := v.(*ssa.Extract)
		if !ok {
			return nil, 0
		}
		c, ok := e.Tuple.(*ssa.Call)
		if !ok || !matCall(c, "Dims") {
			return nil, 0
		}
		return of(recvOf(c)), e.Index
	}
	for _, r := range returns(f) {
		have := map[int]bool{}
		for _, g := range guardsOf(r.Block()) {
			b, ok := g.Cond.(*ssa.BinOp)
			if ok {
				op := b.Op
				if !g.Pol {
					op = negate(op)
				}
				m1, k1 := dim(b.X)
				m2, k2 := dim(b.Y)
				if op == token.EQL && k1 == k2 && (m1 == x && m2 == y || m1 == y && m2 == x) {
					have[k1] = true
				}
				continue
			}
			// a helper that compares both dimensions
			if call, ok := g.Cond.(*ssa.Call); ok {
				if ix, iy := both(argsOf(call)); ix >= 0 && iy >= 0 {
					if h := call.Call.StaticCallee(); h != nil {
						for _, i := range instrs(h) {
							if b, ok := i.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
								m1, k1 := dim(b.X)
								m2, k2 := dim(b.Y)
								if m1 != nil && m2 != nil && m1 != m2 && k1 == k2 {
									have[k1] = true
								}
							}
						}
					}
				}
			}
		}
		if have[0] && have[1] {
			continue
		}
		hit := false
		for _, i := range by {
			if before(i, r) {
				hit = true
			}
		}
		if !hit {
			return false
		}
	}
	return true
}

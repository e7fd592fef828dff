package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C40", Rule: "the defining computations of the learning methods are brought into algebraic normal form and compared with their definitions. (1) For every pair of activation functions the second, applied to the result of the first, equals the derivative of the first (differentiated over rational functions of v and exp v with logarithms). (2) Matrix operations are interpreted over normal forms (element-wise operations become arithmetic on the elements, products and transposes become terms): one turn of the forward pass leaves funcs[r].Forward(weights×x + biases[r]), one turn of the backward pass adds error times derivative at the output and hands the error on through the transposed weights; weight and bias updates add learning rate times output times error. (3) Nodes, weights and biases are addressed alike by every accessor, and a layer is connected to the layer which starts where it ends. (4) Naive Bayes, linear regression, perceptron, mixture, principal component and chi-squared quantities equal their definitions (sums over loops; what a turn of a loop adds is decided per way through it).", Run: runC40})
}

func runC40(c *Ctx) {
	activationPairs(c)
	networkPasses(c)
	networkAddresses(c)
	networkTraining(c)
	bayesForms(c)
	linearForms(c)
	learnFormulas(c)
	componentForms(c)
	c.Floor("defining computations", len(c.Obs), 12)
}

// learnAtoms names what is read from matrices and through fields of list elements.
func learnAtoms(f *sumFrame, v ssa.Value) (Sym, bool) {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		if isMat(x.X) {
			return f.eval(x.X), true
		}
	case *ssa.Call:
		if matCall(x, "At") || matCall(x, "AtVec") {
			as := argsOf(x)
			out := f.eval(recvOf(x)).String()
			i, j := f.eval(as[0]).String(), "0"
			if len(as) > 1 {
				j = f.eval(as[1]).String()
			}
			return symAtom(out + "[" + i + "," + j + "]"), true
		}
		if o := calleeObj(x); o != nil && o.Name() == "UnpackBytesToFloat" && len(x.Call.Args) == 1 {
			return symAtom("float(" + f.eval(x.Call.Args[0]).String() + ")"), true
		}
		if matCall(x, "Sum") {
			if v, ok := bareMat(x.Call.Args[0]).(*ssa.Call); ok && matCall(v, "ColView") {
				m, j := f.eval(recvOf(v)).String(), f.eval(argsOf(v)[0]).String()
				k := fmt.Sprintf("⟪%d⟫", f.level+7)
				return sumOver(symAtom(m+"["+k+","+j+"]"), "0..rows("+m+")", k, ""), true
			}
		}
		if matCall(x, "RawRowView") {
			return symAtom("row(" + f.eval(recvOf(x)).String() + "," + f.eval(argsOf(x)[0]).String() + ")"), true
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok && matCall(c, "Dims") {
			return symAtom([]string{"rows", "cols"}[x.Index] + "(" + f.eval(recvOf(c)).String() + ")"), true
		}
	case *ssa.Phi:
		// a count looked up, or zero when there is none
		if len(x.Edges) == 2 {
			for k, e := range x.Edges {
				ex, ok := e.(*ssa.Extract)
				if !ok || ex.Index != 0 {
					continue
				}
				if lk, ok := ex.Tuple.(*ssa.Lookup); ok && lk.CommaOk && isZeroConst(x.Edges[1-k]) {
					return f.eval(ex), true
				}
			}
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return Sym{}, false
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			if al, ok := fa.X.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
						if q, ok := st.Val.(*ssa.Parameter); ok {
							if s, ok := f.bind[q]; ok {
								return symAtom(s.String() + "." + fieldVar(fa.X.Type(), fa.Field).Name()), true
							}
						}
					}
				}
			}
			if ia, ok := fa.X.(*ssa.IndexAddr); ok {
				return symAtom(f.eval(ia.X).String() + "[" + f.eval(ia.Index).String() + "]." + fieldVar(fa.X.Type(), fa.Field).Name()), true
			}
		}
	}
	return Sym{}, false
}

// isMat: a gonum matrix or vector (or a pointer to one).
func isMat(v ssa.Value) bool {
	n := namedOf(v.Type())
	return n != nil && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/mat")
}

func bareMat(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		}
		return v
	}
}

// ---- activation functions

// elemForm is a rational function of v and E (= exp v) plus multiples of logarithms of such functions.
type elemForm struct {
	rat  Sym
	logs []elemLog
}

type elemLog struct {
	k   *big.Rat
	arg Sym
}

func (a elemForm) add(b elemForm, sign int64) elemForm {
	out := elemForm{rat: a.rat.Add(b.rat.Mul(symInt(sign)))}
	out.logs = append(out.logs, a.logs...)
	for _, l := range b.logs {
		out.logs = append(out.logs, elemLog{new(big.Rat).Mul(l.k, big.NewRat(sign, 1)), l.arg})
	}
	return out
}

func (a elemForm) mul(b elemForm) (elemForm, bool) {
	if len(a.logs) == 0 && len(b.logs) == 0 {
		return elemForm{rat: a.rat.Mul(b.rat)}, true
	}
	if len(b.logs) > 0 {
		a, b = b, a
	}
	k, ok := b.rat.reduce().IsConst()
	if !ok || len(b.logs) > 0 {
		return elemForm{}, false
	}
	out := elemForm{rat: a.rat.Mul(b.rat)}
	for _, l := range a.logs {
		out.logs = append(out.logs, elemLog{new(big.Rat).Mul(l.k, k), l.arg})
	}
	return out, true
}

func symPow(s Sym, n int64) Sym {
	out := symInt(1)
	for i := int64(0); i < n || i < -n; i++ {
		out = out.Mul(s)
	}
	if n < 0 {
		return symInt(1).Div(out)
	}
	return out
}

// exp: e to the power of a form.
func (a elemForm) exp() (elemForm, bool) {
	k, ok := a.rat.Div(symAtom("v")).reduce().IsConst()
	if !ok || !k.IsInt() || !k.Num().IsInt64() || k.Num().Int64() > 8 || k.Num().Int64() < -8 {
		return elemForm{}, false
	}
	out := symPow(symAtom("E"), k.Num().Int64())
	for _, l := range a.logs {
		if !l.k.IsInt() || !l.k.Num().IsInt64() || l.k.Num().Int64() > 8 || l.k.Num().Int64() < -8 {
			return elemForm{}, false
		}
		out = out.Mul(symPow(l.arg, l.k.Num().Int64()))
	}
	return elemForm{rat: out}, true
}

// diff: the derivative with respect to v.
func diffSym(s Sym) Sym {
	d := func(p poly) Sym {
		out := symInt(0)
		for m, c := range p {
			nv, ne := int64(0), int64(0)
			if m != "" {
				for _, a := range strings.Split(m, "·") {
					if a == "v" {
						nv++
					} else {
						ne++
					}
				}
			}
			one := func(k, a, b int64) Sym {
				return symConst(c).Mul(symInt(k)).Mul(symPow(symAtom("v"), a)).Mul(symPow(symAtom("E"), b))
			}
			if nv > 0 {
				out = out.Add(one(nv, nv-1, ne))
			}
			if ne > 0 {
				out = out.Add(one(ne, nv, ne))
			}
		}
		return out
	}
	one := constPoly(big.NewRat(1, 1))
	n, m := Sym{s.num, one}, Sym{s.den, one}
	return d(s.num).Mul(m).Sub(n.Mul(d(s.den))).Div(m.Mul(m))
}

func (a elemForm) diff() Sym {
	out := diffSym(a.rat)
	for _, l := range a.logs {
		out = out.Add(symConst(l.k).Mul(diffSym(l.arg)).Div(l.arg))
	}
	return out
}

// elemEval: the form of a value, given those of the parameters.
func (p *Prog) elemEval(v ssa.Value, env map[ssa.Value]elemForm, depth int) (elemForm, bool) {
	if e, ok := env[v]; ok {
		return e, true
	}
	if depth > 40 {
		return elemForm{}, false
	}
	sub := func(w ssa.Value) (elemForm, bool) { return p.elemEval(w, env, depth+1) }
	switch x := v.(type) {
	case *ssa.Const:
		s := p.sym(x)
		if _, ok := s.IsConst(); ok {
			return elemForm{rat: s}, true
		}
	case *ssa.Convert:
		return sub(x.X)
	case *ssa.ChangeType:
		return sub(x.X)
	case *ssa.UnOp:
		if x.Op == token.SUB {
			if a, ok := sub(x.X); ok {
				return a.mul(elemForm{rat: symInt(-1)})
			}
		}
		if x.Op == token.MUL {
			if a := p.cellOf(x.X); a != nil {
				if ss := p.cellStores(a); len(ss) == 1 {
					return sub(ss[0].Val)
				}
			}
		}
	case *ssa.BinOp:
		a, ok1 := sub(x.X)
		b, ok2 := sub(x.Y)
		if !ok1 || !ok2 {
			return elemForm{}, false
		}
		switch x.Op {
		case token.ADD:
			return a.add(b, 1), true
		case token.SUB:
			return a.add(b, -1), true
		case token.MUL:
			return a.mul(b)
		case token.QUO:
			if len(b.logs) > 0 || len(b.rat.num) == 0 {
				return elemForm{}, false
			}
			return a.mul(elemForm{rat: symInt(1).Div(b.rat)})
		}
	case *ssa.Call:
		o := calleeObj(x)
		if o != nil && o.Pkg() != nil && o.Pkg().Path() == "math" && len(x.Call.Args) > 0 {
			a, ok := sub(x.Call.Args[0])
			if !ok {
				return elemForm{}, false
			}
			one := elemForm{rat: symInt(1)}
			switch o.Name() {
			case "Exp":
				return a.exp()
			case "Expm1":
				e, ok := a.exp()
				return e.add(one, -1), ok
			case "Log1p":
				if len(a.logs) == 0 {
					return elemForm{rat: symInt(0), logs: []elemLog{{big.NewRat(1, 1), a.rat.Add(symInt(1))}}}, true
				}
			case "Log":
				if len(a.logs) == 0 {
					return elemForm{rat: symInt(0), logs: []elemLog{{big.NewRat(1, 1), a.rat}}}, true
				}
			case "Tanh":
				e, ok := a.add(a, 1).exp()
				if !ok {
					return elemForm{}, false
				}
				return elemForm{rat: e.rat.Sub(symInt(1)).Div(e.rat.Add(symInt(1)))}, true
			case "Pow":
				k, isC := sub(x.Call.Args[1])
				if !isC || len(a.logs) > 0 || len(k.logs) > 0 {
					return elemForm{}, false
				}
				if n, ok := k.rat.IsConst(); ok && n.IsInt() && n.Num().IsInt64() && n.Num().Int64() < 8 && n.Num().Int64() > -8 {
					return elemForm{rat: symPow(a.rat, n.Num().Int64())}, true
				}
			}
			return elemForm{}, false
		}
		if g := x.Call.StaticCallee(); g != nil && p.IsLibFunc(g) && len(g.Blocks) == 1 && len(g.FreeVars) == 0 {
			in := map[ssa.Value]elemForm{}
			for i, q := range g.Params {
				a, ok := sub(x.Call.Args[i])
				if !ok {
					return elemForm{}, false
				}
				in[q] = a
			}
			if rs := returns(g); len(rs) == 1 && len(rs[0].Results) == 1 {
				return p.elemEval(rs[0].Results[0], in, depth+5)
			}
		}
	}
	return elemForm{}, false
}

// funcValue: the function a value stands for.
func funcValue(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Function:
		return x
	case *ssa.MakeClosure:
		f, _ := x.Fn.(*ssa.Function)
		return f
	case *ssa.ChangeType:
		return funcValue(x.X)
	}
	return nil
}

// activationPairs: each backward function is the derivative of its forward function, in terms of the latter's result.
func activationPairs(c *Ctx) {
	p := c.P
	t := p.Type("neural", "NeuralFunction")
	if t == nil {
		return
	}
	type pair struct {
		fwd, back *ssa.Function
		pos       token.Pos
	}
	pairs := map[string]*pair{}
	for _, f := range p.Funcs {
		for _, i := range instrs(f) {
			st, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !types.Identical(deref(fa.X.Type()), t) {
				continue
			}
			fn := funcValue(st.Val)
			if fn == nil || len(fn.Params) != 1 || len(fn.FreeVars) > 0 {
				continue
			}
			name := ""
			switch b := fa.X.(type) {
			case *ssa.Global:
				name = strings.TrimPrefix(b.Pkg.Pkg.Path(), modPath+"/") + "." + b.Name()
			case *ssa.Alloc:
				name = fmt.Sprintf("%s@%s", b.Name(), c.P.Name(f))
				for _, r := range *b.Referrers() {
					if u, ok := r.(*ssa.UnOp); ok && u.Referrers() != nil {
						for _, q := range *u.Referrers() {
							if s2, ok := q.(*ssa.Store); ok {
								if g, ok := s2.Addr.(*ssa.Global); ok {
									name = strings.TrimPrefix(g.Pkg.Pkg.Path(), modPath+"/") + "." + g.Name()
								}
							}
						}
					}
				}
			default:
				continue
			}
			if pairs[name] == nil {
				pairs[name] = &pair{pos: fn.Pos()}
			}
			if fieldVar(fa.X.Type(), fa.Field).Name() == "Forward" {
				pairs[name].fwd = fn
			} else {
				pairs[name].back = fn
			}
		}
	}
	for _, n := range sortedKeys(pairs) {
		q := pairs[n]
		if q.fwd == nil || q.back == nil {
			continue
		}
		c.Count("activation pairs", 1)
		form := func(f *ssa.Function, in elemForm) (elemForm, bool) {
			rs := returns(f)
			if len(rs) != 1 || len(f.Blocks) != 1 {
				return elemForm{}, false
			}
			return p.elemEval(rs[0].Results[0], map[ssa.Value]elemForm{f.Params[0]: in}, 0)
		}
		fw, ok := form(q.fwd, elemForm{rat: symAtom("v")})
		if !ok {
			c.Count("undecided formulas", 1)
			continue
		}
		bw, ok := form(q.back, fw)
		if !ok {
			c.Count("undecided formulas", 1)
			continue
		}
		want := fw.diff()
		good := len(bw.logs) == 0 && bw.rat.Eq(want)
		c.Check(good, "derivative:"+n, p.Pos(q.back.Pos()), "backward is the derivative of forward",
			fmt.Sprintf("the backward function gives %s (E = exp v), the derivative of the forward function is %s", clip(bw.rat.reduce().String()), clip(want.reduce().String())))
	}
}

// networkPasses: activation, back-propagation and the updates of a network.
func networkPasses(c *Ctx) {
	p := c.P
	if f := p.Func("(*neural.Network).Activate"); f != nil {
		forwardPass(c, f)
	}
	if f := p.Func("(*neural.Network).Error"); f != nil {
		backwardPass(c, f)
	}
	if f := p.Func("(*neural.Network).UpdateWeights"); f != nil {
		weightUpdate(c, f)
	}
	if f := p.Func("(*neural.Network).UpdateBias"); f != nil {
		biasUpdate(c, f)
	}
}

// loopFrame evaluates inside the loops of a function: every counting loop's variable gets a name.
func loopFrame(p *Prog, f *ssa.Function) *sumFrame {
	fr := newSumFrame(p, learnAtoms)
	for n, l := range countingLoops(f) {
		fr.keys[l.Header] = fmt.Sprintf("⟦%d⟧", n)
	}
	for n, l := range mapLoops(p, f) {
		fr.keys[l.head] = fmt.Sprintf("⟦m%d⟧", n)
	}
	return fr
}

// within: the functions of a package that run as part of a function, closures included.
func (p *Prog) within(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for g := range p.staticReach(f) {
		if g.Pkg == f.Pkg {
			out = append(out, g)
		}
	}
	sort.Slice(out, func(i, j int) bool { return p.Name(out[i]) < p.Name(out[j]) })
	return out
}

// weightUpdate: w[target, source] grows by learning rate times output of the source times error of the target.
func weightUpdate(c *Ctx, f *ssa.Function) {
	p := c.P
	var mats []*ssa.Parameter
	var rate *ssa.Parameter
	for _, q := range f.Params[1:] {
		if isMat(q) {
			mats = append(mats, q)
		} else if isFloatType(q.Type()) {
			rate = q
		}
	}
	if len(mats) != 2 || rate == nil {
		return
	}
	key := "update:" + p.Name(f)
	m := &matRun{p, map[string]Sym{}}
	type upd struct {
		r, c string
		v    Sym
		pos  token.Pos
	}
	var us []upd
	for _, i := range instrs(f) {
		call, ok := i.(*ssa.Call)
		if !ok || len(call.Call.Args) == 0 || m.key(call.Call.Args[0], nil) != ".weights" {
			continue
		}
		fr := loopFrame(p, f)
		fr.bind[mats[0]], fr.bind[mats[1]], fr.bind[rate] = symAtom("out"), symAtom("err"), symAtom("rate")
		as := argsOf(call)
		switch {
		case matCall(call, "Apply"):
			fn := funcValue(as[0])
			if u, ok := as[0].(*ssa.UnOp); ok && fn == nil && u.Op == token.MUL {
				if a := p.cellOf(u.X); a != nil {
					if ss := p.cellStores(a); len(ss) == 1 {
						fn = funcValue(ss[0].Val)
					}
				}
			}
			if fn == nil || len(fn.Params) != 3 || m.key(as[1], nil) != ".weights" {
				c.Count("undecided formulas", 1)
				return
			}
			fr.bind[fn.Params[0]], fr.bind[fn.Params[1]], fr.bind[fn.Params[2]] = symAtom("r"), symAtom("c"), symAtom(".weights[r,c]")
			for _, s := range fr.results(fn, 0) {
				us = append(us, upd{"r", "c", s, fn.Pos()})
			}
		case matCall(call, "Set"):
			us = append(us, upd{fr.eval(as[0]).String(), fr.eval(as[1]).String(), fr.eval(as[2]), call.Pos()})
		}
	}
	if len(us) == 0 {
		c.Count("undecided formulas", 1)
		return
	}
	found := false
	for _, u := range us {
		if verboseForms {
			fmt.Println("UPDATE", u.r, u.c, u.v.String())
		}
		if unreadable(u.v) {
			c.Count("undecided formulas", 1)
			return
		}
		old := symAtom(".weights[" + u.r + "," + u.c + "]")
		want := old.Add(symAtom("rate").Mul(symAtom("out[" + u.c + ",0]")).Mul(symAtom("err[" + u.r + ",0]")))
		switch {
		case u.v.Eq(want):
			found = true
		case u.v.Eq(old) || u.v.Eq(symInt(0)):
		default:
			c.Bad(key, p.Pos(u.pos), fmt.Sprintf("a weight becomes %s, by definition %s", clip(u.v.String()), clip(want.String())))
			return
		}
	}
	c.Check(found, key, p.Pos(f.Pos()), "weights grow by rate times output times error", "no weight is ever changed by rate times output times error")
}

// biasUpdate: a bias grows by learning rate times error, for the nodes after the input nodes.
func biasUpdate(c *Ctx, f *ssa.Function) {
	p := c.P
	key := "update:" + p.Name(f)
	var err, rate *ssa.Parameter
	for _, q := range f.Params[1:] {
		if isMat(q) {
			err = q
		} else if isFloatType(q.Type()) {
			rate = q
		}
	}
	if err == nil || rate == nil {
		return
	}
	fr := loopFrame(p, f)
	fr.bind[err], fr.bind[rate] = symAtom("err"), symAtom("rate")
	seen := false
	for _, i := range instrs(f) {
		st, ok := i.(*ssa.Store)
		if !ok || !isFloatType(st.Val.Type()) {
			continue
		}
		ia, ok := st.Addr.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		idx := fr.eval(ia.Index)
		old := symAtom(fr.eval(ia.X).String() + "[" + idx.String() + "]")
		got := fr.eval(st.Val)
		if verboseForms {
			fmt.Println("BIAS", got.String())
		}
		want := old.Add(symAtom("err[" + idx.String() + ",0]").Mul(symAtom("rate")))
		if unreadable(got) || unreadable(want) {
			c.Count("undecided formulas", 1)
			return
		}
		seen = true
		if !got.Eq(want) {
			c.Bad(key, p.InstrPos(st), fmt.Sprintf("a bias becomes %s, by definition %s", clip(got.String()), clip(want.String())))
			return
		}
		// nodes left out are the input nodes
		for _, g := range guardsOf(st.Block()) {
			cmp, ok := g.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			d := fr.eval(cmp.X).Sub(fr.eval(cmp.Y))
			if !strings.Contains(d.String(), ".input") {
				continue
			}
			op := cmp.Op
			if !g.Pol {
				op = negate(op)
			}
			k := d.Sub(idx.Sub(symAtom(".input"))) // i - input + k op 0
			if op == token.LSS || op == token.LEQ {
				k = symInt(0).Sub(d).Sub(idx.Sub(symAtom(".input")))
				op = map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ}[op]
			}
			n, isC := k.IsConst()
			if !isC || op != token.GTR && op != token.GEQ {
				continue
			}
			least := new(big.Rat).Neg(n) // i >= input + least
			if op == token.GTR {
				least.Add(least, big.NewRat(1, 1))
			}
			if least.Sign() != 0 {
				c.Bad(key, p.InstrPos(st), "the biases updated start at node input + "+least.RatString()+", not right after the input nodes")
				return
			}
		}
	}
	if seen {
		c.Ok(key, p.Pos(f.Pos()), "biases grow by rate times error")
	} else {
		c.Count("undecided formulas", 1)
	}
}

// networkAddresses: nodes, counted from one, address the same weight and bias in every accessor, and layers are joined end to end.
func networkAddresses(c *Ctx) {
	p := c.P
	m := &matRun{p, map[string]Sym{}}
	minus := func(s string) Sym { return symAtom(s).Sub(symInt(1)) }
	if f := p.Func("(*neural.Network).GetWeight"); f != nil && len(f.Params) == 3 {
		fr := frameFor(p, f, "n", "src", "target")
		fr.atom = learnAtoms
		formula(c, f, 0, fr, symAtom(".weights["+minus("target").String()+","+minus("src").String()+"]"), "address:"+p.Name(f), "the weight from src to target")
	}
	if f := p.Func("(*neural.Network).SetWeight"); f != nil && len(f.Params) == 4 {
		fr := frameFor(p, f, "n", "src", "target", "v")
		fr.atom = learnAtoms
		for _, i := range instrs(f) {
			call, ok := i.(*ssa.Call)
			if !ok || !matCall(call, "Set") || m.key(recvOf(call), nil) != ".weights" {
				continue
			}
			as := argsOf(call)
			a, b, v := fr.eval(as[0]), fr.eval(as[1]), fr.eval(as[2])
			if unreadable(a) || unreadable(b) || unreadable(v) {
				continue
			}
			c.Check(a.Eq(minus("target")) && b.Eq(minus("src")) && v.Eq(symAtom("v")), "address:"+p.Name(f), p.InstrPos(call), "row target, column src",
				fmt.Sprintf("the weight from src to target is written to [%s,%s] as %s", a, b, v))
		}
	}
	if f := p.Func("(*neural.Network).GetBias"); f != nil && len(f.Params) == 2 {
		fr := frameFor(p, f, "n", "node")
		formula(c, f, 0, fr, symAtom(".biases["+minus("node").String()+"]"), "address:"+p.Name(f), "the bias of a node")
	}
	if f := p.Func("(*neural.Network).SetBias"); f != nil && len(f.Params) == 3 {
		fr := frameFor(p, f, "n", "node", "v")
		for _, i := range instrs(f) {
			st, ok := i.(*ssa.Store)
			if !ok || !isFloatType(st.Val.Type()) {
				continue
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			idx, v := fr.eval(ia.Index), fr.eval(st.Val)
			if unreadable(idx) || unreadable(v) {
				continue
			}
			c.Check(idx.Eq(minus("node")) && v.Eq(symAtom("v")), "address:"+p.Name(f), p.InstrPos(st), "index node - 1", fmt.Sprintf("the bias of a node is written at %s as %s", idx, v))
		}
	}
	if f := p.Func("neural.NewNetwork"); f != nil {
		inputNodes(c, f)
	}
	if f := p.Func("(*neural.MultiLayerNet).Fit"); f != nil {
		for _, g := range p.within(f) {
			layerLinks(c, g)
		}
	}
}

func callsTo(p *Prog, f *ssa.Function, name string) []*ssa.Call {
	var out []*ssa.Call
	for _, i := range instrs(f) {
		if call, ok := i.(*ssa.Call); ok {
			if g := call.Call.StaticCallee(); g != nil && p.Name(g) == name {
				out = append(out, call)
			}
		}
	}
	return out
}

// ends: the first value of a linear expression in the loop variable, and the one after the last.
func (f *sumFrame) ends(l *CountLoop, s Sym) (first, after Sym, ok bool) {
	k, isKey := f.key(l.Header)
	if !isKey || l.Step != 1 || l.Init == nil || l.Bound == nil {
		return
	}
	off := s.Sub(symAtom(k))
	if strings.Contains(off.String(), k) {
		return
	}
	lo, hi := f.eval(l.Init), f.eval(l.Bound)
	if l.Range {
		lo = symInt(0)
	}
	switch l.Op {
	case token.LSS, token.NEQ:
	case token.LEQ:
		hi = hi.Add(symInt(1))
	default:
		return
	}
	return off.Add(lo), off.Add(hi), true
}

// runsOver: the counting loop whose variable an expression contains.
func (f *sumFrame) runsOver(g *ssa.Function, s Sym) *CountLoop {
	var out *CountLoop
	for _, l := range countingLoops(g) {
		if k, ok := f.key(l.Header); ok && strings.Contains(s.String(), k) {
			if t := s.Sub(symAtom(k)); !strings.Contains(t.String(), k) {
				if out != nil {
					return nil
				}
				out = l
			}
		}
	}
	return out
}

// inputNodes: the input nodes, and they alone, pass their value on unchanged.
func inputNodes(c *Ctx, f *ssa.Function) {
	p := c.P
	fr := loopFrame(p, f)
	ints := []string{"size", "input"}
	n := 0
	for _, q := range f.Params {
		if isIntType(q.Type()) && n < 2 {
			fr.bind[q] = symAtom(ints[n])
			n++
		}
	}
	if n != 2 {
		return
	}
	key := "inputs:" + p.Name(f)
	for _, call := range callsTo(p, f, "(*neural.Network).SetWeight") {
		as := argsOf(call)
		src, dst, v := fr.eval(as[0]), fr.eval(as[1]), fr.eval(as[2])
		if unreadable(src) || unreadable(dst) || unreadable(v) {
			c.Count("undecided formulas", 1)
			continue
		}
		if !src.Eq(dst) || !v.Eq(symInt(1)) {
			c.Bad(key, p.InstrPos(call), fmt.Sprintf("an input node is connected from %s to %s with weight %s; it must be connected to itself with weight 1", src, dst, v))
			continue
		}
		l := fr.runsOver(f, src)
		if l == nil {
			c.Count("undecided formulas", 1)
			continue
		}
		first, after, ok := fr.ends(l, src)
		if !ok {
			c.Count("undecided formulas", 1)
			continue
		}
		good := first.Eq(symInt(1)) && after.Eq(symAtom("input").Add(symInt(1)))
		note := fmt.Sprintf("nodes %s to before %s are connected to themselves, not the input nodes", first, after)
		for _, i := range instrs(f) {
			st, ok := i.(*ssa.Store)
			if !ok || !l.Body[st.Block()] {
				continue
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok || !strings.HasSuffix(fr.eval(ia.X).String(), ".funcs") {
				continue
			}
			idx := fr.eval(ia.Index)
			if u, ok := st.Val.(*ssa.UnOp); ok {
				if g, ok := u.X.(*ssa.Global); ok && g.Name() != "Linear" {
					good, note = false, "an input node gets the function "+g.Name()
				}
			}
			if !unreadable(idx) && !idx.Eq(src.Sub(symInt(1))) {
				good, note = false, fmt.Sprintf("the function of node %s is set along with the weight of node %s", idx.Add(symInt(1)), src)
			}
		}
		c.Check(good, key, p.InstrPos(call), "input nodes keep their value", note)
	}
}

// layerLinks: weights join a layer to the one that starts where it ends.
func layerLinks(c *Ctx, f *ssa.Function) {
	p := c.P
	if p.Name(f) == "neural.NewNetwork" || p.Name(f) == "(*neural.Network).SetWeight" {
		return
	}
	fr := loopFrame(p, f)
	// where the layer after the input nodes starts
	var second *Sym
	for _, call := range callsTo(p, f, "(*neural.Network).SetWeight") {
		as := argsOf(call)
		src, dst := fr.eval(as[0]), fr.eval(as[1])
		l1, l2 := fr.runsOver(f, src), fr.runsOver(f, dst)
		if l1 == nil || l2 == nil || l1 == l2 {
			continue
		}
		s0, _, ok1 := fr.ends(l1, src)
		t0, _, ok2 := fr.ends(l2, dst)
		if ok1 && ok2 && s0.Eq(symInt(1)) {
			second = &t0
		}
	}
	starts := func(l *CountLoop, v ssa.Value) string {
		if second == nil {
			return ""
		}
		s, ok := fr.offsetStart(l, v)
		if !ok {
			return ""
		}
		if d, isC := s.Sub(*second).reduce().IsConst(); isC && d.Sign() != 0 {
			return "the first layer used starts " + d.RatString() + " nodes after the first one behind the input nodes"
		}
		return ""
	}
	for n, call := range callsTo(p, f, "(*neural.Network).SetWeight") {
		as := argsOf(call)
		src, dst := fr.eval(as[0]), fr.eval(as[1])
		key := fmt.Sprintf("layers:%s#%d", p.Name(f), n)
		if verboseForms {
			fmt.Println("LINK", src.String(), "->", dst.String())
		}
		l1, l2 := fr.runsOver(f, src), fr.runsOver(f, dst)
		if l1 == nil || l2 == nil || l1 == l2 {
			c.Count("undecided formulas", 1)
			continue
		}
		s0, s1, ok1 := fr.ends(l1, src)
		t0, t1, ok2 := fr.ends(l2, dst)
		if !ok1 || !ok2 {
			c.Count("undecided formulas", 1)
			continue
		}
		gap := t0.Sub(s1).reduce()
		if unreadable(gap) {
			c.Count("undecided formulas", 1)
			continue
		}
		c.Count("layer connections", 1)
		if !gap.Eq(symInt(0)) {
			c.Bad(key, p.InstrPos(call), fmt.Sprintf("the target layer starts %s after the end of the source layer", clip(gap.String())))
			continue
		}
		from, to := s1.Sub(s0).reduce(), t1.Sub(t0).reduce()
		bad := ""
		for _, sz := range []Sym{from, to} {
			if !oneAtom(sz) {
				bad = fmt.Sprintf("a layer of %s nodes is connected, which is not the size of a layer", clip(sz.String()))
			}
		}
		if a, b := from.String(), to.String(); strings.HasPrefix(a, ".layers[") && strings.HasPrefix(b, ".layers[") && bad == "" {
			in := strings.TrimSuffix(strings.TrimPrefix(a, ".layers["), "]")
			if want := ".layers[" + symAtom(in).Add(symInt(1)).String() + "]"; want != b && ".layers["+in+"]" == a && !strings.Contains(in, " ") {
				bad = fmt.Sprintf("a layer of %s nodes is connected to one of %s", a, b)
			}
		}
		// the offset of the layer grows by its size
		if bad == "" {
			if d, ok := fr.offsetStep(call.Block(), as[0]); ok && !unreadable(d) && !d.Eq(from) {
				bad = fmt.Sprintf("the offset of the source layer grows by %s, its size is %s", clip(d.String()), clip(from.String()))
			}
		}
		if bad == "" {
			bad = starts(l1, as[0])
		}
		c.Check(bad == "", key, p.InstrPos(call), "joined to the next layer", bad)
	}
	for n, call := range callsTo(p, f, "(*neural.Network).SetBias") {
		as := argsOf(call)
		node := fr.eval(as[0])
		l := fr.runsOver(f, node)
		if l == nil {
			if in := innermost(f, call.Block()); in != nil && !inLoop(in, as[0]) {
				c.Bad(fmt.Sprintf("biases:%s#%d", p.Name(f), n), p.InstrPos(call), "every turn of the loop sets the bias of the same node, "+clip(node.String()))
				continue
			}
			c.Count("undecided formulas", 1)
			continue
		}
		s0, s1, ok := fr.ends(l, node)
		d, ok2 := fr.offsetStep(call.Block(), as[0])
		if !ok || !ok2 || unreadable(d) {
			continue
		}
		bad := starts(l, as[0])
		if !s1.Sub(s0).Eq(d) {
			bad = fmt.Sprintf("%s nodes get a bias, the offset grows by %s", clip(s1.Sub(s0).String()), clip(d.String()))
		}
		c.Check(bad == "", fmt.Sprintf("biases:%s#%d", p.Name(f), n), p.InstrPos(call), "every node of a layer gets its bias", bad)
	}
}

// inLoop: whether a number changes from turn to turn of a loop.
func inLoop(l *CountLoop, v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		in, ok := v.(ssa.Instruction)
		if !ok || !l.Body[in.Block()] {
			return false
		}
		if _, ok := v.(*ssa.BinOp); !ok {
			if _, ok := v.(*ssa.Convert); !ok {
				return true
			}
		}
		for _, o := range in.Operands(nil) {
			if *o != nil && walk(*o) {
				return true
			}
		}
		return false
	}
	return walk(v)
}

func oneAtom(s Sym) bool {
	s = s.reduce()
	if len(s.num) != 1 || len(s.den) != 1 {
		return false
	}
	for m, k := range s.num {
		d, ok := s.den[""]
		return m != "" && !strings.Contains(m, "·") && ok && k.Cmp(d) == 0
	}
	return false
}

// offsetStep: how much the running offset inside a node number grows per turn of its loop.
func (f *sumFrame) offsetStep(at *ssa.BasicBlock, v ssa.Value) (Sym, bool) {
	ph := f.offsetOf(at, v)
	if ph == nil {
		return Sym{}, false
	}
	loop := naturalLoop(ph.Block())
	f.bind[ph] = symAtom("⟪offset⟫")
	defer delete(f.bind, ph)
	var out Sym
	n := 0
	for k, e := range ph.Edges {
		if loop[ph.Block().Preds[k]] {
			s := f.eval(e).Sub(symAtom("⟪offset⟫")).reduce()
			if n > 0 && !s.Eq(out) {
				return Sym{}, false
			}
			out = s
			n++
		}
	}
	if strings.Contains(out.String(), "offset⟫") {
		return Sym{}, false
	}
	return out, n > 0
}

// offsetStart: a node number with the running offset at its first value.
func (f *sumFrame) offsetStart(l *CountLoop, v ssa.Value) (Sym, bool) {
	ph := f.offsetOf(l.Header, v)
	if ph == nil {
		return Sym{}, false
	}
	loop := naturalLoop(ph.Block())
	var init ssa.Value
	for k, e := range ph.Edges {
		if !loop[ph.Block().Preds[k]] {
			if init != nil {
				return Sym{}, false
			}
			init = e
		}
	}
	if init == nil {
		return Sym{}, false
	}
	f.bind[ph] = f.eval(init)
	defer delete(f.bind, ph)
	first, _, ok := f.ends(l, f.eval(v))
	return first, ok
}

// offsetOf: the running offset inside a node number, changed once per turn of a loop around the use.
func (f *sumFrame) offsetOf(at *ssa.BasicBlock, v ssa.Value) *ssa.Phi {
	var phis []*ssa.Phi
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		switch x := v.(type) {
		case *ssa.BinOp:
			if l := loopCur(x); l != nil {
				return
			}
			walk(x.X)
			walk(x.Y)
		case *ssa.Phi:
			if l := loopCur(x); l != nil && l.Phi == x {
				return
			}
			phis = append(phis, x)
		}
	}
	walk(v)
	if len(phis) != 1 {
		return nil
	}
	if loop := naturalLoop(phis[0].Block()); loop == nil || !loop[at] {
		return nil
	}
	return phis[0]
}

// networkTraining: per example the output is computed, compared, handed back and learnt from, in that order.
func networkTraining(c *Ctx) {
	p := c.P
	for _, f := range p.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Name() != "neural" {
			continue
		}
		one := func(name string) *ssa.Call {
			cs := callsTo(p, f, "(*neural.Network)."+name)
			if len(cs) == 1 {
				return cs[0]
			}
			return nil
		}
		act, er, uw, ub := one("Activate"), one("Error"), one("UpdateWeights"), one("UpdateBias")
		if act == nil || er == nil || uw == nil || ub == nil {
			continue
		}
		c.Count("training steps", 1)
		key := "step:" + p.Name(f)
		before := func(a, b ssa.Instruction) bool {
			if a.Block() == b.Block() {
				return idxIn(a) < idxIn(b)
			}
			return a.Block().Dominates(b.Block())
		}
		same := func(a, b ssa.Value) bool { return a == b || p.sameRead(a, b) }
		aa, ea, wa, ba := argsOf(act), argsOf(er), argsOf(uw), argsOf(ub)
		switch {
		case !before(act, er):
			c.Bad(key, p.InstrPos(er), "the error is handed back before the output was computed")
		case !before(er, uw) || !before(er, ub):
			c.Bad(key, p.InstrPos(uw), "weights or biases are changed before the error was handed back")
		case !same(aa[0], ea[0]) || !same(aa[0], wa[0]):
			c.Bad(key, p.InstrPos(er), "the error is handed back or learnt from with other activations than those computed")
		case !same(wa[1], er) || !same(ba[0], er):
			c.Bad(key, p.InstrPos(uw), "the network learns from another error than the one handed back")
		default:
			c.Ok(key, p.InstrPos(act), "output, error, update in this order on the same vectors")
		}
		// the error at the outputs is what was expected minus what came out
		m := &matRun{p, map[string]Sym{}}
		fr := loopFrame(p, f)
		tgt, out := m.key(ea[1], nil), m.key(aa[0], nil)
		found := false
		for _, i := range instrs(f) {
			call, ok := i.(*ssa.Call)
			if !ok || !matCall(call, "Set") || m.key(recvOf(call), nil) != tgt || !before(act, call) && !reaches(act.Block(), call.Block()) {
				continue
			}
			if !reaches(call.Block(), er.Block()) && call.Block() != er.Block() {
				continue
			}
			if before(call, act) {
				continue
			}
			fr.bind[recvOf(call)] = symAtom("target")
			as := argsOf(call)
			diff, ok := as[2].(*ssa.BinOp)
			if !ok {
				continue
			}
			elem := func(v ssa.Value) (string, ssa.Value, bool) {
				a, ok := v.(*ssa.Call)
				if !ok || !matCall(a, "At") {
					return "", nil, false
				}
				return m.key(recvOf(a), nil), argsOf(a)[0], true
			}
			k1, i1, ok1 := elem(diff.X)
			k2, i2, ok2 := elem(diff.Y)
			if !ok1 || !ok2 {
				c.Count("undecided formulas", 1)
				continue
			}
			found = true
			c.Check(diff.Op == token.SUB && k1 == tgt && k2 == out && same(i1, as[0]) && same(i2, as[0]), "error:"+p.Name(f), p.InstrPos(call),
				"expected minus actual output of the same node", "the error at an output node is not its expected value minus its output")
		}
		if !found {
			c.Count("undecided formulas", 1)
		}
	}
}

// loopFrameAt evaluates at a place: the variables of the loops around it get names, other loops are summed over.
func loopFrameAt(p *Prog, at *ssa.BasicBlock) *sumFrame {
	fr := newSumFrame(p, learnAtoms)
	f := at.Parent()
	for n, l := range countingLoops(f) {
		if l.Body[at] {
			fr.keys[l.Header] = fmt.Sprintf("⟦%d⟧", n)
		}
	}
	for n, l := range mapLoops(p, f) {
		if l.body[at] {
			fr.keys[l.head] = fmt.Sprintf("⟦m%d⟧", n)
		}
	}
	return fr
}

var probRe = regexp.MustCompile(`\.condProb\[([^\[\]]*)\]\[([^\[\]]*)\]`)

// bayesForms: smoothed rates, class counts, and the logarithmic score.
func bayesForms(c *Ctx) {
	p := c.P
	if f := p.Func("(*naive.BernoulliNBClassifier).Fit"); f != nil {
		for _, g := range p.within(f) {
			for _, i := range instrs(g) {
				switch x := i.(type) {
				case *ssa.Store:
					ia, ok := x.Addr.(*ssa.IndexAddr)
					if !ok || !isFloatType(x.Val.Type()) {
						continue
					}
					fr := loopFrameAt(p, x.Block())
					to, idx, val := fr.eval(ia.X).String(), fr.eval(ia.Index).String(), fr.eval(x.Val)
					key := ""
					if strings.HasPrefix(to, ".condProb[") {
						key = strings.TrimSuffix(strings.TrimPrefix(to, ".condProb["), "]")
					} else {
						for _, j := range instrs(g) {
							if mu, ok := j.(*ssa.MapUpdate); ok && fr.eval(mu.Map).String() == ".condProb" && p.sameRead(mu.Value, ia.X) {
								key = fr.eval(mu.Key).String()
							}
						}
					}
					if verboseForms {
						fmt.Println("BAYES", to, idx, val.String())
					}
					if key == "" || strings.Contains(val.String()+key+idx, "?") {
						c.Count("undecided formulas", 1)
						continue
					}
					n := symAtom(".classInstances[" + key + "]").Add(symInt(1))
					good := ratioOf(val, n, "["+key+"]["+idx+"]")
					c.Check(good, "rate:"+p.Name(f), p.InstrPos(x), "(documents with the feature + 1) / (documents of the class + 1)",
						"the probability of a feature in a class is "+clip(val.String())+", not (documents with the feature + 1) / (documents of the class + 1)")
				case *ssa.MapUpdate:
					fr := loopFrameAt(p, x.Block())
					if fr.eval(x.Map).String() != ".classInstances" {
						continue
					}
					val := fr.eval(x.Value)
					if strings.Contains(val.String(), "?") {
						c.Count("undecided formulas", 1)
						continue
					}
					c.Check(val.Eq(symAtom(".classInstances["+fr.eval(x.Key).String()+"]").Add(symInt(1))), "count:"+p.Name(f), p.InstrPos(x), "one more of the class per row",
						"the count of a class becomes "+clip(val.String()))
				}
			}
		}
	}
	if f := p.Func("(*naive.BernoulliNBClassifier).PredictOne"); f != nil {
		for _, g := range p.within(f) {
			bayesScore(c, f, g)
		}
	}
}

// ratioOf: the value is (x + 1) / n for a counter x.
func ratioOf(val, n Sym, suffix string) bool {
	v := val.reduce()
	one := constPoly(big.NewRat(1, 1))
	num, den := Sym{v.num, one}, Sym{v.den, one}
	if !den.Eq(n) {
		return false
	}
	x := num.Sub(symInt(1)).reduce()
	return oneAtom(x) && strings.HasSuffix(x.String(), suffix) && !strings.HasPrefix(x.String(), ".")
}

func bayesScore(c *Ctx, f, g *ssa.Function) {
	p := c.P
	key := "score:" + p.Name(f)
	for _, h := range g.Blocks {
		loop := naturalLoop(h)
		if loop == nil {
			continue
		}
		for _, i := range h.Instrs {
			ph, ok := i.(*ssa.Phi)
			if !ok || !isFloatType(ph.Type()) {
				continue
			}
			ways, full := turnPaths(h, loop, 200)
			if !full {
				continue
			}
			fr := loopFrameAt(p, h)
			type added struct {
				t *turnPath
				s Sym
			}
			var all []added
			rates := map[string]bool{}
			sum := true
			for _, t := range ways {
				if !t.feasible() {
					continue
				}
				next := ssa.Value(t.next(ph))
				if next == nil {
					sum = false
					break
				}
				d := symInt(0)
				for next != ssa.Value(ph) {
					b, ok := t.resolve(next).(*ssa.BinOp)
					if !ok || b.Op != token.ADD && b.Op != token.SUB {
						sum = false
						break
					}
					x, y := t.resolve(b.X), t.resolve(b.Y)
					if b.Op == token.ADD && y == ssa.Value(ph) {
						x, y = y, x
					}
					s := fr.eval(y)
					if b.Op == token.SUB {
						s = symInt(0).Sub(s)
					}
					d = d.Add(s)
					next = x
				}
				if !sum {
					break
				}
				for _, m := range probRe.FindAllString(d.String(), -1) {
					rates[m] = true
				}
				all = append(all, added{t, d})
			}
			if verboseForms {
				for _, a := range all {
					fmt.Println("SCORE", p.Name(g), ph.Name(), a.s.String())
				}
			}
			if !sum || len(rates) != 1 {
				continue
			}
			rate := sortedKeys(rates)[0]
			m := probRe.FindStringSubmatch(rate)
			class, feat := m[1], m[2]
			P := symAtom(rate)
			smooth := symLog(symInt(1).Div(symAtom(".classInstances[" + class + "]").Add(symInt(1))))
			bad, undecided := "", false
			for _, a := range all {
				present, known, certain := false, false, false
				for _, b := range a.t.blocks[:len(a.t.blocks)-1] {
					iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
					if !ok {
						continue
					}
					cmp, ok := iff.Cond.(*ssa.BinOp)
					if !ok {
						continue
					}
					op := cmp.Op
					if a.t.blocks[a.t.pos[b]+1] == b.Succs[1] {
						op = negate(op)
					}
					x, y := fr.eval(cmp.X), fr.eval(cmp.Y)
					if _, isC := x.IsConst(); isC {
						x, y, op = y, x, mirrored(op)
					}
					if strings.HasSuffix(x.String(), "["+feat+"][0]") {
						if z, isC := y.IsConst(); isC && z.Sign() == 0 {
							known = true
							present = op == token.GTR || op == token.NEQ
						} else if isC && z.Cmp(big.NewRat(1, 1)) == 0 && (op == token.GEQ || op == token.LSS) {
							known = true
							present = op == token.GEQ
						}
					}
					if x.Eq(P) {
						if z, isC := y.IsConst(); isC && z.Cmp(big.NewRat(1, 1)) == 0 && (op == token.EQL || op == token.GEQ) {
							certain = true
						}
					}
				}
				if unreadable(a.s) {
					undecided = true
					continue
				}
				if !known {
					undecided = true
					continue
				}
				switch {
				case present && !a.s.Eq(symLog(P)):
					bad = "a feature that is present adds " + clip(a.s.String()) + ", not the logarithm of its probability"
				case !present && certain && !a.s.Eq(smooth) && !a.s.Eq(symLog(symInt(1).Sub(P))):
					bad = "a missing feature that was always present adds " + clip(a.s.String()) + ", not the logarithm of 1 / (documents of the class + 1)"
				case !present && !certain && !a.s.Eq(symLog(symInt(1).Sub(P))):
					bad = "a feature that is missing adds " + clip(a.s.String()) + ", not the logarithm of one minus its probability"
				}
			}
			if bad != "" {
				c.Bad(key, p.Pos(ph.Pos()), bad)
				continue
			}
			if undecided {
				c.Count("undecided formulas", 1)
				continue
			}
			c.Ok(key, p.Pos(ph.Pos()), "sum of the logarithms of the features' probabilities")
			for k, e := range ph.Edges {
				if loop[h.Preds[k]] {
					continue
				}
				s := loopFrameAt(p, h.Preds[k]).eval(e)
				// the class loop's variable goes by the same name
				if unreadable(s) {
					c.Count("undecided formulas", 1)
					continue
				}
				want := symLog(symAtom(".classInstances[" + class + "]").Div(symAtom(".trainingInstances")))
				c.Check(s.Eq(want), "prior:"+p.Name(f), p.Pos(ph.Pos()), "starts from the logarithm of the class's share", "the score of a class starts from "+clip(s.String())+", not the logarithm of its share of the training set")
			}
		}
	}
}

func mirrored(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

var overAllRe = regexp.MustCompile(`∈0\.\.len\([^{}&|()]*\)([&|}])`)

// linearForms: weighted sums of linear models.
func linearForms(c *Ctx) {
	p := c.P
	all := func(a string) string { return overAllRe.ReplaceAllString(a, "∈all$1") }
	if f := p.Func("(*linear_models.LinearRegression).Predict"); f != nil {
		for _, g := range p.within(f) {
			var row *ssa.Parameter
			for _, q := range g.Params {
				if s, ok := q.Type().Underlying().(*types.Slice); ok {
					if _, ok := s.Elem().Underlying().(*types.Slice); ok {
						row = q
					}
				}
			}
			if row == nil {
				continue
			}
			for _, call := range callsTo(p, g, "base.PackFloatToBytes") {
				fr := newSumFrame(p, learnAtoms)
				fr.bind[row] = symAtom("row")
				got := fr.eval(call.Call.Args[0])
				if verboseForms {
					fmt.Println("LINEAR", got.String())
				}
				if unreadable(got) {
					c.Count("undecided formulas", 1)
					continue
				}
				k := "⟪5⟫"
				want := symAtom(".disturbance").Add(sumOver(symAtom("float(row["+k+"])").Mul(symAtom(".regressionCoefficients["+k+"]")), "0..len(row)", k, ""))
				g1, w1 := got.mapAtoms(canonAtom).mapAtoms(all), want.mapAtoms(canonAtom).mapAtoms(all)
				c.Check(g1.Eq(w1), "predict:"+p.Name(f), p.InstrPos(call), "intercept plus weighted sum", "the prediction is "+clip(g1.String())+", by definition "+clip(w1.String()))
			}
		}
	}
	if f := p.Func("(*linear_models.LinearRegression).Fit"); f != nil {
		designMatrix(c, f)
	}
	if f := p.Func("(*perceptron.AveragePerceptron).score"); f != nil {
		for _, r := range returns(f) {
			if len(r.Results) != 1 {
				continue
			}
			kv, isK := r.Results[0].(*ssa.Const)
			if !isK {
				continue
			}
			v, ok := constFloat(kv)
			if !ok || v == 0 {
				continue
			}
			for _, g := range guardsOf(r.Block()) {
				cmp, ok := g.Cond.(*ssa.BinOp)
				if !ok {
					continue
				}
				op := cmp.Op
				if !g.Pol {
					op = negate(op)
				}
				fr := newSumFrame(p, learnAtoms)
				x, y := fr.eval(cmp.X), fr.eval(cmp.Y)
				if x.Eq(symAtom(".threshold")) {
					x, y, op = y, x, mirrored(op)
				}
				if !y.Eq(symAtom(".threshold")) || unreadable(x) {
					continue
				}
				k := "⟪5⟫"
				want := sumOver(symAtom(".features["+k+"]").Mul(symAtom(".weights["+k+"]")), "0..len(x)", k, "")
				key := "score:" + p.Name(f)
				g1, w1 := x.mapAtoms(canonAtom).mapAtoms(all), want.mapAtoms(canonAtom).mapAtoms(all)
				above := op == token.GEQ || op == token.GTR
				c.Check(g1.Eq(w1) && above == (v > 0), key, p.InstrPos(r), "the weighted sum against the threshold",
					fmt.Sprintf("answers %v when %s %s threshold; by definition the weighted sum of the features at or above the threshold is positive", v, clip(g1.String()), op))
			}
		}
	}
}

// designMatrix: the column of ones gives the intercept, the columns of the features their coefficients; back-substitution.
func designMatrix(c *Ctx, f *ssa.Function) {
	p := c.P
	key := "design:" + p.Name(f)
	ones, shift := map[string]bool{}, map[string]bool{}
	for _, g := range p.within(f) {
		for _, i := range instrs(g) {
			call, ok := i.(*ssa.Call)
			if !ok || !matCall(call, "Set") {
				continue
			}
			fr := loopFrameAt(p, call.Block())
			as := argsOf(call)
			col, val := fr.eval(as[1]), fr.eval(as[2])
			if val.Eq(symInt(1)) {
				if _, isC := col.IsConst(); isC {
					ones[col.String()] = true
				}
				continue
			}
			if l := fr.runsOver(g, col); l != nil {
				first, _, ok := fr.ends(l, col)
				if ok {
					shift[first.String()] = true
				}
			}
		}
	}
	cut, at := "", ""
	var coefs ssa.Value
	for _, g := range p.within(f) {
		for _, i := range instrs(g) {
			st, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			switch fieldVar(fa.X.Type(), fa.Field).Name() {
			case "regressionCoefficients":
				if s, ok := st.Val.(*ssa.Slice); ok && s.High == nil {
					cut = "0"
					if s.Low != nil {
						cut = p.sym(s.Low).String()
					}
					coefs = s.X
				}
			case "disturbance":
				if u, ok := st.Val.(*ssa.UnOp); ok && u.Op == token.MUL {
					if ia, ok := u.X.(*ssa.IndexAddr); ok {
						at = p.sym(ia.Index).String()
					}
				}
			}
		}
	}
	if len(ones) != 1 || len(shift) != 1 || cut == "" || at == "" {
		c.Count("undecided formulas", 1)
		return
	}
	o, s := sortedKeys(ones)[0], sortedKeys(shift)[0]
	c.Check(o == at && s == cut, key, p.Pos(f.Pos()), "the intercept is the coefficient of the column of ones, the others those of the features",
		fmt.Sprintf("column %s holds ones and the features start at column %s, but the intercept is coefficient %s and the features' start at %s", o, s, at, cut))
	mk, ok := coefs.(*ssa.MakeSlice)
	if !ok {
		return
	}
	// back-substitution
	for _, i := range instrs(mk.Parent()) {
		st, ok := i.(*ssa.Store)
		if !ok || !isFloatType(st.Val.Type()) {
			continue
		}
		ia, ok := st.Addr.(*ssa.IndexAddr)
		if !ok || ia.X != ssa.Value(mk) {
			continue
		}
		fr := loopFrameAt(p, st.Block())
		fr.bind[mk] = symAtom("coef")
		if _, isC := mk.Len.(*ssa.Const); !isC {
			fr.bind[mk.Len] = symAtom("n")
		}
		idx, val := fr.eval(ia.Index), fr.eval(st.Val)
		me := symAtom("coef[" + idx.String() + "]")
		if strings.Contains(val.String(), "?") {
			c.Count("undecided formulas", 1)
			continue
		}
		rest := me.Sub(val).reduce()
		bk := "backsubstitution:" + p.Name(f)
		switch {
		case !strings.Contains(val.String(), "coef["):
		case len(val.reduce().den) == 1 && val.reduce().den["1"] == nil && strings.Contains(rest.String(), "coef[") && val.reduce().den[""] != nil:
			// coef[i] - coef[j] * R[i,j], j behind i
			l := (*CountLoop)(nil)
			for _, x := range countingLoops(mk.Parent()) {
				if k, ok := fr.key(x.Header); ok && k != idx.String() && x.Body[st.Block()] {
					l = x
				}
			}
			if l == nil {
				c.Count("undecided formulas", 1)
				continue
			}
			k, _ := fr.key(l.Header)
			good, note := false, "a coefficient becomes "+clip(val.String())+" in the back-substitution"
			r := rest.Div(symAtom("coef[" + k + "]")).reduce()
			if oneAtom(r) && strings.HasSuffix(r.String(), "["+idx.String()+","+k+"]") {
				good = true
				first, after, ok := fr.ends(l, symAtom(k))
				if n := fr.eval(mk.Len); ok && (!first.Eq(idx.Add(symInt(1))) || !after.Eq(n)) {
					good = false
					note = fmt.Sprintf("the back-substitution takes the coefficients from %s to before %s, not those behind the current one", first, after)
				}
				if good && leavesEarly(l) {
					good, note = false, "the back-substitution stops before it has taken all the coefficients behind the current one"
				}
				if good && fr.skipsByIndex(l, st.Block()) {
					good, note = false, "the back-substitution passes over some of the coefficients behind the current one"
				}
			}
			c.Check(good, bk, p.InstrPos(st), "takes off what the later coefficients explain", note)
		default:
			d := val.Div(me).reduce()
			inv := symInt(1).Div(d).reduce()
			c.Check(oneAtom(inv) && strings.HasSuffix(inv.String(), "["+idx.String()+","+idx.String()+"]"), bk, p.InstrPos(st), "divides by the diagonal",
				"a coefficient becomes "+clip(val.String())+" in the back-substitution")
		}
	}
}

// leavesEarly: whether a counting loop has another way out than its count (leaving the function aside).
func leavesEarly(l *CountLoop) bool {
	for b := range l.Body {
		if b == l.Header {
			continue
		}
		for _, s := range b.Succs {
			if l.Body[s] {
				continue
			}
			if n := len(s.Instrs); n > 0 {
				if _, ok := s.Instrs[n-1].(*ssa.Panic); ok {
					continue
				}
			}
			return true
		}
	}
	return false
}

// skipsByIndex: whether a block of a loop is passed over for some turns because of nothing but the indices.
func (f *sumFrame) skipsByIndex(l *CountLoop, b *ssa.BasicBlock) bool {
	for _, g := range guardsOf(b) {
		in, ok := g.Cond.(ssa.Instruction)
		if !ok || in.Block() == l.Header || !l.Body[in.Block()] {
			continue
		}
		bo, ok := g.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		s := f.eval(bo.X).Sub(f.eval(bo.Y)).reduce()
		if k, ok := f.key(l.Header); ok && !unreadable(s) && strings.Contains(s.String(), k) && !strings.ContainsAny(strings.ReplaceAll(s.String(), k, ""), "[(") {
			return true
		}
	}
	return false
}

// learnFormulas: means, distances between means, centring, densities.
func learnFormulas(c *Ctx) {
	p := c.P
	if f := p.Func("clustering.means"); f != nil && len(f.Params) == 1 {
		stored(c, f, "mean:clustering.means", "the mean of a column", func(fr *sumFrame, idx string) Sym {
			k := "⟪5⟫"
			return sumOver(symAtom("X["+k+","+idx+"]"), "0..rows(X)", k, "").Div(symAtom("rows(X)"))
		})
	}
	if f := p.Func("pca.mean"); f != nil && len(f.Params) == 1 {
		stored(c, f, "mean:pca.mean", "the mean of a column", func(fr *sumFrame, idx string) Sym {
			k := "⟪5⟫"
			return sumOver(symAtom("X["+k+","+idx+"]"), "0..rows(X)", k, "").Div(symAtom("rows(X)"))
		})
	}
	if f := p.Func("clustering.distance"); f != nil && len(f.Params) == 2 {
		fr := frameFor(p, f, "P", "Q")
		fr.atom = learnAtoms
		a, b := "⟪5⟫", "⟪6⟫"
		d := symAtom("row(P.Means," + a + ")[" + b + "]").Sub(symAtom("row(Q.Means," + a + ")[" + b + "]"))
		w := sumOver(sumOver(d.Mul(d), "0..cols(P.Means)", b, ""), "0..rows(P.Means)", a, "")
		formula(c, f, 0, fr, fr.sqrt(w), "distance:clustering", "the distance between two sets of means")
	}
	if f := p.Func("filters.chiSquaredPdf"); f != nil && len(f.Params) == 2 {
		fr := frameFor(p, f, "k", "x")
		half := symAtom("k").Div(symInt(2))
		pow := func(b, e Sym) Sym { return symAtom("pow(" + b.reduce().String() + "," + e.reduce().String() + ")") }
		want := pow(symAtom("x"), half.Sub(symInt(1))).Mul(symAtom("exp(" + symAtom("x").Div(symInt(-2)).reduce().String() + ")")).Div(pow(symInt(2), half).Mul(symAtom("math.Gamma(" + half.String() + ")")))
		decided := true
		for _, s := range fr.results(f, 0) {
			if unreadable(s) {
				decided = false
				continue
			}
			if verboseForms {
				fmt.Println("CHI", s.String(), "|", want.String())
			}
			if !s.Eq(symInt(0)) && !s.Eq(want) {
				c.Bad("density:filters.chiSquaredPdf", p.Pos(f.Pos()), "the density of the chi-squared distribution is computed as "+clip(s.reduce().String())+", by definition "+clip(want.reduce().String()))
				decided = false
			}
		}
		if decided {
			c.Ok("density:filters.chiSquaredPdf", p.Pos(f.Pos()), "the chi-squared density")
		}
	}
}

// componentForms: principal components are those of the centred data, and what is projected on them is centred alike.
func componentForms(c *Ctx) {
	p := c.P
	centring := map[*ssa.Function]int{}
	for _, f := range p.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Name() != "pca" {
			continue
		}
		for _, i := range instrs(f) {
			call, ok := i.(*ssa.Call)
			if !ok || !matCall(call, "Set") || len(f.Params) != 2 {
				continue
			}
			fr := loopFrameAt(p, call.Block())
			fr.bind[f.Params[0]], fr.bind[f.Params[1]] = symAtom("X"), symAtom("M")
			as := argsOf(call)
			r, col, v := fr.eval(as[0]).String(), fr.eval(as[1]).String(), fr.eval(as[2])
			if unreadable(v) || !strings.Contains(v.String(), "X[") || !strings.Contains(v.String(), "M[") {
				continue
			}
			want := symAtom("X[" + r + "," + col + "]").Sub(symAtom("M[0," + col + "]"))
			c.Check(v.Eq(want), "centre:"+p.Name(f), p.InstrPos(call), "subtracts the mean of the column", "an element becomes "+clip(v.String())+", by definition "+clip(want.String()))
			centring[f] = 1
		}
	}
	if len(centring) == 0 {
		return
	}
	// centred: 1 the data less the mean kept by fitting, -1 the data as given, 0 unknown
	var centred func(v ssa.Value, depth int) int
	centred = func(v ssa.Value, depth int) int {
		v = bareMat(v)
		if depth > 8 {
			return 0
		}
		switch x := v.(type) {
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil && centring[g] == 1 {
				m := x.Call.Args[1]
				if u, ok := m.(*ssa.UnOp); ok && u.Op == token.MUL {
					if _, ok := u.X.(*ssa.FieldAddr); ok {
						return 1
					}
				}
				if mc, ok := m.(*ssa.Call); ok && mc.Call.StaticCallee() != nil && len(mc.Call.StaticCallee().Blocks) > 0 {
					for _, r := range *mc.Referrers() {
						if st, ok := r.(*ssa.Store); ok && st.Val == ssa.Value(mc) {
							return 1
						}
					}
					return -2
				}
				return 0
			}
			if matCall(x, "DenseCopyOf") {
				return centred(x.Call.Args[0], depth+1)
			}
		case *ssa.Parameter:
			if x.Parent().Object() != nil && x.Parent().Object().Exported() {
				return -1
			}
			at := -1
			for i, q := range x.Parent().Params {
				if q == x {
					at = i
				}
			}
			out := 0
			for k, call := range p.callers[x.Parent()] {
				got := centred(call.Common().Args[at], depth+1)
				if k > 0 && got != out {
					return 0
				}
				out = got
			}
			return out
		case *ssa.Phi:
			out := 0
			for k, e := range x.Edges {
				got := centred(e, depth+1)
				if k > 0 && got != out {
					return 0
				}
				out = got
			}
			return out
		case *ssa.UnOp:
			if a := p.cellOf(x.X); a != nil {
				if ss := p.cellStores(a); len(ss) == 1 {
					return centred(ss[0].Val, depth+1)
				}
			}
		}
		return 0
	}
	for _, f := range p.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Name() != "pca" {
			continue
		}
		for _, i := range instrs(f) {
			call, ok := i.(*ssa.Call)
			if !ok || !matCall(call, "Factorize") && !matCall(call, "Mul") {
				continue
			}
			v := argsOf(call)[0]
			switch centred(v, 0) {
			case 1:
				c.Ok("centred:"+p.Name(f), p.InstrPos(call), "works on centred data")
			case -1:
				c.Bad("centred:"+p.Name(f), p.InstrPos(call), "the data are used without subtracting the mean kept by fitting")
			case -2:
				c.Bad("centred:"+p.Name(f), p.InstrPos(call), "the data are centred by a mean that fitting has not kept")
			default:
				c.Count("undecided formulas", 1)
			}
		}
	}
}

// stored: what a function puts into the list it fills, per index.
func stored(c *Ctx, f *ssa.Function, key, what string, want func(fr *sumFrame, idx string) Sym) {
	p := c.P
	for _, i := range instrs(f) {
		var idx, val ssa.Value
		switch x := i.(type) {
		case *ssa.Store:
			ia, ok := x.Addr.(*ssa.IndexAddr)
			if !ok || !isFloatType(x.Val.Type()) {
				continue
			}
			if al, ok := ia.X.(*ssa.Alloc); ok && al.Comment == "varargs" {
				if l := innermost(f, x.Block()); l != nil {
					idx = l.Cur
				}
			} else {
				idx = ia.Index
			}
			val = x.Val
		}
		if idx == nil || val == nil {
			continue
		}
		fr := loopFrameAt(p, i.Block())
		fr.bind[f.Params[0]] = symAtom("X")
		at, got := fr.eval(idx), fr.eval(val)
		if verboseForms {
			fmt.Println("STORED", at.String(), got.String())
		}
		if unreadable(got) || unreadable(at) {
			c.Count("undecided formulas", 1)
			continue
		}
		w := want(fr, at.String()).mapAtoms(canonAtom)
		c.Check(got.mapAtoms(canonAtom).Eq(w), key, p.InstrPos(i), what, fmt.Sprintf("%s is computed as %s, by definition %s", what, clip(got.String()), clip(w.String())))
	}
}

// innermost: the counting loop a block is in, all of whose other loops contain it.
func innermost(f *ssa.Function, b *ssa.BasicBlock) *CountLoop {
	var out *CountLoop
	for _, l := range countingLoops(f) {
		if l.Body[b] && (out == nil || len(l.Body) < len(out.Body)) {
			out = l
		}
	}
	return out
}

func isFloatType(t types.Type) bool { return basicInfo(t)&types.IsFloat != 0 }

func reaches(a, b *ssa.BasicBlock) bool { return reach(a)[b] }

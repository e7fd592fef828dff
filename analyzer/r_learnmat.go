package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// matRun interprets the operations on matrices along one way through the code. What a matrix holds is a normal form of its
// element (r, c): element-wise operations are arithmetic, matrix products and transposes are terms of their own.
type matRun struct {
	p  *Prog
	st map[string]Sym
}

var matUnknown = symAtom("?")

func (m *matRun) copy() *matRun {
	n := &matRun{m.p, map[string]Sym{}}
	for k, v := range m.st {
		n.st[k] = v
	}
	return n
}

// key names the matrix a pointer points to.
func (m *matRun) key(v ssa.Value, env map[ssa.Value]string) string {
	v = bareMat(v)
	if k, ok := env[v]; ok {
		return k
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if a := m.p.cellOf(u.X); a != nil {
			if ss := m.p.cellStores(a); len(ss) == 1 {
				return m.key(ss[0].Val, env)
			}
			return "?cell:" + a.Name()
		}
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return "." + fieldVar(fa.X.Type(), fa.Field).Name()
		}
	}
	return v.Name() + "@" + parentName(v)
}

func matTerm(s Sym) string { return flat(s.reduce().mapAtoms(canonAtom).String()) }

// value: the element form of a matrix expression.
func (m *matRun) value(v ssa.Value, env map[ssa.Value]string) Sym {
	v = bareMat(v)
	if c, ok := v.(*ssa.Call); ok && matCall(c, "T") {
		return transposed(m.value(recvOf(c), env))
	}
	if c, ok := v.(*ssa.Call); ok && matCall(c, "TVec") {
		return transposed(m.value(recvOf(c), env))
	}
	k := m.key(v, env)
	if s, ok := m.st[k]; ok {
		return s
	}
	if strings.ContainsAny(k, "?@") {
		return matUnknown
	}
	return symAtom("«" + k + "»")
}

func transposed(s Sym) Sym {
	t := matTerm(s)
	if strings.HasPrefix(t, "ᵀ(") && strings.HasSuffix(t, ")") && !strings.Contains(t[len("ᵀ("):], "ᵀ(") {
		return symAtom(strings.TrimSuffix(strings.TrimPrefix(t, "ᵀ("), ")"))
	}
	return symAtom("ᵀ(" + t + ")")
}

func product(a, b Sym) Sym { return symAtom("‹" + matTerm(a) + "×" + matTerm(b) + "›") }

// apply: an element function applied to a matrix with the given elements.
func (m *matRun) apply(fn ssa.Value, x Sym) Sym {
	f := funcValue(fn)
	if f == nil {
		if u, ok := fn.(*ssa.UnOp); ok && u.Op == token.MUL {
			if a := m.p.cellOf(u.X); a != nil {
				if ss := m.p.cellStores(a); len(ss) == 1 {
					f = funcValue(ss[0].Val)
				}
			}
		}
	}
	if f == nil || len(f.Params) != 3 || f.Blocks == nil {
		return matUnknown
	}
	fr := newSumFrame(m.p, learnAtoms)
	fr.bind[f.Params[0]] = symAtom("r")
	fr.bind[f.Params[1]] = symAtom("c")
	fr.bind[f.Params[2]] = x
	rs := fr.results(f, 0)
	if len(rs) != 1 || unreadable(rs[0]) {
		return matUnknown
	}
	return rs[0].reduce()
}

// run interprets the blocks of one way through a function.
func (m *matRun) run(blocks []*ssa.BasicBlock, env map[ssa.Value]string, depth int) {
	for _, b := range blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok {
				m.call(c, env, depth)
			}
		}
	}
}

func (m *matRun) call(c *ssa.Call, env map[ssa.Value]string, depth int) {
	if _, ok := c.Call.Value.(*ssa.Builtin); ok {
		return
	}
	o := calleeObj(c)
	if o != nil && o.Pkg() != nil && strings.HasSuffix(o.Pkg().Path(), "/mat") {
		as := argsOf(c)
		if sg, ok := o.Type().(*types.Signature); ok && sg.Recv() != nil {
			rv := recvOf(c)
			k := m.key(rv, env)
			val := func(n int) Sym { return m.value(as[n], env) }
			switch o.Name() {
			case "At", "AtVec", "Dims", "T", "TVec", "Caps", "ColView", "RowView", "IsEmpty", "IsZero", "Len", "Trace":
			case "Mul", "MulVec":
				m.st[k] = product(val(0), val(1))
			case "MulElem", "MulElemVec":
				m.st[k] = val(0).Mul(val(1)).reduce()
			case "DivElem", "DivElemVec":
				m.st[k] = val(0).Div(val(1)).reduce()
			case "Add", "AddVec":
				m.st[k] = val(0).Add(val(1)).reduce()
			case "Sub", "SubVec":
				m.st[k] = val(0).Sub(val(1)).reduce()
			case "Scale", "ScaleVec":
				m.st[k] = newSumFrame(m.p, learnAtoms).eval(as[0]).Mul(val(1)).reduce()
			case "Apply":
				m.st[k] = m.apply(as[0], val(1))
			case "CloneFrom", "Copy", "CloneFromVec", "CopyVec", "Clone":
				m.st[k] = val(0)
			case "Zero", "Reset":
				m.st[k] = symInt(0)
			default:
				m.st[k] = matUnknown
			}
			return
		}
		k := m.key(c, env)
		switch o.Name() {
		case "DenseCopyOf", "VecDenseCopyOf":
			m.st[k] = m.value(c.Call.Args[0], env)
		case "NewDense", "NewVecDense":
			m.st[k] = matUnknown
			switch d := c.Call.Args[len(c.Call.Args)-1].(type) {
			case *ssa.MakeSlice:
				if d.Referrers() != nil && len(*d.Referrers()) == 1 {
					m.st[k] = symInt(0)
				}
			case *ssa.Const:
				m.st[k] = symInt(0)
			}
		}
		return
	}
	g := c.Call.StaticCallee()
	touches := false
	for _, a := range allArgs(c) {
		if isMat(bareMat(a)) {
			touches = true
		}
		if pt, ok := a.Type().Underlying().(*types.Pointer); ok {
			if s, ok := pt.Elem().Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if n := namedOf(s.Field(i).Type()); n != nil && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/mat") {
						touches = true
					}
				}
			}
		}
	}
	if !touches {
		return
	}
	if g != nil && m.p.IsLibFunc(g) && depth < 4 {
		if ps, full := wholePaths(g, 8); full {
			var live []*turnPath
			loops := false
			for _, t := range ps {
				for _, b := range t.blocks {
					if b != nil && naturalLoop(b) != nil {
						loops = true
					}
				}
				live = append(live, t)
			}
			if len(live) == 1 && !loops {
				in := map[ssa.Value]string{}
				for i, q := range g.Params {
					if isMat(q) {
						in[q] = m.key(c.Call.Args[i], env)
					}
				}
				m.run(nonNil(live[0].blocks), in, depth+1)
				for _, r := range returns(g) {
					if len(r.Results) == 1 && isMat(r.Results[0]) {
						env[c] = m.key(r.Results[0], in)
					}
				}
				return
			}
		}
	}
	if g != nil && m.p.IsLibFunc(g) && m.p.onlyReadsMats(g, 0) {
		return
	}
	for _, a := range allArgs(c) {
		if isMat(bareMat(a)) {
			m.st[m.key(a, env)] = matUnknown
		}
	}
	for k := range m.st {
		if strings.HasPrefix(k, ".") {
			m.st[k] = matUnknown
		}
	}
}

// onlyReadsMats: the function calls nothing on matrices but what reads them.
func (p *Prog) onlyReadsMats(g *ssa.Function, depth int) bool {
	if depth > 3 {
		return false
	}
	for _, i := range instrs(g) {
		c, ok := i.(ssa.CallInstruction)
		if !ok {
			continue
		}
		if o := calleeObj(c); o != nil && o.Pkg() != nil && strings.HasSuffix(o.Pkg().Path(), "/mat") {
			switch o.Name() {
			case "At", "AtVec", "Dims", "T", "Caps", "ColView", "RowView", "Len":
				continue
			}
			return false
		}
		if h := c.Common().StaticCallee(); h != nil && p.IsLibFunc(h) && !p.onlyReadsMats(h, depth+1) {
			return false
		}
	}
	return true
}

func nonNil(bs []*ssa.BasicBlock) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	for _, b := range bs {
		if b != nil {
			out = append(out, b)
		}
	}
	return out
}

// waysTo: the ways from the entry of a function to a block (without going through it), loops not followed.
func waysTo(f *ssa.Function, end *ssa.BasicBlock, limit int) ([][]*ssa.BasicBlock, bool) {
	var out [][]*ssa.BasicBlock
	full := true
	on := map[*ssa.BasicBlock]bool{}
	var cur []*ssa.BasicBlock
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if b == end {
			if len(out) >= limit {
				full = false
				return
			}
			out = append(out, append([]*ssa.BasicBlock{}, cur...))
			return
		}
		if on[b] {
			return
		}
		on[b] = true
		cur = append(cur, b)
		for _, s := range b.Succs {
			if len(out) < limit || full {
				walk(s)
			}
		}
		cur = cur[:len(cur)-1]
		on[b] = false
	}
	walk(f.Blocks[0])
	return out, full
}

// matLoop: the only loop of a function in which matrices are operated on.
func (p *Prog) matLoop(f *ssa.Function) (*ssa.BasicBlock, map[*ssa.BasicBlock]bool) {
	var h *ssa.BasicBlock
	var body map[*ssa.BasicBlock]bool
	for _, b := range f.Blocks {
		l := naturalLoop(b)
		if l == nil {
			continue
		}
		has := false
		for x := range l {
			for _, i := range x.Instrs {
				c, ok := i.(*ssa.Call)
				if !ok {
					continue
				}
				for _, a := range allArgs(c) {
					if isMat(bareMat(a)) {
						has = true
					}
				}
				if g := c.Call.StaticCallee(); g != nil && p.IsLibFunc(g) {
					has = true
				}
			}
		}
		if !has {
			continue
		}
		if h != nil {
			return nil, nil
		}
		h, body = b, l
	}
	return h, body
}

// turns: how many turns a counting loop makes.
func (f *sumFrame) turns(h *ssa.BasicBlock) (Sym, bool) {
	for _, l := range countingLoops(h.Parent()) {
		if l.Header != h || l.Bound == nil || l.Init == nil {
			continue
		}
		lo, hi := f.eval(l.Init), f.eval(l.Bound)
		switch {
		case l.Step == 1 && l.Range:
			return hi, true
		case l.Step == 1 && (l.Op == token.LSS || l.Op == token.NEQ):
			return hi.Sub(lo), true
		case l.Step == 1 && l.Op == token.LEQ:
			return hi.Sub(lo).Add(symInt(1)), true
		case l.Step == -1 && (l.Op == token.GTR || l.Op == token.NEQ):
			return lo.Sub(hi), true
		case l.Step == -1 && l.Op == token.GEQ:
			return lo.Sub(hi).Add(symInt(1)), true
		}
	}
	return Sym{}, false
}

func unknownMat(s Sym) bool { return unreadable(s) || strings.Contains(s.String(), "?") }

// forwardPass: one turn weighs the activations, adds the bias and applies the neuron's function; as many turns as asked for.
func forwardPass(c *Ctx, f *ssa.Function) {
	p := c.P
	with, turns := -1, -1
	for i, q := range f.Params {
		if i == 0 {
			continue
		}
		if isMat(q) {
			with = i
		} else if isIntType(q.Type()) {
			turns = i
		}
	}
	if with < 0 || turns < 0 {
		return
	}
	h, body := p.matLoop(f)
	if h == nil {
		c.Count("undecided formulas", 1)
		return
	}
	key := "forward:" + p.Name(f)
	env := map[ssa.Value]string{f.Params[with]: "with"}
	ways, full := turnPaths(h, body, 16)
	want := symAtom(".funcs[r].Forward(" + product(symAtom("«.weights»"), symAtom("«with»")).Add(symAtom(".biases[r]")).String() + ")")
	if !full || len(ways) == 0 {
		c.Count("undecided formulas", 1)
		return
	}
	for _, t := range ways {
		if !t.feasible() {
			continue
		}
		m := &matRun{p, map[string]Sym{}}
		m.run(t.blocks[:len(t.blocks)-1], env, 0)
		got := m.value(f.Params[with], env)
		if verboseForms {
			fmt.Println("FORWARD", got.String())
		}
		if unknownMat(got) {
			c.Count("undecided formulas", 1)
			return
		}
		if !got.Eq(want) {
			c.Bad(key, p.Pos(f.Pos()), fmt.Sprintf("a turn of the forward pass leaves %s, by definition %s", clip(got.String()), clip(want.String())))
			return
		}
	}
	c.Ok(key, p.Pos(f.Pos()), "each turn weighs, adds the bias and applies the neuron's function")
	fr := newSumFrame(p, learnAtoms)
	fr.bind[f.Params[turns]] = symAtom("N")
	if n, ok := fr.turns(h); ok && !unreadable(n) {
		c.Check(n.Eq(symAtom("N")), "passes:"+p.Name(f), p.Pos(f.Pos()), "as many turns as asked for", "makes "+clip(n.String())+" turns instead of N")
	}
}

// backwardPass: a turn adds error times derivative at the output and hands it on through the transposed weights.
func backwardPass(c *Ctx, f *ssa.Function) {
	p := c.P
	var mats []int
	turns := -1
	for i, q := range f.Params {
		if i == 0 {
			continue
		}
		if isMat(q) {
			mats = append(mats, i)
		} else if isIntType(q.Type()) {
			turns = i
		}
	}
	if len(mats) != 2 || turns < 0 {
		return
	}
	h, body := p.matLoop(f)
	undecided := func() { c.Count("undecided formulas", 1) }
	if h == nil {
		undecided()
		return
	}
	key := "backward:" + p.Name(f)
	newEnv := func() map[ssa.Value]string {
		return map[ssa.Value]string{f.Params[mats[0]]: "out", f.Params[mats[1]]: "err"}
	}
	ins, full := waysTo(f, h, 8)
	if !full || len(ins) == 0 {
		undecided()
		return
	}
	// before the loop
	start := &matRun{p, map[string]Sym{}}
	env := newEnv()
	start.run(ins[0], env, 0)
	for _, w := range ins[1:] {
		o := &matRun{p, map[string]Sym{}}
		o.run(w, newEnv(), 0)
		for k, s := range start.st {
			if t, ok := o.st[k]; !ok || !t.Eq(s) {
				undecided()
				return
			}
		}
	}
	// the result
	res := ""
	for _, r := range returns(f) {
		if len(r.Results) != 1 {
			return
		}
		k := start.key(r.Results[0], env)
		if res != "" && res != k {
			undecided()
			return
		}
		res = k
	}
	ways, full := turnPaths(h, body, 16)
	if !full || len(ways) == 0 {
		undecided()
		return
	}
	// what the loop changes
	changed := map[string]bool{}
	for _, t := range ways {
		m := start.copy()
		m.run(t.blocks[:len(t.blocks)-1], env, 0)
		for k, s := range m.st {
			if o, ok := start.st[k]; !ok || !o.Eq(s) {
				changed[k] = true
			}
		}
	}
	other := ""
	for _, k := range sortedKeys(changed) {
		if k == res {
			continue
		}
		if strings.HasPrefix(k, ".") {
			c.Bad(key, p.Pos(f.Pos()), "the backward pass changes "+k)
			return
		}
		if other != "" {
			undecided()
			return
		}
		other = k
	}
	if verboseForms {
		fmt.Println("CHANGED", changed, res, start.st)
	}
	if other == "" || !changed[res] {
		undecided()
		return
	}
	d := symAtom(".funcs[r].Backward(" + symAtom("«out»").String() + ")")
	wt := transposed(symAtom("«.weights»"))
	A, B := symAtom("A"), symAtom("B")
	if s0, ok := start.st[res]; !ok || unknownMat(s0) {
		undecided()
		return
	}
	e0, ok := start.st[other]
	if !ok {
		e0 = symAtom("«" + other + "»")
	}
	if unknownMat(e0) {
		undecided()
		return
	}
	for _, t := range ways {
		if !t.feasible() {
			continue
		}
		m := start.copy()
		m.st[res], m.st[other] = A, B
		m.run(t.blocks[:len(t.blocks)-1], env, 0)
		a, b := m.st[res], m.st[other]
		if verboseForms {
			fmt.Println("BACKWARD", a.String(), "|", b.String(), "| start", start.st[res].String(), e0.String())
		}
		if unknownMat(a) || unknownMat(b) {
			undecided()
			return
		}
		local := B.Mul(d)
		onward := b.Eq(product(wt, local))
		if !onward && (b.Eq(local) || b.Eq(B)) {
			yes, known := lastTurn(p, t, h)
			if !yes && !known {
				undecided()
				return
			}
			onward = yes
		}
		first := a.Eq(A.Add(local)) && onward && start.st[res].Eq(symInt(0)) && e0.Eq(symAtom("«err»"))
		moved := product(wt, B).Mul(d)
		second := a.Eq(A.Add(moved)) && b.Eq(moved) && start.st[res].Eq(symAtom("«err»").Mul(d)) && e0.Eq(start.st[res])
		if !first && !second {
			c.Bad(key, p.Pos(f.Pos()), fmt.Sprintf("from an accumulated error A = %s and a current error B = %s, a turn makes A = %s and B = %s; by definition A grows by B times the derivative at the output, which goes on through the transposed weights",
				clip(start.st[res].String()), clip(e0.String()), clip(a.String()), clip(b.String())))
			return
		}
	}
	c.Ok(key, p.Pos(f.Pos()), "each turn adds error times derivative and hands it back through the transposed weights")
}

// lastTurn: by the comparisons made on the turn it can only be the last one; known is false when they were not understood.
func lastTurn(p *Prog, t *turnPath, h *ssa.BasicBlock) (yes, known bool) {
	fr := newSumFrame(p, learnAtoms)
	n, ok := fr.turns(h)
	if !ok {
		return false, false
	}
	var loop *CountLoop
	for _, l := range countingLoops(h.Parent()) {
		if l.Header == h {
			loop = l
		}
	}
	last := n.Sub(symInt(1))
	if !loop.Range {
		last = fr.eval(loop.Init).Add(last)
		if loop.Step == -1 {
			last = fr.eval(loop.Init).Sub(n).Add(symInt(1))
		}
	}
	known = true
	for _, b := range t.blocks[:len(t.blocks)-1] {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || iff == loop.If {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			known = false
			continue
		}
		op := cmp.Op
		if nx := t.blocks[t.pos[b]+1]; nx == b.Succs[1] {
			op = negate(op)
		}
		in := newSumFrame(p, learnAtoms)
		in.keys[h] = "⟦i⟧"
		d := in.eval(cmp.X).Sub(in.eval(cmp.Y)) // compared with zero
		k := d.Sub(symAtom("⟦i⟧"))
		up := true
		if strings.Contains(k.String(), "⟦i⟧") {
			if k = symInt(0).Sub(d).Sub(symAtom("⟦i⟧")); strings.Contains(k.String(), "⟦i⟧") {
				known = false
				continue
			}
			up = false
		}
		if unreadable(k) {
			known = false
			continue
		}
		at := symInt(0).Sub(k) // I op at
		if !up {
			switch op {
			case token.LSS:
				op = token.GTR
			case token.LEQ:
				op = token.GEQ
			case token.GTR:
				op = token.LSS
			case token.GEQ:
				op = token.LEQ
			}
		}
		ends := token.GEQ
		strict := token.GTR
		step := symInt(1)
		if loop.Step == -1 {
			ends, strict, step = token.LEQ, token.LSS, symInt(-1)
		}
		switch op {
		case token.EQL, ends:
			yes = yes || at.Eq(last)
		case strict:
			yes = yes || at.Add(step).Eq(last)
		}
	}
	return yes, known
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C38", Rule: "the impurity, entropy, loss and path-length measures of the trees package are brought into algebraic normal form (sums over class counts, helpers inlined) and compared with their definitions, also behind the criterion name that selects them; every search for the best split keeps the candidate that compares better in the right direction (information gain and gain ratio largest, impurity and loss smallest) and takes attribute, threshold, labels and both halves from that same candidate; the impurity of a split is the average over its halves weighted by their sizes; left and right results of a split end up on their own side of the node; and a node that is not split carries the prediction for its data on both sides.", Run: runC38})
}

// sumWith closes a term over a range of keys.
func sumWith(dom string, level int, t func(k string) Sym) Sym {
	k := fmt.Sprintf("⟪%d⟫", level)
	return sumOver(t(k), dom, k, "")
}

type splitSpecs struct {
	p     *Prog
	names map[string]Sym
}

// countAtoms names what counting helpers return: a map from label to the number of times it occurs.
func countAtoms(f *sumFrame, v ssa.Value) (Sym, bool) {
	if c, ok := v.(*ssa.Call); ok {
		if g := c.Call.StaticCallee(); g != nil && f.p.IsLibFunc(g) && g.Signature.Results().Len() == 1 && len(c.Call.Args) > 0 {
			if m, ok := g.Signature.Results().At(0).Type().Underlying().(*types.Map); ok && isIntType(m.Elem()) {
				return symAtom("count(" + f.eval(c.Call.Args[0]).String() + ")"), true
			}
		}
	}
	return Sym{}, false
}

func runC38(c *Ctx) {
	p := c.P
	A := symAtom
	ln2 := symLog(symInt(2))
	// distributions
	N := sumWith("s", 0, func(k string) Sym { return A("s[" + k + "]") })
	entropy := sumWith("s", 5, func(k string) Sym {
		q := A("s[" + k + "]").Div(N)
		return symInt(0).Sub(q.Mul(symLog(q)).Div(ln2))
	})
	gini := symInt(1).Sub(sumWith("s", 5, func(k string) Sym { q := A("s[" + k + "]").Div(N); return q.Mul(q) }))
	cellSum := func(dom, in string) Sym {
		return sumWith(dom, 3, func(a string) Sym {
			return sumWith(strings.ReplaceAll(in, "$", "s["+a+"]"), 4, func(k string) Sym { return A("s[" + a + "][" + k + "]") })
		})
	}
	split := func(dom, in string) Sym {
		n := cellSum(dom, in)
		return sumWith(dom, 5, func(a string) Sym {
			d := strings.ReplaceAll(in, "$", "s["+a+"]")
			tot := sumWith(d, 6, func(k string) Sym { return A("s[" + a + "][" + k + "]") })
			h := sumWith(d, 6, func(k string) Sym {
				q := A("s[" + a + "][" + k + "]").Div(n)
				return symInt(0).Sub(q.Mul(symLog(q)).Div(ln2))
			})
			q := tot.Div(n)
			return h.Add(q.Mul(symLog(q)).Div(ln2))
		})
	}
	avgGini := sumWith("s", 5, func(a string) Sym {
		tot := sumWith("s["+a+"]", 6, func(k string) Sym { return A("s[" + a + "][" + k + "]") })
		sq := sumWith("s["+a+"]", 6, func(k string) Sym { e := A("s[" + a + "][" + k + "]"); return e.Mul(e) })
		return tot.Div(cellSum("s", "$")).Mul(symInt(1).Sub(sq.Div(tot.Mul(tot))))
	})
	// samples
	n := A("len(y)")
	cnt := func(k string) Sym { return A("count(y)[labels[" + k + "]]") }
	cGini := sumWith("0..len(labels)", 5, func(k string) Sym { q := cnt(k).Div(n); return q.Mul(symInt(1).Sub(q)) })
	cEntropy := sumWith("0..len(labels)", 5, func(k string) Sym {
		q := cnt(k).Div(n)
		return symInt(0).Sub(q.Mul(symLog(q)).Div(ln2))
	})
	abs := func(s Sym) Sym {
		s = s.reduce()
		if n := symInt(0).Sub(s).reduce(); n.String() < s.String() {
			s = n
		}
		return A("abs(" + s.String() + ")")
	}
	mean := sumWith("0..len(y)", 3, func(k string) Sym { return A("y[" + k + "]") }).Div(n)
	mae := func(m Sym) Sym {
		return sumWith("0..len(y)", 5, func(k string) Sym { return abs(A("y[" + k + "]").Sub(m)) }).Div(n)
	}
	mse := func(m Sym) Sym {
		return sumWith("0..len(y)", 5, func(k string) Sym { d := A("y[" + k + "]").Sub(m); return d.Mul(d) }).Div(n)
	}
	euler := A("γ")
	cf := symInt(2).Mul(symLog(A("n").Sub(symInt(1))).Add(euler)).Sub(symInt(2).Mul(A("n").Sub(symInt(1))).Div(A("n")))
	score := func(path Sym) Sym {
		return A("pow(2," + symInt(0).Sub(path.Div(A("len(forest)")).Div(cf)).reduce().String() + ")")
	}
	paths := sumWith("0..len(forest)", 5, func(k string) Sym { return A("pathLength(forest[" + k + "],x,0)") })
	table := []struct {
		fn     string
		k      int
		params []string
		want   Sym
		what   string
	}{
		{"getBaseEntropy", 0, []string{"s"}, entropy, "the entropy of a class distribution"},
		{"getSplitEntropy", 0, []string{"s"}, split("s", "$"), "the entropy after a split"},
		{"getSplitEntropyFast", 0, []string{"s"}, split("0..2", "0..len($)"), "the entropy after a threshold split"},
		{"computeGini", 0, []string{"s"}, gini, "the Gini impurity"},
		{"computeAverageGiniIndex", 0, []string{"s"}, avgGini, "the average Gini index of a split"},
		{"computeGiniImpurityAndModeLabel", 0, []string{"y", "labels"}, cGini, "the Gini impurity of labels"},
		{"computeEntropyAndModeLabel", 0, []string{"y", "labels"}, cEntropy, "the entropy of labels"},
		{"average", 0, []string{"y"}, mean, "the average"},
		{"meanAbsoluteError", 0, []string{"y", "m"}, mae(A("m")), "the mean absolute error"},
		{"meanSquaredError", 0, []string{"y", "m"}, mse(A("m")), "the mean squared error"},
		{"computeMaeImpurityAndAverage", 0, []string{"y"}, mae(mean), "the mean absolute error around the mean"},
		{"computeMaeImpurityAndAverage", 1, []string{"y"}, mean, "the leaf value"},
		{"computeMseImpurityAndAverage", 0, []string{"y"}, mse(mean), "the mean squared error around the mean"},
		{"computeMseImpurityAndAverage", 1, []string{"y"}, mean, "the leaf value"},
		{"cFactor", 0, []string{"n"}, cf, "the average path length of an unsuccessful search"},
		{"anomalyScore", 0, []string{"x", "forest", "n"}, score(paths), "the anomaly score"},
	}
	seen := 0
	for _, t := range table {
		f := p.Func("trees." + t.fn)
		if f == nil || len(f.Params) != len(t.params) || t.k >= f.Signature.Results().Len() {
			continue
		}
		seen++
		fr := frameFor(p, f, t.params...)
		fr.atom = countAtoms
		formula(c, f, t.k, fr, t.want, fmt.Sprintf("formula:trees.%s#%d", t.fn, t.k), t.what)
	}
	c.Count("measures", seen)
	// the criterion chosen by name
	byName := map[string]Sym{"gini": cGini, "entropy": cEntropy, "mae": mae(mean), "mse": mse(mean)}
	crit := 0
	for _, f := range p.Funcs {
		if !p.IsLibFunc(f) || f.Pkg == nil || f.Pkg.Pkg.Name() != "trees" || f.Signature.Results().Len() < 2 || basicInfo(f.Signature.Results().At(0).Type())&types.IsFloat == 0 {
			continue
		}
		crit += criterionDispatch(c, f, byName)
	}
	c.Floor("criteria selected by name", crit, 2)
	rules := 0
	for _, t := range p.NamedTypes() {
		m := p.Method(t, "GetSplitRuleFromSelection")
		if m == nil || t.Obj().Pkg().Name() != "trees" || types.IsInterface(t) {
			continue
		}
		if bestRule(c, t, m) {
			rules++
		}
	}
	c.Count("split rule generators", rules)
	cart := 0
	for _, f := range p.Funcs {
		if p.IsLibFunc(f) && f.Pkg != nil && f.Pkg.Pkg.Name() == "trees" && f.Parent() == nil {
			if cartSplit(c, f) {
				cart++
			}
			numericSplit(c, f)
			modeLabel(c, f)
		}
	}
	c.Floor("split searches", rules+cart, 2)
}

// criterionDispatch: under the test for a criterion's name, the loss returned is that criterion's.
func criterionDispatch(c *Ctx, f *ssa.Function, byName map[string]Sym) int {
	p := c.P
	var name *ssa.Parameter
	for _, q := range f.Params {
		if basicInfo(q.Type())&types.IsString != 0 {
			name = q
		}
	}
	if name == nil {
		return 0
	}
	n := 0
	for _, r := range returns(f) {
		crit := ""
		for _, g := range guardsOf(r.Block()) {
			b, ok := g.Cond.(*ssa.BinOp)
			if !ok || b.Op != token.EQL || !g.Pol {
				continue
			}
			for _, o := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
				if s, ok := constStr(o[1]); ok && o[0] == ssa.Value(name) {
					crit = s
				}
			}
		}
		want, ok := byName[crit]
		if !ok || isConstZero(r.Results[0]) {
			continue
		}
		n++
		fr := newSumFrame(p, countAtoms)
		ys := []string{"y", "labels"}
		for _, q := range f.Params {
			if _, ok := q.Type().Underlying().(*types.Slice); ok && len(ys) > 0 {
				fr.bind[q] = symAtom(ys[0])
				ys = ys[1:]
			}
		}
		got := fr.eval(r.Results[0])
		if unreadable(got) {
			c.Count("undecided formulas", 1)
			continue
		}
		got = got.mapAtoms(canonAtom)
		c.Check(got.Eq(want.mapAtoms(canonAtom)), "criterion:"+p.Name(f)+"#"+crit, p.InstrPos(r), "criterion "+crit+" computes its own measure", "under criterion "+crit+" the measure is "+clip(got.reduce().String()))
	}
	return n
}

func isConstZero(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	if !ok {
		return false
	}
	z, ok := constFloat(k)
	return ok && z == 0
}

// a best-so-far search: the loop value replaced by a candidate when the candidate compares better.
type bestFold struct {
	phi  *ssa.Phi
	cand ssa.Value
	max  bool
	edge *ssa.BasicBlock // the candidate is taken on the way from here ...
	at   *ssa.Phi        // ... into this merge
	iff  *ssa.If
}

func bestFolds(f *ssa.Function) []*bestFold {
	var out []*bestFold
	for _, b := range f.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		switch cmp.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
		default:
			continue
		}
		for _, o := range [][2]ssa.Value{{cmp.X, cmp.Y}, {cmp.Y, cmp.X}} {
			acc, ok := o[1].(*ssa.Phi)
			if !ok || basicInfo(acc.Type())&types.IsFloat == 0 {
				continue
			}
			loop := naturalLoop(acc.Block())
			if loop == nil || !loop[b] {
				continue
			}
			cand := o[0]
			op := cmp.Op
			if o[0] == cmp.Y {
				op = flip(op)
			}
			// find the merge where the candidate replaces the best
			seen := map[*ssa.Phi]bool{}
			var find func(ph *ssa.Phi)
			find = func(ph *ssa.Phi) {
				if seen[ph] {
					return
				}
				seen[ph] = true
				for k, e := range ph.Edges {
					pr := ph.Block().Preds[k]
					if !loop[pr] {
						continue
					}
					if e == cand {
						pol, known := edgePol(iff, pr, ph.Block())
						if !known {
							continue
						}
						o := op
						if !pol {
							o = negate(op)
						}
						out = append(out, &bestFold{acc, cand, o == token.GTR || o == token.GEQ, pr, ph, iff})
						continue
					}
					if q, ok := e.(*ssa.Phi); ok && loop[q.Block()] {
						find(q)
					}
				}
			}
			find(acc)
		}
	}
	return out
}

// edgePol: which outcome of the branch leads along the edge from -> to.
func edgePol(iff *ssa.If, from, to *ssa.BasicBlock) (bool, bool) {
	if from == iff.Block() {
		if from.Succs[0] == from.Succs[1] {
			return false, false
		}
		return from.Succs[0] == to, true
	}
	for _, g := range guardsOf(from) {
		if g.If == iff && g.Cond == iff.Cond {
			return g.Pol, true
		}
	}
	return false, false
}

// companion: what another loop value becomes when the candidate is taken; ok is false when it is not a value of the same loop.
func (b *bestFold) companion(v ssa.Value) (ssa.Value, bool) {
	q, ok := v.(*ssa.Phi)
	if !ok || q.Block() != b.phi.Block() {
		return nil, false
	}
	// follow the loop value to the merge where the candidate is taken
	loop := naturalLoop(q.Block())
	var res ssa.Value
	seen := map[*ssa.Phi]bool{}
	var find func(ph *ssa.Phi)
	find = func(ph *ssa.Phi) {
		if seen[ph] {
			return
		}
		seen[ph] = true
		for k, e := range ph.Edges {
			pr := ph.Block().Preds[k]
			if !loop[pr] {
				continue
			}
			if ph.Block() == b.at.Block() && pr == b.edge {
				res = e
				continue
			}
			if n, ok := e.(*ssa.Phi); ok && loop[n.Block()] {
				find(n)
			}
		}
	}
	find(q)
	return res, res != nil
}

// changesElsewhere: the loop value also changes when the candidate is not taken.
func (b *bestFold) changesElsewhere(v ssa.Value) bool {
	q, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	loop := naturalLoop(q.Block())
	bad := false
	seen := map[*ssa.Phi]bool{}
	var find func(ph *ssa.Phi)
	find = func(ph *ssa.Phi) {
		if seen[ph] {
			return
		}
		seen[ph] = true
		for k, e := range ph.Edges {
			pr := ph.Block().Preds[k]
			if !loop[pr] || ph.Block() == b.at.Block() && pr == b.edge || e == ssa.Value(q) {
				continue
			}
			if n, ok := e.(*ssa.Phi); ok && loop[n.Block()] {
				find(n)
				continue
			}
			bad = true
		}
	}
	find(q)
	return bad
}

func alternatives(v ssa.Value) []ssa.Value {
	if ph, ok := v.(*ssa.Phi); ok && naturalLoop(ph.Block()) == nil {
		var out []ssa.Value
		for _, e := range ph.Edges {
			out = append(out, alternatives(e)...)
		}
		return out
	}
	return []ssa.Value{v}
}

// measureAtoms names the measures by what they measure.
func measureAtoms(f *sumFrame, v ssa.Value) (Sym, bool) {
	idx := 0
	if e, ok := v.(*ssa.Extract); ok {
		idx = e.Index
		v = e.Tuple
	}
	c, ok := v.(*ssa.Call)
	if !ok || idx != 0 {
		return Sym{}, false
	}
	if g := c.Call.StaticCallee(); g != nil && f.p.IsLibFunc(g) {
		switch g.Name() {
		case "getBaseEntropy":
			return symAtom("H"), true
		case "getSplitEntropy", "getSplitEntropyFast", "getNumericAttributeEntropy":
			return symAtom("S"), true
		case "computeAverageGiniIndex":
			return symAtom("G"), true
		}
	}
	return Sym{}, false
}

// bestRule: the rule generators.
func bestRule(c *Ctx, t *types.Named, f *ssa.Function) bool {
	p := c.P
	H, S, G := symAtom("H"), symAtom("S"), symAtom("G")
	spec, ok := map[string]struct {
		want Sym
		max  bool
		what string
	}{
		"InformationGainRuleGenerator":      {H.Sub(S), true, "information gain"},
		"InformationGainRatioRuleGenerator": {H.Sub(S).Div(S), true, "information gain ratio"},
		"GiniCoefficientRuleGenerator":      {G, false, "average Gini index"},
	}[t.Obj().Name()]
	if !ok {
		return false
	}
	folds := bestFolds(f)
	if len(folds) != 1 {
		c.Count("undecided searches", 1)
		return false
	}
	b := folds[0]
	key := "search:" + p.Name(f)
	pos := p.InstrPos(b.iff)
	decided := true
	for _, a := range alternatives(b.cand) {
		fr := newSumFrame(p, measureAtoms)
		s := fr.eval(a)
		if unreadable(s) {
			decided = false
			continue
		}
		if !s.Eq(spec.want) && onlyAtoms(s, "H", "S", "G") {
			c.Bad(key+"#value", pos, fmt.Sprintf("candidates are compared by %s, not by their %s %s", s.String(), spec.what, spec.want.String()))
			return true
		}
		if !s.Eq(spec.want) {
			decided = false
		}
	}
	if !decided {
		c.Count("undecided searches", 1)
	}
	if b.max != spec.max {
		c.Bad(key+"#direction", pos, fmt.Sprintf("the search keeps the candidate with the %s %s", map[bool]string{true: "largest", false: "smallest"}[b.max], spec.what))
		return true
	}
	// the search starts where every candidate is better
	for k, e := range b.phi.Edges {
		if naturalLoop(b.phi.Block())[b.phi.Block().Preds[k]] {
			continue
		}
		bad := false
		switch i := e.(type) {
		case *ssa.Const:
			if z, ok := constFloat(i); ok {
				bad = b.max && z >= 0 || !b.max && z <= 1
			}
		case *ssa.Call:
			if o := calleeObj(i); o != nil && o.FullName() == "math.Inf" {
				if z, ok := constInt(i.Call.Args[0]); ok {
					bad = b.max != (z < 0)
				}
			}
		}
		c.Check(!bad, key+"#start", pos, "every candidate is better than the starting value", "the search starts from a value that candidates do not beat, so that none may be selected")
	}
	// the rule returned belongs to the best candidate
	for _, r := range returns(f) {
		for _, v := range r.Results {
			a, ok := v.(*ssa.Alloc)
			if !ok {
				continue
			}
			st, ok := deref(a.Type()).Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				for _, s := range p.localFieldStores(a, i) {
					if _, ok := b.companion(s.Val); !ok {
						if q, isPhi := s.Val.(*ssa.Phi); isPhi && q.Block() == b.phi.Block() {
							c.Bad(key+"#"+st.Field(i).Name(), p.InstrPos(s), "the "+st.Field(i).Name()+" of the rule is not taken from the best candidate")
						} else {
							c.Count("undecided searches", 1)
						}
						continue
					}
					c.Check(!b.changesElsewhere(s.Val), key+"#"+st.Field(i).Name(), p.InstrPos(s), "taken from the best candidate", "the "+st.Field(i).Name()+" of the rule also changes when a candidate is rejected")
				}
			}
		}
	}
	c.Ok(key, pos, "keeps the candidate with the best "+spec.what)
	return true
}

func onlyAtoms(s Sym, names ...string) bool {
	ok := true
	s.mapAtoms(func(a string) string {
		in := false
		for _, n := range names {
			if a == n {
				in = true
			}
		}
		if !in {
			ok = false
		}
		return a
	})
	return ok
}

// numericSplit: the threshold search of a numeric attribute returns the smallest entropy together with its threshold.
func numericSplit(c *Ctx, f *ssa.Function) {
	p := c.P
	if f.Signature.Results().Len() != 2 {
		return
	}
	for _, b := range bestFolds(f) {
		fr := newSumFrame(p, measureAtoms)
		if s := fr.eval(b.cand); !s.Eq(symAtom("S")) {
			continue
		}
		key := "search:" + p.Name(f)
		c.Check(!b.max, key+"#direction", p.InstrPos(b.iff), "keeps the split with the smallest entropy", "the search keeps the split with the largest entropy")
		for _, r := range returns(f) {
			if len(r.Results) != 2 || r.Results[0] != ssa.Value(b.phi) {
				continue
			}
			if _, ok := b.companion(r.Results[1]); !ok || b.changesElsewhere(r.Results[1]) {
				if q, isPhi := r.Results[1].(*ssa.Phi); isPhi && q.Block() == b.phi.Block() {
					c.Bad(key+"#threshold", p.InstrPos(r), "the threshold returned is not the one of the best split")
				}
				continue
			}
			c.Ok(key+"#threshold", p.InstrPos(r), "the threshold belongs to the best split")
		}
	}
}

// modeLabel: the label returned beside an impurity is one with the largest count.
func modeLabel(c *Ctx, f *ssa.Function) {
	p := c.P
	if f.Signature.Results().Len() != 2 || !strings.HasSuffix(f.Name(), "ModeLabel") {
		return
	}
	for _, b := range f.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		lx, okx := cmp.X.(*ssa.Lookup)
		ly, oky := cmp.Y.(*ssa.Lookup)
		if !okx || !oky || !valuesEqual(lx.X, ly.X) {
			continue
		}
		for _, o := range [][2]*ssa.Lookup{{lx, ly}, {ly, lx}} {
			acc, ok := o[1].Index.(*ssa.Phi)
			if !ok {
				continue
			}
			cand := o[0].Index
			op := cmp.Op
			if o[0] == ly {
				op = flip(op)
			}
			for _, e := range acc.Edges {
				m, ok := e.(*ssa.Phi)
				if !ok {
					continue
				}
				for k, v := range m.Edges {
					if !valuesEqual(v, cand) {
						continue
					}
					pol, known := edgePol(iff, m.Block().Preds[k], m.Block())
					if !known {
						continue
					}
					q := op
					if !pol {
						q = negate(op)
					}
					c.Check(q == token.GTR || q == token.GEQ, "mode:"+p.Name(f), p.InstrPos(iff), "keeps the label with the largest count", "the search for the most frequent label keeps a label that is less frequent")
				}
			}
		}
	}
}

// half: which half of a split (0 left, 1 right) a value belongs to, by its place among the results of the splitting call;
// -1 when that cannot be told.
func half(p *Prog, v ssa.Value) int {
	res := -1
	for _, x := range p.Trace(v, TraceOpt{NoParams: true, NoCalls: true, Stop: func(v ssa.Value) bool {
		_, ok := v.(*ssa.Extract)
		return ok
	}}) {
		e, ok := x.(*ssa.Extract)
		if !ok {
			switch x.(type) {
			case *ssa.Parameter, *ssa.Const:
				continue // the unsplit data
			}
			return -1
		}
		t := e.Tuple.Type().(*types.Tuple)
		rank, same := 0, 0
		for i := 0; i < t.Len(); i++ {
			if types.Identical(t.At(i).Type(), t.At(e.Index).Type()) {
				same++
				if i < e.Index {
					rank++
				}
			}
		}
		if same != 2 || res >= 0 && res != rank {
			return -1
		}
		res = rank
	}
	return res
}

// cartSplit: a recursive search that weighs the losses of two halves.
func cartSplit(c *Ctx, f *ssa.Function) bool {
	p := c.P
	// a recursive function that returns a node by value
	recursive := false
	for _, call := range calls(f) {
		if call.Common().StaticCallee() == f {
			recursive = true
		}
	}
	if !recursive || f.Signature.Results().Len() == 0 {
		return false
	}
	node, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Struct)
	if !ok {
		return false
	}
	isLoss := func(v ssa.Value) (*ssa.Call, int) {
		e, ok := v.(*ssa.Extract)
		if !ok {
			return nil, 0
		}
		call, ok := e.Tuple.(*ssa.Call)
		if !ok {
			return nil, 0
		}
		g := call.Call.StaticCallee()
		if g == nil || !p.IsLibFunc(g) || g == f || g.Signature.Results().Len() < 2 || basicInfo(g.Signature.Results().At(0).Type())&types.IsFloat == 0 {
			return nil, 0
		}
		return call, e.Index
	}
	lossHalf := func(call *ssa.Call) int { return half(p, call.Call.Args[0]) }
	atoms := func(fr *sumFrame, v ssa.Value) (Sym, bool) {
		if call, k := isLoss(v); call != nil && k == 0 {
			if h := lossHalf(call); h >= 0 {
				return symAtom(fmt.Sprintf("loss%d", h)), true
			}
		}
		if call, ok := v.(*ssa.Call); ok {
			if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if h := half(p, call.Call.Args[0]); h >= 0 {
					return symAtom(fmt.Sprintf("n%d", h)), true
				}
				if _, ok := call.Call.Args[0].(*ssa.Parameter); ok {
					return symAtom("n0").Add(symAtom("n1")), true
				}
			}
		}
		return Sym{}, false
	}
	A := symAtom
	want := A("loss0").Mul(A("n0")).Add(A("loss1").Mul(A("n1"))).Div(A("n0").Add(A("n1")))
	did := false
	for _, b := range bestFolds(f) {
		fr := newSumFrame(p, atoms)
		s := fr.eval(b.cand)
		if unreadable(s) || !strings.Contains(s.String(), "loss") {
			c.Count("undecided searches", 1)
			continue
		}
		did = true
		key := "split:" + p.Name(f)
		if onlyAtoms(s, "loss0", "loss1", "n0", "n1") {
			c.Check(s.Eq(want), key+"#average", p.InstrPos(b.iff), "the loss of a split is the average of its halves weighted by their sizes", "the loss of a split is "+clip(s.reduce().String())+", not the average of its halves weighted by their sizes")
		}
		c.Check(!b.max, key+"#direction", p.InstrPos(b.iff), "keeps the split with the smallest loss", "the search keeps the split with the largest loss")
		// what is stored in the node when the candidate is taken
		for _, i := range instrs(f) {
			st, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !types.Identical(deref(fa.X.Type()).Underlying(), node) {
				continue
			}
			name := fieldVar(fa.X.Type(), fa.Field).Name()
			side := sideOf(name)
			taken := false
			for _, g := range guardsOf(st.Block()) {
				if g.If == b.iff && g.Cond == b.iff.Cond {
					if pol, known := edgePol(b.iff, b.edge, b.at.Block()); known && pol == g.Pol {
						taken = true
					}
				}
			}
			if side < 0 {
				continue
			}
			if call, k := isLoss(st.Val); call != nil && k == 1 && taken {
				h := lossHalf(call)
				if h >= 0 {
					c.Check(h == side, key+"#"+name, p.InstrPos(st), "the prediction of this side comes from its own half", name+" is set to the prediction for the other half of the split")
				}
			}
		}
	}
	if !did {
		return false
	}
	key := "split:" + p.Name(f)
	// the halves go to their own side
	for _, i := range instrs(f) {
		st, ok := i.(*ssa.Store)
		if !ok {
			continue
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || !types.Identical(deref(fa.X.Type()).Underlying(), node) {
			continue
		}
		name := fieldVar(fa.X.Type(), fa.Field).Name()
		side := sideOf(name)
		if side < 0 {
			continue
		}
		a, ok := st.Val.(*ssa.Alloc)
		if !ok {
			continue
		}
		for _, s := range p.cellStores(a) {
			e, ok := s.Val.(*ssa.Extract)
			if !ok {
				continue
			}
			call, ok := e.Tuple.(*ssa.Call)
			if !ok || call.Call.StaticCallee() != f {
				continue
			}
			for k, arg := range call.Call.Args {
				if _, ok := arg.Type().Underlying().(*types.Slice); !ok {
					continue
				}
				h := half(p, arg)
				if h < 0 {
					continue
				}
				c.Check(h == side, fmt.Sprintf("%s#%s-subtree-%d", key, name, k), p.InstrPos(call), "the subtree is grown from its own half", "the "+name+" subtree is grown from the other half of the data")
			}
		}
	}
	// a node that is not split predicts the same on both sides
	for k := 0; k < node.NumFields(); k++ {
		fld := node.Field(k)
		if sideOf(fld.Name()) < 0 || basicInfo(fld.Type())&types.IsNumeric == 0 {
			continue
		}
		hit := false
		for _, i := range instrs(f) {
			st, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || fieldVar(fa.X.Type(), fa.Field) != fld {
				continue
			}
			for _, x := range p.Trace(st.Val, TraceOpt{NoParams: true, NoCalls: true, Stop: func(v ssa.Value) bool { _, ok := v.(*ssa.Extract); return ok }}) {
				if call, n := isLoss(x); call != nil && n == 1 {
					if q, ok := call.Call.Args[0].(*ssa.Parameter); ok && q.Parent() == f {
						hit = true
					}
				}
				if fv, _ := fieldLoad(x); fv != nil && sideOf(fv.Name()) >= 0 && fv != fld {
					hit = true // copied from the other side
				}
			}
		}
		c.Check(hit, key+"#unsplit-"+fld.Name(), p.Pos(f.Pos()), "set to the prediction for the node's own data", "a node that is not split leaves "+fld.Name()+" without the prediction for its data")
	}
	return true
}

func sideOf(name string) int {
	switch {
	case strings.HasPrefix(name, "Left"):
		return 0
	case strings.HasPrefix(name, "Right"):
		return 1
	}
	return -1
}

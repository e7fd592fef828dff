package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C24", Rule: "each exported measure on a confusion matrix is brought into algebraic normal form (a rational function over sums of matrix cells, helper functions inlined, loops over map or slice keys turned into sums, `skip this key` tests eliminated) and compared with the normal form of its textbook definition; the function that builds the matrix counts one per row, in the cell (class of that row in the reference data, class of the same row in the predictions), for every row, after rejecting different row counts; the cross-validated measure is the mean and the population variance of the per-fold values.", Run: runC24})
}

// unreadable: the normal form contains something the analysis could not read.
func unreadable(s Sym) bool {
	t := s.String()
	return strings.ContainsAny(t, "?@") || strings.Contains(t, "Σ") && strings.Contains(t, "|")
}

var swapRe = regexp.MustCompile(`^Σ\{⟨(\d+)⟩∈([^{}]*)\}Σ\{⟨(\d+)⟩∈([^{}]*)\}(.*)$`)

var maxRe = regexp.MustCompile(`^MAX\{([^{}]*)\}\{([^{}]*)\}(.*)$`)

// canonAtom puts two nested sums whose ranges do not depend on each other in a fixed order.
func canonAtom(a string) string {
	m := swapRe.FindStringSubmatch(a)
	if m == nil {
		if x := maxRe.FindStringSubmatch(a); x != nil {
			t := canonAtom("Σ{" + x[1] + "}Σ{" + x[2] + "}" + x[3])
			return "MAX" + strings.ReplaceAll(strings.TrimPrefix(t, "Σ"), "}Σ{", "}{")
		}
	}
	if m == nil || strings.Contains(m[4], "⟨"+m[1]+"⟩") {
		return a
	}
	hi, lo := "⟨"+m[1]+"⟩", "⟨"+m[3]+"⟩"
	body := strings.ReplaceAll(m[5], hi, "\x00")
	body = strings.ReplaceAll(body, lo, hi)
	body = strings.ReplaceAll(body, "\x00", lo)
	b := "Σ{" + hi + "∈" + m[4] + "}Σ{" + lo + "∈" + m[2] + "}" + sortFactors(body)
	a = "Σ{" + hi + "∈" + m[2] + "}Σ{" + lo + "∈" + m[4] + "}" + sortFactors(m[5])
	if b < a {
		return b
	}
	return a
}

func sortFactors(s string) string {
	if strings.ContainsAny(s, "({+") {
		return s
	}
	fs := strings.Split(s, "*")
	for i := range fs {
		for j := i + 1; j < len(fs); j++ {
			if fs[j] < fs[i] {
				fs[i], fs[j] = fs[j], fs[i]
			}
		}
	}
	return strings.Join(fs, "*")
}

func (s Sym) mapAtoms(g func(string) string) Sym {
	sub := func(p poly) poly {
		out := poly{}
		for m, c := range p {
			atoms := ""
			if m != "" {
				for _, a := range strings.Split(m, "·") {
					atoms = mulMono(atoms, g(a))
				}
			}
			out = out.add(poly{atoms: c}, 1)
		}
		return out
	}
	return Sym{sub(s.num), sub(s.den)}
}

// formula compares the k-th result of a function with its definition. It reports only when everything could be read.
func formula(c *Ctx, f *ssa.Function, k int, fr *sumFrame, want Sym, key, what string) {
	c.Count("formulas", 1)
	got := fr.results(f, k)
	if len(got) == 0 {
		c.Count("undecided formulas", 1)
		return
	}
	for i := range got {
		if unreadable(got[i]) {
			c.Count("undecided formulas", 1)
			if verboseForms {
				fmt.Println("UNDECIDED", key, got[i].String())
			}
			return
		}
		got[i] = fr.squares(got[i]).mapAtoms(canonAtom)
	}
	w := want.mapAtoms(canonAtom)
	for _, g := range got {
		if !g.Eq(w) {
			c.Bad(key, c.P.Pos(f.Pos()), fmt.Sprintf("%s is computed as %s, but by definition is %s", what, clip(g.reduce().String()), clip(w.reduce().String())))
			return
		}
	}
	c.Count("decided formulas", 1)
	c.Ok(key, c.P.Pos(f.Pos()), what+" = "+clip(w.reduce().String()))
}

var verboseForms bool

func clip(s string) string {
	if r := []rune(s); len(r) > 400 {
		return string(r[:400]) + "..."
	}
	return s
}

func frameFor(p *Prog, f *ssa.Function, names ...string) *sumFrame {
	fr := newSumFrame(p, nil)
	for i, q := range f.Params {
		if i < len(names) && names[i] != "" {
			fr.bind[q] = symAtom(names[i])
		}
	}
	return fr
}

func runC24(c *Ctx) {
	p := c.P
	A := symAtom
	tp := A("c[K][K]")
	col := A("Σ{⟨0⟩∈c}c[⟨0⟩][K]")
	row := A("Σ{⟨0⟩∈c[K]}c[K][⟨0⟩]")
	all := A("Σ{⟨1⟩∈c}Σ{⟨0⟩∈c[⟨1⟩]}c[⟨1⟩][⟨0⟩]")
	allp := A("Σ{⟨1⟩∈c}Σ{⟨0⟩∈c}c[⟨0⟩][⟨1⟩]")
	diag := A("Σ{⟨0⟩∈c}c[⟨0⟩][⟨0⟩]")
	n := A("len(c)")
	prec, rec := tp.Div(col), tp.Div(row)
	table := []struct {
		name string
		want Sym
		what string
	}{
		{"GetTruePositives", tp, "the true positives of a class"},
		{"GetFalsePositives", col.Sub(tp), "the false positives of a class"},
		{"GetFalseNegatives", row.Sub(tp), "the false negatives of a class"},
		{"GetTrueNegatives", all.Sub(row).Sub(col).Add(tp), "the true negatives of a class"},
		{"GetPrecision", prec, "precision"},
		{"GetRecall", rec, "recall"},
		{"GetF1Score", symInt(2).Mul(prec).Mul(rec).Div(prec.Add(rec)), "the F1 score"},
		{"GetAccuracy", diag.Div(all), "accuracy"},
		{"GetMicroPrecision", diag.Div(allp), "micro-averaged precision"},
		{"GetMicroRecall", diag.Div(all), "micro-averaged recall"},
		{"GetMacroPrecision", A("Σ{⟨1⟩∈c}((c[⟨1⟩][⟨1⟩])/(Σ{⟨0⟩∈c}c[⟨0⟩][⟨1⟩]))").Div(n), "macro-averaged precision"},
		{"GetMacroRecall", A("Σ{⟨1⟩∈c}((c[⟨1⟩][⟨1⟩])/(Σ{⟨0⟩∈c[⟨1⟩]}c[⟨1⟩][⟨0⟩]))").Div(n), "macro-averaged recall"},
	}
	seen := 0
	for _, t := range table {
		f := p.Func("evaluation." + t.name)
		if f == nil {
			continue
		}
		seen++
		fr := newSumFrame(p, nil)
		for _, q := range f.Params {
			if basicInfo(q.Type())&types.IsString != 0 {
				fr.bind[q] = A("K")
			} else {
				fr.bind[q] = A("c")
			}
		}
		formula(c, f, 0, fr, t.want, "measure:evaluation."+t.name, t.what)
	}
	c.Floor("measures on a confusion matrix", seen, 6)
	if f := p.Func("evaluation.GetCrossValidatedMetric"); f != nil && len(f.Params) == 2 {
		in, v := A("len(in)"), A("Σ{⟨0⟩∈0..len(in)}metric(in[⟨0⟩])")
		sq := A("Σ{⟨0⟩∈0..len(in)}metric(in[⟨0⟩])*metric(in[⟨0⟩])")
		mean := v.Div(in)
		formula(c, f, 0, frameFor(p, f, "in", "metric"), mean, "measure:evaluation.GetCrossValidatedMetric#mean", "the mean over the folds")
		formula(c, f, 1, frameFor(p, f, "in", "metric"), sq.Div(in).Sub(mean.Mul(mean)), "measure:evaluation.GetCrossValidatedMetric#variance", "the variance over the folds")
	}
	if f := p.Func("evaluation.GetConfusionMatrix"); f != nil {
		confusionBuild(c, f)
	}
	if f := p.Func("evaluation.GetSummary"); f != nil {
		summaryTable(c, f)
	}
}

// pathCounts: the least and greatest weight of the instructions on the paths from a block to where end says so; ok is false
// when a path runs in circles.
func (p *Prog) pathCounts(b *ssa.BasicBlock, end func(*ssa.BasicBlock) bool, weight func(ssa.Instruction) (int, int)) (int, int, bool) {
	type mm struct {
		lo, hi int
		ok     bool
		any    bool
	}
	memo := map[*ssa.BasicBlock]*mm{}
	busy := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) *mm
	walk = func(b *ssa.BasicBlock) *mm {
		if end(b) {
			return &mm{0, 0, true, true}
		}
		if m := memo[b]; m != nil {
			return m
		}
		if busy[b] {
			return &mm{0, 0, false, true}
		}
		busy[b] = true
		defer delete(busy, b)
		lo, hi := 0, 0
		for _, i := range b.Instrs {
			l, h := weight(i)
			lo += l
			hi += h
		}
		out := &mm{ok: true}
		for _, s := range b.Succs {
			m := walk(s)
			if !m.any {
				continue
			}
			if !m.ok {
				out.ok = false
			}
			if !out.any || m.lo < out.lo {
				out.lo = m.lo
			}
			if m.hi > out.hi {
				out.hi = m.hi
			}
			out.any = true
		}
		if len(b.Succs) == 0 {
			if _, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isRet {
				out.any = end(nil)
			}
		}
		out.lo += lo
		out.hi += hi
		memo[b] = out
		return out
	}
	m := walk(b)
	return m.lo, m.hi, m.ok && m.any
}

// classCalls: the calls that read a row's class this value may come from; ok is false when it may come from elsewhere.
func classCalls(p *Prog, v ssa.Value) ([]*ssa.Call, bool) {
	isClass := func(x ssa.Value) bool {
		c, ok := x.(*ssa.Call)
		return ok && isCallTo(c, "base", "", "GetClass")
	}
	var out []*ssa.Call
	for _, x := range p.Trace(v, TraceOpt{Stop: isClass}) {
		if !isClass(x) {
			return nil, false
		}
		out = append(out, x.(*ssa.Call))
	}
	return out, len(out) > 0
}

// sameLookup: the map was read from the same place that the test found empty.
func sameLookup(m ssa.Value, t *ssa.Lookup) bool {
	lk, ok := m.(*ssa.Lookup)
	return ok && valuesEqual(lk.X, t.X) && valuesEqual(lk.Index, t.Index)
}

func sameLookups(a, b ssa.Value) bool {
	lk, ok := b.(*ssa.Lookup)
	return ok && sameLookup(a, lk)
}

func paramOf(p *Prog, v ssa.Value, f *ssa.Function) int {
	at := -1
	for _, x := range p.Trace(v, TraceOpt{Stop: func(v ssa.Value) bool {
		q, ok := v.(*ssa.Parameter)
		return ok && q.Parent() == f
	}}) {
		q, ok := x.(*ssa.Parameter)
		if !ok || q.Parent() != f {
			return -1
		}
		k := -1
		for i, r := range f.Params {
			if r == q {
				k = i
			}
		}
		if at >= 0 && at != k {
			return -1
		}
		at = k
	}
	return at
}

func confusionBuild(c *Ctx, f *ssa.Function) {
	p := c.P
	key := "matrix:" + p.Name(f)
	inFam := map[*ssa.Function]bool{}
	for g := range p.Reachable(f) {
		if g.Pkg == f.Pkg {
			inFam[g] = true
		}
	}
	ups := map[ssa.Instruction]bool{}
	var rows []ssa.Value // row numbers used
	undecided := func(why string) {
		c.Count("undecided matrix steps", 1)
		if verboseForms {
			fmt.Println("UNDECIDED", key, why)
		}
	}
	bad := false
	side := func(v ssa.Value, want int, what string, at ssa.Instruction) {
		cs, ok := classCalls(p, v)
		if !ok {
			undecided(what)
			return
		}
		for _, call := range cs {
			k := paramOf(p, call.Call.Args[0], f)
			if k < 0 {
				undecided(what + " grid")
				continue
			}
			if k != want {
				bad = true
				c.Bad(key+"#"+what, p.InstrPos(at), fmt.Sprintf("the %s of the cell that is counted is the class in argument %d, not in argument %d", what, k+1, want+1))
			}
			rows = append(rows, call.Call.Args[1])
		}
	}
	for g := range inFam {
		for _, i := range instrs(g) {
			u, ok := i.(*ssa.MapUpdate)
			if !ok {
				continue
			}
			mt, ok := u.Map.Type().Underlying().(*types.Map)
			if !ok || basicInfo(mt.Elem())&types.IsInteger == 0 {
				continue
			}
			ups[u] = true
			side(u.Key, 1, "column", u)
			fresh := true
			for _, m := range p.Trace(u.Map, TraceOpt{}) {
				switch x := m.(type) {
				case *ssa.Lookup:
					fresh = false
					side(x.Index, 0, "row", u)
				case *ssa.Extract:
					fresh = false
					if lk, ok := x.Tuple.(*ssa.Lookup); ok {
						side(lk.Index, 0, "row", u)
					}
				case *ssa.MakeMap:
					for h := range inFam {
						for _, j := range instrs(h) {
							o, ok := j.(*ssa.MapUpdate)
							if ok && o != u {
								for _, y := range p.Trace(o.Value, TraceOpt{}) {
									if y == m {
										side(o.Key, 0, "row", o)
									}
								}
							}
						}
					}
				default:
					fresh = false
					undecided("cell map")
				}
			}
			// the count grows by one
			if k, ok := constInt(u.Value); ok {
				absent := fresh
				for _, g := range guardsOf(u.Block()) {
					if e, ok := g.Cond.(*ssa.Extract); ok && !g.Pol {
						if lk, ok := e.Tuple.(*ssa.Lookup); ok && (valuesEqual(lk.X, u.Map) && valuesEqual(lk.Index, u.Key) || sameLookup(u.Map, lk)) {
							absent = true
						}
					}
				}
				if k != 1 || !absent {
					bad = true
					c.Bad(key+"#count", p.InstrPos(u), "the cell is set to a constant although the row may not be its first")
				}
				continue
			}
			b, ok := u.Value.(*ssa.BinOp)
			if !ok {
				undecided("count")
				continue
			}
			x, y := b.X, b.Y
			if _, ok := constInt(x); ok && b.Op == token.ADD {
				x, y = y, x
			}
			k, isK := constInt(y)
			lk, isLk := x.(*ssa.Lookup)
			if e, ok := x.(*ssa.Extract); ok && e.Index == 0 {
				lk, isLk = e.Tuple.(*ssa.Lookup)
			}
			if !isK || !isLk {
				undecided("count")
				continue
			}
			if b.Op != token.ADD || k != 1 || !valuesEqual(lk.X, u.Map) && !sameLookups(lk.X, u.Map) || !valuesEqual(lk.Index, u.Key) {
				bad = true
				c.Bad(key+"#count", p.InstrPos(u), "a row does not add exactly one to its own cell")
			}
		}
	}
	if len(ups) == 0 {
		undecided("no counting")
		return
	}
	// every row, once
	var lp *CountLoop
	for _, r := range rows {
		vs := p.Trace(r, TraceOpt{Stop: func(v ssa.Value) bool { return loopCur(v) != nil }})
		for _, v := range vs {
			l := loopCur(v)
			if l == nil {
				if b, ok := v.(*ssa.BinOp); ok && (loopCur(b.X) != nil || loopCur(b.Y) != nil) {
					bad = true
					c.Bad(key+"#same-row", p.InstrPos(b), "the reference class and the predicted class are not read from the row being counted")
				} else {
					undecided("row number")
				}
				continue
			}
			if lp != nil && lp.Header != l.Header {
				undecided("two row loops")
				continue
			}
			lp = l
		}
	}
	if lp == nil {
		undecided("no row loop")
		return
	}
	if ok, sure := fullRowLoop(p, lp); !ok && sure {
		bad = true
		c.Bad(key+"#every-row", p.InstrPos(lp.If), "the counting loop does not run over every row")
	}
	var weight func(i ssa.Instruction) (int, int)
	deep := 0
	weight = func(i ssa.Instruction) (int, int) {
		if ups[i] {
			return 1, 1
		}
		if call, ok := i.(*ssa.Call); ok && deep < 4 {
			if g := call.Call.StaticCallee(); g != nil && inFam[g] && len(g.Blocks) > 0 {
				deep++
				lo, hi, ok := p.pathCounts(g.Blocks[0], func(b *ssa.BasicBlock) bool { return b == nil }, weight)
				deep--
				if ok {
					return lo, hi
				}
			}
		}
		return 0, 0
	}
	start := lp.If.Block().Succs[0]
	if !lp.Body[start] {
		start = lp.If.Block().Succs[1]
	}
	lo, hi, ok := p.pathCounts(start, func(b *ssa.BasicBlock) bool { return b == lp.Header }, weight)
	if !ok {
		undecided("counting paths")
	} else if lo != 1 || hi != 1 {
		bad = true
		c.Bad(key+"#once", p.InstrPos(lp.If), fmt.Sprintf("a row is counted between %d and %d times, not once", lo, hi))
	}
	// different row counts are rejected
	if !sizesCompared(p, f, lp) {
		bad = true
		c.Bad(key+"#row-counts", p.Pos(f.Pos()), "rows are counted although the reference data and the predictions may have different numbers of rows")
	}
	if !bad {
		c.Ok(key, p.Pos(f.Pos()), fmt.Sprintf("%d counting statements: one per row, at (reference class, predicted class) of that row, row counts compared first", len(ups)))
	}
}

// rowCount: the value is the number of rows of a grid.
func rowCountOf(p *Prog, v ssa.Value) (ssa.Value, bool) {
	for _, x := range p.Trace(v, TraceOpt{NoParams: true, NoCalls: true}) {
		e, ok := x.(*ssa.Extract)
		if !ok || e.Index != 1 {
			return nil, false
		}
		call, ok := e.Tuple.(*ssa.Call)
		if !ok || !methodNamed(call, "Size") {
			return nil, false
		}
		return recvOf(call), true
	}
	return nil, false
}

// fullRowLoop: the loop runs from row zero to the row count in steps of one; sure tells whether the bounds could be read.
func fullRowLoop(p *Prog, l *CountLoop) (ok, sure bool) {
	init, isK := constInt(l.Init)
	if l.Range {
		return true, true
	}
	if !isK {
		return false, false
	}
	_, isRows := rowCountOf(p, l.Bound)
	if l.Step == 1 && (l.Op == token.LSS || l.Op == token.NEQ) {
		if isRows {
			return init == 0, true
		}
		if b, ok := l.Bound.(*ssa.BinOp); ok {
			if _, r := rowCountOf(p, b.X); r {
				return false, true
			}
		}
		return init == 0, init != 0
	}
	if l.Step > 1 {
		return false, true
	}
	return false, false
}

// sizesCompared: the loop is only reached when the row counts of the two grids were compared equal.
func sizesCompared(p *Prog, f *ssa.Function, l *CountLoop) bool {
	eq := func(g Guard) bool {
		b, ok := g.Cond.(*ssa.BinOp)
		if !ok {
			return false
		}
		op := b.Op
		if !g.Pol {
			op = negate(op)
		}
		if op != token.EQL {
			return false
		}
		x, okx := rowCountOf(p, b.X)
		y, oky := rowCountOf(p, b.Y)
		return okx && oky && x != y
	}
	for _, g := range guardsOf(l.Header) {
		if eq(g) {
			return true
		}
		// the comparison stands in a helper whose error is tested here
		for v := range p.backSlice(g.Cond) {
			call, ok := v.(*ssa.Call)
			if !ok {
				continue
			}
			h := call.Call.StaticCallee()
			if h == nil || h.Pkg != f.Pkg {
				continue
			}
			for _, i := range instrs(h) {
				b, ok := i.(*ssa.BinOp)
				if !ok || b.Op != token.EQL && b.Op != token.NEQ {
					continue
				}
				_, okx := rowCountOf(p, b.X)
				_, oky := rowCountOf(p, b.Y)
				if okx && oky {
					return true
				}
				if len(p.Trace(b.X, TraceOpt{})) > 0 && isIntType(b.X.Type()) {
					px, _ := b.X.(*ssa.Parameter)
					py, _ := b.Y.(*ssa.Parameter)
					if px != nil && py != nil {
						return true
					}
				}
			}
		}
	}
	// the loop itself stands in a helper: look where that is called
	if l.Header.Parent() != f {
		for _, s := range p.callers[l.Header.Parent()] {
			for _, g := range guardsOf(s.Block()) {
				if eq(g) {
					return true
				}
			}
		}
	}
	return false
}

// summaryTable: each column of the summary shows the measure its heading names.
func summaryTable(c *Ctx, f *ssa.Function) {
	p := c.P
	var heads []string
	for g := range p.Reachable(f) {
		if g.Pkg != f.Pkg {
			continue
		}
		for _, call := range calls(g) {
			for _, a := range varargs(call) {
				if s, ok := constStr(a); ok && strings.Contains(s, "\t") && strings.Contains(strings.ToLower(s), "precision") {
					heads = strings.Split(strings.TrimSpace(s), "\t")
				}
			}
		}
	}
	if len(heads) < 3 {
		c.Count("undecided formulas", 1)
		return
	}
	want := map[string]string{"true positives": "GetTruePositives", "false positives": "GetFalsePositives", "true negatives": "GetTrueNegatives", "false negatives": "GetFalseNegatives", "precision": "GetPrecision", "recall": "GetRecall", "f1 score": "GetF1Score"}
	for g := range p.Reachable(f) {
		if g.Pkg != f.Pkg {
			continue
		}
		for _, call := range calls(g) {
			as := varargs(call)
			if len(as) != len(heads) {
				continue
			}
			for i, a := range as {
				w := want[strings.ToLower(strings.TrimSpace(heads[i]))]
				if w == "" {
					continue
				}
				cl, ok := a.(*ssa.Call)
				if !ok {
					continue
				}
				o := calleeObj(cl)
				if o == nil || !strings.HasPrefix(o.Name(), "Get") {
					continue
				}
				c.Check(o.Name() == w, "summary:"+p.Name(f)+"#"+strings.TrimSpace(heads[i]), p.InstrPos(call), "the column shows "+w, "the column headed "+heads[i]+" shows "+o.Name())
			}
		}
	}
}

// varargs: the values passed in a call's variadic arguments.
func varargs(call ssa.CallInstruction) []ssa.Value {
	com := call.Common()
	if !com.Signature().Variadic() || len(com.Args) == 0 {
		return nil
	}
	sl, ok := com.Args[len(com.Args)-1].(*ssa.Slice)
	if !ok {
		return nil
	}
	a, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	at := map[int64]ssa.Value{}
	for _, r := range *a.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := constInt(ia.Index)
		if !ok {
			return nil
		}
		for _, q := range *ia.Referrers() {
			if st, ok := q.(*ssa.Store); ok {
				v := st.Val
				if mi, ok := v.(*ssa.MakeInterface); ok {
					v = mi.X
				}
				at[k] = v
			}
		}
	}
	var out []ssa.Value
	for i := int64(0); i < int64(len(at)); i++ {
		out = append(out, at[i])
	}
	return out
}

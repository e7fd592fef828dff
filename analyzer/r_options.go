package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C26",
		Rule: "An option is a string setting (a field, or a parameter of an exported function) that is compared with at least two constant names. In every function that tests an option, no success return is reachable on a path where all its tests fail (helpers that return a truth value are followed; for an unexported helper, its call must then be unreachable); the branch for a name calls the implementation called after that name and not one called after another; the solver chosen by the names of loss, penalty and form is the one liblinear defines for them; an optimised search is entered only under the options it implements; and votes are weighted exactly when weighting is asked for.",
		Run:  runC26})
}

type optTest struct {
	cmp  *ssa.BinOp
	name string
	key  string
}

type options struct {
	p     *Prog
	tests map[string][]optTest // by option
	by    map[*ssa.BinOp]string
}

// optionKeys: the settings a string comes from.
func (x *options) optionKeys(v ssa.Value) []string {
	p := x.p
	var out []string
	for _, l := range p.Trace(v, TraceOpt{ExternArgs: true}) {
		if fv, fa := fieldLoad(l); fv != nil {
			n := namedOf(deref(fa.X.Type()))
			if n == nil || n.Obj().Pkg() == nil {
				return nil
			}
			out = append(out, typeName(n)+"."+fv.Name())
			continue
		}
		if fld, ok := l.(*ssa.Field); ok {
			n := namedOf(fld.X.Type())
			if n == nil {
				return nil
			}
			out = append(out, typeName(n)+"."+n.Underlying().(*types.Struct).Field(fld.Field).Name())
			continue
		}
		if q, ok := l.(*ssa.Parameter); ok && isExported(q.Parent()) {
			out = append(out, p.Name(q.Parent())+"("+q.Name()+")")
			continue
		}
		if _, ok := l.(*ssa.Const); ok {
			continue
		}
		return nil
	}
	return out
}

func (x *options) collect() {
	p := x.p
	x.tests, x.by = map[string][]optTest{}, map[*ssa.BinOp]string{}
	for _, f := range p.Funcs {
		if !p.IsLibFunc(owner(f)) {
			continue
		}
		for _, i := range instrs(f) {
			b, ok := i.(*ssa.BinOp)
			if !ok || b.Op != token.EQL && b.Op != token.NEQ {
				continue
			}
			v, k := b.X, b.Y
			if _, ok := constStr(v); ok {
				v, k = k, v
			}
			s, ok := constStr(k)
			if !ok || s == "" {
				continue
			}
			if _, ok := constStr(v); ok {
				continue
			}
			keys := x.optionKeys(v)
			if len(keys) == 0 {
				continue
			}
			key := strings.Join(keys, ",")
			x.tests[key] = append(x.tests[key], optTest{b, s, key})
			x.by[b] = key
		}
	}
	for k, ts := range x.tests {
		names := map[string]bool{}
		for _, t := range ts {
			names[t.name] = true
		}
		if len(names) < 2 {
			for _, t := range ts {
				delete(x.by, t.cmp)
			}
			delete(x.tests, k)
		}
	}
}

// decide evaluates conditions when the option has none of the names it is compared with; used is set once it mattered.
func (x *options) decide(key string, assign map[string]string, depth int) func(v ssa.Value, pp *pathPoint) (bool, bool) {
	return func(v ssa.Value, pp *pathPoint) (bool, bool) {
		if b, ok := v.(*ssa.BinOp); ok {
			if k, ok := x.by[b]; ok && (k == key) {
				pp.flags["used"] = true
				return b.Op == token.NEQ, true
			}
			return false, false
		}
		if cl, ok := v.(*ssa.Call); ok && depth < 3 {
			if g := cl.Call.StaticCallee(); g != nil && x.p.IsLibFunc(g) {
				res := g.Signature.Results()
				if res.Len() == 1 && basicInfo(res.At(0).Type())&types.IsBoolean != 0 {
					val, known := x.truth(g, key, depth+1)
					if known {
						pp.flags["used"] = true
					}
					return val, known
				}
			}
		}
		return false, false
	}
}

// truth: what a helper returns when the option has none of its names.
func (x *options) truth(g *ssa.Function, key string, depth int) (bool, bool) {
	touches := false
	for _, i := range instrs(g) {
		if b, ok := i.(*ssa.BinOp); ok && x.by[b] == key {
			touches = true
		}
	}
	if !touches || len(g.Blocks) == 0 {
		return false, false
	}
	known, val, first := true, false, true
	e := &Explorer{P: x.p}
	e.Decide = x.decide(key, nil, depth)
	e.Visit = func(i ssa.Instruction, pp *pathPoint) bool {
		if r, ok := i.(*ssa.Return); ok {
			v, ok := e.eval(r.Results[0], pp, 0)
			if !ok || !first && v != val {
				known = false
			}
			val, first = v, false
		}
		return false
	}
	e.RunEntry(g)
	return val, known && !first
}

// refused: no success return is reached in f once the option was tested and had none of the names. It returns the
// offending return, if any.
func (x *options) refused(f *ssa.Function, key string) *ssa.Return {
	var bad *ssa.Return
	e := &Explorer{P: x.p}
	e.Decide = x.decide(key, nil, 0)
	e.Visit = func(i ssa.Instruction, pp *pathPoint) bool {
		r, ok := i.(*ssa.Return)
		if !ok || !pp.flags["used"] {
			return false
		}
		for _, v := range r.Results {
			if isErrorType(v.Type()) && !isNilConst(pp.Resolve(v)) && x.p.mayBeError(pp.Resolve(v)) {
				return false
			}
		}
		if bad == nil {
			bad = r
		}
		return false
	}
	e.RunEntry(f)
	return bad
}

// callReached: a call of g is reached in f on a path where the option has none of its names.
func (x *options) callReached(f, g *ssa.Function, key string) bool {
	hit := false
	e := &Explorer{P: x.p}
	e.Decide = x.decide(key, nil, 0)
	e.Visit = func(i ssa.Instruction, pp *pathPoint) bool {
		if c, ok := i.(ssa.CallInstruction); ok && c.Common().StaticCallee() == g {
			hit = true
		}
		if mk, ok := i.(*ssa.MakeClosure); ok && mk.Fn == ssa.Value(g) {
			hit = true
		}
		return false
	}
	e.RunEntry(f)
	return hit
}

func (x *options) unrefused(f *ssa.Function, key string, depth int) (string, bool) {
	bad := x.refused(f, key)
	if bad == nil {
		return "", false
	}
	pos := x.p.InstrPos(bad)
	if isExported(f) && f.Parent() == nil || depth > 3 {
		return pos, true
	}
	// an unexported helper or a callback: whoever gets there must have made sure before
	if f.Parent() != nil {
		if x.callReached(f.Parent(), f, key) {
			return pos, true
		}
		return "", false
	}
	n := 0
	for _, ci := range x.p.callers[f] {
		g := ci.Parent()
		if !x.p.IsLibFunc(owner(g)) {
			continue
		}
		n++
		if x.callReached(g, f, key) {
			// is the call inside a place that is itself not reached?
			if g.Parent() != nil && !x.callReached(g.Parent(), g, key) {
				continue
			}
			return pos, true
		}
	}
	return pos, n == 0
}

func runC26(c *Ctx) {
	p := c.P
	x := &options{p: p}
	x.collect()
	keys := sortedKeys(x.tests)
	c.Floor("options", len(keys), 4)
	for _, key := range keys {
		fs := map[*ssa.Function]bool{}
		for _, t := range x.tests[key] {
			fs[t.cmp.Parent()] = true
		}
		for _, f := range sortedFuncs(p, fs) {
			res := f.Signature.Results()
			if res.Len() == 1 && basicInfo(res.At(0).Type())&types.IsBoolean != 0 {
				continue
			}
			// a single test beside others elsewhere only picks out one case
			names := map[string]bool{}
			for _, t := range x.tests[key] {
				if t.cmp.Parent() == f {
					names[t.name] = true
				}
			}
			if len(names) < 2 {
				continue
			}
			c.Count("option tests", 1)
			pos, bad := x.unrefused(f, key, 0)
			if pos == "" {
				pos = p.Pos(f.Pos())
			}
			c.Check(!bad, "refused:"+key+":"+p.Name(owner(f)), pos, "any other name is refused", "a value of the option "+key+" that is none of the known names is not refused")
			x.named(c, f, key)
		}
		// options that are never refused anywhere
		ok := false
		for _, f := range sortedFuncs(p, fs) {
			names := map[string]bool{}
			for _, t := range x.tests[key] {
				if t.cmp.Parent() == f {
					names[t.name] = true
				}
			}
			if len(names) >= 2 {
				ok = true
			}
		}
		if !ok {
			var first *ssa.Function
			for _, f := range sortedFuncs(p, fs) {
				first = f
			}
			// the names are told apart in different functions: somewhere the rest must be refused
			anyRefuses := false
			for _, f := range sortedFuncs(p, fs) {
				if x.refused(f, key) == nil {
					anyRefuses = true
				}
			}
			c.Check(anyRefuses, "refused:"+key, p.Pos(first.Pos()), "any other name is refused", "a value of the option "+key+" that is none of the known names is not refused")
		}
	}
	x.solver(c)
	x.optimised(c)
}

// named: under the test for one name, nothing called after another of the names is used.
func (x *options) named(c *Ctx, f *ssa.Function, key string) {
	p := x.p
	var names []string
	seen := map[string]bool{}
	for _, t := range x.tests[key] {
		if !seen[t.name] && len(t.name) > 2 {
			seen[t.name] = true
			names = append(names, strings.ToLower(t.name))
		}
	}
	if len(names) < 2 {
		return
	}
	for _, b := range f.Blocks {
		on := ""
		for _, g := range guardsOf(b) {
			bo, ok := g.Cond.(*ssa.BinOp)
			if !ok || x.by[bo] != key || (bo.Op == token.EQL) != g.Pol {
				continue
			}
			for _, t := range x.tests[key] {
				if t.cmp == bo {
					on = strings.ToLower(t.name)
				}
			}
		}
		if on == "" {
			continue
		}
		for _, i := range b.Instrs {
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			g := ci.Common().StaticCallee()
			if g == nil || !p.IsLibFunc(g) {
				continue
			}
			callee := strings.ToLower(g.Name())
			if callee == "" {
				continue
			}
			own, other := strings.Contains(callee, on), ""
			for _, n := range names {
				if n != on && strings.Contains(callee, n) && !strings.Contains(on, n) {
					other = n
				}
			}
			if !own && other == "" {
				continue
			}
			c.Count("named implementations", 1)
			c.Check(own || other == "", "named:"+key+":"+p.Name(owner(f))+"#"+on, p.InstrPos(i), on+" uses "+g.Name(), "the option value "+on+" uses "+g.Name())
		}
	}
}

// ---- liblinear's solvers

type solverCase struct {
	loss, penalty string
	dual          bool
	want          int64 // -1: refused
}

func (x *options) solver(c *Ctx) {
	p := x.p
	// numbers liblinear gives the kinds of solver (linear.h)
	f := p.Func("(*linear_models.LinearSVCParams).SetKindFromStrings")
	if f != nil && len(f.Params) == 3 {
		var cases []solverCase
		for _, d := range []bool{true, false} {
			l2l2 := int64(2)
			if d {
				l2l2 = 1
			}
			cases = append(cases,
				solverCase{"l1", "l2", d, 3}, solverCase{"l2", "l2", d, l2l2}, solverCase{"l2", "l1", d, 5},
				solverCase{"l1", "l1", d, -1}, solverCase{"other", "l2", d, -1}, solverCase{"l2", "other", d, -1}, solverCase{"l1", "other", d, -1})
		}
		for _, k := range cases {
			x.runSolver(c, f, map[ssa.Value]string{f.Params[1]: k.loss, f.Params[2]: k.penalty}, k.dual, k.want, fmt.Sprintf("loss %s, penalty %s, dual %v", k.loss, k.penalty, k.dual), "SolverType")
		}
	}
	if g := p.Func("linear_models.NewLogisticRegression"); g != nil && len(g.Params) == 3 {
		for _, k := range []struct {
			pen  string
			want int64
		}{{"l1", 6}, {"l2", 0}, {"other", -1}} {
			x.runSolver(c, g, map[ssa.Value]string{g.Params[0]: k.pen}, false, k.want, "penalty "+k.pen, "")
		}
	}
}

// runSolver follows the one path taken for given names; the number of the solver is what is stored in the field (or
// passed to the function that makes the parameters).
func (x *options) runSolver(c *Ctx, f *ssa.Function, names map[ssa.Value]string, dual bool, want int64, what, field string) {
	p := x.p
	key := "solver:" + p.Name(f) + "#" + what
	type outcome struct {
		kind int64
		err  bool
	}
	outs := map[outcome]string{}
	undecided := false
	e := &Explorer{P: p}
	str := func(v ssa.Value, pp *pathPoint) (string, bool) {
		v = pp.Resolve(v)
		if s, ok := constStr(v); ok {
			return s, true
		}
		s, ok := names[v]
		return s, ok
	}
	e.Decide = func(v ssa.Value, pp *pathPoint) (bool, bool) {
		if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
			s, ok1 := str(b.X, pp)
			t, ok2 := str(b.Y, pp)
			if ok1 && ok2 {
				return (s == t) == (b.Op == token.EQL), true
			}
			if fv, _ := fieldLoad(b.X); fv != nil && fv.Name() == field {
				if k, ok := constInt(b.Y); ok {
					for q := int64(0); q < 10; q++ {
						if pp.flags[fmt.Sprintf("kind%d", q)] {
							return (q == k) == (b.Op == token.EQL), true
						}
					}
				}
			}
		}
		if fv, _ := fieldLoad(v); fv != nil && fv.Name() == "Dual" {
			if pp.flags["dualset"] {
				return pp.flags["dualval"], true
			}
			return dual, true
		}
		return false, false
	}
	setKind := func(pp *pathPoint, v ssa.Value) {
		for q := int64(0); q < 10; q++ {
			delete(pp.flags, fmt.Sprintf("kind%d", q))
		}
		if k, ok := constInt(pp.Resolve(v)); ok && k >= 0 && k < 10 {
			pp.flags[fmt.Sprintf("kind%d", k)] = true
		} else {
			pp.flags["unknown"] = true
		}
	}
	e.Visit = func(i ssa.Instruction, pp *pathPoint) bool {
		switch t := i.(type) {
		case *ssa.Store:
			if fa, ok := t.Addr.(*ssa.FieldAddr); ok {
				switch n := fieldVar(fa.X.Type(), fa.Field).Name(); {
				case field != "" && n == field:
					setKind(pp, t.Val)
				case n == "Dual":
					if b, ok := constBool(t.Val); ok {
						pp.flags["dualset"], pp.flags["dualval"] = true, b
					}
				}
			}
		case *ssa.Call:
			g := t.Call.StaticCallee()
			if g != nil && field == "" && g.Name() == "NewParameter" && len(t.Call.Args) > 0 {
				setKind(pp, t.Call.Args[0])
			} else if g != nil && p.IsLibFunc(g) && g.Pkg == f.Pkg && field != "" {
				pp.flags["unknown"] = true
			}
		case *ssa.Return:
			if pp.flags["unknown"] {
				undecided = true
				return false
			}
			o := outcome{kind: -1}
			for q := int64(0); q < 10; q++ {
				if pp.flags[fmt.Sprintf("kind%d", q)] {
					o.kind = q
				}
			}
			last := pp.Resolve(t.Results[len(t.Results)-1])
			o.err = !isNilConst(last) && p.mayBeError(last)
			outs[o] = p.InstrPos(t)
		}
		return false
	}
	e.RunEntry(f)
	if undecided || len(outs) == 0 {
		c.Count("undecided solver cases", 1)
		return
	}
	c.Count("solver cases", 1)
	for o, pos := range outs {
		if want < 0 {
			c.Check(o.err, key, pos, "refused", what+" is not a known combination but is accepted")
			continue
		}
		if o.err && strings.Contains(what, "dual") {
			// told that the form was changed: the kind must still be right
			c.Check(o.kind == want, key, pos, fmt.Sprintf("solver %d, with a notice", want), fmt.Sprintf("%s selects solver %d, not %d", what, o.kind, want))
			continue
		}
		c.Check(!o.err && o.kind == want, key, pos, fmt.Sprintf("solver %d", want), fmt.Sprintf("%s selects solver %d, not %d", what, o.kind, want))
	}
}

// ---- optimised search and weighting

// settingGuards: the settings known at a block, here and in the functions around it.
func (x *options) settingGuards(b *ssa.BasicBlock, depth int) map[string]bool {
	out := map[string]bool{}
	for _, g := range guardsOf(b) {
		cond, pol := g.Cond, g.Pol
		if fv, _ := fieldLoad(cond); fv != nil {
			out[fmt.Sprintf("%s=%v", fv.Name(), pol)] = true
		}
		if bo, ok := cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
			v, k := bo.X, bo.Y
			if fv, _ := fieldLoad(k); fv != nil {
				v, k = k, v
			}
			fv, _ := fieldLoad(v)
			if fv == nil {
				continue
			}
			if s, ok := constStr(k); ok && (bo.Op == token.EQL) == pol {
				out[fv.Name()+"="+s] = true
			}
			if t, ok := constBool(k); ok {
				out[fmt.Sprintf("%s=%v", fv.Name(), (bo.Op == token.EQL) == (t == pol))] = true
			}
		}
		if cl, ok := cond.(*ssa.Call); ok && pol && depth < 2 {
			// a helper that is true only under some settings
			h := cl.Call.StaticCallee()
			if h == nil || !x.p.IsLibFunc(h) {
				continue
			}
			var common map[string]bool
			for _, r := range returns(h) {
				if len(r.Results) != 1 {
					continue
				}
				if t, ok := constBool(r.Results[0]); ok && !t {
					continue
				}
				for _, alt := range x.truthPaths(r) {
					if common == nil {
						common = alt
						continue
					}
					for k := range common {
						if !alt[k] {
							delete(common, k)
						}
					}
				}
			}
			for k := range common {
				out[k] = true
			}
		}
	}
	return out
}

// truthPaths: what is known when a return value is true.
func (x *options) truthPaths(r *ssa.Return) []map[string]bool {
	v := r.Results[0]
	known := func(b *ssa.BasicBlock, v ssa.Value) map[string]bool {
		m := x.settingGuards(b, 2)
		if fv, _ := fieldLoad(v); fv != nil {
			m[fv.Name()+"=true"] = true
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
			if fv, _ := fieldLoad(u.X); fv != nil {
				m[fv.Name()+"=false"] = true
			}
		}
		if bo, ok := v.(*ssa.BinOp); ok && bo.Op == token.EQL {
			if fv, _ := fieldLoad(bo.X); fv != nil {
				if s, ok := constStr(bo.Y); ok {
					m[fv.Name()+"="+s] = true
				}
			}
		}
		return m
	}
	if ph, ok := v.(*ssa.Phi); ok {
		var out []map[string]bool
		for k, e := range ph.Edges {
			if t, ok := constBool(e); ok && !t {
				continue
			}
			out = append(out, known(ph.Block().Preds[k], e))
		}
		return out
	}
	return []map[string]bool{known(r.Block(), v)}
}

// heldAt: the settings known at a block, from the tests around it and around
// every call that leads to it.
func (x *options) heldAt(b *ssa.BasicBlock, seen map[*ssa.Function]bool) map[string]bool {
	out := x.settingGuards(b, 0)
	f := b.Parent()
	if seen[f] || f.Name() == "Predict" && f.Parent() == nil {
		return out
	}
	seen[f] = true
	defer delete(seen, f)
	var common map[string]bool
	meet := func(m map[string]bool) {
		if common == nil {
			common = m
			return
		}
		for k := range common {
			if !m[k] {
				delete(common, k)
			}
		}
	}
	if par := f.Parent(); par != nil {
		for _, i := range instrs(par) {
			if mc, ok := i.(*ssa.MakeClosure); ok && mc.Fn == f {
				meet(x.heldAt(mc.Block(), seen))
			}
		}
	} else {
		for _, ci := range x.p.callers[f] {
			meet(x.heldAt(ci.Block(), seen))
		}
	}
	for k := range common {
		out[k] = true
	}
	return out
}

func (x *options) optimised(c *Ctx) {
	p := x.p
	f := p.Func("(*knn.KNNClassifier).Predict")
	if f == nil {
		return
	}
	nW := 0
	for _, g := range sortedFuncs(p, p.staticReach(f)) {
		if !strings.HasPrefix(p.Name(owner(g)), "(*knn.") {
			continue
		}
		for _, ci := range calls(g) {
			h := ci.Common().StaticCallee()
			if h == nil || !p.IsLibFunc(h) || h.Pkg != owner(g).Pkg {
				continue
			}
			pos := p.InstrPos(ci.(ssa.Instruction))
			// a search on dense storage only
			dense := false
			for _, a := range ci.Common().Args {
				if n := namedOf(deref(a.Type())); n != nil && n.Obj().Name() == "DenseInstances" {
					dense = true
				}
			}
			res := h.Signature.Results()
			if dense && res.Len() > 0 && !types.Identical(res.At(0).Type(), types.Typ[types.Bool]) && owner(g) == f {
				m := x.settingGuards(ci.Block(), 0)
				c.Count("optimised searches", 1)
				c.Check(m["Weighted=false"], "optimised:weighted", pos, "only without weighting", "the optimised search, which does not weight votes, is used although weighting may be asked for")
				c.Check(m["DistanceFunc=euclidean"], "optimised:distance", pos, "only for the Euclidean distance", "the optimised Euclidean search is used although another distance may be asked for")
				c.Check(m["AllowOptimisations=true"], "optimised:allowed", pos, "only when allowed", "the optimised search is used although optimisations may be switched off")
			}
			// votes
			weighted, plain := false, false
			for k := 0; k < h.Signature.Params().Len(); k++ {
				if mt, ok := h.Signature.Params().At(k).Type().Underlying().(*types.Map); ok && basicInfo(mt.Key())&types.IsString != 0 {
					if basicInfo(mt.Elem())&types.IsFloat != 0 {
						weighted = true
					} else if basicInfo(mt.Elem())&types.IsInteger != 0 {
						plain = true
					}
				}
			}
			if res.Len() != 1 || basicInfo(res.At(0).Type())&types.IsString == 0 || weighted == plain {
				continue
			}
			nW++
			m := x.heldAt(ci.Block(), map[*ssa.Function]bool{})
			if weighted {
				c.Check(m["Weighted=true"], "votes:weighted#"+fmt.Sprint(nW), pos, "only when weighting is asked for", "votes are weighted although that was not asked for")
			} else {
				c.Check(m["Weighted=false"], "votes:plain#"+fmt.Sprint(nW), pos, "only when weighting is not asked for", "votes are not weighted although that may be asked for")
			}
		}
	}
	c.Count("votes", nW)
}

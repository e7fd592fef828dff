package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C20",
		Rule: "For every model type, what Fit (with the functions it reaches) and its Predict operations do with the features of a row is compared: (1) the attribute selections handed to ResolveAttributes are of the same kind (all non-class attributes, the float ones among them, or the list that Fit stored), and data sets read side by side use the same list; (2) every branch that routes a feature value against a threshold (string keys \"0\"/\"1\", Left/Right fields, or halves returned by a partition) is normalised to (is a value equal to the threshold low?, which outcome is low?) and all of them agree for the model; (3) the tests by which a feature counts as present (comparisons of a feature with a constant) are the same, and sparse encodings number feature i with i+1 on both sides; (4) learned lists that belong together are read, in fitting and in prediction, at one and the same index; (5) the linear model adds its intercept once and multiplies feature j with coefficient j, fitted from column j+1 beside a constant column.",
		Run:  runC20})
}

type routing struct {
	f      *ssa.Function
	pos    string
	lowEq  bool   // a value equal to the threshold goes to the low side
	low    string // the outcome of the low side
	labels bool
}

func (r routing) String() string {
	op := "<"
	if r.lowEq {
		op = "<="
	}
	return fmt.Sprintf("value %s threshold leads to %s", op, r.low)
}

type twins struct {
	p   *Prog
	sel map[ssa.Value]string
}

func runC20(c *Ctx) {
	p := c.P
	x := &twins{p: p, sel: map[ssa.Value]string{}}
	type model struct {
		t            *types.Named
		fit          *ssa.Function
		preds        []*ssa.Function
		inFit, inPre map[*ssa.Function]bool
	}
	var models []*model
	for _, t := range p.NamedTypes() {
		fit := p.Method(t, "Fit")
		if fit == nil || !p.IsLibFunc(fit) || recvNamed(fit) != t {
			continue
		}
		m := &model{t: t, fit: fit}
		for k, n := 0, types.NewMethodSet(types.NewPointer(t)); k < n.Len(); k++ {
			name := n.At(k).Obj().Name()
			if !strings.HasPrefix(name, "Predict") && !strings.HasPrefix(name, "Evaluate") {
				continue
			}
			if g := p.Method(t, name); g != nil && p.IsLibFunc(g) && recvNamed(g) == t {
				m.preds = append(m.preds, g)
			}
		}
		if len(m.preds) == 0 {
			continue
		}
		m.inFit, m.inPre = p.staticReach(fit), p.staticReach(m.preds...)
		models = append(models, m)
	}
	c.Floor("models", len(models), 10)
	for _, m := range models {
		tn := p.Name(m.fit)
		// (1) selections
		a, b := x.selections(m.inFit), x.selections(m.inPre)
		if len(a) > 0 && len(b) > 0 && !strings.Contains(strings.Join(append(sortedKeys(a), sortedKeys(b)...), " "), "?") {
			ka, kb := strings.Join(sortedKeys(a), "; "), strings.Join(sortedKeys(b), "; ")
			c.Count("selections compared", 1)
			at := ""
			for _, k := range sortedKeys(b) {
				if _, ok := a[k]; !ok {
					at = b[k]
				}
			}
			if at == "" {
				at = p.Pos(m.fit.Pos())
			}
			c.Check(ka == kb, "selection:"+tn, at, "fitting and prediction read "+ka, "fitting reads "+ka+", prediction reads "+kb)
		} else {
			c.Count("selections not compared", 1)
		}
		// (2) routing by node fields
		fr, pr := x.routings(m.inFit), x.routings(m.inPre)
		var ref *routing
		for k := range fr {
			r := fr[k]
			if r.labels {
				continue
			}
			if ref == nil {
				ref = &fr[k]
				continue
			}
			c.Check(r.low == ref.low && r.lowEq == ref.lowEq, "partition:"+tn+":"+p.Name(r.f), r.pos, r.String(), "in one place of fitting "+ref.String()+", here "+r.String())
		}
		for _, r := range pr {
			if r.labels || m.inFit[r.f] {
				continue
			}
			if ref == nil {
				c.Count("routing without partition", 1)
				continue
			}
			c.Count("routings compared", 1)
			c.Check(r.low == ref.low && r.lowEq == ref.lowEq, "routing:"+tn+":"+p.Name(owner(r.f)), r.pos, "as in fitting, "+r.String(), "in fitting "+ref.String()+", in prediction "+r.String())
		}
		// (3) presence tests
		if len(m.inFit) > 0 {
			ta, tb := x.presence(m.inFit), x.presence(m.inPre)
			if len(ta) > 0 && len(tb) > 0 {
				ka, kb := strings.Join(sortedKeys(ta), "; "), strings.Join(sortedKeys(tb), "; ")
				c.Count("presence tests compared", 1)
				at := p.Pos(m.fit.Pos())
				for _, k := range sortedKeys(tb) {
					if _, ok := ta[k]; !ok {
						at = tb[k]
					}
				}
				c.Check(ka == kb, "presence:"+tn, at, "a feature counts when "+ka, "fitting counts a feature when "+ka+", prediction when "+kb)
			}
		}
		// (4) lists that belong together
		x.parallel(c, m.t, m.inFit, tn)
		x.parallel(c, m.t, m.inPre, p.Name(m.preds[0]))
		for _, q := range m.preds {
			x.linear(c, q, m.fit)
		}
	}
	// (2) routing by string keys
	all := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if p.IsLibFunc(f) {
			all[f] = true
		}
	}
	var rs []routing
	for _, r := range x.routings(all) {
		if r.labels {
			rs = append(rs, r)
		}
	}
	var ref *routing
	for k := range rs {
		if o := owner(rs[k].f).Object(); ref == nil || o != nil && o.Name() == "DecomposeOnNumericAttributeThreshold" {
			ref = &rs[k]
		}
	}
	c.Floor("keyed routings", len(rs), 3)
	for _, r := range rs {
		c.Check(r.low == ref.low && r.lowEq == ref.lowEq, "keyed:"+p.Name(owner(r.f)), r.pos, r.String(), "when data are divided "+ref.String()+", here "+r.String())
	}
	x.sparse(c)
	x.together(c)
}

// ---- (1) selections

// selection describes which attributes a list holds.
func (x *twins) selection(v ssa.Value, depth int) string {
	if s, ok := x.sel[v]; ok {
		return s
	}
	if depth > 8 {
		return "?"
	}
	x.sel[v] = "" // in progress: contributes nothing
	set := map[string]bool{}
	p := x.p
	for _, l := range p.Trace(v, TraceOpt{Stop: func(v ssa.Value) bool { _, ok := v.(*ssa.Call); return ok }}) {
		switch t := l.(type) {
		case *ssa.Call:
			if b, ok := t.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				if s := x.selection(t.Call.Args[0], depth+1); s != "" && s != "empty" {
					set[s] = true
				}
				set[x.appended(t, depth)] = true
				continue
			}
			o := calleeObj(t)
			if o == nil {
				set["?"] = true
				continue
			}
			switch o.Name() {
			case "NonClassFloatAttributes":
				set["float non-class attributes"] = true
			case "NonClassAttributes":
				set["non-class attributes"] = true
			case "AllClassAttributes":
				set["class"] = true
			case "AllAttributes":
				set["all"] = true
			case "CheckCompatible":
				set["shared attributes"] = true
			case "AttributeDifference", "AttributeDifferenceReferences":
				a, b := x.selection(t.Call.Args[0], depth+1), x.selection(t.Call.Args[1], depth+1)
				if a == "all" && b == "class" {
					set["non-class attributes"] = true
				} else {
					set["?"] = true
				}
			default:
				g := t.Call.StaticCallee()
				if g == nil || !p.IsLibFunc(g) {
					set["?"] = true
					continue
				}
				for _, r := range returns(g) {
					if len(r.Results) > 0 && types.Identical(r.Results[0].Type(), v.Type()) {
						set[x.selection(r.Results[0], depth+1)] = true
					}
				}
			}
		case *ssa.MakeSlice, *ssa.Alloc, *ssa.Const:
		case *ssa.Slice:
			if t.Low == nil && t.High == nil || isZeroLen(t) {
				if a, ok := t.X.(*ssa.Alloc); ok {
					if at, ok := deref(a.Type()).Underlying().(*types.Array); ok {
						if at.Len() != 0 {
							set["?"] = true
						}
						continue
					}
				}
				set[x.selection(t.X, depth+1)] = true
			} else {
				set["?"] = true
			}
		default:
			if fv, _ := fieldLoad(l); fv != nil {
				n := 0
				for _, st := range p.fieldStores[fv] {
					if isNilConst(st.Val) || st.Parent() == nil || !p.IsLibFunc(owner(st.Parent())) {
						continue
					}
					if o := owner(st.Parent()); o.Name() == "LoadWithPrefix" || o.Name() == "Load" {
						continue
					}
					set[x.selection(st.Val, depth+1)] = true
					n++
				}
				if n == 0 {
					set["?"] = true
				}
				continue
			}
			set["?"] = true
		}
	}
	delete(set, "")
	delete(set, "empty")
	s := strings.Join(sortedKeys(set), " + ")
	if len(set) > 1 && set["?"] {
		s = "?"
	}
	if len(set) == 0 {
		s = "empty"
	}
	delete(x.sel, v)
	if s != "" {
		x.sel[v] = s
	}
	return s
}

func isZeroLen(s *ssa.Slice) bool {
	k, ok := constInt(s.High)
	return s.High != nil && ok && k == 0
}

// appended: the elements of one list, or those of a given kind.
func (x *twins) appended(c *ssa.Call, depth int) string {
	p := x.p
	els := varargs(c)
	if len(els) != 1 {
		return x.selection(c.Call.Args[1], depth+1)
	}
	el := els[0]
	asserted := false
	var root ssa.Value
	for _, l := range p.Trace(el, TraceOpt{NoParams: true, NoCalls: true, Stop: func(v ssa.Value) bool {
		if t, ok := v.(*ssa.TypeAssert); ok {
			asserted = asserted || isFloatAttr(t.AssertedType)
		}
		if e, ok := v.(*ssa.Extract); ok {
			if t, ok := e.Tuple.(*ssa.TypeAssert); ok {
				asserted = asserted || isFloatAttr(t.AssertedType)
			}
		}
		_, ok := v.(*ssa.UnOp)
		return ok && fmt.Sprintf("%T", v.(*ssa.UnOp).X) == "*ssa.IndexAddr"
	}}) {
		if e, ok := l.(*ssa.Extract); ok {
			if t, ok := e.Tuple.(*ssa.TypeAssert); ok {
				l = t.X
			}
		}
		if u, ok := l.(*ssa.UnOp); ok {
			if ia, ok := u.X.(*ssa.IndexAddr); ok {
				if root != nil && root != ia.X {
					return "?"
				}
				root = ia.X
				continue
			}
		}
		return "?"
	}
	if root == nil {
		return "?"
	}
	s := x.selection(root, depth+1)
	for _, g := range guardsOf(c.Block()) {
		if e, ok := g.Cond.(*ssa.Extract); ok {
			if t, ok := e.Tuple.(*ssa.TypeAssert); ok && isFloatAttr(t.AssertedType) {
				if !g.Pol {
					return "?"
				}
				asserted = true
			}
		}
	}
	if asserted && !strings.HasPrefix(s, "float ") {
		s = "float " + s
	}
	return s
}

// selections: the kinds of attribute lists whose cells are read.
func (x *twins) selections(fs map[*ssa.Function]bool) map[string]string {
	p := x.p
	out := map[string]string{}
	for _, f := range sortedFuncs(x.p, fs) {
		if pk := f.Package(); pk != nil && strings.HasSuffix(pk.Pkg.Path(), "/base") || f.Parent() != nil && owner(f).Package() != nil && strings.HasSuffix(owner(f).Package().Pkg.Path(), "/base") {
			continue
		}
		for _, ci := range calls(f) {
			if !isCallTo(ci, "base", "", "ResolveAttributes") {
				continue
			}
			s := x.selection(ci.Common().Args[1], 0)
			if s == "class" || s == "empty" {
				continue
			}
			if s == "" {
				s = "?"
			}
			out[s] = p.InstrPos(ci.(ssa.Instruction))
		}
	}
	return out
}

// together: in one function, lists of specifications that are walked with one and the same counter come from one list of
// attributes.
func (x *twins) together(c *Ctx) {
	p := c.P
	for _, f := range p.Funcs {
		if !p.IsLibFunc(f) || strings.HasPrefix(p.Name(f), "base.") {
			continue
		}
		type res struct {
			call ssa.CallInstruction
			sel  string
		}
		var rs []res
		for _, ci := range calls(f) {
			if isCallTo(ci, "base", "", "ResolveAttributes") {
				if s := x.selection(ci.Common().Args[1], 0); s != "class" {
					rs = append(rs, res{ci, s})
				}
			}
		}
		for k := 1; k < len(rs); k++ {
			a, b := rs[0], rs[k]
			if a.call.Common().Args[0] == b.call.Common().Args[0] {
				continue
			}
			c.Count("side by side", 1)
			same := valuesEqual(a.call.Common().Args[1], b.call.Common().Args[1])
			c.Check(same || a.sel == b.sel, "side-by-side:"+p.Name(owner(f)), p.InstrPos(b.call.(ssa.Instruction)), "both data sets are read through the same attribute list", "one data set is read through its "+a.sel+", the other through its "+b.sel)
		}
	}
}

// ---- (2) routing

// feature: 2 for a value read from the data here, 1 for one that comes from the data through a parameter, 0 otherwise.
func (x *twins) feature(v ssa.Value) int {
	isRead := func(l ssa.Value) bool {
		switch t := l.(type) {
		case *ssa.Call:
			return isCallTo(t, "base", "", "UnpackBytesToFloat")
		case *ssa.UnOp:
			if t.Op != token.MUL {
				return false
			}
			_, ok := t.X.(*ssa.IndexAddr)
			return ok && basicInfo(t.Type())&types.IsFloat != 0
		}
		return false
	}
	stop := func(v ssa.Value) bool { _, ok := v.(*ssa.Call); return ok }
	all := func(o TraceOpt) bool {
		ls := x.p.Trace(v, o)
		for _, l := range ls {
			if !isRead(l) {
				return false
			}
		}
		return len(ls) > 0
	}
	if all(TraceOpt{NoParams: true, Stop: stop}) {
		return 2
	}
	if all(TraceOpt{Stop: stop}) {
		return 1
	}
	return 0
}

// floatTest: the comparison behind a condition, with the values compared seen from the caller when it sits in a helper.
func (x *twins) floatTest(v ssa.Value, depth int) (op token.Token, a, b ssa.Value, ok bool) {
	switch t := v.(type) {
	case *ssa.UnOp:
		if t.Op == token.NOT {
			op, a, b, ok = x.floatTest(t.X, depth)
			return negate(op), a, b, ok
		}
		if t.Op == token.MUL {
			if al := x.p.cellOf(t.X); al != nil {
				if ss := x.p.cellStores(al); len(ss) == 1 && depth < 4 {
					return x.floatTest(ss[0].Val, depth+1)
				}
			}
		}
	case *ssa.BinOp:
		switch t.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if basicInfo(t.X.Type())&types.IsFloat != 0 {
				return t.Op, t.X, t.Y, true
			}
		}
	case *ssa.Call:
		g := t.Call.StaticCallee()
		if g == nil || !x.p.IsLibFunc(g) || depth > 2 {
			return
		}
		rs := returns(g)
		if len(rs) != 1 || len(rs[0].Results) != 1 {
			return
		}
		op, a, b, ok = x.floatTest(rs[0].Results[0], depth+1)
		if !ok {
			return
		}
		up := func(v ssa.Value) ssa.Value {
			if q, isP := v.(*ssa.Parameter); isP && q.Parent() == g {
				for k, w := range g.Params {
					if w == q {
						return t.Call.Args[k]
					}
				}
			}
			return v
		}
		return op, up(a), up(b), true
	}
	return
}

func (x *twins) routings(fs map[*ssa.Function]bool) []routing {
	p := x.p
	var out []routing
	for _, f := range sortedFuncs(x.p, fs) {
		for _, b := range f.Blocks {
			if len(b.Instrs) == 0 {
				continue
			}
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			op, l, r, ok := x.floatTest(iff.Cond, 0)
			if !ok {
				continue
			}
			fl, fr := x.feature(l), x.feature(r)
			if _, isC := l.(*ssa.Const); isC {
				continue
			}
			if _, isC := r.(*ssa.Const); isC {
				continue
			}
			if fl < fr {
				op, l, r = flip(op), r, l
				fl, fr = fr, fl
			}
			if fl == fr {
				continue // both or neither from the data
			}
			// true outcome is low for < and <=
			lowTrue := op == token.LSS || op == token.LEQ
			lowEq := op == token.LEQ || op == token.GTR
			hi, lo := x.outcomes(b, iff)
			if lowTrue {
				hi, lo = lo, hi
			}
			// hi: outcome on the false edge unless swapped; see outcomes
			if lo == "" && hi == "" {
				continue
			}
			low, labels := "", false
			switch {
			case lo != "":
				low = lo
			default:
				low = otherSide(hi)
			}
			if low == "" || lo != "" && hi != "" && lo == hi && lo != "both sides" {
				continue
			}
			labels = strings.HasPrefix(low, "\"")
			out = append(out, routing{f, p.InstrPos(iff), lowEq, low, labels})
		}
	}
	return out
}

func otherSide(s string) string {
	switch s {
	case "\"0\"":
		return "\"1\""
	case "\"1\"":
		return "\"0\""
	case "left":
		return "right"
	case "right":
		return "left"
	}
	return ""
}

// outcomes: what the true and the false edge of a branch lead to.
func (x *twins) outcomes(b *ssa.BasicBlock, iff *ssa.If) (onTrue, onFalse string) {
	if b.Succs[0] == b.Succs[1] {
		return "", ""
	}
	res := [2]map[string]bool{{}, {}}
	side := func(bl *ssa.BasicBlock) int {
		for k := 0; k < 2; k++ {
			if s := b.Succs[k]; edgeDominates(b, s) && (s == bl || s.Dominates(bl)) {
				return k
			}
		}
		return -1
	}
	f := b.Parent()
	note := func(k int, v ssa.Value) {
		if s, ok := constStr(v); ok && (s == "0" || s == "1") {
			res[k]["\""+s+"\""] = true
			return
		}
		if s := x.sideField(v); s != "" {
			res[k][s] = true
		}
	}
	for _, bl := range f.Blocks {
		k := side(bl)
		for _, i := range bl.Instrs {
			if ph, ok := i.(*ssa.Phi); ok {
				for n, e := range ph.Edges {
					pr := bl.Preds[n]
					if pr == b {
						for q := 0; q < 2; q++ {
							if b.Succs[q] == bl {
								note(q, e)
							}
						}
						continue
					}
					if q := side(pr); q >= 0 {
						note(q, e)
					}
				}
				continue
			}
			if k < 0 {
				continue
			}
			switch t := i.(type) {
			case *ssa.Store:
				note(k, t.Val)
			case *ssa.Return:
				for _, r := range t.Results {
					note(k, r)
				}
			case *ssa.FieldAddr:
				switch sideOf(fieldVar(t.X.Type(), t.Field).Name()) {
				case 0:
					res[k]["left"] = true
				case 1:
					res[k]["right"] = true
				}
			case *ssa.Call:
				if bi, ok := t.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
					switch x.resultRank(t) {
					case 0:
						res[k]["left"] = true
					case 1:
						res[k]["right"] = true
					}
				}
				for _, a := range t.Call.Args {
					if _, ok := constStr(a); ok {
						note(k, a)
					}
				}
			case *ssa.Lookup:
				note(k, t.Index)
			case *ssa.MapUpdate:
				note(k, t.Key)
			}
		}
	}
	get := func(m map[string]bool) string {
		if len(m) == 1 {
			for s := range m {
				return s
			}
		}
		return ""
	}
	for k := 0; k < 2; k++ {
		if res[k]["left"] && res[k]["right"] && len(res[k]) == 2 {
			return "both sides", "both sides"
		}
	}
	if len(res[0]) > 1 || len(res[1]) > 1 {
		return "", ""
	}
	return get(res[0]), get(res[1])
}

// sideField: a value read from a Left... or Right... field.
func (x *twins) sideField(v ssa.Value) string {
	if fv, _ := fieldLoad(v); fv != nil {
		switch sideOf(fv.Name()) {
		case 0:
			return "left"
		case 1:
			return "right"
		}
	}
	if fa, ok := v.(*ssa.FieldAddr); ok {
		switch sideOf(fieldVar(fa.X.Type(), fa.Field).Name()) {
		case 0:
			return "left"
		case 1:
			return "right"
		}
	}
	return ""
}

// resultRank: an appended list is the first or second of two results of the same type.
func (x *twins) resultRank(c *ssa.Call) int {
	f := c.Parent()
	res := f.Signature.Results()
	var same []int
	for k := 0; k < res.Len(); k++ {
		if types.Identical(res.At(k).Type(), c.Type()) {
			same = append(same, k)
		}
	}
	if len(same) != 2 {
		return -1
	}
	rank := -1
	for n, k := range same {
		for _, r := range returns(f) {
			for _, l := range x.p.Trace(r.Results[k], TraceOpt{NoParams: true, NoCalls: true, Stop: func(v ssa.Value) bool {
				return v == ssa.Value(c)
			}}) {
				// further appends lead back to this one
				for d := 0; d < 4; d++ {
					ap, ok := l.(*ssa.Call)
					if !ok || ap == c {
						break
					}
					bi, ok := ap.Call.Value.(*ssa.Builtin)
					if !ok || bi.Name() != "append" {
						break
					}
					hit := false
					for _, q := range x.p.Trace(ap.Call.Args[0], TraceOpt{NoParams: true, NoCalls: true, Stop: func(v ssa.Value) bool { return v == ssa.Value(c) }}) {
						if q == ssa.Value(c) {
							hit = true
						}
					}
					if hit {
						l = c
					}
					break
				}
				if l == ssa.Value(c) {
					if rank >= 0 && rank != n {
						return -1
					}
					rank = n
				}
			}
		}
	}
	return rank
}

// ---- (3) presence

// presence: the tests of a feature against a constant under which something is counted, added or stored.
func (x *twins) presence(fs map[*ssa.Function]bool) map[string]string {
	out := map[string]string{}
	for _, f := range sortedFuncs(x.p, fs) {
		if strings.HasPrefix(x.p.Name(owner(f)), "base.") || strings.HasPrefix(x.p.Name(owner(f)), "(*base.") {
			continue
		}
		for _, b := range f.Blocks {
			if len(b.Instrs) == 0 {
				continue
			}
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			cond, pol := iff.Cond, true
			for {
				if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
					cond, pol = u.X, !pol
					continue
				}
				break
			}
			if cl, ok := cond.(*ssa.Call); ok {
				if g := cl.Call.StaticCallee(); g != nil && x.p.IsLibFunc(g) {
					if rs := returns(g); len(rs) == 1 && len(rs[0].Results) == 1 {
						cond = rs[0].Results[0]
					}
				}
			}
			bo, ok := cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			op, v, k := bo.Op, bo.X, bo.Y
			if _, isC := v.(*ssa.Const); isC {
				op, v, k = flip(op), k, v
			}
			kc, isC := k.(*ssa.Const)
			if !isC || kc.Value == nil || !x.featureCell(v) {
				continue
			}
			if !pol {
				op = negate(op)
			}
			z := constant.ToInt(kc.Value)
			bt := basicInfo(v.Type())
			unsigned := bt&types.IsUnsigned != 0
			// "present" is the side that does not hold for zero
			holds := constant.Compare(constant.MakeInt64(0), op, constant.ToFloat(kc.Value))
			if holds {
				op = negate(op)
			}
			// for bytes, > 0, >= 1 and != 0 are one test
			if unsigned {
				if n, ok := constant.Int64Val(z); ok {
					if op == token.GEQ && n == 1 || op == token.NEQ && n == 0 {
						op, z = token.GTR, constant.MakeInt64(0)
					}
				}
			}
			out[fmt.Sprintf("value %s %s", op, z)] = x.p.InstrPos(iff)
		}
	}
	return out
}

// featureCell: an element of a row of features: of a [][]byte cell, or of a float vector that is a parameter.
func (x *twins) featureCell(v ssa.Value) bool {
	if q, ok := v.(*ssa.Parameter); ok {
		any := false
		for _, l := range x.p.Trace(q, TraceOpt{}) {
			if l == v {
				return false
			}
			if !x.featureCell(l) {
				return false
			}
			any = true
		}
		return any
	}
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	bt, ok := u.Type().Underlying().(*types.Basic)
	if !ok {
		return false
	}
	root := ia.X
	for d := 0; d < 6; d++ {
		if l, ok := root.(*ssa.UnOp); ok && l.Op == token.MUL {
			if ia2, ok := l.X.(*ssa.IndexAddr); ok {
				root = ia2.X
				continue
			}
			if a := x.p.cellOf(l.X); a != nil {
				if ss := x.p.cellStores(a); len(ss) == 1 {
					root = ss[0].Val
					continue
				}
			}
		}
		break
	}
	q, isParam := root.(*ssa.Parameter)
	if !isParam {
		return false
	}
	switch bt.Kind() {
	case types.Uint8:
		return q.Type().String() == "[][]byte" || q.Type().String() == "[]byte"
	case types.Float64:
		return true
	}
	return false
}

// sparse: feature i of a vector is written with number i+1 and its own value, in as many places as were counted.
func (x *twins) sparse(c *Ctx) {
	p := c.P
	n := 0
	for _, f := range p.Funcs {
		if !p.IsLibFunc(f) {
			continue
		}
		for _, i := range instrs(f) {
			st, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || fieldVar(fa.X.Type(), fa.Field).Name() != "index" {
				continue
			}
			if !strings.Contains(deref(fa.X.Type()).String(), "feature_node") {
				continue
			}
			v := st.Val
			for {
				if cv, ok := v.(*ssa.Convert); ok {
					v = cv.X
					continue
				}
				if ct, ok := v.(*ssa.ChangeType); ok {
					v = ct.X
					continue
				}
				break
			}
			if _, isC := v.(*ssa.Const); isC {
				continue
			}
			n++
			key := fmt.Sprintf("sparse:%s", p.Name(owner(f)))
			// the value stored beside it
			var val ssa.Value
			for _, j := range st.Block().Instrs {
				s2, ok := j.(*ssa.Store)
				if !ok {
					continue
				}
				if fb, ok := s2.Addr.(*ssa.FieldAddr); ok && fieldVar(fb.X.Type(), fb.Field).Name() == "value" {
					val = s2.Val
				}
			}
			for val != nil {
				if cv, ok := val.(*ssa.Convert); ok {
					val = cv.X
					continue
				}
				if ct, ok := val.(*ssa.ChangeType); ok {
					val = ct.X
					continue
				}
				break
			}
			var idx ssa.Value
			if u, ok := val.(*ssa.UnOp); ok && u.Op == token.MUL {
				if ia, ok := u.X.(*ssa.IndexAddr); ok {
					idx = ia.Index
				}
			}
			if e, ok := val.(*ssa.Extract); ok {
				_ = e
			}
			if idx == nil {
				c.Count("undecided encodings", 1)
				continue
			}
			if l := loopCur(idx); l != nil && l.Step == 1 {
				k, isC := constInt(l.Init)
				whole := l.Range || isC && k == 0
				if cl, ok := l.Bound.(*ssa.Call); ok && l.Op == token.LSS {
					_, isLen := cl.Call.Value.(*ssa.Builtin)
					whole = whole && isLen
				} else if bo, ok := l.Bound.(*ssa.BinOp); ok && !l.Range {
					_ = bo
					whole = false
				}
				c.Check(whole, key+"#all", p.InstrPos(st), "every feature is encoded", "the loop that encodes the features leaves some out")
			}
			bo, ok := v.(*ssa.BinOp)
			good := false
			known := false
			if ok {
				for _, pr := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
					if k, isC := constInt(pr[1]); isC {
						known = true
						if pr[0] == idx && bo.Op == token.ADD && k == 1 {
							good = true
						}
						// a counter that starts at one and reads the element before
						if b2, ok := idx.(*ssa.BinOp); ok && b2.X == v {
							good = true
						}
					}
				}
			} else if v == idx {
				known = true
			} else if b2, ok := idx.(*ssa.BinOp); ok && b2.X == v && b2.Op == token.SUB {
				if k, isC := constInt(b2.Y); isC {
					known = true
					good = k == 1
				}
			}
			if !known && !good {
				c.Count("undecided encodings", 1)
				continue
			}
			c.Check(good, key, p.InstrPos(st), "feature i is numbered i+1", "feature i is not numbered i+1 as in the other encoding")
		}
	}
	c.Floor("sparse encodings", n, 2)
}

// ---- (4) lists that belong together

type listUse struct {
	field *types.Var
	index map[ssa.Value]bool
}

func (x *twins) parallel(c *Ctx, t *types.Named, fs map[*ssa.Function]bool, name string) {
	p := c.P
	for _, f := range sortedFuncs(x.p, fs) {
		for _, ci := range calls(f) {
			o := calleeObj(ci)
			if o == nil || o.Name() != "Fit" && o.Name() != "Predict" || !ci.Common().IsInvoke() || len(ci.Common().Args) == 0 {
				continue
			}
			model := x.uses(ci.Common().Value, t, 0)
			if len(model) == 0 {
				continue
			}
			data := x.uses(ci.Common().Args[0], t, 0)
			for _, m := range model {
				for _, d := range data {
					if m.field == d.field || len(m.index) == 0 || len(d.index) == 0 {
						continue
					}
					c.Count("lists read together", 1)
					ok := true
					for k := range d.index {
						if !m.index[k] {
							ok = false
						}
					}
					for k := range m.index {
						if !d.index[k] {
							ok = false
						}
					}
					c.Check(ok, "together:"+name+":"+m.field.Name()+"/"+d.field.Name(), p.InstrPos(ci.(ssa.Instruction)), "the model and its data description are taken at one index", "entry of "+m.field.Name()+" is used with data prepared from another entry of "+d.field.Name())
				}
			}
		}
	}
}

// rootIndex: what an index comes from (loop counters and received numbers).
func (x *twins) rootIndex(v ssa.Value) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	for _, l := range x.p.Trace(v, TraceOpt{Stop: func(v ssa.Value) bool {
		if loopCur(v) != nil {
			return true
		}
		_, ok := v.(*ssa.Phi)
		return ok
	}}) {
		if k := loopCur(l); k != nil {
			out[k.Phi] = true
			continue
		}
		out[l] = true
	}
	return out
}

// learnedField: the container is a field of the model, or a list made here that becomes one.
func (x *twins) learnedField(v ssa.Value, t *types.Named) *types.Var {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	own := func(fv *types.Var) bool {
		for k := 0; k < st.NumFields(); k++ {
			if st.Field(k) == fv {
				return true
			}
		}
		return false
	}
	if fv, _ := fieldLoad(v); fv != nil && own(fv) {
		return fv
	}
	for _, l := range x.p.Trace(v, TraceOpt{NoCalls: true}) {
		if fv, _ := fieldLoad(l); fv != nil && own(fv) {
			return fv
		}
		for k := 0; k < st.NumFields(); k++ {
			for _, s := range x.p.fieldStores[st.Field(k)] {
				for _, q := range x.p.Trace(s.Val, TraceOpt{NoCalls: true, NoParams: true}) {
					if q == l {
						if _, isC := l.(*ssa.Const); !isC {
							return st.Field(k)
						}
					}
				}
			}
		}
	}
	return nil
}

func (x *twins) uses(v ssa.Value, t *types.Named, depth int) []listUse {
	if depth > 6 || v == nil {
		return nil
	}
	p := x.p
	var out []listUse
	for _, l := range p.Trace(v, TraceOpt{NoCalls: true}) {
		switch y := l.(type) {
		case *ssa.UnOp:
			if ia, ok := y.X.(*ssa.IndexAddr); ok && y.Op == token.MUL {
				if fv := x.learnedField(ia.X, t); fv != nil {
					out = append(out, listUse{fv, x.rootIndex(ia.Index)})
				}
			}
		case *ssa.Lookup:
			if fv := x.learnedField(y.X, t); fv != nil {
				out = append(out, listUse{fv, x.rootIndex(y.Index)})
			}
		case *ssa.Extract:
			if n, ok := y.Tuple.(*ssa.Lookup); ok {
				if fv := x.learnedField(n.X, t); fv != nil {
					out = append(out, listUse{fv, x.rootIndex(n.Index)})
				}
			}
		case *ssa.Alloc:
			out = append(out, x.storedIn(y, t)...)
		case *ssa.Call:
			out = append(out, x.storedIn(y, t)...)
			for _, a := range y.Call.Args {
				switch a.Type().Underlying().(type) {
				case *types.Basic:
					continue
				}
				out = append(out, x.uses(a, t, depth+1)...)
			}
			if g := y.Call.StaticCallee(); g != nil && p.IsLibFunc(g) {
				// entries chosen inside by a number handed over
				seen := map[*ssa.Function]bool{}
				var visit func(g *ssa.Function, args []ssa.Value, d int)
				visit = func(g *ssa.Function, args []ssa.Value, d int) {
					if seen[g] || d > 3 {
						return
					}
					seen[g] = true
					bound := func(i ssa.Value) ssa.Value {
						for k, q := range g.Params {
							if ssa.Value(q) == i && k < len(args) {
								return args[k]
							}
						}
						return nil
					}
					for _, i := range instrs(g) {
						var cont, idx ssa.Value
						switch z := i.(type) {
						case *ssa.IndexAddr:
							cont, idx = z.X, z.Index
						case *ssa.Lookup:
							cont, idx = z.X, z.Index
						case *ssa.MapUpdate:
							cont, idx = z.Map, z.Key
						case *ssa.Call:
							if h := z.Call.StaticCallee(); h != nil && p.IsLibFunc(h) && recvNamed(h) == t {
								as := make([]ssa.Value, len(z.Call.Args))
								for k, a := range z.Call.Args {
									as[k] = a
									if b := bound(a); b != nil {
										as[k] = b
									}
								}
								visit(h, as, d+1)
							}
							continue
						default:
							continue
						}
						if b := bound(idx); b != nil {
							if fv := x.learnedField(cont, t); fv != nil {
								out = append(out, listUse{fv, x.rootIndex(b)})
							}
						}
					}
				}
				if recvNamed(g) == t {
					visit(g, y.Call.Args, 0)
				}
			}
		}
	}
	return out
}

// storedIn: a freshly made value that is put into a learned list.
func (x *twins) storedIn(v ssa.Value, t *types.Named) []listUse {
	var out []listUse
	refs := v.Referrers()
	if refs == nil {
		return nil
	}
	for _, r := range *refs {
		switch y := r.(type) {
		case *ssa.Store:
			if y.Val != v {
				continue
			}
			if ia, ok := y.Addr.(*ssa.IndexAddr); ok {
				if fv := x.learnedField(ia.X, t); fv != nil {
					out = append(out, listUse{fv, x.rootIndex(ia.Index)})
				}
			}
		case *ssa.MapUpdate:
			if y.Value == v {
				if fv := x.learnedField(y.Map, t); fv != nil {
					out = append(out, listUse{fv, x.rootIndex(y.Key)})
				}
			}
		}
	}
	return out
}

// ---- (5) the linear model

// linear: the prediction of the linear regression is the intercept plus the sum over the features of feature times
// coefficient, and fitting gives both these places.
func (x *twins) linear(c *Ctx, pred, fit *ssa.Function) {
	p := x.p
	var qr ssa.CallInstruction
	for g := range p.family(fit) {
		for _, ci := range calls(g) {
			if matCall(ci, "Factorize") && len(argsOf(ci)) == 1 {
				qr = ci
			}
		}
	}
	if qr == nil {
		return
	}
	name := p.Name(pred)
	var icept, coef *types.Var
	for g := range p.family(pred) {
		for _, ci := range calls(g) {
			if !isCallTo(ci, "base", "", "PackFloatToBytes") {
				continue
			}
			fields := map[string]*types.Var{}
			fr := newSumFrame(p, func(f *sumFrame, v ssa.Value) (Sym, bool) {
				if cl, ok := v.(*ssa.Call); ok && isCallTo(cl, "base", "", "UnpackBytesToFloat") {
					if u, ok := cl.Call.Args[0].(*ssa.UnOp); ok && u.Op == token.MUL {
						if ia, ok := u.X.(*ssa.IndexAddr); ok {
							return symAtom("X[" + f.eval(ia.Index).String() + "]"), true
						}
					}
				}
				if fv, _ := fieldLoad(v); fv != nil {
					fields[fv.Name()] = fv
				}
				return Sym{}, false
			})
			arg := ci.Common().Args[0]
			for n := 0; n < 3; n++ { // written by a helper
				q, ok := arg.(*ssa.Parameter)
				if !ok {
					break
				}
				var from []ssa.Value
				for h := range p.family(pred) {
					for _, cc := range calls(h) {
						for _, k := range p.Callees(cc) {
							if k == q.Parent() {
								from = append(from, argFor(cc, k, paramIndex(q)))
							}
						}
					}
				}
				if len(from) != 1 || from[0] == nil {
					break
				}
				arg = from[0]
			}
			if _, ok := arg.(*ssa.Parameter); ok {
				c.Count("undecided linear predictions", 1)
				continue
			}
			s := fr.eval(arg)
			if unreadable(s) {
				c.Count("undecided linear predictions", 1)
				continue
			}
			m := linearForm.FindStringSubmatch(s.String())
			if m == nil {
				if m2 := linearForm2.FindStringSubmatch(s.String()); m2 != nil {
					m = []string{m2[0], m2[1], m2[2]}
				}
			}
			c.Check(m != nil, "linear:"+name, p.InstrPos(ci.(ssa.Instruction)), "intercept plus sum of feature times coefficient", "the prediction is "+clip(s.String())+", not the intercept plus the sum of each feature times its coefficient")
			if m != nil {
				icept, coef = fields[m[1]], fields[m[2]]
			}
		}
	}
	if icept == nil || coef == nil {
		return
	}
	// where fitting leaves them
	ki, kc := int64(-1), int64(-1)
	var ri, rc ssa.Value
	for _, st := range p.fieldStores[icept] {
		if u, ok := st.Val.(*ssa.UnOp); ok && st.Parent() != nil && p.family(fit)[st.Parent()] {
			if ia, ok := u.X.(*ssa.IndexAddr); ok {
				ki, ri = 1<<40, ia.X
				if k, ok := constInt(ia.Index); ok {
					ki = k
				}
			}
		}
	}
	for _, st := range p.fieldStores[coef] {
		if sl, ok := st.Val.(*ssa.Slice); ok && st.Parent() != nil && p.family(fit)[st.Parent()] {
			kc = 0
			if sl.Low != nil {
				if k, ok := constInt(sl.Low); ok {
					kc = k
				} else {
					kc = -1
				}
			}
			if sl.High == nil {
				rc = sl.X
			} else {
				c.Bad("linear:"+p.Name(fit)+"#coefficients", p.InstrPos(st), "the coefficients are cut off at the end")
			}
		}
	}
	if ki < 0 || kc < 0 || ri == nil || rc == nil || !valuesEqual(ri, rc) {
		c.Count("undecided linear fits", 1)
		return
	}
	c.Check(ki == 0 && kc == 1, "linear:"+p.Name(fit)+"#places", p.Pos(fit.Pos()), "the intercept is solution 0 and the coefficients start at solution 1", "the intercept is not solution 0, or the coefficients do not start at solution 1")
	des := map[ssa.Value]bool{}
	for _, l := range p.Trace(argsOf(qr)[0], TraceOpt{NoCalls: true}) {
		des[l] = true
	}
	for g := range p.staticReach(fit) {
		for _, ci := range calls(g) {
			if !matCall(ci, "Set") || len(argsOf(ci)) != 3 {
				continue
			}
			on := false
			for _, l := range p.Trace(recvOf(ci), TraceOpt{NoCalls: true}) {
				on = on || des[l]
			}
			if !on {
				continue
			}
			col, v := argsOf(ci)[1], argsOf(ci)[2]
			pos := p.InstrPos(ci.(ssa.Instruction))
			if kv, ok := v.(*ssa.Const); ok {
				k, isC := constInt(col)
				one := kv.Value != nil && constant.Compare(constant.ToFloat(kv.Value), token.EQL, constant.MakeFloat64(1))
				c.Check(!isC || k == ki && one, "linear:"+p.Name(fit)+"#constant", pos, "the constant column is one and belongs to the intercept", "the constant column is not one, or is not the column of the intercept")
				continue
			}
			env := &SymEnv{P: p}
			s := env.Eval(col)
			if cl, ok := v.(*ssa.Call); ok && isCallTo(cl, "base", "", "UnpackBytesToFloat") {
				if u, ok := cl.Call.Args[0].(*ssa.UnOp); ok && u.Op == token.MUL {
					if ia, ok := u.X.(*ssa.IndexAddr); ok {
						d := s.Sub(env.Eval(ia.Index))
						c.Check(d.Eq(symInt(kc)), "linear:"+p.Name(fit)+"#columns", pos, "feature j is in the column of coefficient j", "feature j is put in column j plus "+clip(d.String())+", but its coefficient is taken from solution j+"+fmt.Sprint(kc))
						continue
					}
				}
			}
			c.Count("undecided linear fits", 1)
		}
	}
}

var linearForm = regexp.MustCompile(`^\.(\w+) \+ Σ\{⟨0⟩∈0\.\.len\([^{}]*\)\}\.(\w+)\[⟨0⟩\]\*X\[⟨0⟩\]$`)
var linearForm2 = regexp.MustCompile(`^\.(\w+) \+ Σ\{⟨0⟩∈0\.\.len\([^{}]*\)\}X\[⟨0⟩\]\*\.(\w+)\[⟨0⟩\]$`)

func isFloatAttr(t types.Type) bool {
	n := namedOf(deref(t))
	return n != nil && n.Obj().Name() == "FloatAttribute"
}

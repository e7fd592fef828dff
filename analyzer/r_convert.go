package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C42", Rule: "on every path through the Transform method of the converting filters, what is returned is one exactly when the path has found the value not zero (for a number not equal to zero, for a value of several the one its new Attribute stands for) and zero otherwise, and a value is handed on unchanged only when it is of the right type already; training makes, for every Attribute added and for every value of one with more than two, exactly one new Attribute, recorded under that value's own number and paired with the Attribute it comes from; the bins of a discretising filter cover 0 to their number, a value in the range goes to the bin its normal form computes and one on a boundary to the bin that starts there, and the labels of bins are told apart; conversions to matrices and from data frames put the cell of each row and Attribute at the same row and that Attribute's column, each row in a matrix of its own, through formats that lose nothing.",
		Trust: []string{"a chi-merge table is in ascending order (it is built from sorted rows)", "categorical values are positions in the list of values"}, Run: runC42})
}

type convert struct {
	c *Ctx
	p *Prog
}

func (r *convert) check(ok bool, key, pos, good, bad string) {
	r.c.Count("conversion obligations", 1)
	r.c.Check(ok, key, pos, good, bad)
}

func (r *convert) undecided(what string) { r.c.Count("undecided: "+what, 1) }

func runC42(c *Ctx) {
	r := &convert{c, c.P}
	for _, n := range []string{"BinaryConvertFilter", "FloatConvertFilter"} {
		want := "BinaryAttribute"
		if n[0] == 'F' {
			want = "FloatAttribute"
		}
		r.transform("(*filters."+n+").Transform", want)
		r.training("(*filters."+n+").Train", want)
	}
	r.binning()
	r.chiMerge()
	r.labels()
	r.matrices()
	r.frames()
	r.views()
	c.Floor("obligations about converted values", c.Counts["conversion obligations"], 12)
}

// ---- converting filters ----

// An outcome is what a way through a conversion returns: a constant, its argument, the value read from it, or something else.
type outcome struct {
	kind string // "const", "same", "value", "other"
	k    float64
	// extra condition from a helper: cond must equal pol
	cond ssa.Value
	pol  bool
}

// rawValue: a number read from the bytes of a parameter.
func rawValue(v ssa.Value, q ssa.Value) bool {
	for n := 0; n < 6; n++ {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.Call:
			o := calleeObj(x)
			if o == nil || len(argsOf(x)) != 1 || !strings.HasPrefix(o.Name(), "Unpack") && !strings.HasPrefix(o.Name(), "GetFloatFrom") {
				return false
			}
			return argsOf(x)[0] == q
		case *ssa.UnOp:
			ia, ok := x.X.(*ssa.IndexAddr)
			if !ok {
				return false
			}
			k, isC := constInt(ia.Index)
			return isC && k == 0 && ia.X == q
		default:
			return false
		}
	}
	return false
}

func constFloatVal(v ssa.Value) (float64, bool) {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil || !isNumeric(k.Type()) {
		return 0, false
	}
	return k.Float64(), true
}

// outcomes: what a path returns.
func (r *convert) outcomes(t *turnPath, v ssa.Value, q ssa.Value, depth int) []outcome {
	v = t.resolve(v)
	if v == q {
		return []outcome{{kind: "same"}}
	}
	switch x := v.(type) {
	case *ssa.Call:
		o := calleeObj(x)
		if o == nil {
			break
		}
		if o.Name() == "PackFloatToBytes" {
			a := t.resolve(argsOf(x)[0])
			if k, ok := constFloatVal(a); ok {
				return []outcome{{kind: "const", k: k}}
			}
			if rawValue(a, q) {
				return []outcome{{kind: "value"}}
			}
			return []outcome{{kind: "other"}}
		}
		cs := r.p.Callees(x)
		if len(cs) != 1 || !r.p.IsLibFunc(cs[0]) || depth > 2 || len(cs[0].Params) != len(x.Call.Args) {
			break
		}
		g := cs[0]
		paths, full := wholePaths(g, 200)
		if !full {
			break
		}
		var out []outcome
		for _, u := range paths {
			ret, ok := u.blocks[len(u.blocks)-2].Instrs[len(u.blocks[len(u.blocks)-2].Instrs)-1].(*ssa.Return)
			if !ok || len(ret.Results) == 0 || !u.feasible() {
				continue
			}
			for _, oc := range r.outcomes(u, ret.Results[0], nil, depth+1) {
				for _, fc := range u.facts() {
					for n, pr := range g.Params {
						if fc.cond == ssa.Value(pr) {
							oc.cond, oc.pol = t.resolve(x.Call.Args[n]), fc.pol
						}
					}
				}
				out = append(out, oc)
			}
		}
		return out
	case *ssa.MakeSlice, *ssa.Slice:
		// the last value stored at its start
		root := v
		if s, ok := v.(*ssa.Slice); ok {
			root = s.X
		}
		out := outcome{kind: "const"}
		for _, b := range t.blocks {
			if b == nil {
				continue
			}
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				ia, ok := st.Addr.(*ssa.IndexAddr)
				if !ok || ia.X != v && ia.X != root {
					continue
				}
				if n, isC := constInt(ia.Index); !isC || n != 0 {
					out.kind = "other"
					continue
				}
				if k, ok := constFloatVal(t.resolve(st.Val)); ok {
					out = outcome{kind: "const", k: k}
				} else {
					out.kind = "other"
				}
			}
		}
		return []outcome{out}
	}
	return nil
}

// zeroTest: what a condition says about the value converted: 1 not zero, 0 zero, -1 nothing that will do.
func (r *convert) zeroTest(cond ssa.Value, pol bool, q ssa.Value) (int, bool) {
	b, ok := cond.(*ssa.BinOp)
	if !ok {
		return 0, false
	}
	x, y, op := b.X, b.Y, b.Op
	if _, isC := constFloatVal(x); isC {
		x, y, op = y, x, mirrored(op)
	}
	k, isC := constFloatVal(y)
	if !isC || !rawValue(x, q) {
		return 0, false
	}
	if !pol {
		op = negate(op)
	}
	signed := basicInfo(x.Type())&types.IsFloat != 0
	switch {
	case op == token.NEQ && k == 0, !signed && op == token.GTR && k == 0, !signed && op == token.GEQ && k == 1, !signed && op == token.EQL && k == 1:
		return 1, true
	case op == token.EQL && k == 0, !signed && op == token.LEQ && k == 0, !signed && op == token.LSS && k == 1, !signed && op == token.NEQ && k == 1:
		return 0, true
	}
	return -1, true
}

func (r *convert) transform(name, want string) {
	f := r.p.Func(name)
	if f == nil || len(f.Params) != 4 {
		r.undecided("conversion of a value")
		return
	}
	q, newAttr := ssa.Value(f.Params[3]), ssa.Value(f.Params[2])
	paths, full := wholePaths(f, 2000)
	if !full {
		r.undecided("conversion of a value")
		return
	}
	bad, at, known := "", f.Pos(), 0
	say := func(s string, p token.Pos) {
		if bad == "" {
			bad, at = s, p
		}
	}
	for _, t := range paths {
		last := t.blocks[len(t.blocks)-2]
		ret, ok := last.Instrs[len(last.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) != 1 || !t.feasible() {
			continue
		}
		for _, oc := range r.outcomes(t, ret.Results[0], q, 0) {
			nz, tested, one, oneSaid := 0, false, false, false
			right, typed := false, false
			test := func(cond ssa.Value, pol bool) {
				if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
					cond, pol = u.X, !pol
				}
				if z, ok := r.zeroTest(cond, pol, q); ok {
					nz, tested = z, true
				}
				if c, ok := cond.(*ssa.Call); ok && calleeObj(c) != nil && calleeObj(c).Name() == "Equals" && len(argsOf(c)) == 1 {
					a, b := recvOf(c), argsOf(c)[0]
					if a == newAttr {
						a, b = b, a
					}
					if b != newAttr {
						return
					}
					one, oneSaid = pol, true
					if !r.lookedUpBy(a, q) {
						say("the new Attribute is compared with another than that of the value found", c.Pos())
					}
				}
				if ex, ok := cond.(*ssa.Extract); ok && ex.Index == 1 && pol {
					if ta, ok := ex.Tuple.(*ssa.TypeAssert); ok && ta.X == ssa.Value(f.Params[1]) {
						if n, ok := deref(ta.AssertedType).(*types.Named); ok {
							typed, right = true, n.Obj().Name() == want
						}
					}
				}
			}
			for _, fc := range t.facts() {
				test(fc.cond, fc.pol)
			}
			if oc.cond != nil {
				test(oc.cond, oc.pol)
			}
			pos := ret.Pos()
			switch oc.kind {
			case "same":
				known++
				if typed && !right {
					say("a value that is not of the right type is handed on unchanged", pos)
				}
			case "const":
				if typed && right {
					say("a value that is of the right type already is changed", pos)
				}
				if !tested && !oneSaid {
					continue
				}
				known++
				yes := oneSaid && one || !oneSaid && nz == 1
				if tested && !oneSaid && nz < 0 {
					say("the test of a value is not whether it is zero", pos)
				} else if oc.k != 0 && oc.k != 1 {
					say("a value is converted to something other than zero or one", pos)
				} else if yes != (oc.k == 1) {
					say(fmt.Sprintf("the value returned is %v where it should be the opposite", oc.k), pos)
				}
			case "other":
				if oneSaid {
					say("a value is converted to something other than zero or one", pos)
				}
			case "value":
				known++
				if oneSaid {
					say("a value is converted to something other than zero or one", pos)
				}
			}
		}
	}
	if known == 0 {
		r.undecided("conversion of a value")
		return
	}
	r.check(bad == "", "convert:"+name, r.p.Pos(at), fmt.Sprintf("%d ways through the conversion", known), bad)
}

// lookedUpBy: the Attribute was looked up by the value read from the bytes.
func (r *convert) lookedUpBy(v, q ssa.Value) bool {
	if ex, ok := v.(*ssa.Extract); ok {
		v = ex.Tuple
	}
	lk, ok := v.(*ssa.Lookup)
	if !ok {
		return true // not decided
	}
	return rawValue(lk.Index, q)
}

// elements: the elements of lists a value is made from.
func elements(v ssa.Value, seen map[ssa.Value]bool, out *[]*ssa.IndexAddr) {
	if seen[v] {
		return
	}
	seen[v] = true
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if ia, ok := u.X.(*ssa.IndexAddr); ok {
			if sl, isSl := ia.X.Type().Underlying().(*types.Slice); isSl && basicInfo(sl.Elem())&types.IsString != 0 {
				*out = append(*out, ia)
				return
			}
		}
	}
	if a, ok := v.(*ssa.Alloc); ok {
		for _, rf := range *a.Referrers() {
			if st, ok := rf.(*ssa.Store); ok && st.Addr == v {
				elements(st.Val, seen, out)
			}
			if ia, ok := rf.(*ssa.IndexAddr); ok && ia.Referrers() != nil {
				for _, q := range *ia.Referrers() {
					if st, ok := q.(*ssa.Store); ok {
						elements(st.Val, seen, out)
					}
				}
			}
		}
		return
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return
	}
	if _, ok := v.(*ssa.Phi); ok {
		return
	}
	for _, o := range in.Operands(nil) {
		if *o != nil {
			elements(*o, seen, out)
		}
	}
}

// made: the call that makes a new Attribute, and of what type.
func madeAttr(v ssa.Value) (*ssa.Call, string) {
	for n := 0; n < 5; n++ {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.Call:
			o := calleeObj(x)
			if o != nil && strings.HasPrefix(o.Name(), "New") && strings.HasSuffix(o.Name(), "Attribute") {
				return x, o.Name()[3:]
			}
			// a part that makes it
			if g := x.Call.StaticCallee(); g != nil && g != x.Parent() && len(g.Blocks) == 1 {
				if rs := returns(g); len(rs) == 1 && len(rs[0].Results) == 1 {
					if c, typ := madeAttr(rs[0].Results[0]); c != nil {
						return x, typ
					}
				}
			}
			return nil, ""
		default:
			return nil, ""
		}
	}
	return nil, ""
}

func bareAttr(v ssa.Value) ssa.Value {
	for n := 0; n < 8; n++ {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.Extract:
			ta, ok := x.Tuple.(*ssa.TypeAssert)
			if !ok || x.Index != 0 {
				return v
			}
			v = ta.X
		default:
			return v
		}
	}
	return v
}

func (r *convert) training(name, want string) {
	f := r.p.Func(name)
	if f == nil {
		r.undecided("training of a conversion")
		return
	}
	for _, g := range r.p.within(f) {
		r.trained(name, want, g)
	}
}

func (r *convert) trained(name, want string, f *ssa.Function) {
	perValue := map[*ssa.BasicBlock]ssa.Value{} // the loops over values, and the Attribute each turn makes
	for _, i := range instrs(f) {
		up, ok := i.(*ssa.MapUpdate)
		if !ok {
			continue
		}
		mt := up.Map.Type().Underlying().(*types.Map)
		if basicInfo(mt.Elem())&types.IsBoolean != 0 {
			r.twoValued(name, up)
			continue
		}
		if !isIntType(mt.Key()) {
			continue
		}
		call, typ := madeAttr(up.Value)
		if call == nil {
			continue
		}
		key := "values:" + name
		bad := ""
		if typ != want {
			bad = "a value is given an Attribute of the wrong type"
		}
		var els []*ssa.IndexAddr
		for _, a := range call.Call.Args {
			elements(a, map[ssa.Value]bool{}, &els)
		}
		for _, e := range els {
			if !r.p.sameRead(e.Index, up.Key) {
				bad = "the Attribute made for one value is recorded as that of another"
			}
		}
		if len(els) == 0 && bad == "" {
			r.undecided("Attributes for values")
		}
		if _, isC := constInt(up.Key); isC {
			bad = "every value is recorded under the same number"
		}
		if l := innermost(f, up.Block()); l != nil {
			perValue[l.Header] = bareAttr(up.Value)
			n, isC := constInt(l.Init)
			if !l.Range && isC && n != 0 || l.Step != 1 {
				bad = "some of the values get no Attribute of their own"
			}
			if b, ok := bareNum(l.Bound).(*ssa.BinOp); ok && b.Op == token.SUB {
				bad = "some of the values get no Attribute of their own"
			}
			if leavesEarly(l) || len(r.turnsWithout(l.Header, l.Body, up)) > 0 {
				bad = "some of the values get no Attribute of their own"
			}
		}
		r.check(bad == "", key, r.p.InstrPos(up), "each value has an Attribute of its own", bad)
	}
	// the pairs of old and new Attributes
	var pairs []ssa.Instruction
	for _, i := range instrs(f) {
		call, ok := i.(*ssa.Call)
		if !ok {
			continue
		}
		if ap, ok := isAppend(call); !ok || ap != call {
			continue
		}
		sl, ok := call.Type().Underlying().(*types.Slice)
		if !ok || !strings.HasSuffix(sl.Elem().String(), "FilteredAttribute") {
			continue
		}
		pairs = append(pairs, call)
	}
	for _, i := range instrs(f) {
		al, ok := i.(*ssa.Alloc)
		if !ok || !strings.HasSuffix(deref(al.Type()).String(), "FilteredAttribute") {
			continue
		}
		var old, made ssa.Value
		for _, rf := range *al.Referrers() {
			fa, ok := rf.(*ssa.FieldAddr)
			if !ok || fa.Referrers() == nil {
				continue
			}
			for _, q := range *fa.Referrers() {
				st, ok := q.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(fa) {
					continue
				}
				if fa.Field == 0 {
					old = st.Val
				} else {
					made = st.Val
				}
			}
		}
		if old == nil || made == nil {
			continue
		}
		if _, isP := bareAttr(made).(*ssa.Parameter); isP && f.Signature.Recv() == nil || isP && bareAttr(made) != bareAttr(old) {
			r.undecided("pairs of Attributes given to a part")
			continue
		}
		bad := ""
		if c, _ := madeAttr(old); c != nil {
			bad = "what a new Attribute replaces is not the Attribute it was made from"
		}
		if c, typ := madeAttr(made); c != nil && typ != want {
			bad = "the new Attribute is of the wrong type"
		} else if c == nil {
			if bareAttr(made) != bareAttr(old) {
				if _, isPhi := bareAttr(made).(*ssa.Phi); !isPhi {
					bad = "an Attribute that is kept replaces another"
				}
			}
			// kept: only when of the right type already
			if n, ok := deref(attrTypeOf(made)).(*types.Named); ok && n.Obj().Name() != want && strings.HasSuffix(n.Obj().Name(), "Attribute") && n.Obj().Name() != "Attribute" {
				bad = "an Attribute of another type is kept"
			}
		}
		if l := innermost(f, al.Block()); l != nil && perValue[l.Header] != nil && bareAttr(made) != perValue[l.Header] {
			bad = "the Attribute made for a value is not the one it is recorded with"
		}
		r.check(bad == "", "pair:"+name, r.p.InstrPos(al), "an Attribute is paired with what it is made from", bad)
	}
	for _, i := range instrs(f) {
		call, ok := i.(*ssa.Call)
		if !ok || call.Call.StaticCallee() == nil || call.Call.StaticCallee() == f {
			continue
		}
		g := call.Call.StaticCallee()
		if !r.p.IsLibFunc(g) || len(g.Blocks) == 0 {
			continue
		}
		for _, j := range g.Blocks[0].Instrs {
			if q, ok := j.(*ssa.Call); ok {
				if ap, ok := isAppend(q); ok && ap == q {
					if sl, ok := q.Type().Underlying().(*types.Slice); ok && strings.HasSuffix(sl.Elem().String(), "FilteredAttribute") {
						pairs = append(pairs, call)
					}
				}
			}
		}
	}
	// none is forgotten
	if len(pairs) == 0 {
		return
	}
	for _, l := range countingLoops(f) {
		ms := false
		for _, pr := range pairs {
			ms = ms || l.Body[pr.Block()]
		}
		if !ms {
			continue
		}
		bad := ""
		for _, t := range r.turnsWithout(l.Header, l.Body, pairs...) {
			through := false
			for h := range perValue {
				if _, on := t.pos[h]; on && h != l.Header {
					through = true
				}
			}
			if !through {
				bad = "an Attribute is passed over"
			}
		}
		r.check(bad == "", "all:"+name, r.p.Pos(l.If.Pos()), "every Attribute added gets its new one", bad)
	}
}

func attrTypeOf(v ssa.Value) types.Type {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		return mi.X.Type()
	}
	return v.Type()
}

// turnsWithout: the ways round a loop on which none of some instructions lies.
func (r *convert) turnsWithout(h *ssa.BasicBlock, loop map[*ssa.BasicBlock]bool, ins ...ssa.Instruction) []*turnPath {
	paths, full := turnPaths(h, loop, 1000)
	if !full {
		return nil
	}
	var out []*turnPath
	for _, t := range paths {
		if !t.feasible() {
			continue
		}
		on := false
		for _, i := range ins {
			if _, is := t.pos[i.Block()]; is {
				on = true
			}
		}
		if !on {
			out = append(out, t)
		}
	}
	return out
}

func (r *convert) twoValued(name string, up *ssa.MapUpdate) {
	if k, ok := constBool(up.Value); !ok || !k {
		return
	}
	for _, g := range guardsOf(up.Block()) {
		b, ok := g.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		x, y, op := b.X, b.Y, b.Op
		if _, isC := constInt(x); isC {
			x, y, op = y, x, mirrored(op)
		}
		k, isC := constInt(y)
		ln, isL := x.(*ssa.Call)
		if !isC || !isL {
			continue
		}
		if bi, ok := ln.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
			continue
		}
		if !g.Pol {
			op = negate(op)
		}
		most := int64(-1)
		switch op {
		case token.LEQ, token.EQL:
			most = k
		case token.LSS:
			most = k - 1
		}
		if most < 0 {
			continue
		}
		r.check(most == 2, "two:"+name, r.p.InstrPos(up), "with two values, one Attribute is enough", fmt.Sprintf("Attributes of up to %d values are converted as if they had two", most))
	}
}

// ---- discretising filters ----

func binAtoms(f *sumFrame, v ssa.Value) (Sym, bool) {
	switch x := v.(type) {
	case *ssa.Lookup:
		if u, ok := x.X.(*ssa.UnOp); ok {
			if fa, ok := u.X.(*ssa.FieldAddr); ok && !x.CommaOk {
				return symAtom(fieldVar(fa.X.Type(), fa.Field).Name()), true
			}
		}
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			return symAtom(fieldVar(fa.X.Type(), fa.Field).Name()), true
		}
	case *ssa.Call:
		if o := calleeObj(x); o != nil && o.Pkg() != nil && o.Pkg().Path() == "math" && len(x.Call.Args) == 1 {
			switch o.Name() {
			case "Floor", "Trunc", "Ceil", "Round", "RoundToEven":
				return f.eval(x.Call.Args[0]).Add(symAtom("math." + o.Name())), true
			}
		}
		if o := calleeObj(x); o != nil && (o.Name() == "UnpackBytesToFloat" || o.Name() == "GetFloatFromSysVal") {
			return symAtom("value"), true
		}
	}
	return Sym{}, false
}

func (r *convert) binning() {
	name := "(*filters.BinningFilter).Transform"
	f := r.p.Func(name)
	if f == nil {
		r.undecided("bins")
		return
	}
	lo, hi, n, val := symAtom("minVals"), symAtom("maxVals"), symAtom("bins"), symAtom("value")
	paths, full := wholePaths(f, 1000)
	if !full {
		r.undecided("bins")
		return
	}
	fr := newSumFrame(r.p, binAtoms)
	bad, at, known := "", f.Pos(), 0
	say := func(s string, p token.Pos) {
		if bad == "" {
			bad, at = s, p
		}
	}
	for _, t := range paths {
		last := t.blocks[len(t.blocks)-2]
		ret, ok := last.Instrs[len(last.Instrs)-1].(*ssa.Return)
		if !ok || !t.feasible() {
			continue
		}
		call, ok := t.resolve(ret.Results[0]).(*ssa.Call)
		if !ok || calleeObj(call) == nil || calleeObj(call).Name() != "PackU64ToBytes" {
			continue
		}
		below, above, tested, contrary := false, false, false, false
		notBelow, notAbove, kept := false, false, false
		seen := map[int]token.Token{} // what would contradict what was said of each end
		for _, fc := range t.facts() {
			b, ok := fc.cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			op := b.Op
			x, y := fr.eval(b.X), fr.eval(b.Y)
			if y.Eq(val) {
				x, y, op = y, x, mirrored(op)
			}
			if !x.Eq(val) {
				for _, z := range []Sym{x, y} {
					if q := z.String(); strings.Contains(q, "value") || strings.Contains(q, "math.") || strings.Contains(q, "?") {
						kept = true // the bin itself is compared, or something not followed
					}
				}
				continue
			}
			if !fc.pol {
				op = negate(op)
			}
			tested = true
			if y.Eq(lo) && (op == token.GTR || op == token.GEQ) {
				notBelow = true
			}
			if y.Eq(hi) && (op == token.LSS || op == token.LEQ) {
				notAbove = true
			}
			if y.Eq(lo) || y.Eq(hi) {
				n := 0
				if y.Eq(hi) {
					n = 1
				}
				if neg, ok := seen[n]; ok && neg == op {
					contrary = true
				}
				seen[n] = negate(op)
			}
			if y.Eq(lo) && (op == token.LEQ || op == token.LSS || op == token.EQL) {
				below = true
			}
			if y.Eq(hi) && (op == token.GEQ || op == token.GTR || op == token.EQL) {
				above = true
			}
		}
		if contrary {
			continue
		}
		v := t.resolve(bareNum(t.resolve(call.Call.Args[0])))
		v = bareNum(v)
		pos := ret.Pos()
		if k, isC := constInt(v); isC {
			known++
			if k != 0 {
				say(fmt.Sprintf("a value is put in bin %d whatever it is", k), pos)
			} else if tested && !below {
				say("a value that is not at or below the bottom of the range is put in the lowest bin", pos)
			}
			continue
		}
		round := ""
		s := fr.eval(v)
		for _, m := range []string{"Floor", "Trunc", "Ceil", "RoundToEven", "Round"} {
			if strings.Contains(s.String(), "math."+m) {
				round = m
				s = s.Sub(symAtom("math." + m))
				break
			}
		}
		if strings.Contains(s.String(), "?") {
			continue
		}
		if !strings.Contains(s.String(), "value") && !strings.Contains(s.String(), "math.") {
			if !strings.Contains(s.String(), "bins") {
				continue
			}
			known++
			if !s.Eq(n) {
				say("the highest bin is "+s.String()+", not the number of bins", pos)
			} else if tested && !above {
				say("a value that is not at or above the top of the range is put in the highest bin", pos)
			}
			continue
		}
		known++
		if round != "" && round != "Floor" && round != "Trunc" {
			say("a value is not put in the bin it has reached", pos)
		}
		want := val.Sub(lo).Mul(n).Div(hi.Sub(lo))
		diff := s.Sub(want)
		if k, ok := constSym(diff); !ok || k < 0 || k > 0.01 {
			say("a value is put in bin "+s.String(), pos)
		}
		if !kept && (!notBelow || !notAbove) {
			say("a value outside the range may be put in a bin that does not exist", pos)
		}
		if below || above {
			say("a value outside the range is put in a bin reckoned from it", pos)
		}
	}
	if known == 0 {
		r.undecided("bins")
	} else {
		r.check(bad == "", "bin:"+name, r.p.Pos(at), fmt.Sprintf("%d ways to choose a bin", known), bad)
	}
	// the bins that are declared
	g := r.p.Func("(*filters.BinningFilter).GetAttributesAfterFiltering")
	if g == nil {
		r.undecided("bins declared")
		return
	}
	found := false
	for _, h := range r.p.within(g) {
		fl := newSumFrame(r.p, binAtoms)
		for k, l := range countingLoops(h) {
			fl.keys[l.Header] = fmt.Sprintf("⟦%d⟧", k)
		}
		for _, i := range instrs(h) {
			v, ok := i.(ssa.Value)
			if !ok || !isFloatType(v.Type()) {
				continue
			}
			if b, ok := i.(*ssa.BinOp); !ok || b.Op != token.ADD && b.Op != token.SUB {
				continue
			}
			s := fl.eval(v)
			l := innermost(h, i.Block())
			if l == nil || strings.Contains(s.String(), "?") {
				continue
			}
			k, isKey := fl.key(l.Header)
			if !isKey || !strings.Contains(s.String(), k) || !strings.Contains(s.String(), "minVals") {
				continue
			}
			found = true
			idx := symAtom(k)
			first, after, ok := fl.ends(l, idx)
			want := idx.Mul(hi.Sub(lo)).Div(n).Add(lo)
			bad := ""
			if !s.Eq(want) {
				bad = "a bin is said to start at " + s.String()
			} else if ok && (!first.Eq(symInt(0)) || !after.Eq(n.Add(symInt(1)))) {
				bad = "there are bins " + first.String() + " to " + after.Sub(symInt(1)).String() + ", but values are put in bins 0 to " + n.String()
			}
			r.check(bad == "", "bins:(*filters.BinningFilter).GetAttributesAfterFiltering", r.p.InstrPos(i), "every bin a value can be put in is declared", bad)
		}
	}
	if !found {
		r.undecided("bins declared")
	}
}

// partOf: a list of which the first or last elements were cut off.
func partOf(l ssa.Value) bool {
	sl, ok := l.(*ssa.Slice)
	if !ok {
		return false
	}
	if sl.Low != nil && !isZeroNum(sl.Low) {
		return true
	}
	b, ok := sl.High.(*ssa.BinOp)
	return ok && b.Op == token.SUB
}

// labels: the labels of bins are told apart.
func (r *convert) labels() {
	for _, f := range r.p.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Name() != "filters" || f.Signature.Recv() == nil || f.Name() != "GetAttributesAfterFiltering" {
			continue
		}
		for _, g := range r.p.within(f) {
			for _, i := range instrs(g) {
				if ia, ok := i.(*ssa.IndexAddr); ok && partOf(ia.X) && innermost(g, ia.Block()) != nil {
					r.check(false, "labels:"+r.p.Name(f), r.p.InstrPos(ia), "", "some of the bins have no value")
				}
				call, ok := i.(*ssa.Call)
				if !ok || calleeObj(call) == nil || calleeObj(call).Name() != "GetSysValFromString" || len(argsOf(call)) != 1 {
					continue
				}
				arg := argsOf(call)[0]
				key := "labels:" + r.p.Name(f)
				if c, ok := arg.(*ssa.Call); ok && lossy(c) != "" {
					// told apart by a test?
					told := false
					for _, gd := range guardsOf(call.Block()) {
						ex, isEx := gd.Cond.(*ssa.Extract)
						if isEx && madeFrom(ex, arg, map[ssa.Value]bool{}) {
							told = true
						}
						if madeFrom(gd.Cond, arg, map[ssa.Value]bool{}) {
							told = true
						}
					}
					r.check(told, key, r.p.InstrPos(call), "labels are told apart", "bins are labelled with rounded numbers: two bins whose labels come out the same become one value, and the higher bins have none")
					continue
				}
				// the labels run over the whole list
				list, ix, ok := r.p.elemOf(arg)
				_ = list
				bad := ""
				if ok {
					if l := innermost(g, call.Block()); l != nil {
						if n, isC := constInt(l.Init); isC && !l.Range && n != 0 || l.Step != 1 || leavesEarly(l) || len(r.turnsWithout(l.Header, l.Body, call)) > 0 {
							bad = "some of the bins have no value"
						}
						if sl, isS := list.(*ssa.Slice); isS && (sl.Low != nil && !isZeroNum(sl.Low) || sl.High != nil) {
							bad = "some of the bins have no value"
						}
					}
					if backwards(ix) {
						bad = "the bins are declared in reverse order"
					}
				}
				r.check(bad == "", key, r.p.InstrPos(call), "labels are told apart", bad)
			}
		}
	}
}

// lossy: a number is written with a number of digits that does not depend on it.
func lossy(c *ssa.Call) string {
	o := calleeObj(c)
	if o == nil {
		return ""
	}
	switch o.FullName() {
	case "fmt.Sprintf":
		s, ok := constStr(c.Call.Args[0])
		if !ok {
			return "a format made up at run time"
		}
		for k := 0; k < len(s); k++ {
			if s[k] != '%' {
				continue
			}
			k++
			for k < len(s) && strings.IndexByte("0123456789.+-# ", s[k]) >= 0 {
				k++
			}
			if k < len(s) && strings.IndexByte("feEFgG", s[k]) >= 0 {
				if (s[k] == 'g' || s[k] == 'G') && s[k-1] == '%' {
					continue // the shortest that is exact
				}
				return "%" + s[k:k+1]
			}
		}
	case "strconv.FormatFloat":
		if k, ok := constInt(c.Call.Args[2]); ok && k >= 0 {
			return "FormatFloat"
		} else if !ok {
			return "FormatFloat"
		}
	}
	return ""
}

// chiMerge: a value goes to the last interval that starts at or below it.
func (r *convert) chiMerge() {
	name := "(*filters.ChiMergeFilter).Transform"
	f := r.p.Func(name)
	if f == nil {
		r.undecided("intervals")
		return
	}
	done := false
	for _, g := range r.p.within(f) {
		for _, i := range instrs(g) {
			b, ok := i.(*ssa.BinOp)
			if !ok || !isFloatType(b.X.Type()) {
				continue
			}
			x, y, op := b.X, b.Y, b.Op
			if !boundOf(x) {
				x, y, op = y, x, mirrored(op)
			}
			if !boundOf(x) || boundOf(y) {
				continue
			}
			// start op value
			h, loop := innermostLoop(b.Block())
			if h == nil {
				continue
			}
			paths, full := turnPaths(h, loop, 300)
			if !full {
				continue
			}
			var l *CountLoop
			for _, cl := range countingLoops(g) {
				if cl.Header == h {
					l = cl
				}
			}
			if l == nil || l.Step != 1 {
				continue
			}
			bad := ""
			for _, t := range paths {
				if !t.feasible() {
					continue
				}
				for _, fc := range t.facts() {
					if fc.cond != ssa.Value(b) {
						continue
					}
					o := op
					if !fc.pol {
						o = negate(o)
					}
					// going on: the interval has been reached
					for _, in := range h.Instrs {
						ph, ok := in.(*ssa.Phi)
						if !ok || ph == l.Phi {
							continue
						}
						if nx := t.next(ph); nx != ssa.Value(ph) && isIntType(ph.Type()) {
							switch o {
							case token.LEQ:
							case token.LSS:
								bad = "a value at which an interval starts is put in the one below"
							default:
								bad = "a value is put in an interval that starts above it"
							}
							if !r.p.sameRead(nx, l.Cur) {
								bad = "the interval noted is not the one compared"
							}
						}
					}
				}
			}
			compared := 0
			for bl := range loop {
				for _, in := range bl.Instrs {
					if bo, ok := in.(*ssa.BinOp); ok && isFloatType(bo.X.Type()) && boundOf(bo.X) != boundOf(bo.Y) {
						compared++
					}
				}
			}
			for bl := range loop {
				iff, ok := bl.Instrs[len(bl.Instrs)-1].(*ssa.If)
				if !ok || iff.Cond != ssa.Value(b) || compared != 1 {
					continue
				}
				for n, to := range bl.Succs {
					o := op
					if n == 1 {
						o = negate(o)
					}
					if !loop[to] && (o == token.LEQ || o == token.LSS) {
						bad = "a value is put in the first of the intervals it has reached"
					}
				}
			}
			done = true
			r.check(bad == "", "interval:"+name, r.p.InstrPos(b), "a value goes to the interval it lies in", bad)
		}
	}
	if !done {
		r.undecided("intervals")
	}
	// merged intervals start where the lower one did
	m := r.p.Func("filters.chiMergeMergeZipAdjacent")
	if m == nil || len(m.Params) != 2 {
		r.undecided("intervals merged")
		return
	}
	for _, i := range instrs(m) {
		st, ok := i.(*ssa.Store)
		if !ok || !isFloatType(st.Val.Type()) {
			continue
		}
		_, ix, ok := r.p.elemOf(st.Val)
		if !ok {
			if u, isU := st.Val.(*ssa.UnOp); isU {
				if fa, isF := u.X.(*ssa.FieldAddr); isF {
					if u2, isU2 := fa.X.(*ssa.UnOp); isU2 {
						if ia, isI := u2.X.(*ssa.IndexAddr); isI {
							ix, ok = ia.Index, true
						}
					}
				}
			}
		}
		if !ok {
			r.undecided("intervals merged")
			continue
		}
		r.check(ix == ssa.Value(m.Params[1]), "merged:filters.chiMergeMergeZipAdjacent", r.p.InstrPos(st), "a merged interval starts where the lower of the two did", "a merged interval does not start where the lower of the two did")
	}
}

// boundOf: the number an entry of a table starts at.
func boundOf(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	return ok && strings.HasSuffix(deref(fa.X.Type()).String(), "FrequencyTableEntry")
}

// ---- conversions ----

func (r *convert) matrices() {
	for _, n := range []string{"base.ConvertRowToMat64", "base.ConvertAllRowsToMat64"} {
		top := r.p.Func(n)
		if top == nil {
			r.undecided("conversion to a matrix")
			continue
		}
		found := false
		for _, f := range r.p.within(top) {
			for _, i := range instrs(f) {
				set, ok := i.(*ssa.Call)
				if !ok || !matCall(set, "Set") || len(argsOf(set)) != 3 {
					continue
				}
				get, ok := unpacked(argsOf(set)[2])
				if !ok {
					continue
				}
				_, ix, ok := r.p.elemOf(argsOf(get)[0])
				if !ok {
					continue
				}
				found = true
				bad := ""
				if !r.p.sameRead(ix, argsOf(set)[1]) {
					bad = "the value of one Attribute is put in the column of another"
				}
				row := argsOf(get)[1]
				if k, isC := constInt(argsOf(set)[0]); isC && k != 0 {
					bad = "a value is put in a row that is not there"
				}
				m := bareMat(recvOf(set))
				if _, isC := m.(*ssa.Call); !isC {
					if _, isP := m.(*ssa.Parameter); !isP && innermost(f, set.Block()) != nil {
						if ph, isPhi := m.(*ssa.Phi); isPhi {
							for _, e := range ph.Edges {
								if _, el, ok := r.p.elemOf(e); ok && el != nil {
									bad = "rows share a matrix"
								}
							}
						}
					}
				}
				// the matrix is kept under the row's own number
				for _, j := range instrs(f) {
					st, ok := j.(*ssa.Store)
					if !ok || !madeOf(st.Val, m) {
						continue
					}
					ia, ok := st.Addr.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					if !r.p.sameRead(ia.Index, row) {
						bad = "the matrix of one row is kept as that of another"
					}
					if c, isC := m.(*ssa.Call); isC {
						if _, loop := innermostLoop(st.Block()); loop != nil && !loop[c.Block()] {
							bad = "rows share a matrix"
						}
					}
				}
				if l := innermost(f, set.Block()); l != nil && bad == "" {
					if len(r.turnsWithout(l.Header, l.Body, set)) > 0 || leavesEarly(l) {
						bad = "some of the Attributes are passed over"
					}
					if k, isC := constInt(l.Init); isC && !l.Range && k != 0 || l.Step != 1 {
						bad = "some of the Attributes are passed over"
					}
				}
				for _, l := range countingLoops(f) {
					k, isC := constInt(l.Init)
					if l.Body[set.Block()] && bad == "" && (isC && !l.Range && k != 0 && l.Step > 0 || l.Step > 1) {
						bad = "some of the rows are passed over"
					}
				}
				r.check(bad == "", "cell:"+n, r.p.InstrPos(set), "each value is put in its Attribute's column", bad)
			}
		}
		if !found {
			r.undecided("conversion to a matrix")
		}
		// only numbers are converted
		for _, f := range r.p.within(top) {
			for _, i := range instrs(f) {
				ta, ok := i.(*ssa.TypeAssert)
				if !ok || !ta.CommaOk {
					continue
				}
				nt, ok := deref(ta.AssertedType).(*types.Named)
				if !ok || !strings.HasSuffix(nt.Obj().Name(), "Attribute") {
					continue
				}
				for _, b := range f.Blocks {
					iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
					if !ok {
						continue
					}
					cond, pol := iff.Cond, true
					if u, isU := cond.(*ssa.UnOp); isU && u.Op == token.NOT {
						cond, pol = u.X, false
					}
					ex, ok := cond.(*ssa.Extract)
					if !ok || ex.Tuple != ssa.Value(ta) || ex.Index != 1 {
						continue
					}
					fails := func(s *ssa.BasicBlock) bool {
						ret, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Return)
						if !ok {
							return false
						}
						n := len(ret.Results)
						return n > 0 && isErrorType(ret.Results[n-1].Type()) && !isNilConst(ret.Results[n-1])
					}
					yes, no := b.Succs[0], b.Succs[1]
					if !pol {
						yes, no = no, yes
					}
					isFloat := nt.Obj().Name() == "FloatAttribute"
					bad := ""
					if isFloat && (fails(yes) || !fails(no)) || !isFloat && fails(no) {
						bad = "Attributes that are not of numbers are let through, or those of numbers refused"
					} else if !isFloat && fails(yes) {
						bad = "only Attributes of one type are refused, not all but numbers"
					}
					r.check(bad == "", "numbers:"+n, r.p.InstrPos(ta), "only numbers are converted", bad)
				}
			}
		}
	}
}

func madeOf(v, m ssa.Value) bool { return v == m || bareMat(v) == m }

// unpacked: the Get a number was unpacked from.
func unpacked(v ssa.Value) (*ssa.Call, bool) {
	for n := 0; n < 5; n++ {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.Call:
			o := calleeObj(x)
			if o == nil {
				return nil, false
			}
			if o.Name() == "Get" && len(argsOf(x)) == 2 {
				return x, true
			}
			if len(argsOf(x)) == 1 && (strings.HasPrefix(o.Name(), "Unpack") || o.Name() == "GetFloatFromSysVal") {
				v = argsOf(x)[0]
				continue
			}
			return nil, false
		default:
			return nil, false
		}
	}
	return nil, false
}

func (r *convert) frames() {
	name := "base.ConvertDataFrameToInstances"
	top := r.p.Func(name)
	if top == nil {
		r.undecided("conversion of a data frame")
		return
	}
	found := false
	for _, f := range r.p.within(top) {
		takesPart := f == top
		for _, i := range instrs(f) {
			if ta, ok := i.(*ssa.TypeAssert); ok && !takesPart {
				_, isB := ta.AssertedType.Underlying().(*types.Basic)
				takesPart = isB
			}
			call, ok := i.(*ssa.Call)
			if !ok || calleeObj(call) == nil {
				continue
			}
			o := calleeObj(call)
			if takesPart {
				bad := lossy(call)
				if bad != "" {
					bad = "a number is written with a fixed number of digits (" + bad + ") and read back: it is not the same"
				}
				if o.FullName() == "strconv.FormatInt" {
					if k, isC := constInt(call.Call.Args[1]); isC && k != 10 {
						bad = "a number is written in one base and read back in another"
					}
				}
				if o.FullName() == "fmt.Sprintf" && bad == "" {
					for _, a := range varargs(call) {
						if cv, ok := a.(*ssa.Convert); ok && isIntType(cv.Type()) && isFloatType(cv.X.Type()) {
							bad = "a number is cut to a whole one"
						}
					}
				}
				if bad != "" || strings.HasPrefix(o.FullName(), "strconv.Format") {
					r.check(bad == "", "digits:"+name, r.p.InstrPos(call), "numbers keep all their digits", bad)
				}
			}
			switch {
			case o.Name() == "AddClassAttribute" && len(argsOf(call)) == 1:
				_, ix, ok := r.p.elemOf(argsOf(call)[0])
				var which *ssa.Parameter
				for _, q := range f.Params {
					if isIntType(q.Type()) {
						which = q
					}
				}
				if ok && which != nil {
					r.check(ix == ssa.Value(which), "class:"+name, r.p.InstrPos(call), "the class is the column the caller says", "the class is not the column the caller says")
				}
			case o.Name() == "Set" && len(argsOf(call)) == 3:
				_, ix, ok := r.p.elemOf(argsOf(call)[0])
				if !ok {
					continue
				}
				conv, isC := argsOf(call)[2].(*ssa.Call)
				if !isC {
					continue
				}
				found = true
				bad := ""
				if recv := recvOf(conv); recv != nil {
					if g, isG := recv.(*ssa.Call); isG && calleeObj(g) != nil && calleeObj(g).Name() == "GetAttribute" && recvOf(g) != nil && len(argsOf(g)) == 0 {
						recv = recvOf(g)
					}
					_, k, ok := r.p.elemOf(recv)
					if ia, isA := recv.(*ssa.IndexAddr); isA {
						k, ok = ia.Index, true
					}
					if ok && !r.p.sameRead(k, ix) {
						bad = "a value is converted by the Attribute of another column"
					}
				}
				// the value taken from the frame
				for v := range r.p.backSlice(conv) {
					c, ok := v.(*ssa.Call)
					if !ok || calleeObj(c) == nil || calleeObj(c).Name() != "Value" || len(argsOf(c)) < 1 || c.Parent() != f {
						continue
					}
					if !r.p.sameRead(argsOf(c)[0], argsOf(call)[1]) {
						bad = "the value of one row is stored in another"
					}
					if _, k, ok := r.p.elemOf(recvOf(c)); ok && !r.p.sameRead(k, ix) {
						bad = "the value of one column is stored in another"
					}
				}
				for _, l := range countingLoops(f) {
					if !l.Body[call.Block()] || bad != "" {
						continue
					}
					if k, isC := constInt(l.Init); isC && !l.Range && k != 0 || l.Step != 1 {
						bad = "some of the frame is passed over"
					}
					if b, ok := bareNum(l.Bound).(*ssa.BinOp); ok && b.Op == token.SUB {
						bad = "some of the frame is passed over"
					}
					if leavesEarly(l) {
						bad = "some of the frame is passed over"
					}
				}
				if l := innermost(f, call.Block()); l != nil && bad == "" && len(r.turnsWithout(l.Header, l.Body, call)) > 0 {
					bad = "some of the values are passed over"
				}
				r.check(bad == "", "cell:"+name, r.p.InstrPos(call), "each value is stored in its own row and column", bad)
			}
		}
	}
	if !found {
		r.undecided("conversion of a data frame")
	}
}

// views: what is read from a matrix is the cell of that row and Attribute.
func (r *convert) views() {
	for _, n := range []string{"(*base.Mat64Instances).Get", "(*base.Mat64Instances).MapOverRows"} {
		f := r.p.Func(n)
		if f == nil {
			r.undecided("views of a matrix")
			continue
		}
		for _, i := range instrs(f) {
			at, ok := i.(*ssa.Call)
			if !ok || !matCall(at, "At") || len(argsOf(at)) != 2 {
				continue
			}
			row, col := argsOf(at)[0], argsOf(at)[1]
			bad := ""
			if madeOfPosition(row) || !madeOfPosition(col) {
				bad = "a value is not read from its Attribute's column"
			}
			for _, q := range f.Params {
				if isIntType(q.Type()) && row != ssa.Value(q) && bad == "" {
					bad = "a value is read from another row than the one asked for"
				}
			}
			if l := innermost(f, at.Block()); l != nil && bad == "" {
				for _, j := range instrs(f) {
					call, ok := j.(*ssa.Call)
					if !ok {
						continue
					}
					// given to the caller's function under its own number
					if call.Call.StaticCallee() == nil && !call.Call.IsInvoke() && len(call.Call.Args) == 2 && isIntType(call.Call.Args[1].Type()) && !r.p.sameRead(call.Call.Args[1], row) {
						bad = "the values of one row are given as those of another"
					}
					// kept at the position of its Attribute in the list asked for
					if len(call.Call.Args) == 2 && call.Call.Args[0] == ssa.Value(at) {
						_, to, ok1 := r.p.elemOf(call.Call.Args[1])
						_, from, ok2 := specOf(r.p, col)
						if ok1 && ok2 && !r.p.sameRead(to, from) {
							bad = "the value of one Attribute is given as that of another"
						}
					}
				}
				for _, l := range countingLoops(f) {
					k, isC := constInt(l.Init)
					if l.Body[at.Block()] && bad == "" && (isC && !l.Range && k != 0 && l.Step > 0 || l.Step > 1) {
						bad = "some of the rows are passed over"
					}
				}
			}
			r.check(bad == "", "view:"+n, r.p.InstrPos(at), "a value is read from its own row and column", bad)
		}
	}
}

// madeOfPosition: a column number taken from a resolved Attribute.
func madeOfPosition(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		return ok && strings.HasSuffix(deref(fa.X.Type()).String(), "AttributeSpec")
	case *ssa.Field:
		return strings.HasSuffix(x.X.Type().String(), "AttributeSpec")
	case *ssa.Call:
		return recvOf(x) != nil && strings.HasSuffix(deref(recvOf(x).Type()).String(), "AttributeSpec")
	}
	return false
}

// specOf: the element of a list of resolved Attributes a column number is taken from.
func specOf(p *Prog, v ssa.Value) (ssa.Value, ssa.Value, bool) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			if ia, ok := fa.X.(*ssa.IndexAddr); ok {
				return ia.X, ia.Index, true
			}
			if al, ok := fa.X.(*ssa.Alloc); ok {
				for _, rf := range *al.Referrers() {
					if st, ok := rf.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
						return p.elemOf(st.Val)
					}
				}
			}
		}
	case *ssa.Field:
		return p.elemOf(x.X)
	}
	return nil, nil, false
}

// constSym is the number a form is equal to, where it is just a number.
func constSym(s Sym) (float64, bool) {
	if len(s.num) == 0 {
		return 0, true
	}
	for m, n := range s.num {
		d, ok := s.den[m]
		if !ok || d.Sign() == 0 {
			return 0, false
		}
		k := new(big.Rat).Quo(n, d)
		if !s.Eq(Sym{poly{"": k}, poly{"": big.NewRat(1, 1)}}) {
			return 0, false
		}
		f, _ := k.Float64()
		return f, true
	}
	return 0, false
}

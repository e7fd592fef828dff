package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C35", Rule: "sameness means equality. (a) Every comparison made by an equality or compatibility function (Equals and Compatible of each attribute type, the data-set comparisons, and the comparing helpers they call) reads both operands, each from its own side; with one comparison assumed to differ no path answers yes, and with all of them assumed to agree no path answers no (path analysis). Equals tests the concrete type, the name and, where the type holds a list of values, its length and its elements. (b) Library code compares attributes with Equals: no == or != between two attributes; a map keyed by attribute that is held in a field is not asked about an attribute that comes from a caller's argument unless an Equals search follows a miss, and a caller's attribute is not entered in such a map in place of the object's own. (c) A filter is always given its own version of an attribute.", Run: runC35})
}

type equality struct {
	p    *Prog
	c    *Ctx
	seen map[*ssa.Function]bool
}

func runC35(c *Ctx) {
	p := c.P
	x := &equality{p: p, c: c, seen: map[*ssa.Function]bool{}}
	n := 0
	for _, t := range p.implementers(p.Type("base", "Attribute")) {
		for _, nm := range []string{"Equals", "Compatible"} {
			f := p.Method(t, nm)
			if f == nil || f.Synthetic != "" {
				continue
			}
			n++
			x.comparer(f)
			x.assertsType(f, t)
			if nm == "Equals" {
				x.components(f, t)
			}
		}
	}
	c.Floor("attribute comparisons", n, 5)
	for _, f := range p.Funcs {
		if !p.IsLibFunc(f) || f.Parent() != nil || f.Signature.Recv() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		sg := f.Signature
		if sg.Params().Len() == 2 && sg.Results().Len() == 1 && basicInfo(sg.Results().At(0).Type())&types.IsBoolean != 0 && types.Identical(sg.Params().At(0).Type(), sg.Params().At(1).Type()) && p.isGridType(sg.Params().At(0).Type()) {
			c.Count("data-set comparisons", 1)
			x.comparer(f)
		}
	}
	x.identity()
	x.lookups()
	x.ownVersion()
}

// sides: the operands of a two-sided comparison a value is computed from.
func (x *equality) sides(v ssa.Value, ps []*ssa.Parameter) map[int]bool {
	out := map[int]bool{}
	var walk func(v ssa.Value, d int)
	seen := map[ssa.Value]bool{}
	walk = func(v ssa.Value, d int) {
		if v == nil || seen[v] || d > 40 {
			return
		}
		seen[v] = true
		for k, q := range ps {
			if v == ssa.Value(q) {
				out[k] = true
				return
			}
		}
		switch y := v.(type) {
		case *ssa.Lookup:
			walk(y.X, d+1) // the key only says where
			return
		case *ssa.IndexAddr:
			walk(y.X, d+1)
			return
		case *ssa.Index:
			walk(y.X, d+1)
			return
		case *ssa.Phi:
			if lc := loopCur(y); lc != nil {
				return
			}
		case *ssa.Next:
			walk(y.Iter, d+1)
			return
		case *ssa.Call:
			// what is asked about says more than what it is asked with
			if y.Call.IsInvoke() {
				walk(y.Call.Value, d+1)
				return
			}
			if y.Call.Signature().Recv() != nil && len(y.Call.Args) > 0 {
				walk(y.Call.Args[0], d+1)
				return
			}
		case *ssa.Alloc:
			for _, s := range x.p.cellStores(y) {
				walk(s.Val, d+1)
			}
			return
		case *ssa.UnOp:
			if y.Op == token.MUL {
				if a := x.p.cellOf(y.X); a != nil {
					for _, s := range x.p.cellStores(a) {
						walk(s.Val, d+1)
					}
					return
				}
			}
		}
		if i, ok := v.(ssa.Instruction); ok {
			for _, op := range i.Operands(nil) {
				if *op != nil {
					walk(*op, d+1)
				}
			}
		}
	}
	walk(v, 0)
	return out
}

type comparison struct {
	v     ssa.Value
	i     ssa.Instruction
	a, b  ssa.Value
	agree bool // truth of v when the two are the same
	name  string
}

// comparisons: where the function compares something of one side with something of the other (or means to).
func (x *equality) comparisons(f *ssa.Function) []comparison {
	var out []comparison
	ps := f.Params
	if len(ps) != 2 {
		return nil
	}
	for _, i := range instrs(f) {
		switch y := i.(type) {
		case *ssa.BinOp:
			if y.Op != token.EQL && y.Op != token.NEQ {
				continue
			}
			if isErrorType(y.X.Type()) || isNilConst(y.X) || isNilConst(y.Y) || basicInfo(y.X.Type())&types.IsBoolean != 0 {
				continue
			}
			a, b := x.sides(y.X, ps), x.sides(y.Y, ps)
			if len(a) == 0 || len(b) == 0 {
				continue
			}
			out = append(out, comparison{y, y, y.X, y.Y, y.Op == token.EQL, y.Op.String()})
		case *ssa.Call:
			if basicInfo(y.Type())&types.IsBoolean == 0 {
				continue
			}
			as := allArgs(y)
			if len(as) != 2 {
				continue
			}
			a, b := x.sides(as[0], ps), x.sides(as[1], ps)
			if len(a) == 0 || len(b) == 0 {
				continue
			}
			nm := "?"
			if o := calleeObj(y); o != nil {
				nm = o.Name()
			}
			out = append(out, comparison{y, y, as[0], as[1], true, nm})
		}
	}
	return out
}

func (x *equality) comparer(f *ssa.Function) {
	p, c := x.p, x.c
	if x.seen[f] || len(f.Blocks) == 0 {
		return
	}
	x.seen[f] = true
	name := p.Name(f)
	cs := x.comparisons(f)
	c.Count("comparing functions", 1)
	for k, q := range cs {
		a, b := x.sides(q.a, f.Params), x.sides(q.b, f.Params)
		key := "operands:" + name + ":" + q.name
		both := !(len(a) == 1 && len(b) == 1 && a[0] == b[0])
		c.Check(both, key, p.InstrPos(q.i), "compares one operand with the other", "compares one of the two operands with itself")
		c.Count("comparisons", 1)
		// this one differs
		yes := false
		(&Explorer{P: p, MaxEdge: 16, Decide: func(v ssa.Value, pp *pathPoint) (bool, bool) {
			if v == q.v {
				return q.agree == pp.flags["again"], true
			}
			return false, false
		}, Visit: func(i ssa.Instruction, pp *pathPoint) bool {
			if r, ok := i.(*ssa.Return); ok {
				if v := pp.Resolve(r.Results[0]); x.saysYes(v, q, pp.flags["again"]) {
					yes = true
				}
				return true
			}
			if i == q.i {
				if !pp.flags["again"] {
					// the elements that follow agree; what is remembered of this one stays
					for k, v := range pp.env {
						if w := told(v, q); w != nil {
							pp.env[k] = w
						}
					}
					for k, v := range pp.cells {
						if w := told(v, q); w != nil {
							pp.cells[k] = w
						}
					}
				}
				pp.flags["again"] = true
			}
			return false
		}}).Run(q.i)
		c.Check(!yes, fmt.Sprintf("differ:%s:%s#%d", name, q.name, k), p.InstrPos(q.i), "answers no when they differ", "can answer yes although these differ")
		if call, ok := q.v.(*ssa.Call); ok {
			if g := call.Call.StaticCallee(); g != nil && p.IsLibFunc(g) {
				x.comparer(g)
			}
		}
	}
	// lists compared element by element are compared as wholes
	for _, q := range cs {
		la, lb := listOf(q.a), listOf(q.b)
		if la == nil || lb == nil || !types.Identical(la.Type(), lb.Type()) {
			continue
		}
		whole := false
		for _, r := range cs {
			ka, kb := lenArg(r.a), lenArg(r.b)
			if ka != nil && kb != nil && types.Identical(ka.Type(), la.Type()) {
				whole = true
			}
		}
		c.Check(whole, "whole:"+name+":"+q.name, p.InstrPos(q.i), "lists compared element by element are of the same length", "compares two lists element by element but not their lengths, so that one that starts like the other counts as the same")
	}
	// all agree
	no := false
	var at ssa.Instruction
	(&Explorer{P: p, MaxEdge: 16, Decide: func(v ssa.Value, pp *pathPoint) (bool, bool) {
		for _, q := range cs {
			if q.v == v {
				return q.agree, true
			}
		}
		switch y := v.(type) {
		case *ssa.Extract:
			switch y.Tuple.(type) {
			case *ssa.TypeAssert, *ssa.Lookup: // of the kind, and known to both
				if basicInfo(y.Type())&types.IsBoolean != 0 && y.Index == 1 {
					return true, true
				}
			}
		case *ssa.BinOp:
			if e, isNil, ok := nilTest(y); ok && isErrorType(e.Type()) {
				return isNil, true
			}
		}
		return false, false
	}, Visit: func(i ssa.Instruction, pp *pathPoint) bool {
		if r, ok := i.(*ssa.Return); ok {
			if k, ok := constBool(pp.Resolve(r.Results[0])); ok && !k {
				no, at = true, i
			}
			return true
		}
		return false
	}}).RunEntry(f)
	pos := p.Pos(f.Pos())
	if at != nil {
		pos = p.InstrPos(at)
	}
	c.Check(!no, "agree:"+name, pos, "answers yes when everything compared agrees", "can answer no although everything compared agrees")
}

func isAttrList(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && isAttrElem(sl.Elem())
}

// listOf: the list whose element at some index this is.
func listOf(v ssa.Value) ssa.Value {
	for k := 0; k < 8; k++ {
		switch y := v.(type) {
		case *ssa.UnOp:
			if y.Op != token.MUL {
				return nil
			}
			v = y.X
		case *ssa.IndexAddr:
			if _, ok := y.X.Type().Underlying().(*types.Slice); ok {
				return y.X
			}
			return nil
		case *ssa.MakeInterface:
			v = y.X
		case *ssa.ChangeInterface:
			v = y.X
		case *ssa.Convert:
			v = y.X
		default:
			return nil
		}
	}
	return nil
}

func lenArg(v ssa.Value) ssa.Value {
	if call, ok := v.(*ssa.Call); ok {
		if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return call.Call.Args[0]
		}
	}
	return nil
}

// told: what a value that follows from the comparison was, given that the two differed.
func told(v ssa.Value, q comparison) ssa.Value {
	mk := func(b bool) ssa.Value { return ssa.NewConst(constant.MakeBool(b), types.Typ[types.Bool]) }
	if v == q.v {
		return mk(!q.agree)
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT && u.X == q.v {
		return mk(q.agree)
	}
	return nil
}

// saysYes: the value returned is true, or may be although q differs (again: it was another element that differed).
func (x *equality) saysYes(v ssa.Value, q comparison, again bool) bool {
	if k, ok := constBool(v); ok {
		return k
	}
	if v == q.v {
		return q.agree == again
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT && u.X == q.v {
		return q.agree != again
	}
	return !x.p.backSlice(v)[q.v] // decided by something else
}

// assertsType: another kind of attribute is never the same.
func (x *equality) assertsType(f *ssa.Function, t *types.Named) {
	p, c := x.p, x.c
	key := "kind:" + p.Name(f)
	var oks []ssa.Value
	wrong := ""
	for g := range p.family(f) {
		for _, i := range instrs(g) {
			ta, ok := i.(*ssa.TypeAssert)
			if !ok {
				continue
			}
			n := namedOf(deref(ta.AssertedType))
			if n == nil {
				continue
			}
			if n.Obj() != t.Obj() {
				if types.Implements(types.NewPointer(n), p.Type("base", "Attribute").Underlying().(*types.Interface)) {
					wrong = n.Obj().Name()
				}
				continue
			}
			for _, r := range *ta.Referrers() {
				if e, ok := r.(*ssa.Extract); ok && e.Index == 1 {
					oks = append(oks, e)
				}
			}
		}
	}
	if wrong != "" {
		c.Bad(key, p.Pos(f.Pos()), "accepts another kind of attribute ("+wrong+")")
		return
	}
	if len(oks) == 0 {
		// decided through GetType or reflection: not judged
		uses := false
		for _, ci := range calls(f) {
			if methodNamed(ci, "GetType") || isCallTo(ci, "reflect", "", "TypeOf") {
				uses = true
			}
		}
		helper := false
		for _, ci := range calls(f) {
			for _, g := range p.Callees(ci) {
				if g == f || !p.IsLibFunc(g) || ci.Common().IsInvoke() {
					continue
				}
				for _, i := range instrs(g) {
					switch y := i.(type) {
					case *ssa.TypeAssert:
						helper = true
					case *ssa.Call:
						if methodNamed(y, "GetType") || isCallTo(y, "reflect", "", "TypeOf") {
							helper = true
						}
					}
				}
			}
		}
		c.Check(uses || helper, key, p.Pos(f.Pos()), "the kind is tested in another way", "does not test which kind of attribute the other one is")
		return
	}
	yes := false
	for _, o := range oks {
		ev := o.(ssa.Instruction)
		if ev.Parent() != f {
			continue
		}
		(&Explorer{P: p, Decide: func(v ssa.Value, pp *pathPoint) (bool, bool) {
			if v == o {
				return false, true
			}
			return false, false
		}, Visit: func(i ssa.Instruction, pp *pathPoint) bool {
			if r, ok := i.(*ssa.Return); ok {
				v := pp.Resolve(r.Results[0])
				if k, ok := constBool(v); ok && k {
					yes = true
				}
				return true
			}
			return false
		}}).Run(ev)
	}
	c.Check(!yes, key, p.Pos(f.Pos()), "another kind of attribute is never the same", "can answer yes for another kind of attribute")
}

// components: name and values take part.
func (x *equality) components(f *ssa.Function, t *types.Named) {
	p, c := x.p, x.c
	fs := map[*ssa.Function]bool{}
	for g := range p.family(f) {
		fs[g] = true
	}
	for _, q := range x.comparisons(f) {
		if call, ok := q.v.(*ssa.Call); ok {
			if g := call.Call.StaticCallee(); g != nil && p.IsLibFunc(g) {
				fs[g] = true
			}
		}
	}
	name, length, elems := false, false, false
	mention := func(v ssa.Value) (isName, isLen, isElem bool) {
		for w := range p.backSlice(v) {
			switch y := w.(type) {
			case *ssa.FieldAddr:
				fv := fieldVar(y.X.Type(), y.Field)
				if fv != nil && strings.EqualFold(fv.Name(), "name") {
					isName = true
				}
			case *ssa.Call:
				if methodNamed(y, "GetName") {
					isName = true
				}
				if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					isLen = true
				}
			case *ssa.IndexAddr:
				isElem = true
			}
		}
		return
	}
	for g := range fs {
		for _, i := range instrs(g) {
			switch y := i.(type) {
			case *ssa.BinOp:
				if y.Op != token.EQL && y.Op != token.NEQ {
					continue
				}
				n1, l1, e1 := mention(y.X)
				n2, l2, e2 := mention(y.Y)
				isStr := basicInfo(y.X.Type())&types.IsString != 0
				name = name || n1 && n2 && isStr
				length = length || l1 && l2 && !isStr
				elems = elems || e1 && e2
			case *ssa.Call:
				if o := calleeObj(y); o != nil && o.Pkg() != nil && (o.Pkg().Path() == "reflect" || o.Pkg().Path() == "slices" || o.Pkg().Path() == "strings") {
					length, elems = true, true
					for _, a := range y.Call.Args {
						if n, _, _ := mention(a); n {
							name = true
						}
					}
				}
			}
		}
	}
	c.Check(name, "name:"+p.Name(f), p.Pos(f.Pos()), "the names are compared", "does not compare the names, so that different attributes count as the same")
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for k := 0; k < st.NumFields(); k++ {
		if _, ok := st.Field(k).Type().Underlying().(*types.Slice); ok {
			c.Check(length && elems, "values:"+p.Name(f), p.Pos(f.Pos()), "the values are compared, number and order", "does not compare all the values, so that the same bytes can mean different values in attributes that count as the same")
		}
	}
}

// ---- (b)

func (x *equality) isAttr(t types.Type) bool {
	n := namedOf(deref(t))
	if n == nil {
		return false
	}
	a := p0type(x.p)
	if n.Obj() == a.Obj() {
		return true
	}
	it := a.Underlying().(*types.Interface)
	_, ptr := t.Underlying().(*types.Pointer)
	return ptr && types.Implements(t, it)
}

func p0type(p *Prog) *types.Named { return p.Type("base", "Attribute") }

func (x *equality) identity() {
	p, c := x.p, x.c
	n := 0
	for _, f := range p.Funcs {
		if !p.IsLibFunc(owner(f)) {
			continue
		}
		for _, ci := range calls(f) {
			if methodNamed(ci, "Equals") {
				n++
			}
		}
		for _, i := range instrs(f) {
			b, ok := i.(*ssa.BinOp)
			if !ok || b.Op != token.EQL && b.Op != token.NEQ || isNilConst(b.X) || isNilConst(b.Y) {
				continue
			}
			if x.isAttr(b.X.Type()) && x.isAttr(b.Y.Type()) {
				c.Bad("identity:"+p.Name(owner(f)), p.InstrPos(i), "attributes are compared by identity: equal attributes of another data set are not recognised")
			}
		}
	}
	c.Floor("comparisons with Equals", n, 10)
	c.Ok("identity", "-", "no other comparison of attributes")
}

// foreign: the attribute comes from an argument of an exported operation.
func (x *equality) foreign(v ssa.Value) *ssa.Parameter {
	p := x.p
	var out *ssa.Parameter
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, up int)
	walk = func(v ssa.Value, up int) {
		if v == nil || seen[v] || out != nil {
			return
		}
		seen[v] = true
		switch y := v.(type) {
		case *ssa.Parameter:
			f := y.Parent()
			if len(f.Params) > 0 && f.Signature.Recv() != nil && y == f.Params[0] {
				return
			}
			if f.Name() == "Transform" || !(x.isAttr(y.Type()) || p.isGridType(y.Type()) || isAttrElem(y.Type()) || isAttrList(y.Type())) {
				return
			}
			if f.Object() != nil && f.Object().Exported() {
				out = y
				return
			}
			// an attribute handed to a helper
			if up < 4 && p.IsLibFunc(f) {
				for _, ci := range p.callers[f] {
					if a := paramArg(ci, y); a != nil {
						walk(a, up+1)
					}
				}
			}
			return
		case *ssa.FreeVar:
			for _, b := range p.freeVarBindings(y) {
				walk(b, up)
			}
			return
		case *ssa.Alloc:
			for _, s := range p.cellStores(y) {
				walk(s.Val, up)
			}
			for _, s := range elementStores(y) {
				walk(s.Val, up)
			}
			return
		case *ssa.Call:
			// an object answers with its own version of what it is asked about
			if recv := recvOf(y); recv != nil && p.isGridType(recv.Type()) {
				walk(recv, up)
				return
			}
		case *ssa.Lookup:
			walk(y.X, up)
			return
		case *ssa.UnOp:
			if y.Op == token.MUL {
				if a := p.cellOf(y.X); a != nil {
					walk(a, up)
					return
				}
			}
		case *ssa.MakeSlice:
			for _, s := range elementStores(y) {
				walk(s.Val, up)
			}
			return
		}
		if i, ok := v.(ssa.Instruction); ok {
			for _, op := range i.Operands(nil) {
				if *op != nil {
					walk(*op, up)
				}
			}
		}
	}
	walk(v, 0)
	return out
}

func (x *equality) lookups() {
	p, c := x.p, x.c
	maps := 0
	for _, f := range p.Funcs {
		if !p.IsLibFunc(owner(f)) {
			continue
		}
		for _, i := range instrs(f) {
			switch y := i.(type) {
			case *ssa.Lookup:
				mt, ok := y.X.Type().Underlying().(*types.Map)
				if !ok || !x.isAttr(mt.Key()) {
					continue
				}
				fv, _ := fieldLoad(y.X)
				if fv == nil {
					continue
				}
				maps++
				q := x.foreign(y.Index)
				if q != nil && x.addition(q.Parent()) {
					continue
				}
				if q == nil {
					continue
				}
				key := "lookup:" + p.Name(owner(f)) + ":" + fv.Name()
				c.Check(x.searches(y), key, p.InstrPos(y), "a miss is followed by a search with Equals", "the map "+fv.Name()+" knows attributes by identity, but is asked about one that comes from an argument ("+q.Name()+"): an equal attribute is not found")
			case *ssa.MapUpdate:
				mt, ok := y.Map.Type().Underlying().(*types.Map)
				if !ok || !x.isAttr(mt.Key()) {
					continue
				}
				fv, _ := fieldLoad(y.Map)
				if fv == nil {
					continue
				}
				maps++
				q, ok := y.Key.(*ssa.Parameter)
				if !ok || !isExported(q.Parent()) || x.addition(q.Parent()) {
					continue
				}
				c.Bad("entry:"+p.Name(owner(f))+":"+fv.Name(), p.InstrPos(y), "the caller's version of an attribute is entered in "+fv.Name()+", which knows attributes by identity: the object's own version is not found there")
			}
		}
	}
	c.Count("uses of maps keyed by attribute", maps)
	c.Ok("lookups", "-", "attributes from arguments are found by equality")
}

// addition: the operation makes the attribute its own.
func (x *equality) addition(f *ssa.Function) bool {
	return f.Signature.Recv() != nil && x.p.isGridType(f.Signature.Recv().Type()) && (f.Name() == "AddAttribute" || f.Name() == "AddAttributeToAttributeGroup")
}

// searches: after a miss, the function still compares with Equals.
func (x *equality) searches(l *ssa.Lookup) bool {
	found := false
	miss := map[ssa.Value]bool{}
	if l.CommaOk {
		for _, r := range *l.Referrers() {
			if e, ok := r.(*ssa.Extract); ok && e.Index == 1 {
				miss[e] = true
			}
		}
	} else {
		miss[l] = true
	}
	(&Explorer{P: x.p, Decide: func(v ssa.Value, pp *pathPoint) (bool, bool) {
		if miss[v] {
			return false, true
		}
		return false, false
	}, Visit: func(i ssa.Instruction, pp *pathPoint) bool {
		ci, ok := i.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if methodNamed(ci, "Equals") {
			found = true
			return true
		}
		for _, g := range x.p.Callees(ci) {
			if !x.p.IsLibFunc(g) || len(g.Blocks) == 0 || ci.Common().IsInvoke() {
				continue
			}
			for _, d := range calls(g) {
				if methodNamed(d, "Equals") {
					found = true
					return true
				}
			}
		}
		return false
	}}).Run(l)
	return found
}

// ---- (c)

// ownVersion: the attribute handed to Transform is the one the filter named, not an equal one of the source.
func (x *equality) ownVersion() {
	p, c := x.p, x.c
	fa := p.Type("base", "FilteredAttribute")
	if fa == nil {
		return
	}
	n := 0
	for _, t := range p.gridTypes() {
		for k := 0; k < t.NumMethods(); k++ {
			m := p.SSA.FuncValue(t.Method(k))
			if m == nil {
				continue
			}
			for f := range p.family(m) {
				for _, ci := range calls(f) {
					if !methodNamed(ci, "Transform") || !ci.Common().IsInvoke() {
						continue
					}
					n++
					own := x.fromOld(argsOf(ci)[0], fa, 0, map[ssa.Value]bool{})
					c.Check(own, "own:"+p.Name(m), p.InstrPos(ci.(ssa.Instruction)), "the filter is given the attribute it named", "the filter is given the data set's version of an attribute; filters know their attributes by identity, so an equal one is not recognised and its values are not converted")
				}
			}
		}
	}
	c.Floor("filter applications", n, 2)
}

// fromOld: somewhere on its way the attribute is taken from the filter's own list of conversions.
func (x *equality) fromOld(v ssa.Value, fa *types.Named, d int, seen map[ssa.Value]bool) bool {
	if v == nil || d > 30 || seen[v] {
		return false
	}
	seen[v] = true
	p := x.p
	isOld := func(t types.Type, k int) bool {
		n := namedOf(deref(t))
		if n == nil || n.Obj() != fa.Obj() {
			return false
		}
		st := fa.Underlying().(*types.Struct)
		return st.Field(k).Name() == "Old"
	}
	switch y := v.(type) {
	case *ssa.Field:
		if isOld(y.X.Type(), y.Field) {
			return true
		}
		return x.fromOld(y.X, fa, d+1, seen)
	case *ssa.UnOp:
		if f, ok := y.X.(*ssa.FieldAddr); ok {
			if isOld(f.X.Type(), f.Field) {
				return true
			}
			// a field of a specification held in a local or an element
			if a := p.cellOf(f.X); a != nil {
				for _, r := range *a.Referrers() {
					if g, ok := r.(*ssa.FieldAddr); ok && g.Field == f.Field {
						for _, q := range *g.Referrers() {
							if st, ok := q.(*ssa.Store); ok && st.Addr == ssa.Value(g) && x.fromOld(st.Val, fa, d+1, seen) {
								return true
							}
						}
					}
				}
			}
			return x.fromOld(f.X, fa, d+1, seen)
		}
		if a := p.cellOf(y.X); a != nil {
			for _, s := range p.cellStores(a) {
				if x.fromOld(s.Val, fa, d+1, seen) {
					return true
				}
			}
			// elements of the list held in the cell
			for _, al := range p.aliasesOfCell(a) {
				for _, r := range *al.Referrers() {
					if l, ok := r.(*ssa.UnOp); ok && l != y {
						for _, st := range elementStores(l) {
							if x.fromOld(st.Val, fa, d+1, seen) {
								return true
							}
						}
					}
				}
			}
			for _, r := range *a.Referrers() {
				if g, ok := r.(*ssa.FieldAddr); ok {
					for _, q := range *g.Referrers() {
						if st, ok := q.(*ssa.Store); ok && st.Addr == ssa.Value(g) && x.fromOld(st.Val, fa, d+1, seen) {
							return true
						}
					}
				}
			}
			return false
		}
		return x.fromOld(y.X, fa, d+1, seen)
	case *ssa.IndexAddr:
		return x.fromOld(y.X, fa, d+1, seen)
	case *ssa.MakeSlice:
		for _, st := range elementStores(y) {
			if x.fromOld(st.Val, fa, d+1, seen) {
				return true
			}
		}
		return false
	case *ssa.Slice:
		return x.fromOld(y.X, fa, d+1, seen)
	case *ssa.FreeVar:
		for _, b := range p.freeVarBindings(y) {
			if x.fromOld(b, fa, d+1, seen) {
				return true
			}
		}
		return false
	case *ssa.Alloc:
		for _, s := range p.cellStores(y) {
			if x.fromOld(s.Val, fa, d+1, seen) {
				return true
			}
		}
		return false
	case *ssa.Phi:
		for _, e := range y.Edges {
			if x.fromOld(e, fa, d+1, seen) {
				return true
			}
		}
		return false
	case *ssa.Extract:
		if call, ok := y.Tuple.(*ssa.Call); ok {
			return x.fromCall(call, y.Index, fa, d, seen)
		}
	case *ssa.Call:
		if methodNamed(y, "GetAttribute") {
			if as := allArgs(y); len(as) == 1 && x.fromOld(as[0], fa, d+1, seen) {
				return true
			}
		}
		return x.fromCall(y, 0, fa, d, seen)
	case *ssa.Parameter:
		if f := y.Parent(); !isExported(f) {
			for _, ci := range p.callers[f] {
				if a := paramArg(ci, y); a != nil && x.fromOld(a, fa, d+1, seen) {
					return true
				}
			}
		}
	}
	return false
}

func elementStores(v ssa.Value) (out []*ssa.Store) {
	if v.Referrers() == nil {
		return
	}
	for _, r := range *v.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, q := range *ia.Referrers() {
				if st, ok := q.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
					out = append(out, st)
				}
			}
		}
	}
	return
}

func (x *equality) fromCall(call *ssa.Call, k int, fa *types.Named, d int, seen map[ssa.Value]bool) bool {
	for _, g := range x.p.Callees(call) {
		if call.Call.IsInvoke() || !x.p.IsLibFunc(g) {
			continue
		}
		for _, r := range returns(g) {
			if k < len(r.Results) && x.fromOld(r.Results[k], fa, d+1, seen) {
				return true
			}
		}
	}
	return false
}

// paramArg: the argument given for a parameter.
func paramArg(ci ssa.CallInstruction, q *ssa.Parameter) ssa.Value {
	for k, o := range q.Parent().Params {
		if o == q {
			return argFor(ci, q.Parent(), k)
		}
	}
	return nil
}

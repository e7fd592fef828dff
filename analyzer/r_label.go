package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C19", Rule: "the label stays out of the features. (a) The set operations on attribute lists, decided per element by path analysis with the comparison assumed to hold or to fail: a difference never keeps an element equal to one of the second list and always keeps the others, an intersection the reverse; selectors of non-class attributes are differences of all attributes and the class attributes, matched with Equals. (b) In learning code every list that may still hold the class attribute (from AllAttributes or ResolveAllAttributes) is followed forwards through slices, elements, specifications, fields, parameters and results: it may be subtracted from, sorted out element by element, or passed on whole to a view, but no cell is read through it, no routine of the base package is asked about one of its elements, no selection of it is kept and its length is not compared with a setting. (c) Attribute groups whose raw storage enters a distance are those found to hold no class attribute.", Run: runC19})
}

type label struct {
	p    *Prog
	c    *Ctx
	sel  *twins
	seen map[ssa.Value]int // mixed values; bit 0: the whole list, bit 1: part of it
	work []ssa.Value
	n    map[string]int
	done map[string]bool
}

// learning: the function belongs to code that learns or predicts (everything except the data structures, the filters,
// which convert whole data sets, and the evaluation of finished predictions).
func (x *label) learning(f *ssa.Function) bool {
	if f == nil || !x.p.IsLibFunc(owner(f)) {
		return false
	}
	pk := owner(f).Package()
	if pk == nil {
		return false
	}
	path := pk.Pkg.Path()
	for _, s := range []string{"/base", "/filters", "/evaluation", "/utilities", "/kdtree"} {
		if strings.HasSuffix(path, s) {
			return false
		}
	}
	return true
}

func runC19(c *Ctx) {
	p := c.P
	x := &label{p: p, c: c, sel: &twins{p: p, sel: map[ssa.Value]string{}}, seen: map[ssa.Value]int{}, n: map[string]int{}, done: map[string]bool{}}
	x.setOperations()
	x.rawStorage()

	const whole = 1
	sources := 0
	for _, f := range p.Funcs {
		if !x.learning(f) {
			continue
		}
		for _, ci := range calls(f) {
			v, ok := ci.(*ssa.Call)
			if !ok {
				continue
			}
			if methodNamed(ci, "AllAttributes") || isCallTo(ci, "base", "", "ResolveAllAttributes") || isCallTo(ci, "base", "", "CheckCompatible") {
				sources++
				c.Count("lists of all attributes in learning code", 1)
				x.add(v, whole)
			}
			for _, nm := range []string{"NonClassAttributes", "NonClassFloatAttributes"} {
				if isCallTo(ci, "base", "", nm) {
					c.Count("feature selections", 1)
				}
			}
		}
	}
	for len(x.work) > 0 {
		v := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.flow(v)
	}
	c.Floor("lists of all attributes in learning code", sources, 4)
	// what was decided about the sources
	bad := map[string]bool{}
	for k := range x.done {
		bad[k] = true
	}
	for _, f := range p.Funcs {
		if !x.learning(f) {
			continue
		}
		for _, ci := range calls(f) {
			if methodNamed(ci, "AllAttributes") || isCallTo(ci, "base", "", "ResolveAllAttributes") || isCallTo(ci, "base", "", "CheckCompatible") || isCallTo(ci, "base", "", "NonClassAttributes") || isCallTo(ci, "base", "", "NonClassFloatAttributes") {
				if k := "features:" + p.Name(owner(f)); !bad[k] {
					c.Ok(k, p.InstrPos(ci.(ssa.Instruction)), "the class attributes do not get among the features")
				}
			}
		}
	}
}

func (x *label) add(v ssa.Value, m int) {
	if v == nil || x.seen[v]&m == m {
		return
	}
	x.seen[v] |= m
	x.work = append(x.work, v)
}

func (x *label) bad(i ssa.Instruction, note string) {
	k := "features:" + x.p.Name(owner(i.Parent()))
	if x.done[k+note] {
		return
	}
	x.done[k+note] = true
	x.done[k] = true
	x.c.Bad(k, x.p.InstrPos(i), note)
}

func isAttrElem(t types.Type) bool {
	n := namedOf(t)
	return n != nil && (n.Obj().Name() == "Attribute" || n.Obj().Name() == "AttributeSpec")
}

// separated: the element is compared with the class attributes, one by one.
func (x *label) separated(e ssa.Value) bool {
	for _, r := range *e.Referrers() {
		ci, ok := r.(ssa.CallInstruction)
		if !ok {
			continue
		}
		as := allArgs(ci)
		if len(as) != 2 {
			continue
		}
		other := as[0]
		if other == e {
			other = as[1]
		}
		if methodNamed(ci, "Equals") && x.isClass(other) {
			return true
		}
		// a membership helper: (list, element) or (element, list)
		if _, sl := other.Type().Underlying().(*types.Slice); sl && x.sel.selection(other, 0) == "class" {
			return true
		}
	}
	return false
}

// isClass: an element of a list of class attributes.
func (x *label) isClass(v ssa.Value) bool {
	n := 0
	for _, l := range x.p.Trace(v, TraceOpt{NoParams: true, Stop: func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return false
		}
		_, ok = u.X.(*ssa.IndexAddr)
		return ok
	}}) {
		u, ok := l.(*ssa.UnOp)
		if !ok {
			return false
		}
		ia, ok := u.X.(*ssa.IndexAddr)
		if !ok || x.sel.selection(ia.X, 0) != "class" {
			return false
		}
		n++
	}
	return n > 0
}

func (x *label) flow(v ssa.Value) {
	p, m := x.p, x.seen[v]
	if v.Referrers() == nil {
		return
	}
	if isAttrElem(v.Type()) && x.separated(v) {
		x.c.Count("elements sorted out one by one", 1)
		return
	}
	for _, r := range *v.Referrers() {
		switch i := r.(type) {
		case *ssa.Phi, *ssa.ChangeType, *ssa.MakeInterface, *ssa.ChangeInterface:
			x.add(i.(ssa.Value), m)
		case *ssa.TypeAssert:
			if !i.CommaOk {
				x.add(i, m)
				continue
			}
			for _, e := range *i.Referrers() {
				if e, ok := e.(*ssa.Extract); ok && e.Index == 0 {
					x.add(e, m)
				}
			}
		case *ssa.Slice:
			if i.Low == nil && i.High == nil {
				x.add(i, m)
			} else {
				x.add(i, 2)
			}
		case *ssa.IndexAddr:
			if i.X == v {
				if a, ok := v.(*ssa.Alloc); ok && a.Comment == "varargs" {
					continue
				}
				for _, l := range *i.Referrers() {
					switch l := l.(type) {
					case *ssa.UnOp:
						if l.Op == token.MUL {
							x.add(l, 2)
						}
					case *ssa.FieldAddr, *ssa.Call:
						if c, ok := l.(ssa.CallInstruction); ok {
							x.call(v, c, 2)
						}
					}
				}
			}
		case *ssa.Index:
			x.add(i, 2)
		case *ssa.Field:
			x.add(i, m)
		case *ssa.Store:
			if i.Val == v {
				x.store(i, m)
			}
		case *ssa.MapUpdate:
			if i.Key == v && isAttrElem(v.Type()) {
				x.bad(i, "an attribute taken from a list that still holds the class attributes is filed among the features")
			}
			// as a value: judged where it is looked up
			if i.Value == v && !isAttrElem(v.Type()) {
				if fv, _ := fieldLoad(i.Map); fv != nil {
					x.field(fv, m)
				} else if i.Map.Referrers() != nil {
					for _, q := range *i.Map.Referrers() {
						if l, ok := q.(*ssa.Lookup); ok && l.X == i.Map {
							x.lookup(l, m)
						}
					}
				}
			}
		case *ssa.Return:
			f := i.Parent()
			for k, res := range i.Results {
				if res != v {
					continue
				}
				for _, ci := range p.callers[f] {
					if !x.learning(ci.Parent()) {
						continue
					}
					if call, ok := ci.(*ssa.Call); ok {
						if len(i.Results) == 1 {
							x.add(call, m)
						} else if e := resultExtract(call, k); e != nil {
							x.add(e, m)
						}
					}
				}
			}
		case *ssa.MakeClosure:
			fn := i.Fn.(*ssa.Function)
			for k, b := range i.Bindings {
				if b == v {
					x.add(fn.FreeVars[k], m)
				}
			}
		case *ssa.UnOp:
			// load of a cell that holds it (captured variable)
			if i.Op == token.MUL && i.X == v {
				x.add(i, m)
			}
		case *ssa.BinOp:
		case ssa.CallInstruction:
			x.call(v, i, m)
		}
	}
}

func (x *label) lookup(l *ssa.Lookup, m int) {
	if !l.CommaOk {
		x.add(l, m)
		return
	}
	for _, e := range *l.Referrers() {
		if e, ok := e.(*ssa.Extract); ok && e.Index == 0 {
			x.add(e, m)
		}
	}
}

// field: loads of the field, and of entries of a map held in it.
func (x *label) field(fv *types.Var, m int) {
	for _, f := range x.p.Funcs {
		if !x.learning(f) {
			continue
		}
		for _, i := range instrs(f) {
			switch v := i.(type) {
			case *ssa.Lookup:
				if g, _ := fieldLoad(v.X); g == fv {
					x.lookup(v, m)
				}
			case *ssa.UnOp:
				if g, _ := fieldLoad(v); g == fv {
					if _, isMap := v.Type().Underlying().(*types.Map); !isMap {
						x.add(v, m)
					}
				}
			}
		}
	}
}

func (x *label) store(st *ssa.Store, m int) {
	switch a := st.Addr.(type) {
	case *ssa.FieldAddr:
		if fv := fieldVar(a.X.Type(), a.Field); fv != nil {
			if al, ok := a.X.(*ssa.Alloc); ok && !al.Heap {
				for _, r := range *al.Referrers() {
					if fa, ok := r.(*ssa.FieldAddr); ok && fa.Field == a.Field {
						for _, q := range *fa.Referrers() {
							if u, ok := q.(*ssa.UnOp); ok {
								x.add(u, m)
							}
						}
					}
				}
				return
			}
			x.field(fv, m)
		}
	case *ssa.IndexAddr:
		// an element of a list being built
		base := a.X
		if al, ok := base.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if s, ok := r.(*ssa.Slice); ok {
					x.add(s, 2)
				}
			}
			return
		}
		mm := 2
		if lc := loopCur(a.Index); lc != nil && m&2 != 0 && x.sameIndex(st.Val, a.Index) {
			mm = 2
		}
		x.add(base, mm)
	case *ssa.Alloc:
		for _, u := range *a.Referrers() {
			switch u := u.(type) {
			case *ssa.UnOp:
				x.add(u, m)
			case *ssa.MakeClosure:
				fn := u.Fn.(*ssa.Function)
				for k, b := range u.Bindings {
					if b == ssa.Value(a) {
						for _, q := range *fn.FreeVars[k].Referrers() {
							if l, ok := q.(*ssa.UnOp); ok {
								x.add(l, m)
							}
						}
					}
				}
			}
		}
	}
}

func (x *label) sameIndex(v, idx ssa.Value) bool { return true }

// sortedOut: the callback looks the attribute of each value it is given up in a map.
func (x *label) sortedOut(ci ssa.CallInstruction) bool {
	for _, a := range argsOf(ci) {
		mc, ok := a.(*ssa.MakeClosure)
		if !ok {
			continue
		}
		for g := range x.p.family(mc.Fn.(*ssa.Function)) {
			for _, i := range instrs(g) {
				if l, ok := i.(*ssa.Lookup); ok {
					for w := range x.p.backSlice(l.Index) {
						if c, ok := w.(*ssa.Call); ok && methodNamed(c, "GetAttribute") {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (x *label) call(v ssa.Value, ci ssa.CallInstruction, m int) {
	p := x.p
	cc := ci.Common()
	i := ci.(ssa.Instruction)
	call, _ := ci.(*ssa.Call)
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if call != nil {
				if cc.Args[0] == v && m == 1 {
					x.add(call, 3)
				} else {
					x.add(call, 2)
				}
			}
		case "copy":
			if len(cc.Args) == 2 && cc.Args[1] == v {
				x.add(cc.Args[0], m)
			}
		case "len":
			if call != nil {
				x.length(call)
			}
		}
		return
	}
	o := calleeObj(ci)
	if o == nil {
		return
	}
	if cc.IsInvoke() && cc.Value == v || cc.Signature().Recv() != nil && len(cc.Args) > 0 && cc.Args[0] == v && !cc.IsInvoke() {
		// a method of the element itself
		if call != nil && o.Name() == "GetAttribute" {
			x.add(call, m)
		}
		return
	}
	inBase := o.Pkg() != nil && strings.HasSuffix(o.Pkg().Path(), "/base")
	if !inBase {
		for _, g := range p.Callees(ci) {
			if !x.learning(g) {
				continue
			}
			as := allArgs(ci)
			off := 0
			if cc.IsInvoke() {
				off = 0
			}
			for k, a := range as {
				if a == v && k-off < len(g.Params) {
					x.add(g.Params[k-off], m)
				}
			}
		}
		return
	}
	switch name := o.Name(); name {
	case "AttributeDifference", "AttributeDifferenceReferences":
		if call != nil && cc.Args[0] == v {
			if strings.HasSuffix(name, "References") {
				x.bad(i, "the class attributes are left out by identity, so that an equal one stays among the features")
				return
			}
			if s := x.sel.selection(cc.Args[1], 0); s != "class" {
				if strings.Contains(s, "class") || s == "?" {
					return
				}
				x.add(call, 2)
			}
		}
	case "AttributeIntersect", "AttributeIntersectReferences":
		if call != nil && x.seen[cc.Args[0]] != 0 && x.seen[cc.Args[1]] != 0 {
			x.add(call, 2)
		}
	case "ResolveAttributes":
		if call != nil {
			x.add(call, m)
		}
	case "GetAttribute":
		if call != nil {
			if call.Common().Signature().Results().Len() == 2 {
				if e := resultExtract(call, 0); e != nil {
					x.add(e, m)
				}
			}
		}
	case "NewInstancesViewFromAttrs", "NewInstancesViewFromVisible":
		if m&2 != 0 {
			x.bad(i, "features selected from a list that still holds the class attributes are given to a learner")
		}
	case "MapOverRows":
		if !x.sortedOut(ci) {
			x.bad(i, "every attribute is read, the class attributes included, as if it were a feature")
		} else {
			x.c.Count("values sorted out by attribute", 1)
		}
	case "Get":
		x.bad(i, "a cell is read through a list that still holds the class attributes")
	case "Set", "AddAttribute", "AddClassAttribute", "RemoveClassAttribute", "Equals", "Compatible", "String", "GetName", "GetType":
	case "WriteAttributesForKey", "WriteAttributeForKey", "WriteAttributes", "ReplaceDeserializedAttributeWithVersionFromInstances", "ReplaceDeserializedAttributesWithVersionsFromInstances":
	default:
		x.bad(i, fmt.Sprintf("%s is asked about an attribute taken from a list that still holds the class attributes", name))
	}
}

// length: the number of attributes with the class among them, compared with a setting.
func (x *label) length(n *ssa.Call) {
	for _, r := range *n.Referrers() {
		b, ok := r.(*ssa.BinOp)
		if !ok {
			continue
		}
		o := b.X
		if o == ssa.Value(n) {
			o = b.Y
		}
		if fv, _ := fieldLoad(o); fv != nil {
			x.bad(b, fmt.Sprintf("the number of all attributes, the class attributes included, is compared with the setting %s", fv.Name()))
		}
	}
}

// ---- (a) set operations

func (x *label) setOperations() {
	p, c := x.p, x.c
	n := 0
	for _, s := range []struct {
		name string
		keep bool // keeps elements that match
	}{{"AttributeDifference", false}, {"AttributeDifferenceReferences", false}, {"AttributeIntersect", true}, {"AttributeIntersectReferences", true}, {"NonClassFloatAttributes", false}, {"NonClassAttributes", false}} {
		f := p.Func("base." + s.name)
		key := "set:base." + s.name
		if f == nil {
			continue
		}
		n++
		sites := 0
		for _, ap := range x.elementAppends(f) {
			sites++
			x.membership(f, ap, s.keep, key, strings.HasPrefix(s.name, "NonClass"))
		}
		if sites == 0 {
			// delegates
			ok, why := true, ""
			for _, r := range returns(f) {
				sel := x.sel.selection(r.Results[0], 0)
				if strings.HasPrefix(s.name, "NonClass") {
					if sel != "non-class attributes" && sel != "float non-class attributes" && sel != "?" {
						ok, why = false, sel
					}
				}
			}
			for _, r := range returns(f) {
				d, isCall := r.Results[0].(*ssa.Call)
				if !isCall || !isCallTo(d, "base", "", "AttributeDifference") {
					continue
				}
				a, b := x.sel.selection(d.Call.Args[0], 0), x.sel.selection(d.Call.Args[1], 0)
				if a != "all" && a != "?" || b != "class" && b != "?" || x.part(d.Call.Args[1]) {
					ok, why = false, "the difference of "+a+" and "+b
				}
			}
			for _, ci := range calls(f) {
				if o := calleeObj(ci); o != nil && strings.HasSuffix(o.Name(), "References") {
					ok, why = false, "a list from which the class attributes are left out by identity, so that an equal one stays in it"
				}
			}
			c.Check(ok, key, p.Pos(f.Pos()), "all attributes without the class attributes", "returns "+why)
		}
	}
	c.Floor("set operations on attribute lists", n, 5)
}

// part: the list leaves out some elements of another.
func (x *label) part(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	if !ok {
		return false
	}
	if k, isK := constInt(s.Low); s.Low != nil && !(isK && k == 0) {
		return true
	}
	return s.High != nil
}

// elementAppends: the places where an element of a list is added to the result.
func (x *label) elementAppends(f *ssa.Function) []*ssa.Call {
	var out []*ssa.Call
	for g := range x.p.family(f) {
		if g != f && owner(g) != f {
			continue
		}
		for _, i := range instrs(g) {
			c, ok := i.(*ssa.Call)
			if !ok {
				continue
			}
			if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" {
				continue
			}
			if els := varargs(c); len(els) == 1 && elemOf(els[0]) != nil {
				out = append(out, c)
			}
		}
	}
	return out
}

// elemOf: the indexed list a value was read from.
func elemOf(v ssa.Value) *ssa.IndexAddr {
	for k := 0; k < 6; k++ {
		switch y := v.(type) {
		case *ssa.ChangeInterface:
			v = y.X
		case *ssa.MakeInterface:
			v = y.X
		case *ssa.TypeAssert:
			v = y.X
		case *ssa.Extract:
			t, ok := y.Tuple.(*ssa.TypeAssert)
			if !ok {
				return nil
			}
			v = t.X
		case *ssa.UnOp:
			ia, _ := y.X.(*ssa.IndexAddr)
			return ia
		default:
			return nil
		}
	}
	return nil
}

// membership: the element is added exactly if it matches (keep) or does not match an element of the other list.
func (x *label) membership(f *ssa.Function, ap *ssa.Call, keep bool, key string, nonClass bool) {
	p, c := x.p, x.c
	g := ap.Parent()
	el := varargs(ap)[0]
	ia := elemOf(el)
	load := ia.Referrers()
	var elem ssa.Value
	for _, r := range *load {
		if u, ok := r.(*ssa.UnOp); ok {
			elem = u
		}
	}
	pos := p.InstrPos(ap)
	if elem == nil {
		return
	}
	isElem := func(v ssa.Value) bool {
		if v == elem {
			return true
		}
		e := elemOf(v)
		return e != nil && e.X == ia.X && e.Index == ia.Index
	}
	// the comparisons of the element
	type cmp struct {
		v     ssa.Value
		other ssa.Value
	}
	var cmps []cmp
	for _, i := range instrs(g) {
		switch y := i.(type) {
		case *ssa.Call:
			as := allArgs(y)
			if len(as) != 2 || basicInfo(y.Type())&types.IsBoolean == 0 {
				continue
			}
			if isElem(as[0]) {
				cmps = append(cmps, cmp{y, as[1]})
			} else if isElem(as[1]) {
				cmps = append(cmps, cmp{y, as[0]})
			}
		case *ssa.Lookup:
			if isElem(y.Index) {
				if y.CommaOk {
					for _, r := range *y.Referrers() {
						if e, ok := r.(*ssa.Extract); ok && e.Index == 1 {
							cmps = append(cmps, cmp{e, y.X})
						}
						if e, ok := r.(*ssa.Extract); ok && e.Index == 0 && basicInfo(e.Type())&types.IsBoolean != 0 {
							cmps = append(cmps, cmp{e, y.X})
						}
					}
				} else if basicInfo(y.Type())&types.IsBoolean != 0 {
					cmps = append(cmps, cmp{y, y.X})
				}
			}
		case *ssa.BinOp:
			if (y.Op == token.EQL || y.Op == token.NEQ) && (isElem(y.X) || isElem(y.Y)) && !isNilConst(y.X) && !isNilConst(y.Y) {
				c.Bad(key, p.InstrPos(y), "attributes are compared by identity, so an equal attribute of another data set is not recognised")
				return
			}
		}
	}
	if from := x.sel.selection(ia.X, 0); nonClass && (from == "non-class attributes" || from == "float non-class attributes") {
		c.Ok(key, pos, "selected from the "+from)
		return
	}
	for _, q := range cmps {
		if e := elemOf(q.other); e != nil && x.part(e.X) {
			c.Bad(key, pos, "the elements are compared with only a part of the other list")
			return
		}
	}
	if len(cmps) == 0 {
		c.Check(false, key, pos, "", "elements are kept without being compared with the other list")
		return
	}
	if nonClass {
		// the two lists
		if s := x.sel.selection(ia.X, 0); s != "all" && s != "?" {
			c.Bad(key, pos, "the elements come from "+s+", not from all attributes")
			return
		}
		for _, q := range cmps {
			if call, ok := q.v.(*ssa.Call); ok && methodNamed(call, "Equals") {
				if e := elemOf(q.other); e != nil {
					if s := x.sel.selection(e.X, 0); s != "class" && s != "?" {
						c.Bad(key, pos, "the elements are compared with "+s+", not with the class attributes")
						return
					}
				}
			}
		}
	}
	// loops of the comparison, nested in the loop over the elements
	_, outer := innermostLoop(elem.(ssa.Instruction).Block())
	inner := map[*ssa.If]*CountLoop{}
	for _, l := range countingLoops(g) {
		if l.If == nil || l.Cur == ia.Index || l.Phi == ia.Index {
			continue
		}
		if outer != nil && !outer[l.Header] {
			continue
		}
		inner[l.If] = l
	}
	head := ia.Index
	undecided := false
	// try: is the element added, is it left out, when the at-th comparison is the first that matches (0: none does)
	try := func(at int) (reached, missed bool) {
		match := at > 0
		e := &Explorer{P: p, MaxEdge: 32}
		e.Decide = func(v ssa.Value, pp *pathPoint) (bool, bool) {
			if b, ok := v.(*ssa.BinOp); ok && basicInfo(b.X.Type())&types.IsInteger != 0 {
				for w := range p.backSlice(b.X) {
					if ph, ok := w.(*ssa.Phi); ok && loopCur(ph) == nil && ph.Parent() == g && basicInfo(ph.Type())&types.IsInteger != 0 {
						undecided = true // a count of matches
					}
				}
			}
			for iff, l := range inner {
				if iff.Cond == v && match {
					for n := 0; n < at; n++ {
						k := fmt.Sprintf("in%p %d", l, n)
						if !pp.flags[k] {
							pp.flags[k], pp.flags[fmt.Sprint("round", n)] = true, true
							return l.Body[iff.Block().Succs[0]], true // there is something to compare with
						}
					}
				}
			}
			if ex, ok := v.(*ssa.Extract); ok {
				if t, ok := ex.Tuple.(*ssa.TypeAssert); ok && ex.Index == 1 && isElem(t.X) {
					return true, true // an element of the kind asked for
				}
			}
			return false, false
		}
		e.Visit = func(i ssa.Instruction, pp *pathPoint) bool {
			for _, q := range cmps {
				if v, ok := i.(ssa.Value); !ok || q.v != v {
					continue
				}
				var twin ssa.Value // the other result of one lookup
				if e, ok := q.v.(*ssa.Extract); ok && pp.flags[fmt.Sprintf("lookup%p", e.Tuple)] {
					for _, q2 := range cmps {
						if e2, ok := q2.v.(*ssa.Extract); ok && e2 != e && e2.Tuple == e.Tuple {
							twin = pp.env[e2]
						}
					}
				} else if ok {
					pp.flags[fmt.Sprintf("lookup%p", e.Tuple)] = true
				}
				switch {
				case twin != nil:
					pp.env[q.v] = twin
				case at == 0 || at == 2 && !pp.flags["compared"]:
					pp.env[q.v] = ssa.NewConst(constant.MakeBool(false), types.Typ[types.Bool])
				case !pp.flags["matched"]:
					pp.env[q.v] = ssa.NewConst(constant.MakeBool(true), types.Typ[types.Bool])
					pp.flags["matched"] = true
				default: // one match is enough, whatever follows
					delete(pp.env, q.v)
				}
				pp.flags["compared"] = true
			}
			passed := at == 2 && !pp.flags["matched"] && pp.flags["round1"] // over a comparison
			if i == ssa.Instruction(ap) {
				reached = reached || !passed
				return true
			}
			if _, ok := i.(*ssa.Return); ok {
				missed = missed || !passed
				return true
			}
			if ph, ok := head.(*ssa.Phi); ok && i == ssa.Instruction(ph) || i == elem.(ssa.Instruction) {
				missed = missed || !passed
				return true
			}
			if b, ok := head.(*ssa.BinOp); ok && i == ssa.Instruction(b) {
				missed = missed || !passed
				return true
			}
			return false
		}
		e.Run(elem.(ssa.Instruction))
		return
	}
	r1, m1 := try(1)
	r2, m2 := try(0)
	if len(cmps) > 0 {
		if _, isCall := cmps[0].v.(*ssa.Call); isCall && len(cmps) == 1 && len(inner) == 1 {
			r, m := try(2)
			r1, m1 = r1 || r, m1 || m
		}
	}
	if undecided {
		c.Ok(key, pos, "elements are kept by a count of matches (not decided)")
		return
	}
	if keep {
		c.Check(r1 && !m1 && !r2, key, pos, "keeps exactly the elements that match",
			map[bool]string{true: "an element that matches nothing can be kept", false: "an element that matches can be left out"}[r2])
	} else {
		c.Check(!r1 && r2 && !m2, key, pos, "keeps exactly the elements that match nothing",
			map[bool]string{true: "an element equal to one of the second list can be kept", false: "an element that matches nothing can be left out"}[r1])
	}
}

// ---- (c) raw storage

func (x *label) rawStorage() {
	p, c := x.p, x.c
	n := 0
	for _, f := range p.Funcs {
		if !x.learning(f) || f.Parent() != nil {
			continue
		}
		uses := false
		for _, g := range withClosures(f) {
			for _, ci := range calls(g) {
				if methodNamed(ci, "Storage") {
					uses = true
				}
			}
		}
		if !uses {
			continue
		}
		// groups are entered in a map (or list) only if they hold no class attribute
		for _, g := range withClosures(f) {
			for _, i := range instrs(g) {
				mu, ok := i.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				mt, ok := mu.Map.Type().Underlying().(*types.Map)
				if !ok || basicInfo(mt.Key())&types.IsString == 0 || basicInfo(mt.Elem())&types.IsInteger == 0 || !x.selectsGroups(mu.Map) {
					continue
				}
				n++
				good := false
				for _, gd := range guardsOf(mu.Block()) {
					if x.noClass(gd) {
						good = true
					}
				}
				c.Check(good, "raw:"+p.Name(f), p.InstrPos(mu), "only attribute groups without class attributes are compared", "an attribute group is compared without making sure that it holds no class attribute")
			}
		}
	}
	c.Count("groups read as raw storage", n)
}

// selectsGroups: the map is consulted to decide which group's storage is used.
func (x *label) selectsGroups(m ssa.Value) bool {
	if m.Referrers() == nil {
		return false
	}
	for _, r := range *m.Referrers() {
		l, ok := r.(*ssa.Lookup)
		if !ok {
			continue
		}
		for _, i := range instrs(l.Parent()) {
			if ci, ok := i.(ssa.CallInstruction); ok && methodNamed(ci, "Storage") {
				for _, g := range guardsOf(i.Block()) {
					for w := range x.p.backSlice(g.Cond) {
						if w == ssa.Value(l) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// noClass: the guard says that no class attribute is in the group.
func (x *label) noClass(g Guard) bool {
	b, ok := g.Cond.(*ssa.BinOp)
	if !ok {
		// a flag, or a helper's answer
		for w := range x.p.backSlice(g.Cond) {
			if ci, ok := w.(*ssa.Call); ok && (methodNamed(ci, "Equals") || isCallTo(ci, "base", "", "AttributeIntersect")) {
				return true
			}
			if ci, ok := w.(*ssa.Call); ok {
				for _, h := range x.p.Callees(ci) {
					for _, d := range calls(h) {
						if methodNamed(d, "Equals") || isCallTo(d, "base", "", "AttributeIntersect") {
							return true
						}
					}
				}
			}
		}
		return false
	}
	k, isK := constInt(b.Y)
	ln, ok := b.X.(*ssa.Call)
	if !ok || !isK {
		return false
	}
	bi, ok := ln.Call.Value.(*ssa.Builtin)
	if !ok || bi.Name() != "len" {
		return false
	}
	it, ok := ln.Call.Args[0].(*ssa.Call)
	if !ok || !isCallTo(it, "base", "", "AttributeIntersect") && !isCallTo(it, "base", "", "AttributeIntersectReferences") {
		return false
	}
	a, d := x.sel.selection(it.Call.Args[0], 0), x.sel.selection(it.Call.Args[1], 0)
	if a != "class" && d != "class" {
		return false
	}
	op := b.Op
	if !g.Pol {
		op = negate(op)
	}
	return op == token.EQL && k == 0 || op == token.LSS && k == 1 || op == token.LEQ && k == 0
}

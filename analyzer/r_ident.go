package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C17", Rule: "what archives say they are: every classifier type writes one constant name, no two types the same, with the format number the reader accepts, and Save writes the type's own metadata; with the manifest, the format number, or the name or version a loader tests assumed to be a different one, no success return of that loader is reachable (path analysis through helpers), and the constants tested are those written.", Run: runC17})
}

// assumption: boolean values taken as known, and what follows in helpers.
type assumption struct {
	p     *Prog
	truth func(v ssa.Value) (bool, bool)
	memoF map[*ssa.Function]int // 1 busy, 2 fails, 3 may succeed
}

func (a *assumption) decide(depth int) func(ssa.Value, *pathPoint) (bool, bool) {
	return func(v ssa.Value, pp *pathPoint) (bool, bool) {
		if t, ok := a.truth(v); ok {
			return t, true
		}
		if cl, ok := v.(*ssa.Call); ok && depth < 4 {
			if g := cl.Call.StaticCallee(); g != nil && a.p.IsLibFunc(g) && g.Signature.Results().Len() == 1 && basicInfo(g.Signature.Results().At(0).Type())&types.IsBoolean != 0 {
				return a.value(g, depth+1)
			}
		}
		if o, eq, ok := nilTest(v); ok && isErrorType(o.Type()) {
			if a.callFails(pp.Resolve(o), depth) {
				return !eq, true
			}
		}
		return false, false
	}
}

// callFails: v is the error of a call that, under the assumption, always fails.
func (a *assumption) callFails(v ssa.Value, depth int) bool {
	var cl *ssa.Call
	switch t := v.(type) {
	case *ssa.Extract:
		cl, _ = t.Tuple.(*ssa.Call)
	case *ssa.Call:
		cl = t
	}
	if cl == nil || depth > 3 {
		return false
	}
	g := cl.Call.StaticCallee()
	return g != nil && a.p.IsLibFunc(g) && a.fails(g, depth+1) == nil && a.touches(g, map[*ssa.Function]bool{})
}

func (a *assumption) touches(g *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[g] {
		return false
	}
	seen[g] = true
	for _, i := range instrs(g) {
		if v, ok := i.(ssa.Value); ok {
			if _, ok := a.truth(v); ok {
				return true
			}
		}
		if ci, ok := i.(ssa.CallInstruction); ok {
			if h := ci.Common().StaticCallee(); h != nil && a.p.IsLibFunc(h) && a.touches(h, seen) {
				return true
			}
		}
	}
	return false
}

// value: what a boolean helper returns under the assumption.
func (a *assumption) value(g *ssa.Function, depth int) (bool, bool) {
	if len(g.Blocks) == 0 || !a.touches(g, map[*ssa.Function]bool{}) {
		return false, false
	}
	known, val, first := true, false, true
	e := &Explorer{P: a.p}
	e.Decide = a.decide(depth)
	e.Visit = func(i ssa.Instruction, pp *pathPoint) bool {
		if r, ok := i.(*ssa.Return); ok {
			v, ok := e.eval(r.Results[0], pp, 0)
			if !ok || !first && v != val {
				known = false
			}
			val, first = v, false
		}
		return false
	}
	e.RunEntry(g)
	return val, known && !first
}

// fails: under the assumption no success return of g is reachable; otherwise one that is.
func (a *assumption) fails(g *ssa.Function, depth int) *ssa.Return {
	var bad *ssa.Return
	if len(g.Blocks) == 0 {
		return nil
	}
	e := &Explorer{P: a.p}
	e.Decide = a.decide(depth)
	e.Visit = func(i ssa.Instruction, pp *pathPoint) bool {
		r, ok := i.(*ssa.Return)
		if !ok || bad != nil || r.Block() == g.Recover {
			return false
		}
		if len(r.Results) == 0 {
			bad = r
			return false
		}
		v := pp.Resolve(r.Results[len(r.Results)-1])
		if isErrorType(v.Type()) && (!isNilConst(v) && !a.p.maybeNilHere(pp, v) || a.callFails(v, depth)) {
			return false
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			// a named result kept in memory for deferred functions
			if !a.p.successReturn(r) {
				return false
			}
		}
		bad = r
		return false
	}
	e.RunEntry(g)
	return bad
}

// mdField: the field of the classifier metadata v was read from.
func mdField(v ssa.Value) string {
	var fv *types.Var
	if f, _ := fieldLoad(v); f != nil {
		fv = f
	}
	if f, ok := v.(*ssa.Field); ok {
		fv = fieldVar(f.X.Type(), f.Field)
	}
	if fv == nil || !strings.HasPrefix(fv.Name(), "Classifier") && fv.Name() != "FormatVersion" {
		return ""
	}
	return fv.Name()
}

func runC17(c *Ctx) {
	p := c.P
	// what types call themselves
	nt := p.Type("base", "ClassifierMetadataV1")
	if nt == nil {
		c.Bad("metadata", "-", "the metadata type is gone")
		return
	}
	st := nt.Underlying().(*types.Struct)
	field := map[string]*types.Var{}
	for i := 0; i < st.NumFields(); i++ {
		field[st.Field(i).Name()] = st.Field(i)
	}
	type said struct {
		val string
		pos string
	}
	byType := map[string]map[string][]said{} // type -> field -> constants
	for name, fv := range field {
		for _, s := range p.fieldStores[fv] {
			f := owner(s.Parent())
			rn := recvNamed(f)
			if rn == nil || !p.IsLibFunc(f) {
				continue
			}
			for _, l := range p.Trace(s.Val, TraceOpt{}) {
				k, ok := l.(*ssa.Const)
				if !ok || k.Value == nil {
					continue
				}
				v := k.Value.ExactString()
				if k.Value.Kind() == constant.String {
					v = constant.StringVal(k.Value)
				}
				tn := typeName(rn)
				if byType[tn] == nil {
					byType[tn] = map[string][]said{}
				}
				byType[tn][name] = append(byType[tn][name], said{v, p.InstrPos(s)})
			}
		}
	}
	var types_ []string
	for tn := range byType {
		types_ = append(types_, tn)
	}
	sort.Strings(types_)
	first := map[string]string{}
	n := 0
	for _, tn := range types_ {
		names := byType[tn]["ClassifierName"]
		if len(names) == 0 {
			continue
		}
		n++
		key := "name:" + tn
		okk := true
		for _, s := range names {
			if s.val != names[0].val {
				c.Bad(key, s.pos, fmt.Sprintf("calls itself %q here and %q elsewhere", s.val, names[0].val))
				okk = false
			}
			if s.val == "" {
				c.Bad(key, s.pos, "has an empty name")
				okk = false
			}
			if o, dup := first[s.val]; dup && o != tn {
				c.Bad(key, s.pos, fmt.Sprintf("is saved under the name %q, which is that of %s", s.val, o))
				okk = false
			} else {
				first[s.val] = tn
			}
		}
		if okk {
			c.Ok(key, names[0].pos, "saved as "+names[0].val)
		}
	}
	c.Floor("classifier types with a name", n, 7)
	// Save writes the type's own metadata
	ns := 0
	for _, f := range p.Funcs {
		rn := recvNamed(f)
		if rn == nil || !p.IsLibFunc(f) {
			continue
		}
		for _, ci := range calls(f) {
			var md ssa.Value
			if isCallTo(ci, "base", "", "CreateSerializedClassifierStub") {
				md = ci.Common().Args[1]
			} else if o := calleeObj(ci); o != nil && o.Name() == "WriteMetadataAtPrefix" {
				md = argsOf(ci)[1]
			} else {
				continue
			}
			ns++
			key := fmt.Sprintf("own:%s#%d", p.Name(f), ns)
			bad := ""
			for _, l := range p.Trace(md, TraceOpt{}) {
				g := l.Parent()
				if g == nil || g == f {
					continue
				}
				if m := recvNamed(owner(g)); m != nil && m.Obj() != rn.Obj() && m.Obj().Name() != "ClassifierMetadataV1" {
					bad = typeName(m)
				}
			}
			// through a method of another type
			for _, l := range p.Trace(md, TraceOpt{NoCalls: true}) {
				if cl, ok := l.(*ssa.Call); ok {
					for _, g := range p.Callees(cl) {
						if m := recvNamed(g); m != nil && m.Obj() != rn.Obj() {
							bad = typeName(m)
						}
					}
				}
			}
			c.Check(bad == "", key, p.InstrPos(ci.(ssa.Instruction)), "its own metadata", "a "+typeName(rn)+" is saved with the metadata of "+bad)
		}
	}
	c.Floor("metadata written", ns, 7)

	// loaders refuse what they cannot read
	version := ""
	if bp := p.Type("base", "ClassifierMetadataV1"); bp != nil {
		if k, ok := bp.Obj().Pkg().Scope().Lookup("SerializationFormatVersion").(*types.Const); ok {
			version = constant.StringVal(k.Val())
		}
	}
	isVersion := func(v ssa.Value) bool {
		for _, l := range p.Trace(v, TraceOpt{Derive: true, Elems: true, NoParams: true, NoCalls: true}) {
			if mi, ok := l.(*ssa.MakeInterface); ok {
				l = mi.X
			}
			if cv, ok := l.(*ssa.Convert); ok {
				l = cv.X
			}
			if s, ok := constStr(l); ok && s == version && version != "" {
				return true
			}
		}
		return false
	}
	manifest := func(v ssa.Value) (bool, bool) {
		switch t := v.(type) {
		case *ssa.Call:
			if isCallTo(t, "reflect", "", "DeepEqual") || isCallTo(t, "bytes", "", "Equal") {
				if isVersion(t.Call.Args[0]) || isVersion(t.Call.Args[1]) {
					return false, true
				}
			}
		case *ssa.BinOp:
			if t.Op == token.EQL || t.Op == token.NEQ {
				if basicInfo(t.X.Type())&types.IsString != 0 && (isVersion(t.X) || isVersion(t.Y)) {
					return t.Op == token.NEQ, true
				}
			}
		}
		return false, false
	}
	cmp := func(name string) func(v ssa.Value) (bool, bool) {
		return func(v ssa.Value) (bool, bool) {
			b, ok := v.(*ssa.BinOp)
			if !ok || b.Op != token.EQL && b.Op != token.NEQ {
				return false, false
			}
			_, kx := b.X.(*ssa.Const)
			_, ky := b.Y.(*ssa.Const)
			if ky && mdField(b.X) == name || kx && mdField(b.Y) == name {
				return b.Op == token.NEQ, true
			}
			return false, false
		}
	}
	nl := 0
	must := func(f *ssa.Function, what string, truth func(ssa.Value) (bool, bool)) {
		nl++
		a := &assumption{p: p, truth: truth}
		r := a.fails(f, 0)
		pos := p.Pos(f.Pos())
		if r != nil {
			pos = p.InstrPos(r)
		}
		c.Check(r == nil, "refuse:"+p.Name(f)+"#"+what, pos, "a different "+what+" is refused", "succeeds although the "+what+" is not one it can read")
	}
	for _, e := range []struct {
		fn, what string
		t        func(ssa.Value) (bool, bool)
	}{{"base.ReadSerializedClassifierStub", "manifest", manifest}, {"base.ReadSerializedClassifierStub", "FormatVersion", cmp("FormatVersion")}, {"base.DeserializeInstancesFromTarReader", "manifest", manifest}} {
		if f := p.Func(e.fn); f != nil {
			must(f, e.what, e.t)
		}
	}
	// tests of metadata fields in loaders
	for _, f := range p.Funcs {
		if !p.IsLibFunc(f) {
			continue
		}
		for _, i := range instrs(f) {
			b, ok := i.(*ssa.BinOp)
			if !ok {
				continue
			}
			for _, name := range []string{"ClassifierName", "ClassifierVersion", "FormatVersion"} {
				if _, ok := cmp(name)(b); !ok {
					continue
				}
				k, _ := b.Y.(*ssa.Const)
				if k == nil {
					k = b.X.(*ssa.Const)
				}
				if k.Value == nil {
					continue
				}
				v := k.Value.ExactString()
				if k.Value.Kind() == constant.String {
					v = constant.StringVal(k.Value)
				}
				// the loaders it serves
				var rns []string
				if rn := recvNamed(owner(f)); rn != nil && byType[typeName(rn)] != nil {
					rns = []string{typeName(rn)}
				} else if name == "FormatVersion" {
					rns = types_
				}
				for _, tn := range rns {
					for _, s := range byType[tn][name] {
						c.Check(s.val == v, "accepts:"+tn+"#"+name, p.InstrPos(b), "what is written is accepted", fmt.Sprintf("tested for %s but %s is written", v, s.val))
					}
				}
				if name == "FormatVersion" {
					continue
				}
				if isExported(f) && f.Parent() == nil {
					must(f, name, cmp(name))
				} else {
					for _, ci := range p.callers[f] {
						if g := owner(ci.Parent()); isExported(g) && p.IsLibFunc(g) {
							must(g, name, cmp(name))
						}
					}
				}
			}
		}
	}
	c.Floor("tests of what an archive says it is", nl, 3)
}

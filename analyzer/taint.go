package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Taint is a forward may-alias analysis from chosen memory (the seeds): for every value of the functions reachable from
// a root it computes at which pointer depths the seed memory may be reached. Bit 0: the value points into seed memory;
// bit k: after k loads. Objects outside the seed memory are field-based, containers carry masks.
type Taint struct {
	p      *Prog
	funcs  map[*ssa.Function]bool
	mask   map[ssa.Value]uint8
	fields map[*types.Var]uint8
	tuple  map[ssa.Value]map[int]uint8
	writes map[ssa.Instruction]string
	dirty  bool
	// SkipCall cuts a call (its callee neither receives nor returns taint).
	SkipCall func(c ssa.CallInstruction) bool
	// SkipLoad cuts a load.
	SkipLoad func(v ssa.Value) bool
}

func newTaint(p *Prog, roots ...*ssa.Function) *Taint {
	return &Taint{p: p, funcs: p.Reachable(roots...), mask: map[ssa.Value]uint8{}, fields: map[*types.Var]uint8{}, tuple: map[ssa.Value]map[int]uint8{}, writes: map[ssa.Instruction]string{}}
}

// pointy: values of the type can lead to memory.
func pointy(t types.Type) bool { return pointyD(t, 0) }

func pointyD(t types.Type, d int) bool {
	if d > 6 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointyD(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return pointyD(u.Elem(), d+1)
	case *types.Interface:
		return !isErrorType(t)
	case *types.Signature:
		return true
	}
	return true
}

func (t *Taint) add(v ssa.Value, m uint8) {
	if m == 0 || v == nil {
		return
	}
	if _, isC := v.(*ssa.Const); isC {
		return
	}
	if _, isA := v.(*ssa.Alloc); !isA {
		if _, isPtr := v.Type().Underlying().(*types.Pointer); !isPtr && !pointy(v.Type()) {
			return
		}
	}
	m &= 0x0f
	if t.mask[v]|m != t.mask[v] {
		t.mask[v] |= m
		t.dirty = true
	}
}

func (t *Taint) addField(f *types.Var, m uint8) {
	if f == nil || m == 0 {
		return
	}
	m &= 0x0f
	if t.fields[f]|m != t.fields[f] {
		t.fields[f] |= m
		t.dirty = true
	}
}

// loaded: the mask of what is loaded through an address of mask m.
func loaded(m uint8) uint8 { return m>>1 | m&1 }

// content: memory v leads to now holds pointers of mask m (v itself is depth m<<1).
func (t *Taint) content(v ssa.Value, m uint8, d int) {
	if m == 0 || d > 12 {
		return
	}
	up := m << 1
	up &= 0x0f
	if up == 0 {
		up = 0x08
	}
	t.spread(v, up, d)
}

// spread gives v the mask m and carries it back to where v came from (aliases of the same container).
func (t *Taint) spread(v ssa.Value, m uint8, d int) {
	if d > 12 || m == 0 || v == nil {
		return
	}
	if t.mask[v]|m == t.mask[v] && d > 0 {
		return
	}
	t.add(v, m)
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			t.spread(e, m, d+1)
		}
	case *ssa.Slice:
		t.spread(x.X, m, d+1)
	case *ssa.ChangeType:
		t.spread(x.X, m, d+1)
	case *ssa.MakeInterface:
		t.spread(x.X, m, d+1)
	case *ssa.ChangeInterface:
		t.spread(x.X, m, d+1)
	case *ssa.TypeAssert:
		t.spread(x.X, m, d+1)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			t.spread(x.Call.Args[0], m, d+1)
		}
	case *ssa.IndexAddr:
		t.spread(x.X, m, d+1)
	case *ssa.FieldAddr:
		t.addField(fieldVar(x.X.Type(), x.Field), m>>1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch a := x.X.(type) {
			case *ssa.FieldAddr:
				t.addField(fieldVar(a.X.Type(), a.Field), m)
			default:
				t.content(x.X, m, d+1)
			}
		}
	case *ssa.FreeVar:
		for _, b := range t.p.freeVarBindings(x) {
			t.spread(b, m, d+1)
		}
	case *ssa.Parameter:
		f := x.Parent()
		for k, q := range f.Params {
			if q != x {
				continue
			}
			for _, c := range t.p.callers[f] {
				if t.funcs[c.Parent()] && (t.SkipCall == nil || !t.SkipCall(c)) {
					t.spread(argFor(c, f, k), m, d+1)
				}
			}
		}
	}
}

func (t *Taint) write(i ssa.Instruction, what string) {
	if _, ok := t.writes[i]; !ok {
		t.writes[i] = what
		t.dirty = true
	}
}

func (t *Taint) tupleAdd(v ssa.Value, k int, m uint8) {
	if m == 0 {
		return
	}
	tm := t.tuple[v]
	if tm == nil {
		tm = map[int]uint8{}
		t.tuple[v] = tm
	}
	if tm[k]|m != tm[k] {
		tm[k] |= m
		t.dirty = true
	}
}

// Seed marks memory v points to.
func (t *Taint) Seed(v ssa.Value) { t.add(v, 1) }

func (t *Taint) Run() {
	fs := sortedFuncs(t.p, t.funcs)
	for n := 0; n < 60; n++ {
		t.dirty = false
		for _, f := range fs {
			t.pass(f)
		}
		if !t.dirty {
			return
		}
	}
}

// calleesOf: library functions a call may reach, function values handed over as parameters included.
func (t *Taint) calleesOf(c ssa.CallInstruction) []*ssa.Function {
	cs := t.p.Callees(c)
	if len(cs) == 0 && !c.Common().IsInvoke() && c.Common().StaticCallee() == nil {
		for _, f := range t.p.dynCallees(c.Common().Value, map[ssa.Value]bool{}) {
			cs = append(cs, f)
		}
	}
	var out []*ssa.Function
	for _, f := range cs {
		if len(f.Blocks) > 0 && t.funcs[f] {
			out = append(out, f)
		}
	}
	return out
}

// dynCallees: function values reaching v through parameters of library functions.
func (p *Prog) dynCallees(v ssa.Value, seen map[ssa.Value]bool) []*ssa.Function {
	if seen[v] {
		return nil
	}
	seen[v] = true
	var out []*ssa.Function
	switch x := v.(type) {
	case *ssa.Parameter:
		f := x.Parent()
		for k, q := range f.Params {
			if q != x {
				continue
			}
			for _, c := range p.callers[f] {
				if a := argFor(c, f, k); a != nil {
					out = append(out, p.dynCallees(a, seen)...)
				}
			}
		}
	case *ssa.FreeVar:
		for _, b := range p.freeVarBindings(x) {
			out = append(out, p.dynCallees(b, seen)...)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			out = append(out, p.dynCallees(e, seen)...)
		}
	case *ssa.UnOp:
		if fv, _ := fieldLoad(x); fv != nil {
			for _, s := range p.fieldStores[fv] {
				out = append(out, p.dynCallees(s.Val, seen)...)
			}
			return out
		}
		return p.funcValues(v, map[ssa.Value]bool{})
	case *ssa.ChangeType:
		return p.dynCallees(x.X, seen)
	default:
		return p.funcValues(v, map[ssa.Value]bool{})
	}
	return out
}

func (t *Taint) pass(f *ssa.Function) {
	for _, i := range instrs(f) {
		switch x := i.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				t.add(x, t.mask[e])
			}
		case *ssa.ChangeType:
			t.add(x, t.mask[x.X])
		case *ssa.ChangeInterface:
			t.add(x, t.mask[x.X])
		case *ssa.MakeInterface:
			t.add(x, t.mask[x.X])
		case *ssa.TypeAssert:
			if x.CommaOk {
				t.tupleAdd(x, 0, t.mask[x.X])
			} else {
				t.add(x, t.mask[x.X])
			}
		case *ssa.Convert:
			t.add(x, t.mask[x.X])
		case *ssa.Slice:
			t.add(x, t.mask[x.X])
		case *ssa.FieldAddr:
			m := t.mask[x.X]
			t.add(x, m)
			if fm := t.fields[fieldVar(x.X.Type(), x.Field)]; fm != 0 {
				t.add(x, fm<<1)
			}
		case *ssa.Field:
			t.add(x, t.mask[x.X])
			if st, ok := x.X.Type().Underlying().(*types.Struct); ok {
				t.add(x, t.fields[st.Field(x.Field)])
			}
		case *ssa.IndexAddr:
			t.add(x, t.mask[x.X])
		case *ssa.Index:
			t.add(x, t.mask[x.X])
		case *ssa.Lookup:
			m := loaded(t.mask[x.X])
			if x.CommaOk {
				t.tupleAdd(x, 0, m)
			} else {
				t.add(x, m)
			}
		case *ssa.Range:
			if m := t.mask[x.X]; m != 0 {
				t.tupleAdd(x, 0, m)
			}
		case *ssa.Next:
			if m := t.tuple[x.Iter][0]; m != 0 {
				t.tupleAdd(x, 1, loaded(m))
				t.tupleAdd(x, 2, loaded(m))
			}
		case *ssa.Extract:
			t.add(x, t.tuple[x.Tuple][x.Index])
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if t.SkipLoad != nil && t.SkipLoad(x) {
					continue
				}
				m := loaded(t.mask[x.X])
				t.add(x, m)
			} else if x.Op == token.ARROW {
				if x.CommaOk {
					t.tupleAdd(x, 0, loaded(t.mask[x.X]))
				} else {
					t.add(x, loaded(t.mask[x.X]))
				}
			}
		case *ssa.Store:
			if t.mask[x.Addr]&1 != 0 {
				t.write(x, "store")
			}
			if m := t.mask[x.Val]; m != 0 {
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					t.addField(fieldVar(fa.X.Type(), fa.Field), m)
				} else {
					t.content(x.Addr, m, 0)
				}
			}
		case *ssa.MapUpdate:
			if t.mask[x.Map]&1 != 0 {
				t.write(x, "map update")
			}
			m := t.mask[x.Value]
			if mt, ok := x.Map.Type().Underlying().(*types.Map); ok && !pointy(mt.Elem()) {
				m |= t.mask[x.Key] // a set: its elements are the keys
			}
			t.content(x.Map, m, 0)
		case *ssa.Send:
			t.content(x.Chan, t.mask[x.X], 0)
		case *ssa.MakeClosure:
			g := x.Fn.(*ssa.Function)
			for k, b := range x.Bindings {
				t.add(g.FreeVars[k], t.mask[b])
				// what the closure puts into a captured cell is seen outside
				if m := t.mask[g.FreeVars[k]]; m != 0 {
					t.add(b, m)
				}
			}
		case ssa.CallInstruction:
			t.call(x)
		}
	}
}

func (t *Taint) call(c ssa.CallInstruction) {
	if t.SkipCall != nil && t.SkipCall(c) {
		return
	}
	cc := c.Common()
	val, _ := c.(*ssa.Call)
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if sl, ok := cc.Args[0].(*ssa.Slice); ok && sl.High != nil && sl.Max == nil && t.mask[sl.X]&1 != 0 {
				t.write(c, "append over existing elements")
			}
			if val != nil {
				for _, a := range cc.Args {
					m := t.mask[a]
					if a != cc.Args[0] {
						// the elements are copied: only what they lead to is shared
						if et := elemType(a.Type()); et == nil || !pointy(et) {
							m = 0
						} else if m&1 != 0 {
							m = m&^1 | 2
						}
					}
					t.add(val, m)
				}
			}
		case "copy":
			if t.mask[cc.Args[0]]&1 != 0 {
				t.write(c, "copy")
			}
			if et := elemType(cc.Args[1].Type()); et != nil && pointy(et) {
				t.content(cc.Args[0], loaded(t.mask[cc.Args[1]]), 0)
			}
		case "delete", "clear":
			if t.mask[cc.Args[0]]&1 != 0 {
				t.write(c, b.Name())
			}
		}
		return
	}
	fs := t.calleesOf(c)
	for _, g := range fs {
		for k, q := range g.Params {
			if a := argFor(c, g, k); a != nil {
				t.add(q, t.mask[a])
				if m := t.mask[q] &^ 1; m != 0 && t.mask[a]|m != t.mask[a] {
					// what the callee puts into the container is seen by the caller: handled by spread
				}
			}
		}
		for _, r := range returns(g) {
			for k, res := range r.Results {
				if m := t.mask[res]; m != 0 && val != nil {
					if len(r.Results) > 1 {
						t.tupleAdd(val, k, m)
					} else {
						t.add(val, m)
					}
				}
			}
		}
	}
	if len(fs) > 0 {
		return
	}
	// outside the library
	if k, ok := externWrites(c); ok {
		for _, n := range k {
			var a ssa.Value
			if n == -1 {
				a = recvOf(c)
			} else if n < len(cc.Args) {
				a = cc.Args[n]
			}
			if a != nil && isSortCall(c) {
				if known, hit := t.sortHolder(a); known {
					if hit {
						t.write(c, "call of "+calleeObj(c).Name())
					}
					continue
				}
			}
			if a != nil && t.mask[a]&1 != 0 {
				t.write(c, "call of "+calleeObj(c).Name())
			}
		}
	}
	if val != nil && externAliases(c) {
		var m uint8
		for _, a := range cc.Args {
			m |= t.mask[a] & 1
		}
		if cc.IsInvoke() {
			m |= t.mask[cc.Value] & 1
		}
		t.add(val, m)
	}
}

// sortHolder: the argument of a sort call is a structure of the library (known); one of the slices its Swap method
// permutes is seed memory (hit).
func (t *Taint) sortHolder(a ssa.Value) (known, hit bool) {
	for _, l := range t.p.Trace(a, TraceOpt{NoParams: true, NoCalls: true}) {
		ty := deref(l.Type())
		st, ok := ty.Underlying().(*types.Struct)
		if !ok {
			return false, false
		}
		known = true
		swapped := t.p.swappedFields(ty)
		for i := 0; i < st.NumFields(); i++ {
			if _, ok := st.Field(i).Type().Underlying().(*types.Slice); !ok || t.fields[st.Field(i)]&1 == 0 {
				continue
			}
			if swapped == nil || swapped[st.Field(i)] {
				hit = true
			}
		}
	}
	return known, hit
}

// swappedFields: the slice fields the Swap method of a library type stores into; nil if the method is not the library's
// own.
func (p *Prog) swappedFields(ty types.Type) map[*types.Var]bool {
	n := namedOf(ty)
	if n == nil {
		return nil
	}
	f := p.Method(n, "Swap")
	if f == nil || len(f.Blocks) == 0 || !p.IsLibFunc(f) {
		return nil
	}
	out := map[*types.Var]bool{}
	for g := range p.Reachable(f) {
		for _, i := range instrs(g) {
			s, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			ia, ok := s.Addr.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			found := false
			for _, l := range p.Trace(ia.X, TraceOpt{}) {
				switch x := l.(type) {
				case *ssa.UnOp:
					if fv, _ := fieldLoad(x); fv != nil {
						out[fv] = true
						found = true
					}
				case *ssa.Field:
					if st, ok := x.X.Type().Underlying().(*types.Struct); ok {
						out[st.Field(x.Field)] = true
						found = true
					}
				}
			}
			if !found {
				return nil
			}
		}
	}
	return out
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return a.Elem()
		}
	}
	return nil
}

func isSortCall(c ssa.CallInstruction) bool {
	o := calleeObj(c)
	return o != nil && o.Pkg() != nil && (o.Pkg().Path() == "sort" || o.Pkg().Path() == "slices")
}

// externAliases: the result of a call outside the library may point into its arguments.
func externAliases(c ssa.CallInstruction) bool {
	o := calleeObj(c)
	if o == nil || o.Pkg() == nil {
		return false
	}
	pk := o.Pkg().Path()
	if strings.Contains(pk, "gonum") {
		switch o.Name() {
		case "RawMatrix", "RawRowView", "RawVector", "T", "TVec", "Slice", "SliceVec", "RowView", "ColView", "Grow", "NewDense", "NewVecDense", "DenseCopyOf":
			return o.Name() != "DenseCopyOf"
		}
	}
	if pk == "bytes" || pk == "strings" || pk == "fmt" || pk == "math" || pk == "strconv" {
		return o.Name() == "Bytes" || o.Name() == "NewBuffer" || o.Name() == "TrimSpace"
	}
	return false
}

// externWrites: the arguments (-1: receiver) whose memory a call outside the library modifies.
func externWrites(c ssa.CallInstruction) ([]int, bool) {
	o := calleeObj(c)
	if o == nil || o.Pkg() == nil {
		return nil, false
	}
	pk, n := o.Pkg().Path(), o.Name()
	switch {
	case pk == "sort":
		switch n {
		case "Sort", "Stable", "Slice", "SliceStable", "Float64s", "Ints", "Strings":
			return []int{0}, true
		}
	case pk == "slices":
		if strings.HasPrefix(n, "Sort") || n == "Reverse" {
			return []int{0}, true
		}
	case pk == "encoding/binary":
		if strings.HasPrefix(n, "Put") {
			return []int{0, 1}, true
		}
	case pk == "encoding/json" && n == "Unmarshal":
		return []int{1}, true
	case strings.HasSuffix(pk, "gonum/floats"):
		switch n {
		case "Add", "AddConst", "AddScaled", "Sub", "Mul", "Div", "Scale", "Reverse", "CumSum", "CumProd", "AddTo", "SubTo", "MulTo", "DivTo", "Argsort":
			return []int{0, 1}, true
		}
	case strings.HasSuffix(pk, "gonum/mat"):
		if o.Type().(*types.Signature).Recv() == nil {
			return nil, false
		}
		switch n {
		case "Set", "SetRow", "SetCol", "SetVec", "Mul", "MulVec", "MulElem", "MulElemVec", "DivElem", "DivElemVec", "Add", "AddVec", "Sub", "SubVec", "Scale", "ScaleVec", "Apply", "Copy", "CopyVec", "CloneFrom", "CloneFromVec", "Zero", "Reset", "Inverse", "Solve", "SolveVec", "Stack", "Augment", "Pow", "Exp", "RankOne", "Outer", "Product", "AddScaledVec", "AddScaled", "SetRawMatrix", "SetSym", "Kronecker", "SetRawVector", "Permutation", "SetDiag":
			return []int{-1}, true
		}
	}
	return nil, false
}

package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C21",
		Rule: "For every type with Fit and a Predict operation that can report an error (or that keeps a fitted flag): the learned fields are those stored by code reached from Fit or Load and nowhere else (zero values apart). On every path of Predict to a successful return some branch must have established that a learned field is set (not nil, true, not zero, not empty), in Predict itself or in a function or callback it calls, unless prediction is delegated to another model's Predict; no learned pointer, interface or list is dereferenced, indexed or called before such a branch. Every successful path of Fit stores the fields those branches test, and a fitted flag is raised only where no error return can follow.",
		Run:  runC21})
}

type fitted struct {
	w       *keyWalk
	p       *Prog
	t       *types.Named
	learned map[*types.Var]bool
	memo    map[*ssa.Function]int
	tested  map[*types.Var]bool
}

func isZeroConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	if !ok {
		return false
	}
	if c.Value == nil {
		return true
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return !constant.BoolVal(c.Value)
	case constant.Int, constant.Float:
		return constant.Sign(c.Value) == 0
	case constant.String:
		return constant.StringVal(c.Value) == ""
	}
	return false
}

// emptyMake: a freshly made, empty container.
func emptyMake(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeMap:
		return true
	case *ssa.MakeSlice:
		return isZeroConst(x.Len)
	case *ssa.Slice:
		if a, ok := x.X.(*ssa.Alloc); ok {
			if at, ok := deref(a.Type()).Underlying().(*types.Array); ok {
				return at.Len() == 0
			}
		}
	}
	return false
}

func runC21(c *Ctx) {
	p := c.P
	w := &keyWalk{p: p, memo: map[*ssa.Function]bool{}, active: map[*ssa.Function]int{}}
	nt, nm := 0, 0
	for _, t := range p.NamedTypes() {
		fit := p.Method(t, "Fit")
		st, isS := t.Underlying().(*types.Struct)
		if fit == nil || !isS || !p.IsLibFunc(fit) || recvNamed(fit) != t {
			continue
		}
		var preds []*ssa.Function
		for k, n := 0, types.NewMethodSet(types.NewPointer(t)); k < n.Len(); k++ {
			name := n.At(k).Obj().Name()
			if !strings.HasPrefix(name, "Predict") {
				continue
			}
			if m := p.Method(t, name); m != nil && p.IsLibFunc(m) && recvNamed(m) == t {
				preds = append(preds, m)
			}
		}
		if len(preds) == 0 {
			continue
		}
		// learned fields
		setup := []*ssa.Function{fit}
		for _, n := range []string{"Load", "LoadWithPrefix"} {
			if m := p.Method(t, n); m != nil {
				setup = append(setup, m)
			}
		}
		inFit := p.staticReach(setup...)
		made := map[*ssa.Function]bool{}
		var build func(g *ssa.Function)
		build = func(g *ssa.Function) {
			for _, s := range setup {
				if g == s {
					return
				}
			}
			if g == nil || made[g] || !p.IsLibFunc(g) {
				return
			}
			made[g] = true
			for _, ci := range calls(g) {
				build(ci.Common().StaticCallee())
			}
		}
		for _, f := range p.Funcs {
			if p.IsLibFunc(f) && isExported(f) && f.Signature.Recv() == nil && f.Signature.Results().Len() > 0 && namedOf(deref(f.Signature.Results().At(0).Type())) == t {
				build(f)
			}
		}
		fitOnly := p.staticReach(fit)
		stored, elsewhere := map[*types.Var]bool{}, map[*types.Var]bool{}
		for _, f := range p.Funcs {
			if !p.IsLibFunc(f) {
				continue
			}
			for _, i := range instrs(f) {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				fv := fieldVar(fa.X.Type(), fa.Field)
				if fv == nil || isZeroConst(s.Val) || emptyMake(s.Val) {
					continue
				}
				if inFit[owner(f)] || inFit[f] {
					stored[fv] = true
				}
				if made[f] || !(inFit[owner(f)] || inFit[f]) {
					elsewhere[fv] = true
				}
			}
		}
		x := &fitted{w: w, p: p, t: t, learned: map[*types.Var]bool{}, memo: map[*ssa.Function]int{}, tested: map[*types.Var]bool{}}
		flag := map[*types.Var]bool{}
		for i := 0; i < st.NumFields(); i++ {
			fv := st.Field(i)
			if stored[fv] && !elsewhere[fv] {
				x.learned[fv] = true
				if b, ok := fv.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
					flag[fv] = true
				}
			}
		}
		nt++
		for _, m := range preds {
			res := m.Signature.Results()
			reports := res.Len() > 0 && isErrorType(res.At(res.Len()-1).Type())
			if !reports && len(flag) == 0 {
				continue
			}
			nm++
			key := "guard/" + typeName(t) + "." + m.Name()
			if bad := x.pathWithout(m, func(i ssa.Instruction) bool {
				r, ok := i.(*ssa.Return)
				return ok && i.Block() != m.Recover && !(reports && w.returnsError(r))
			}); bad == nil {
				c.Ok(key, p.Pos(m.Pos()), "every successful path has established that the model is fitted")
			} else if x.delegates(m) {
				c.Ok(key, p.Pos(m.Pos()), "prediction is delegated to models that check for themselves")
			} else {
				c.Bad(key, p.InstrPos(bad), fmt.Sprintf("%s can return successfully without a test that the model has been fitted", m.Name()))
			}
			x.uses(c, m, map[*ssa.Function]bool{})
		}
		// fitting
		var tested []*types.Var
		for fv := range x.tested {
			tested = append(tested, fv)
		}
		sort.Slice(tested, func(i, j int) bool { return tested[i].Pos() < tested[j].Pos() })
		for _, fv := range tested {
			fv := fv
			isStore := func(i ssa.Instruction) bool {
				s, ok := i.(*ssa.Store)
				if !ok {
					return false
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				return ok && fieldVar(fa.X.Type(), fa.Field) == fv && !isZeroConst(s.Val)
			}
			any := false
			for f := range fitOnly {
				for _, i := range instrs(f) {
					any = any || isStore(i)
				}
			}
			if !any {
				continue
			}
			b, _ := fv.Type().Underlying().(*types.Basic)
			counting := b != nil && b.Info()&types.IsNumeric != 0
			if _, isSl := fv.Type().Underlying().(*types.Slice); isSl || counting {
				continue // filled element by element, or counted: zero can be right
			}
			key := "fit/" + typeName(t) + "." + fv.Name()
			c.Check(w.mustDo(fit, isStore, 0), key, p.Pos(fit.Pos()), "set by every successful fit", fmt.Sprintf("Fit can succeed without setting %s, which prediction tests", fv.Name()))
			for f := range fitOnly {
				for _, i := range instrs(f) {
					if !isStore(i) || !flag[fv] {
						continue
					}
					ok := true
					for _, r := range returns(f) {
						if w.returnsError(r) && (r.Block() == i.Block() || reach(i.Block())[r.Block()]) {
							ok = false
						}
					}
					c.Check(ok, key+"/flag", p.InstrPos(i), "raised only once fitting has succeeded", fmt.Sprintf("%s is raised although fitting can still fail", fv.Name()))
				}
			}
		}
	}
	c.Floor("models", nt, 8)
	c.Floor("predict operations", nm, 8)
}

// fieldOf: v is the value, length or element count of a learned field.
func (x *fitted) fieldOf(v ssa.Value) *types.Var {
	for n := 0; n < 6; n++ {
		switch y := v.(type) {
		case *ssa.Convert:
			v = y.X
			continue
		case *ssa.ChangeInterface:
			v = y.X
			continue
		case *ssa.MakeInterface:
			v = y.X
			continue
		case *ssa.Call:
			if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				v = y.Call.Args[0]
				continue
			}
			// a getter, or a predicate over the fields
			if g := y.Call.StaticCallee(); g != nil && x.p.IsLibFunc(g) && len(g.Blocks) == 1 && recvNamed(g) == x.t {
				rs := returns(g)
				if len(rs) == 1 && len(rs[0].Results) == 1 {
					v = rs[0].Results[0]
					continue
				}
			}
		}
		break
	}
	fv, _ := fieldLoad(v)
	if fv != nil && x.learned[fv] {
		return fv
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if a := x.p.cellOf(u.X); a != nil {
			var one *types.Var
			for _, s := range x.p.cellStores(a) {
				f := x.fieldOf1(s.Val)
				if f == nil || one != nil && one != f {
					return nil
				}
				one = f
			}
			return one
		}
	}
	return nil
}

func (x *fitted) fieldOf1(v ssa.Value) *types.Var {
	fv, _ := fieldLoad(v)
	if fv != nil && x.learned[fv] {
		return fv
	}
	return nil
}

// establishes: which outcome of the condition implies that a learned field is set (0: none, 1: true, 2: false).
func (x *fitted) establishes(cond ssa.Value) int {
	switch c := cond.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			switch x.establishes(c.X) {
			case 1:
				return 2
			case 2:
				return 1
			}
			return 0
		}
	case *ssa.BinOp:
		for _, s := range []struct {
			v, z ssa.Value
			op   token.Token
		}{{c.X, c.Y, c.Op}, {c.Y, c.X, flip(c.Op)}} {
			fv := x.fieldOf(s.v)
			if fv == nil {
				continue
			}
			k, isC := constInt(s.z)
			zero := isZeroConst(s.z)
			r := 0
			switch {
			case zero && s.op == token.EQL, isC && k == 0 && s.op == token.LEQ, isC && k == 1 && s.op == token.LSS:
				r = 2
			case zero && s.op == token.NEQ, isC && k >= 0 && s.op == token.GTR, isC && k >= 1 && s.op == token.GEQ:
				r = 1
			}
			if b, ok := constBool(s.z); ok && b && r == 0 {
				if s.op == token.EQL {
					r = 1
				} else if s.op == token.NEQ {
					r = 2
				}
			}
			if r != 0 {
				x.tested[fv] = true
				return r
			}
		}
	case *ssa.Call:
		// a one-line predicate: func (m *T) ready() bool { return m.f != nil }
		if g := c.Call.StaticCallee(); g != nil && x.p.IsLibFunc(g) && len(g.Blocks) == 1 && recvNamed(g) == x.t {
			rs := returns(g)
			if len(rs) == 1 && len(rs[0].Results) == 1 {
				return x.establishes(rs[0].Results[0])
			}
		}
	}
	if b, ok := cond.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
		if fv := x.fieldOf(cond); fv != nil {
			x.tested[fv] = true
			return 1
		}
	}
	return 0
}

// pathWithout: a target instruction reached without a branch that establishes fittedness.
func (x *fitted) pathWithout(f *ssa.Function, target func(ssa.Instruction) bool) ssa.Instruction {
	if len(f.Blocks) == 0 {
		return nil
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		stop := false
		for _, i := range b.Instrs {
			if target(i) {
				return i
			}
			if cl, ok := i.(*ssa.Call); ok && x.callEstablishes(cl) {
				stop = true
				break
			}
		}
		if stop {
			continue
		}
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			switch x.establishes(iff.Cond) {
			case 1:
				work = append(work, b.Succs[1])
				continue
			case 2:
				work = append(work, b.Succs[0])
				continue
			}
			if e := x.errEstablishes(iff); e >= 0 {
				work = append(work, b.Succs[e])
				continue
			}
		}
		work = append(work, b.Succs...)
	}
	return nil
}

// errEstablishes: the branch tests the error of a checking helper; the index of the failing side.
func (x *fitted) errEstablishes(iff *ssa.If) int {
	b, ok := iff.Cond.(*ssa.BinOp)
	if !ok || b.Op != token.EQL && b.Op != token.NEQ {
		return -1
	}
	v := b.X
	if isNilConst(v) {
		v = b.Y
	} else if !isNilConst(b.Y) {
		return -1
	}
	if !isErrorType(v.Type()) {
		return -1
	}
	var cl *ssa.Call
	switch y := v.(type) {
	case *ssa.Call:
		cl = y
	case *ssa.Extract:
		cl, _ = y.Tuple.(*ssa.Call)
	case *ssa.UnOp:
		if a := x.p.cellOf(y.X); a != nil && y.Op == token.MUL {
			for _, s := range x.p.cellStores(a) {
				if s.Block() == y.Block() || s.Block().Dominates(y.Block()) {
					switch z := s.Val.(type) {
					case *ssa.Call:
						cl = z
					case *ssa.Extract:
						cl, _ = z.Tuple.(*ssa.Call)
					}
				}
			}
		}
	}
	if cl == nil {
		return -1
	}
	g := cl.Call.StaticCallee()
	if g == nil || !x.p.IsLibFunc(g) || recvNamed(g) != x.t {
		return -1
	}
	if !x.always(g) {
		return -1
	}
	if b.Op == token.NEQ {
		return 0
	}
	return 1
}

// always: every normal (error-free) return of g has passed an establishing branch.
func (x *fitted) always(g *ssa.Function) bool {
	switch x.memo[g] {
	case 1:
		return false // in progress
	case 2:
		return true
	case 3:
		return false
	}
	x.memo[g] = 1
	bad := x.pathWithout(g, func(i ssa.Instruction) bool {
		r, ok := i.(*ssa.Return)
		return ok && i.Block() != g.Recover && !x.w.returnsError(r)
	})
	if bad == nil {
		x.memo[g] = 2
	} else {
		x.memo[g] = 3
	}
	return bad == nil
}

// callEstablishes: the call returns at all only when the model is fitted (it panics otherwise), or hands rows to a
// callback that does so.
func (x *fitted) callEstablishes(cl *ssa.Call) bool {
	if g := cl.Call.StaticCallee(); g != nil && x.p.IsLibFunc(g) && recvNamed(g) == x.t && g.Signature.Results() != nil {
		res := g.Signature.Results()
		if res.Len() == 0 || !isErrorType(res.At(res.Len()-1).Type()) {
			if x.always(g) {
				return true
			}
		}
	}
	for _, a := range cl.Call.Args {
		if mc, ok := a.(*ssa.MakeClosure); ok {
			if g, ok := mc.Fn.(*ssa.Function); ok && x.always(g) {
				return true
			}
		}
	}
	return false
}

func (x *fitted) delegates(m *ssa.Function) bool {
	for f := range x.p.family(m) {
		for _, ci := range calls(f) {
			o := calleeObj(ci)
			if o == nil || !strings.HasPrefix(o.Name(), "Predict") {
				continue
			}
			sig, ok := o.Type().(*types.Signature)
			if !ok || sig.Recv() == nil {
				continue
			}
			if namedOf(deref(sig.Recv().Type())) == x.t {
				continue
			}
			if sig.Results().Len() > 0 && isErrorType(sig.Results().At(sig.Results().Len()-1).Type()) {
				return true
			}
		}
	}
	return false
}

// uses: learned references are not used before a branch has established that they are set.
func (x *fitted) uses(c *Ctx, m *ssa.Function, seen map[*ssa.Function]bool) {
	if seen[m] {
		return
	}
	seen[m] = true
	use := func(i ssa.Instruction) *types.Var {
		var v ssa.Value
		switch y := i.(type) {
		case *ssa.FieldAddr:
			v = y.X
		case *ssa.IndexAddr:
			v = y.X
		case *ssa.MapUpdate:
			v = y.Map
		case *ssa.UnOp:
			if y.Op == token.MUL {
				v = y.X
			}
		case *ssa.Call:
			if y.Call.IsInvoke() {
				v = y.Call.Value
			} else if g := y.Call.StaticCallee(); g != nil && g.Signature.Recv() != nil && len(y.Call.Args) > 0 {
				if _, ptr := g.Signature.Recv().Type().Underlying().(*types.Pointer); ptr && !derefsRecv(g) {
					return nil
				}
				v = y.Call.Args[0]
			}
		}
		if v == nil {
			return nil
		}
		return x.fieldOf1(v)
	}
	bad := x.pathWithout(m, func(i ssa.Instruction) bool { return use(i) != nil })
	key := "use/" + typeName(x.t) + "." + m.Name()
	if bad != nil {
		c.Bad(key, x.p.InstrPos(bad), fmt.Sprintf("%s uses %s before testing whether the model has been fitted", m.Name(), use(bad).Name()))
		return
	}
	c.Ok(key, x.p.Pos(m.Pos()), "nothing learned is used before the test")
}

// derefsRecv: the method touches what its receiver points to.
func derefsRecv(g *ssa.Function) bool {
	if len(g.Blocks) == 0 || len(g.Params) == 0 {
		return true
	}
	rs := g.Params[0].Referrers()
	return rs != nil && len(*rs) > 0
}

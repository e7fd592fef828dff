package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---------- memory cells ----------

// cellOf resolves an address to the local variable cell it denotes (through closure captures), or nil.
func (p *Prog) cellOf(addr ssa.Value) *ssa.Alloc {
	switch t := addr.(type) {
	case *ssa.Alloc:
		return t
	case *ssa.FreeVar:
		for _, b := range p.freeVarBindings(t) {
			if a := p.cellOf(b); a != nil {
				return a
			}
		}
	}
	return nil
}

// aliasesOfCell: the alloc and every free variable bound to it.
func (p *Prog) aliasesOfCell(a *ssa.Alloc) []ssa.Value {
	out := []ssa.Value{a}
	seen := map[ssa.Value]bool{a: true}
	for i := 0; i < len(out); i++ {
		refs := out[i].Referrers()
		if refs == nil {
			continue
		}
		for _, r := range *refs {
			mc, ok := r.(*ssa.MakeClosure)
			if !ok {
				continue
			}
			g := mc.Fn.(*ssa.Function)
			for k, b := range mc.Bindings {
				if b == out[i] && !seen[g.FreeVars[k]] {
					seen[g.FreeVars[k]] = true
					out = append(out, g.FreeVars[k])
				}
			}
		}
	}
	return out
}

// cellStores: all direct stores to a local cell, closures included.
func (p *Prog) cellStores(a *ssa.Alloc) []*ssa.Store {
	var out []*ssa.Store
	for _, v := range p.aliasesOfCell(a) {
		if v.Referrers() == nil {
			continue
		}
		for _, r := range *v.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == v {
				out = append(out, s)
			}
		}
	}
	return out
}

// localFieldStores: stores to field i of the struct held in a local alloc (composite literals, local structs).
func (p *Prog) localFieldStores(a *ssa.Alloc, field int) []*ssa.Store {
	var out []*ssa.Store
	for _, v := range p.aliasesOfCell(a) {
		if v.Referrers() == nil {
			continue
		}
		for _, r := range *v.Referrers() {
			if fa, ok := r.(*ssa.FieldAddr); ok && fa.X == v && fa.Field == field {
				for _, rr := range *fa.Referrers() {
					if s, ok := rr.(*ssa.Store); ok && s.Addr == fa {
						out = append(out, s)
					}
				}
			}
		}
	}
	return out
}

// ---------- provenance ----------

type TraceOpt struct {
	// Stop makes a value a leaf.
	Stop func(v ssa.Value) bool
	// NoParams: parameters are leaves even when call sites are known.
	NoParams bool
	// NoCalls: calls are leaves even when the callee is in the library.
	NoCalls bool
	// Fields: loads of struct fields continue to every store of this field in the program.
	Fields bool
	// Elems: continue from an element to its container (slices, maps, ranges, lookups), from slice expressions
	// to the base and from append to its operands.
	Elems bool
	// Derive: continue through arithmetic and conversions that change the value.
	Derive bool
	// ExternArgs: continue through calls to functions outside the library into their arguments.
	ExternArgs bool
}

// Trace walks backwards from v to the leaves of its provenance. Visiting is
// context-insensitive; every value is visited once.
func (p *Prog) Trace(v ssa.Value, o TraceOpt) []ssa.Value {
	var leaves []ssa.Value
	seen := map[ssa.Value]bool{}
	leafSeen := map[ssa.Value]bool{}
	leaf := func(v ssa.Value) {
		if !leafSeen[v] {
			leafSeen[v] = true
			leaves = append(leaves, v)
		}
	}
	var walk func(v ssa.Value)
	var load func(addr ssa.Value, at ssa.Value)
	load = func(addr ssa.Value, at ssa.Value) {
		if a := p.cellOf(addr); a != nil {
			ss := p.cellStores(a)
			for _, s := range ss {
				walk(s.Val)
			}
			if len(ss) == 0 {
				leaf(at)
			}
			return
		}
		switch t := addr.(type) {
		case *ssa.FieldAddr:
			if a := p.cellOf(t.X); a != nil {
				ss := p.localFieldStores(a, t.Field)
				if len(ss) > 0 {
					for _, s := range ss {
						walk(s.Val)
					}
					return
				}
				if whole := p.cellStores(a); len(whole) > 0 && !o.Fields {
					leaf(at)
					return
				}
			}
			if o.Fields {
				fv := fieldVar(t.X.Type(), t.Field)
				for _, s := range p.fieldStores[fv] {
					walk(s.Val)
				}
				if len(p.fieldStores[fv]) == 0 {
					leaf(at)
				}
				return
			}
			leaf(at)
		case *ssa.IndexAddr:
			if o.Elems {
				walk(t.X)
				return
			}
			leaf(at)
		case *ssa.Global:
			leaf(at)
		default:
			leaf(at)
		}
	}
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if o.Stop != nil && o.Stop(v) {
			leaf(v)
			return
		}
		switch t := v.(type) {
		case *ssa.Phi:
			for _, e := range t.Edges {
				walk(e)
			}
		case *ssa.ChangeType:
			walk(t.X)
		case *ssa.ChangeInterface:
			walk(t.X)
		case *ssa.MakeInterface:
			walk(t.X)
		case *ssa.Convert:
			if o.Derive {
				walk(t.X)
			} else {
				walk(t.X)
			}
		case *ssa.TypeAssert:
			walk(t.X)
		case *ssa.MultiConvert:
			walk(t.X)
		case *ssa.UnOp:
			if t.Op == token.MUL {
				load(t.X, t)
			} else if t.Op == token.ARROW {
				if o.Elems {
					walk(t.X)
				} else {
					leaf(t)
				}
			} else if o.Derive {
				walk(t.X)
			} else {
				leaf(t)
			}
		case *ssa.BinOp:
			if o.Derive {
				walk(t.X)
				walk(t.Y)
			} else {
				leaf(t)
			}
		case *ssa.Field:
			if o.Fields {
				st := t.X.Type().Underlying().(*types.Struct)
				fv := st.Field(t.Field)
				for _, s := range p.fieldStores[fv] {
					walk(s.Val)
				}
				if len(p.fieldStores[fv]) > 0 {
					return
				}
			}
			leaf(t)
		case *ssa.Extract:
			switch tt := t.Tuple.(type) {
			case *ssa.Call:
				if !o.NoCalls {
					cs := p.Callees(tt)
					ok := len(cs) > 0
					for _, c := range cs {
						if !p.IsLibFunc(c) {
							ok = false
						}
					}
					if ok {
						for _, c := range cs {
							for _, ret := range returns(c) {
								if t.Index < len(ret.Results) {
									walk(ret.Results[t.Index])
								}
							}
						}
						return
					}
				}
				if o.ExternArgs {
					for _, a := range tt.Call.Args {
						walk(a)
					}
				}
				leaf(t)
			case *ssa.TypeAssert:
				if t.Index == 0 {
					walk(tt.X)
				} else {
					leaf(t)
				}
			case *ssa.Lookup:
				if o.Elems && t.Index == 0 {
					walk(tt.X)
				} else {
					leaf(t)
				}
			case *ssa.Next:
				if o.Elems {
					if r, ok := tt.Iter.(*ssa.Range); ok {
						walk(r.X)
						return
					}
				}
				leaf(t)
			default:
				leaf(t)
			}
		case *ssa.Call:
			if b, ok := t.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "append" && o.Elems {
					for _, a := range t.Call.Args {
						walk(a)
					}
					return
				}
				if o.Derive {
					for _, a := range t.Call.Args {
						walk(a)
					}
					return
				}
				leaf(t)
				return
			}
			if !o.NoCalls {
				cs := p.Callees(t)
				ok := len(cs) > 0
				for _, c := range cs {
					if !p.IsLibFunc(c) {
						ok = false
					}
				}
				if ok {
					for _, c := range cs {
						for _, ret := range returns(c) {
							if len(ret.Results) > 0 {
								walk(ret.Results[0])
							}
						}
					}
					return
				}
			}
			if o.ExternArgs {
				for _, a := range t.Call.Args {
					walk(a)
				}
			}
			leaf(t)
		case *ssa.Slice:
			if o.Elems {
				walk(t.X)
			} else {
				leaf(t)
			}
		case *ssa.IndexAddr:
			if o.Elems {
				walk(t.X)
			} else {
				leaf(t)
			}
		case *ssa.Index:
			if o.Elems {
				walk(t.X)
			} else {
				leaf(t)
			}
		case *ssa.Lookup:
			if o.Elems {
				walk(t.X)
			} else {
				leaf(t)
			}
		case *ssa.Parameter:
			if o.NoParams {
				leaf(t)
				return
			}
			f := t.Parent()
			idx := -1
			for i, q := range f.Params {
				if q == t {
					idx = i
				}
			}
			cs := p.callers[f]
			n := 0
			for _, c := range cs {
				if a := argFor(c, f, idx); a != nil {
					walk(a)
					n++
				}
			}
			if n == 0 || isExported(f) {
				leaf(t)
			}
		case *ssa.FreeVar:
			bs := p.freeVarBindings(t)
			if len(bs) == 0 {
				leaf(t)
			}
			for _, b := range bs {
				walk(b)
			}
		case *ssa.Alloc:
			if o.Elems {
				// array literal backing a slice: the elements stored into it
				n := 0
				if _, isArr := deref(t.Type()).Underlying().(*types.Array); isArr {
					for _, r := range *t.Referrers() {
						if ia, ok := r.(*ssa.IndexAddr); ok {
							for _, rr := range *ia.Referrers() {
								if s, ok := rr.(*ssa.Store); ok && s.Addr == ia {
									walk(s.Val)
									n++
								}
							}
						}
					}
				}
				if n > 0 {
					return
				}
			}
			leaf(t)
		default:
			leaf(v)
		}
	}
	walk(v)
	return leaves
}

// argFor maps parameter idx of callee f to the argument of call c (receivers of interface calls included).
func argFor(c ssa.CallInstruction, f *ssa.Function, idx int) ssa.Value {
	cc := c.Common()
	if cc.IsInvoke() {
		if idx == 0 {
			return cc.Value
		}
		if idx-1 < len(cc.Args) {
			return cc.Args[idx-1]
		}
		return nil
	}
	if idx < len(cc.Args) {
		return cc.Args[idx]
	}
	return nil
}

func isExported(f *ssa.Function) bool {
	o := f.Object()
	return o != nil && o.Exported() && f.Parent() == nil
}

func returns(f *ssa.Function) []*ssa.Return {
	var out []*ssa.Return
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if b == f.Recover {
				continue
			}
			out = append(out, r)
		}
	}
	return out
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func constBool(v ssa.Value) (bool, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(c.Value), true
}

func constInt(v ssa.Value) (int64, bool) {
	for {
		if cv, ok := v.(*ssa.Convert); ok {
			v = cv.X
			continue
		}
		break
	}
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

func constStr(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

var errorType = types.Universe.Lookup("error").Type()

func isErrorType(t types.Type) bool { return types.Identical(t, errorType) }

// calleeObj: the called function/method object for static and interface calls.
func calleeObj(c ssa.CallInstruction) *types.Func {
	cc := c.Common()
	if cc.IsInvoke() {
		return cc.Method
	}
	if f := cc.StaticCallee(); f != nil {
		if o, ok := f.Object().(*types.Func); ok {
			return o
		}
		if f.Origin() != nil {
			if o, ok := f.Origin().Object().(*types.Func); ok {
				return o
			}
		}
	}
	return nil
}

// isCallTo: pkg is a full path or a path relative to the module; recv "" for functions, otherwise the named
// receiver type's (or interface's) name.
func isCallTo(c ssa.CallInstruction, pkg, recv, name string) bool {
	o := calleeObj(c)
	if o == nil || o.Name() != name || o.Pkg() == nil {
		return false
	}
	if o.Pkg().Path() != pkg && o.Pkg().Path() != modPath+"/"+pkg {
		return false
	}
	sig := o.Type().(*types.Signature)
	if sig.Recv() == nil {
		return recv == ""
	}
	if recv == "*" {
		return true
	}
	n := namedOf(sig.Recv().Type())
	return n != nil && n.Obj().Name() == recv
}

// methodNamed: a call (static or interface) of a method with this name.
func methodNamed(c ssa.CallInstruction, name string) bool {
	o := calleeObj(c)
	if o == nil || o.Name() != name {
		return false
	}
	return o.Type().(*types.Signature).Recv() != nil
}

// recvOf: the receiver value of a method call.
func recvOf(c ssa.CallInstruction) ssa.Value {
	cc := c.Common()
	if cc.IsInvoke() {
		return cc.Value
	}
	if len(cc.Args) > 0 {
		return cc.Args[0]
	}
	return nil
}

// argsOf: the arguments without receiver.
func argsOf(c ssa.CallInstruction) []ssa.Value {
	cc := c.Common()
	if cc.IsInvoke() {
		return cc.Args
	}
	if f := calleeObj(c); f != nil && f.Type().(*types.Signature).Recv() != nil && len(cc.Args) > 0 {
		return cc.Args[1:]
	}
	return cc.Args
}

func calls(f *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok {
				out = append(out, c)
			}
		}
	}
	return out
}

func instrs(f *ssa.Function) []ssa.Instruction {
	var out []ssa.Instruction
	for _, b := range f.Blocks {
		out = append(out, b.Instrs...)
	}
	return out
}

// ---------- control flow ----------

// reach: blocks reachable from b (b included).
func reach(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{b}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		st = append(st, x.Succs...)
	}
	return seen
}

// reachNot: blocks reachable from b without entering avoid.
func reachNot(b *ssa.BasicBlock, avoid map[*ssa.BasicBlock]bool) map[*ssa.BasicBlock]bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{b}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] || avoid[x] {
			continue
		}
		seen[x] = true
		st = append(st, x.Succs...)
	}
	return seen
}

func idxIn(i ssa.Instruction) int {
	for k, x := range i.Block().Instrs {
		if x == i {
			return k
		}
	}
	return -1
}

// before: a precedes b on every path (dominates).
func before(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return idxIn(a) < idxIn(b)
	}
	return a.Block().Dominates(b.Block())
}

// Guard is a branch condition known to hold at a block.
type Guard struct {
	Cond ssa.Value
	Pol  bool
	If   *ssa.If
}

// guardsOf: the branch outcomes that dominate block b (sound: an edge dominates b if its target has a single
// predecessor — or all other predecessors are dominated by it — and dominates b).
func guardsOf(b *ssa.BasicBlock) []Guard {
	var out []Guard
	for d := b; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil {
			break
		}
		iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for k, s := range id.Succs {
			if id.Succs[0] == id.Succs[1] {
				continue
			}
			// edge id->s dominates d?
			if s == d && edgeDominates(id, s) {
				out = expandGuard(out, Guard{iff.Cond, k == 0, iff}, 0)
			}
		}
	}
	return out
}

// expandGuard adds a guard and what follows from it: the operands of a negation, and of a conjunction known to be true or
// a disjunction known to be false that was computed into a variable.
func expandGuard(out []Guard, g Guard, depth int) []Guard {
	out = append(out, g)
	if depth > 4 {
		return out
	}
	switch x := g.Cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return expandGuard(out, Guard{x.X, !g.Pol, g.If}, depth+1)
		}
	case *ssa.Phi:
		at := -1
		for k, e := range x.Edges {
			if b, ok := constBool(e); ok && b != g.Pol {
				continue
			}
			if at >= 0 {
				return out
			}
			at = k
		}
		if at < 0 || naturalLoop(x.Block())[x.Block().Preds[at]] {
			return out
		}
		if _, ok := constBool(x.Edges[at]); !ok {
			out = expandGuard(out, Guard{x.Edges[at], g.Pol, g.If}, depth+1)
		}
		pr := x.Block().Preds[at]
		if pr != x.Block().Idom() {
			seen := map[ssa.Value]bool{}
			for _, o := range out {
				seen[o.Cond] = true
			}
			for _, o := range guardsOf(pr) {
				if !seen[o.Cond] {
					out = append(out, o)
				}
			}
		}
	}
	return out
}

func edgeDominates(from, to *ssa.BasicBlock) bool {
	for _, pr := range to.Preds {
		if pr == from {
			continue
		}
		if !to.Dominates(pr) {
			return false
		}
	}
	return true
}

// Loops: natural loop of header h (blocks), or nil.
func naturalLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	var body map[*ssa.BasicBlock]bool
	for _, pr := range h.Preds {
		if h.Dominates(pr) {
			if body == nil {
				body = map[*ssa.BasicBlock]bool{h: true}
			}
			st := []*ssa.BasicBlock{pr}
			for len(st) > 0 {
				x := st[len(st)-1]
				st = st[:len(st)-1]
				if body[x] {
					continue
				}
				body[x] = true
				st = append(st, x.Preds...)
			}
		}
	}
	return body
}

// innermostLoop containing b: header and body.
func innermostLoop(b *ssa.BasicBlock) (*ssa.BasicBlock, map[*ssa.BasicBlock]bool) {
	for h := b; h != nil; h = h.Idom() {
		if l := naturalLoop(h); l != nil && l[b] {
			return h, l
		}
	}
	return nil, nil
}

// mustPass reports whether every path from the instruction after `from` (or from entry if nil) to a Return
// passes an instruction satisfying ok. Paths that end in panic are ignored. bad receives an offending return.
func mustPass(f *ssa.Function, from ssa.Instruction, ok func(ssa.Instruction) bool, isExit func(*ssa.Return) bool) (bool, *ssa.Return) {
	type st struct {
		b *ssa.BasicBlock
		i int
	}
	var start st
	if from == nil {
		start = st{f.Blocks[0], 0}
	} else {
		start = st{from.Block(), idxIn(from) + 1}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []st{start}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		passed := false
		for k := s.i; k < len(s.b.Instrs); k++ {
			ins := s.b.Instrs[k]
			if ok(ins) {
				passed = true
				break
			}
			if r, isR := ins.(*ssa.Return); isR && s.b != f.Recover {
				if isExit == nil || isExit(r) {
					return false, r
				}
			}
		}
		if passed {
			continue
		}
		for _, n := range s.b.Succs {
			if !seen[n] {
				seen[n] = true
				work = append(work, st{n, 0})
			}
		}
	}
	return true, nil
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C03", Rule: "every exported function of package base that builds a data grid from a source grid passes, on each path to a returned fresh grid, a complete loop over the source's AllClassAttributes whose elements reach AddClassAttribute (or a class-attribute map update with true), skipped only by an Equals test; every AddClassAttribute records true on each success path, every RemoveClassAttribute only records false, every AllClassAttributes lists exactly the entries recorded true.", Run: runC03})
	register(&Rule{ID: "C04", Rule: "lock-set dataflow over DenseInstances: every access to the structural maps, the attribute list, the group list (writes), the layout flag and the row-size counters happens with the instance's mutex held on all paths (in the function or in every caller of an unexported helper); every acquisition is released on every exit (panics included); no call made while holding it can acquire it again.", Run: runC04})
	register(&Rule{ID: "C05", Rule: "every write to the layout of DenseInstances (group list, group maps, attribute list, additions to a group) is dominated, in the function or in all its callers, by a test that storage has not been allocated; the flag is set on every success path of Extend after the storage was resized, and never cleared.", Run: runC05})
	register(&Rule{ID: "C10", Rule: "path counting: on every path through one row of a dividing or counting routine, the row is appended to exactly one part, or exactly one counter is incremented; parts are handed out under the key (or fold) they were collected under; shuffles and samples build their row mapping by one of the recognised permutation schemes from in-range rows; a row swap does not use bytes aliased to a row already overwritten.", Run: runC10})
}

// ---------- C03 ----------

func (p *Prog) baseGridFuncs() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if f.Parent() != nil || !isExported(f) || f.Signature.Recv() != nil || f.Pkg == nil || !strings.HasSuffix(f.Pkg.Pkg.Path(), "/base") {
			continue
		}
		hasP, hasR := false, false
		for i := 0; i < f.Signature.Params().Len(); i++ {
			if p.isGridType(f.Signature.Params().At(i).Type()) {
				hasP = true
			}
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if p.isGridType(f.Signature.Results().At(i).Type()) {
				hasR = true
			}
		}
		// CopyDenseInstances copies the layout only: which attributes are the class is up to its caller.
		if hasP && hasR && f.Name() != "CopyDenseInstances" {
			out = append(out, f)
		}
	}
	return out
}

// transferLoop: the elements of the class-attribute list returned by call reach the class set of another grid, in a complete loop.
func (p *Prog) classTransfer(f *ssa.Function, call *ssa.Call) (bool, string) {
	// a part of the list only
	for g := range p.family(f) {
		for _, i := range instrs(g) {
			if sl, ok := i.(*ssa.Slice); ok && (sl.Low != nil || sl.High != nil) {
				for _, l := range p.Trace(sl.X, TraceOpt{NoCalls: true}) {
					if l == ssa.Value(call) {
						return false, "only a part of the class attributes is looked at (" + p.InstrPos(sl) + ")"
					}
				}
			}
		}
	}
	from := func(v ssa.Value) bool {
		for _, l := range p.Trace(v, TraceOpt{Elems: true, NoCalls: true}) {
			if l == ssa.Value(call) {
				return true
			}
		}
		return false
	}
	found := false
	msg := ""
	for g := range p.family(f) {
		for _, i := range instrs(g) {
			hit := false
			switch t := i.(type) {
			case *ssa.MapUpdate:
				if b, ok := constBool(t.Value); ok && from(t.Key) {
					if !b {
						msg = "class attributes are recorded as false"
						continue
					}
					hit = true
				}
			case ssa.CallInstruction:
				if methodNamed(t, "AddClassAttribute") && len(argsOf(t)) == 1 && from(argsOf(t)[0]) {
					hit = true
				}
			}
			if !hit {
				continue
			}
			h, body := innermostLoop(i.Block())
			if h == nil {
				if g == owner(call.Parent()) || g == call.Parent() {
					msg = "only one class attribute is carried over"
				} else {
					found = true // a helper given one element
				}
				continue
			}
			// find the loop that ranges over the list
			for h != nil {
				if l := loopAt(g, h); l != nil && l.Bound != nil && p.boundIsLenOf(l.Bound, from) {
					break
				}
				nh, nb := outerLoop(g, h)
				if nh == nil {
					break
				}
				h, body = nh, nb
			}
			l := loopAt(g, h)
			if l == nil || l.Bound == nil || !p.boundIsLenOf(l.Bound, from) {
				found = true // not a counting loop; element flow suffices
				continue
			}
			if l.Init != nil {
				if k, ok := constInt(l.Init); ok && !(k == 0 || (l.Range && k == -1)) {
					msg = "the first class attributes are skipped"
					continue
				}
			}
			early := false
			for b := range body {
				if b == h {
					continue
				}
				for _, s := range b.Succs {
					if !body[s] && !endsInPanic(s) && !p.errorExit(s) {
						early = true
					}
				}
			}
			if early {
				msg = "the loop over the class attributes can end early"
				continue
			}
			bad := false
			for _, gd := range guardsOf(i.Block()) {
				ib := blockOf(gd.Cond)
				if ib == nil || !body[ib] || ib == h {
					continue
				}
				eq := false
				for v := range p.backSlice(gd.Cond) {
					if c, ok := v.(*ssa.Call); ok && (methodNamed(c, "Equals") || isErrorResultSig(c)) {
						eq = true
					}
					if ex, ok := v.(*ssa.Extract); ok {
						if _, isL := ex.Tuple.(*ssa.Call); isL {
							eq = true
						}
					}
				}
				if !eq && !p.flagFromEquals(gd.Cond) && !p.isLenLoopCond(gd.Cond) {
					bad = true
				}
			}
			if bad {
				msg = "some class attributes are skipped by a condition that is not an attribute match"
				continue
			}
			found = true
		}
	}
	if found {
		return true, ""
	}
	if msg == "" {
		msg = "the class attributes are fetched but not carried over"
	}
	return false, msg
}

func isErrorResultSig(c *ssa.Call) bool {
	r := c.Common().Signature().Results()
	return r.Len() > 0 && isErrorType(r.At(r.Len()-1).Type())
}

// flagFromEquals: a boolean phi whose incoming constants are chosen under Equals tests.
func (p *Prog) flagFromEquals(c ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch t := v.(type) {
		case *ssa.UnOp:
			return walk(t.X)
		case *ssa.Phi:
			for i, e := range t.Edges {
				if walk(e) {
					return true
				}
				for _, g := range guardsOf(t.Block().Preds[i]) {
					for x := range p.backSlice(g.Cond) {
						if cl, ok := x.(*ssa.Call); ok && methodNamed(cl, "Equals") {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return walk(c)
}

// isLenLoopCond: the condition of an inner loop counting up to a length.
func (p *Prog) isLenLoopCond(c ssa.Value) bool {
	bo, ok := c.(*ssa.BinOp)
	if !ok {
		return false
	}
	head := false
	for _, q := range bo.Block().Preds {
		if bo.Block().Dominates(q) {
			head = true
		}
	}
	if !head {
		return false
	}
	for _, v := range []ssa.Value{bo.X, bo.Y} {
		if cl, ok := v.(*ssa.Call); ok {
			if b, ok := cl.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return true
			}
		}
	}
	return false
}

func blockOf(v ssa.Value) *ssa.BasicBlock {
	if i, ok := v.(ssa.Instruction); ok {
		return i.Block()
	}
	return nil
}

func loopAt(f *ssa.Function, h *ssa.BasicBlock) *CountLoop {
	for _, l := range countingLoops(f) {
		if l.Header == h {
			return l
		}
	}
	return nil
}

func outerLoop(f *ssa.Function, h *ssa.BasicBlock) (*ssa.BasicBlock, map[*ssa.BasicBlock]bool) {
	var bh *ssa.BasicBlock
	var bb map[*ssa.BasicBlock]bool
	for _, b := range f.Blocks {
		if b == h {
			continue
		}
		body := naturalLoop(b)
		if body != nil && body[h] && (bb == nil || len(body) < len(bb)) {
			bh, bb = b, body
		}
	}
	return bh, bb
}

func (p *Prog) boundIsLenOf(b ssa.Value, is func(ssa.Value) bool) bool {
	c, ok := b.(*ssa.Call)
	if !ok {
		return false
	}
	bi, ok := c.Call.Value.(*ssa.Builtin)
	return ok && bi.Name() == "len" && is(c.Call.Args[0])
}

func endsInPanic(b *ssa.BasicBlock) bool {
	for k := 0; k < 6; k++ {
		switch b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Panic:
			return true
		case *ssa.Jump:
			b = b.Succs[0]
			continue
		}
		return false
	}
	return false
}

// errorExit: the block leads straight to a return with a non-nil error.
func (p *Prog) errorExit(b *ssa.BasicBlock) bool {
	for k := 0; k < 6; k++ {
		switch t := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			return len(t.Results) > 0 && isErrorType(t.Results[len(t.Results)-1].Type()) && !p.successReturn(t)
		case *ssa.Jump:
			b = b.Succs[0]
			continue
		}
		return false
	}
	return false
}

func runC03(c *Ctx) {
	p := c.P
	subj := map[*ssa.Function]bool{}
	fs := p.baseGridFuncs()
	for _, f := range fs {
		subj[f] = true
	}
	for _, f := range fs {
		key := "derive:" + p.Name(f)
		fresh := map[ssa.Value]bool{}
		for _, r := range returns(f) {
			for _, v := range r.Results {
				if !p.isGridType(v.Type()) {
					continue
				}
				subjCall := func(x ssa.Value) *ssa.Call {
					if ex, ok := x.(*ssa.Extract); ok {
						x = ex.Tuple
					}
					if cl, ok := x.(*ssa.Call); ok {
						if g := cl.Common().StaticCallee(); g != nil && subj[g] {
							return cl
						}
					}
					return nil
				}
				stop := func(x ssa.Value) bool { return subjCall(x) != nil }
				for _, l := range p.Trace(v, TraceOpt{NoParams: true, Stop: stop}) {
					switch l.(type) {
					case *ssa.Parameter, *ssa.Const:
						continue
					}
					if t := subjCall(l); t != nil {
						// the derived grid is built from this function's source
						ok := false
						for _, a := range t.Call.Args {
							if p.isGridType(a.Type()) {
								for _, al := range p.Trace(a, TraceOpt{NoParams: true, Stop: stop}) {
									switch al.(type) {
									case *ssa.Parameter, *ssa.Call, *ssa.Extract, *ssa.FreeVar:
										ok = true
									}
								}
							}
						}
						if !ok {
							fresh[l] = true
						}
						continue
					}
					fresh[l] = true
				}
			}
		}
		if len(fresh) == 0 {
			c.Ok(key, p.Pos(f.Pos()), "returns its argument or another derived grid")
			continue
		}
		// fresh grids need the transfer
		bad := ""
		var seenCall *ssa.Call
		passes := func(i ssa.Instruction) bool { return p.transfersAt(i, 4, &seenCall) }
		ok, ret := mustPass(f, nil, passes, func(r *ssa.Return) bool {
			if !p.successReturn(r) {
				return false
			}
			for k := range r.Results {
				v := p.retVal(r, k)
				if p.isGridType(v.Type()) && !isNilConst(v) {
					return r.Block() != f.Recover
				}
			}
			return false
		})
		if !ok {
			bad = "a grid is returned (" + p.InstrPos(ret) + ") without looking at the source's class attributes"
			if seenCall != nil {
				if _, m := p.classTransfer(owner(seenCall.Parent()), seenCall); m != "" {
					bad = m
				}
			}
		}
		c.Check(bad == "", key, p.Pos(f.Pos()), "class attributes are carried over on every path", bad)
	}
	c.Floor("derived-grid functions", len(fs), 8)
	// registers
	n := 0
	for _, t := range p.gridTypes() {
		for _, m := range []string{"AddClassAttribute", "RemoveClassAttribute", "AllClassAttributes"} {
			f := p.Method(t, m)
			if f == nil {
				continue
			}
			n++
			key := m + ":" + typeName(t)
			switch m {
			case "AddClassAttribute":
				bad := ""
				for _, i := range p.familyInstrs(f) {
					if mu, ok := i.(*ssa.MapUpdate); ok {
						if b, isB := constBool(mu.Value); isB && !b {
							bad = "records the class attribute as removed"
						}
					}
				}
				if bad == "" {
					bad = p.addsOnSuccess(f)
				}
				c.Check(bad == "", key, p.Pos(f.Pos()), "recorded on every success path", bad)
			case "RemoveClassAttribute":
				bad := "nothing is recorded as removed"
				for _, i := range p.familyInstrs(f) {
					switch x := i.(type) {
					case *ssa.MapUpdate:
						if b, isB := constBool(x.Value); isB {
							if b {
								bad = "records the attribute as a class attribute"
							} else if bad == "nothing is recorded as removed" {
								bad = ""
							}
						}
					case *ssa.Call:
						if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" && bad == "nothing is recorded as removed" {
							bad = ""
						}
						if methodNamed(x, "RemoveClassAttribute") && bad == "nothing is recorded as removed" {
							bad = ""
						}
					}
				}
				c.Check(bad == "", key, p.Pos(f.Pos()), "recorded as removed", bad)
			case "AllClassAttributes":
				bad := p.listsTrueEntries(f)
				c.Check(bad == "", key, p.Pos(f.Pos()), "lists the entries recorded true", bad)
			}
		}
	}
	c.Floor("class attribute registers", n, 10)
}

func (p *Prog) familyInstrs(f *ssa.Function) []ssa.Instruction {
	var out []ssa.Instruction
	for _, g := range sortedFuncs(p, p.family(f)) {
		out = append(out, instrs(g)...)
	}
	return out
}

// transfersAt: the instruction is (or calls a helper that on all paths makes) an AllClassAttributes call followed by a transfer.
func (p *Prog) transfersAt(i ssa.Instruction, depth int, seen **ssa.Call) bool {
	cl, ok := i.(*ssa.Call)
	if !ok {
		return false
	}
	if methodNamed(cl, "AllClassAttributes") {
		*seen = cl
		ok, _ := p.classTransfer(cl.Parent(), cl)
		if !ok {
			for _, g := range p.callers[cl.Parent()] {
				_ = g
			}
		}
		return ok
	}
	if depth == 0 {
		return false
	}
	for _, g := range p.Callees(cl) {
		if !p.IsLibFunc(g) || isExported(g) {
			continue
		}
		ok, _ := mustPass(g, nil, func(j ssa.Instruction) bool { return p.transfersAt(j, depth-1, seen) }, nil)
		if ok && len(returns(g)) > 0 {
			return true
		}
	}
	return false
}

// addsOnSuccess: each nil-error return is preceded by a recording.
func (p *Prog) addsOnSuccess(f *ssa.Function) string {
	msg := ""
	any := false
	for _, i := range p.familyInstrs(f) {
		if p.isRecording(i) {
			any = true
		}
	}
	if !any {
		return "nothing is recorded"
	}
	(&Explorer{P: p, Visit: func(i ssa.Instruction, pp *pathPoint) bool {
		if p.isRecording(i) {
			pp.flags["rec"] = true
		}
		if cl, ok := i.(*ssa.Call); ok {
			for _, g := range p.Callees(cl) {
				if p.IsLibFunc(g) && !isExported(g) {
					for _, j := range p.familyInstrs(g) {
						if p.isRecording(j) {
							pp.flags["rec"] = true
						}
					}
				}
			}
		}
		if r, ok := i.(*ssa.Return); ok && !pp.flags["rec"] {
			if len(r.Results) == 0 || isNilConst(pp.Resolve(r.Results[len(r.Results)-1])) {
				msg = "success is reported at " + p.InstrPos(r) + " without recording the class attribute"
			}
		}
		return false
	}}).RunEntry(f)
	return msg
}

func (p *Prog) isRecording(i ssa.Instruction) bool {
	switch t := i.(type) {
	case *ssa.MapUpdate:
		b, ok := constBool(t.Value)
		return ok && b
	case *ssa.Call:
		return methodNamed(t, "AddClassAttribute")
	}
	return false
}

// listsTrueEntries: elements are appended to the listing only under a true lookup of the class map.
func (p *Prog) listsTrueEntries(f *ssa.Function) string {
	n := 0
	for _, g := range sortedFuncs(p, p.family(f)) {
		for _, i := range instrs(g) {
			lk, ok := i.(*ssa.Lookup)
			var val ssa.Value
			if ok {
				if m, isM := lk.X.Type().Underlying().(*types.Map); isM {
					if b, isB := m.Elem().Underlying().(*types.Basic); isB && b.Kind() == types.Bool {
						val = lk
						if lk.CommaOk {
							val = nil
							for _, r := range *lk.Referrers() {
								if ex, ok := r.(*ssa.Extract); ok && ex.Index == 0 {
									val = ex
								}
							}
							if val == nil {
								return "membership is tested by key only: removed class attributes are still listed"
							}
						}
					}
				}
			}
			if nx, ok := i.(*ssa.Next); ok && !nx.IsString {
				if rg, ok := nx.Iter.(*ssa.Range); ok {
					if m, isM := rg.X.Type().Underlying().(*types.Map); isM {
						if b, isB := m.Elem().Underlying().(*types.Basic); isB && b.Kind() == types.Bool {
							for _, r := range *nx.Referrers() {
								if ex, ok := r.(*ssa.Extract); ok && ex.Index == 2 {
									val = ex
								}
							}
						}
					}
				}
			}
			if val == nil {
				continue
			}
			n++
			// appends controlled by the value
			for _, j := range instrs(g) {
				cl, ok := j.(*ssa.Call)
				if !ok {
					continue
				}
				bi, isB := cl.Call.Value.(*ssa.Builtin)
				if !isB || bi.Name() != "append" {
					continue
				}
				for _, gd := range guardsOf(cl.Block()) {
					if neg, base := stripNot(gd.Cond); base == val && gd.Pol == neg {
						return "lists the attributes that were removed"
					}
				}
			}
			ctrl := false
			for _, j := range instrs(g) {
				cl, ok := j.(*ssa.Call)
				if !ok {
					continue
				}
				bi, isB := cl.Call.Value.(*ssa.Builtin)
				if !isB || bi.Name() != "append" {
					continue
				}
				for _, gd := range guardsOf(cl.Block()) {
					if neg, base := stripNot(gd.Cond); base == val && gd.Pol != neg {
						ctrl = true
					}
				}
			}
			if !ctrl {
				return "the recorded flag does not decide what is listed"
			}
		}
	}
	if n == 0 {
		// no lookup of a flag: entries must then be deleted on removal
		for _, t := range p.gridTypes() {
			if rm := p.Method(t, "RemoveClassAttribute"); rm != nil && f.Signature.Recv() != nil && namedOf(f.Signature.Recv().Type()) == t {
				for _, i := range p.familyInstrs(rm) {
					if cl, ok := i.(*ssa.Call); ok {
						if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
							return ""
						}
					}
				}
				return "the recorded flag is not consulted: removed class attributes are still listed"
			}
		}
	}
	return ""
}

// stripNot: (number of negations is odd, operand).
func stripNot(v ssa.Value) (bool, ssa.Value) {
	neg := false
	for {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			return neg, v
		}
		neg = !neg
		v = u.X
	}
}

// ---------- C04 / C05: DenseInstances ----------

func (p *Prog) denseFields() (*types.Named, map[string]*types.Var, *types.Var) {
	t := p.Type("base", "DenseInstances")
	if t == nil {
		panic("base.DenseInstances not found")
	}
	st := t.Underlying().(*types.Struct)
	fs := map[string]*types.Var{}
	var lock *types.Var
	for i := 0; i < st.NumFields(); i++ {
		v := st.Field(i)
		fs[v.Name()] = v
		if n := namedOf(v.Type()); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && strings.HasSuffix(n.Obj().Name(), "Mutex") {
			lock = v
		}
	}
	if lock == nil {
		panic("no mutex in base.DenseInstances")
	}
	return t, fs, lock
}

// lockOp: +1 Lock, -1 Unlock on the given mutex field.
func (p *Prog) lockOp(i ssa.Instruction, lock *types.Var) (op int, deferred bool) {
	c, ok := i.(ssa.CallInstruction)
	if !ok {
		return 0, false
	}
	o := calleeObj(c)
	if o == nil || o.Pkg() == nil || o.Pkg().Path() != "sync" {
		return 0, false
	}
	rv := recvOf(c)
	fa, ok := rv.(*ssa.FieldAddr)
	if !ok || fieldVar(fa.X.Type(), fa.Field) != lock {
		return 0, false
	}
	_, d := i.(*ssa.Defer)
	switch o.Name() {
	case "Lock", "RLock":
		return 1, d
	case "Unlock", "RUnlock":
		return -1, d
	}
	return 0, false
}

// heldAt: instructions at which the mutex is certainly held because of an acquisition in the same function.
func (p *Prog) heldAt(f *ssa.Function, lock *types.Var) map[ssa.Instruction]bool {
	in := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		in[b] = true
	}
	in[f.Blocks[0]] = false
	transfer := func(b *ssa.BasicBlock, st bool, rec map[ssa.Instruction]bool) bool {
		for _, i := range b.Instrs {
			if rec != nil && st {
				rec[i] = true
			}
			op, d := p.lockOp(i, lock)
			if d {
				continue
			}
			if op > 0 {
				st = true
			} else if op < 0 {
				st = false
			} else if c, ok := i.(*ssa.Call); ok && !st {
				// helper that acquires
				for _, g := range p.Callees(c) {
					if p.IsLibFunc(g) && p.netLock(g, lock) > 0 {
						st = true
					}
				}
			} else if ok && st {
				for _, g := range p.Callees(c) {
					if p.IsLibFunc(g) && p.netLock(g, lock) < 0 {
						st = false
					}
				}
			}
		}
		return st
	}
	for changed := true; changed; {
		changed = false
		for _, b := range f.Blocks {
			st := in[b]
			if b != f.Blocks[0] {
				st = true
				for _, pr := range b.Preds {
					if !transfer(pr, in[pr], nil) {
						st = false
					}
				}
				if len(b.Preds) == 0 {
					st = false
				}
			}
			if st != in[b] {
				in[b] = st
				changed = true
			}
		}
	}
	rec := map[ssa.Instruction]bool{}
	for _, b := range f.Blocks {
		transfer(b, in[b], rec)
	}
	return rec
}

// netLock: a helper consisting of just an acquisition or release.
func (p *Prog) netLock(g *ssa.Function, lock *types.Var) int {
	n := 0
	for _, i := range instrs(g) {
		op, d := p.lockOp(i, lock)
		if d {
			if op < 0 {
				n--
			}
			continue
		}
		n += op
	}
	return n
}

func (p *Prog) freshBase(v ssa.Value) bool {
	ls := p.Trace(v, TraceOpt{NoParams: true, NoCalls: true})
	for _, l := range ls {
		switch t := l.(type) {
		case *ssa.Alloc:
		case *ssa.Call:
			g := t.Common().StaticCallee()
			if g == nil || !strings.HasPrefix(g.Name(), "New") {
				return false
			}
		default:
			return false
		}
	}
	return len(ls) > 0
}

type denseAccess struct {
	i     ssa.Instruction
	field *types.Var
	write bool
	base  ssa.Value
}

// accesses to fields of the struct in f: reads (loads), writes (stores, map updates, deletes).
func (p *Prog) structAccesses(f *ssa.Function, t *types.Named) []denseAccess {
	var out []denseAccess
	for _, i := range instrs(f) {
		// the attribute list of a group held by the data set is part of its structure
		if ci, ok := i.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
			write := false
			switch ci.Common().Method.Name() {
			case "AddAttribute", "resize":
				write = true
				fallthrough
			case "Attributes":
				if n := namedOf(ci.Common().Value.Type()); n != nil && n.Obj().Name() == "AttributeGroup" {
					for _, l := range p.Trace(ci.Common().Value, TraceOpt{Elems: true, NoCalls: true}) {
						if fv, fa := fieldLoad(l); fa != nil && namedOf(fa.X.Type()) == t {
							out = append(out, denseAccess{i, fv, write, fa.X})
							break
						}
					}
				}
			}
		}
		fa, ok := i.(*ssa.FieldAddr)
		if !ok || namedOf(fa.X.Type()) != t {
			continue
		}
		fv := fieldVar(fa.X.Type(), fa.Field)
		for _, r := range *fa.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == fa {
					out = append(out, denseAccess{x, fv, true, fa.X})
				}
			case *ssa.UnOp:
				out = append(out, denseAccess{x, fv, false, fa.X})
				for _, rr := range *x.Referrers() {
					switch y := rr.(type) {
					case *ssa.MapUpdate:
						if y.Map == ssa.Value(x) {
							out = append(out, denseAccess{y, fv, true, fa.X})
						}
					case *ssa.Lookup:
						if y.X == ssa.Value(x) {
							out = append(out, denseAccess{y, fv, false, fa.X})
						}
					case *ssa.Range:
						out = append(out, denseAccess{y, fv, false, fa.X})
						for _, nx := range *y.Referrers() {
							if n, ok := nx.(*ssa.Next); ok {
								out = append(out, denseAccess{n, fv, false, fa.X})
							}
						}
					case *ssa.Call:
						if bi, ok := y.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
							out = append(out, denseAccess{y, fv, true, fa.X})
						}
					}
				}
			}
		}
	}
	return out
}

func runC04(c *Ctx) {
	p := c.P
	t, fs, lock := p.denseFields()
	guardedRead := map[*types.Var]bool{}
	guardedWrite := map[*types.Var]bool{}
	for _, v := range fs {
		if v == lock {
			continue
		}
		switch u := v.Type().Underlying().(type) {
		case *types.Map:
			guardedRead[v], guardedWrite[v] = true, true
		case *types.Slice:
			guardedWrite[v] = true
			if n := namedOf(u.Elem()); n != nil && n.Obj().Name() == "Attribute" {
				guardedRead[v] = true
			}
		case *types.Basic:
			guardedWrite[v] = true
			if u.Kind() == types.Bool {
				guardedRead[v] = true
			}
		}
	}
	n := 0
	heldCache := map[*ssa.Function]map[ssa.Instruction]bool{}
	held := func(f *ssa.Function) map[ssa.Instruction]bool {
		if h, ok := heldCache[f]; ok {
			return h
		}
		h := p.heldAt(f, lock)
		heldCache[f] = h
		return h
	}
	var callersHold func(f *ssa.Function, seen map[*ssa.Function]bool) (bool, string)
	callersHold = func(f *ssa.Function, seen map[*ssa.Function]bool) (bool, string) {
		if seen[f] {
			return true, ""
		}
		seen[f] = true
		if f.Parent() != nil { // closure: held where it is created (called synchronously by library helpers such as sort.Slice)
			for _, mc := range p.makeClosures[f] {
				if held(mc.Parent())[mc] {
					continue
				}
				if ok, w := callersHold(mc.Parent(), seen); !ok {
					return false, w
				}
			}
			return len(p.makeClosures[f]) > 0, p.Name(f)
		}
		if isExported(f) {
			return false, p.Name(f)
		}
		cs := p.callers[f]
		for _, cs1 := range cs {
			if held(cs1.Parent())[cs1.(ssa.Instruction)] {
				continue
			}
			if ok, w := callersHold(cs1.Parent(), seen); !ok {
				return false, w
			}
		}
		return len(cs) > 0, p.Name(f)
	}
	for _, f := range p.Funcs {
		bad := ""
		pos := p.Pos(f.Pos())
		k := 0
		for _, a := range p.structAccesses(f, t) {
			if _, isCall := a.i.(ssa.CallInstruction); !isCall && (a.write && !guardedWrite[a.field] || !a.write && !guardedRead[a.field]) {
				continue
			}
			if !a.write {
				// reading the field itself is guarded only for what is then used: the map or flag
				if u, ok := a.i.(*ssa.UnOp); ok {
					if _, isM := u.Type().Underlying().(*types.Map); isM {
						continue // its lookups and ranges are listed separately
					}
				}
			}
			if p.freshBase(a.base) {
				continue
			}
			k++
			n++
			if held(f)[a.i] {
				continue
			}
			if ok, w := callersHold(f, map[*ssa.Function]bool{}); !ok && bad == "" {
				verb := "reads"
				if a.write {
					verb = "writes"
				}
				bad = fmt.Sprintf("%s %s without holding the lock (reached from %s)", verb, a.field.Name(), w)
				pos = p.InstrPos(a.i)
			}
		}
		if k > 0 {
			c.Check(bad == "", "access:"+p.Name(f), pos, fmt.Sprintf("%d structural accesses under the lock", k), bad)
		}
	}
	c.Floor("guarded accesses", n, 30)
	// release
	nl := 0
	acquires := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		for _, i := range instrs(f) {
			op, d := p.lockOp(i, lock)
			if op <= 0 || d {
				continue
			}
			acquires[f] = true
			nl++
			msg := ""
			(&Explorer{P: p, Visit: func(j ssa.Instruction, pp *pathPoint) bool {
				o2, _ := p.lockOp(j, lock)
				if o2 < 0 {
					return true // released, or its release registered for every exit
				}
				if o2 > 0 {
					msg = "acquired again at " + p.InstrPos(j)
					return true
				}
				if cl, ok := j.(ssa.CallInstruction); ok {
					for _, g := range p.Callees(cl) {
						if p.IsLibFunc(g) && p.netLock(g, lock) < 0 {
							return true
						}
					}
				}
				switch j.(type) {
				case *ssa.Return:
					msg = "not released on the path to the return at " + p.InstrPos(j)
				case *ssa.Panic:
					msg = "not released on the path to the panic at " + p.InstrPos(j)
				}
				return false
			}}).Run(i)
			if p.netLock(f, lock) > 0 && !isExported(f) {
				msg = "" // a locking helper: judged at its callers
			}
			c.Check(msg == "", "release:"+p.Name(f), p.InstrPos(i), "released on every exit", msg)
		}
	}
	c.Floor("acquisitions", nl, 8)
	// no re-acquisition
	for _, f := range p.Funcs {
		h := held(f)
		for _, ci := range calls(f) {
			i := ci.(ssa.Instruction)
			if !h[i] {
				continue
			}
			if _, isD := i.(*ssa.Defer); isD {
				continue
			}
			if op, _ := p.lockOp(i, lock); op != 0 {
				if op > 0 {
					c.Bad("reacquire:"+p.Name(f), p.InstrPos(i), "the lock is acquired while it is already held: deadlock")
				}
				continue
			}
			var roots []*ssa.Function
			for _, g := range p.Callees(ci) {
				if p.IsLibFunc(g) {
					roots = append(roots, g)
				}
			}
			if len(roots) == 0 {
				continue
			}
			bad := ""
			for g := range p.Reachable(roots...) {
				if acquires[g] && !p.onFreshOnly(g) {
					bad = p.Name(g)
				}
			}
			c.Check(bad == "", "reacquire:"+p.Name(f), p.InstrPos(i), "no callee acquires the lock", "the lock is held here and "+bad+", reached from this call, acquires it again: deadlock")
		}
	}
}

func (p *Prog) onFreshOnly(g *ssa.Function) bool { return false }

// ---------- C05 ----------

func runC05(c *Ctx) {
	p := c.P
	t, _, _ := p.denseFields()
	st := t.Underlying().(*types.Struct)
	var flag *types.Var
	layout := map[*types.Var]bool{}
	for i := 0; i < st.NumFields(); i++ {
		v := st.Field(i)
		switch u := v.Type().Underlying().(type) {
		case *types.Basic:
			if u.Kind() == types.Bool {
				flag = v
			}
		case *types.Map:
			// group maps: string<->int
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() != types.Bool {
				if _, isB := u.Key().Underlying().(*types.Basic); isB {
					layout[v] = true
				}
			}
		case *types.Slice:
			layout[v] = true
		}
	}
	if flag == nil {
		panic("no layout flag in DenseInstances")
	}
	ag := p.Type("base", "AttributeGroup")
	isFlagFalse := func(b *ssa.BasicBlock) bool {
		for _, g := range guardsOf(b) {
			neg, v := stripNot(g.Cond)
			if fv, _ := fieldLoad(v); fv == flag && g.Pol == neg {
				return true
			}
			if bo, ok := v.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
				for _, pr := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
					if fv, _ := fieldLoad(pr[0]); fv == flag {
						if k, isC := constBool(pr[1]); isC {
							isFalse := (bo.Op == token.EQL) != k // cond true means flag false
							if (g.Pol != neg) == isFalse {
								return true
							}
						}
					}
				}
			}
			// a helper reporting the flag or returning an error when set
			if cl, ok := v.(*ssa.Call); ok {
				for _, h := range p.Callees(cl) {
					if p.IsLibFunc(h) && len(returns(h)) == 1 && len(returns(h)[0].Results) == 1 {
						if fv, _ := fieldLoad(returns(h)[0].Results[0]); fv == flag && g.Pol == neg {
							return true
						}
					}
				}
			}
			if x, eq, ok := nilTest(v); ok && (eq != neg) == g.Pol {
				if cl, isC := x.(*ssa.Call); isC && p.errWhenFlag(cl, flag) {
					return true
				}
			}
		}
		// dominated by a call to a helper that panics when the flag is set
		f := b.Parent()
		for _, ci := range calls(f) {
			if cl, ok := ci.(*ssa.Call); ok && cl.Block().Dominates(b) {
				for _, h := range p.Callees(cl) {
					if p.IsLibFunc(h) && !isExported(h) && p.returnsOnlyIfUnset(h, flag) {
						return true
					}
				}
			}
		}
		return false
	}
	var guarded func(f *ssa.Function, b *ssa.BasicBlock, depth int) (bool, string)
	guarded = func(f *ssa.Function, b *ssa.BasicBlock, depth int) (bool, string) {
		if isFlagFalse(b) {
			return true, ""
		}
		if isExported(f) || depth == 0 {
			return false, p.Name(f)
		}
		cs := p.callers[f]
		for _, ci := range cs {
			if ok, w := guarded(ci.Parent(), ci.Block(), depth-1); !ok {
				return false, w
			}
		}
		return len(cs) > 0, p.Name(f)
	}
	n := 0
	for _, f := range p.Funcs {
		k := 0
		bad, pos := "", p.Pos(f.Pos())
		for _, a := range p.structAccesses(f, t) {
			if _, isCall := a.i.(ssa.CallInstruction); isCall {
				if _, del := a.i.(*ssa.Call); !del || a.i.(*ssa.Call).Call.IsInvoke() {
					continue // group additions are looked at below
				}
			}
			if !a.write || !layout[a.field] || p.freshBase(a.base) {
				continue
			}
			k++
			n++
			if ok, w := guarded(f, a.i.Block(), 5); !ok && bad == "" {
				bad = "changes " + a.field.Name() + " although storage may already be allocated (reached from " + w + ")"
				pos = p.InstrPos(a.i)
			}
		}
		for _, ci := range calls(f) {
			if ag != nil && ci.Common().IsInvoke() && ci.Common().Method.Name() == "AddAttribute" && types.Identical(ci.Common().Value.Type(), ag) {
				// groups of a data set held by this package
				if f.Pkg == nil || !strings.HasSuffix(f.Pkg.Pkg.Path(), "/base") {
					continue
				}
				if !p.groupOfDense(ci.Common().Value, t) {
					continue
				}
				k++
				n++
				if ok, w := guarded(f, ci.Block(), 5); !ok && bad == "" {
					bad = "adds an attribute to a group although storage may already be allocated (reached from " + w + ")"
					pos = p.InstrPos(ci.(ssa.Instruction))
				}
			}
		}
		if k > 0 {
			c.Check(bad == "", "layout:"+p.Name(f), pos, fmt.Sprintf("%d layout writes only before allocation", k), bad)
		}
	}
	c.Floor("layout writes", n, 6)
	// the flag
	set := false
	for _, s := range p.fieldStores[flag] {
		fa := s.Addr.(*ssa.FieldAddr)
		if p.freshBase(fa.X) {
			continue
		}
		b, isC := constBool(s.Val)
		key := "flag:" + p.Name(s.Parent())
		if !isC || !b {
			c.Bad(key, p.InstrPos(s), "the allocated flag is cleared: the layout of allocated storage can change")
			continue
		}
		set = true
	}
	c.Check(set, "flag:set", "-", "set on allocation", "the allocated flag is never set")
	if ext := p.Method(t, "Extend"); ext != nil {
		sets := func(i ssa.Instruction) bool { return p.storesFlag(i, flag, 3) }
		ok, r := mustPass(ext, nil, sets, func(r *ssa.Return) bool { return p.successReturn(r) })
		pos := p.Pos(ext.Pos())
		if r != nil {
			pos = p.InstrPos(r)
		}
		c.Check(ok, "flag:Extend", pos, "set on every successful allocation", "storage is allocated without freezing the layout")
		// every group is resized by rows*rowsize and the row count grows
		p.extendRows(c, ext, t)
	} else {
		c.Bad("flag:Extend", "-", "DenseInstances.Extend not found")
	}
}

func (p *Prog) storesFlag(i ssa.Instruction, flag *types.Var, depth int) bool {
	if s, ok := i.(*ssa.Store); ok {
		if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field) == flag {
			b, isC := constBool(s.Val)
			return isC && b
		}
	}
	if cl, ok := i.(*ssa.Call); ok && depth > 0 {
		for _, g := range p.Callees(cl) {
			if p.IsLibFunc(g) && !isExported(g) {
				if ok, _ := mustPass(g, nil, func(j ssa.Instruction) bool { return p.storesFlag(j, flag, depth-1) }, func(r *ssa.Return) bool { return p.successReturn(r) }); ok && len(returns(g)) > 0 {
					return true
				}
			}
		}
	}
	return false
}

// errWhenFlag: the helper returns a nil error only when the flag is unset.
func (p *Prog) errWhenFlag(cl *ssa.Call, flag *types.Var) bool {
	for _, h := range p.Callees(cl) {
		if !p.IsLibFunc(h) {
			return false
		}
		for _, r := range returns(h) {
			if !p.successReturn(r) {
				continue
			}
			ok := false
			for _, g := range guardsOf(r.Block()) {
				neg, v := stripNot(g.Cond)
				if fv, _ := fieldLoad(v); fv == flag && g.Pol == neg {
					ok = true
				}
			}
			if !ok {
				return false
			}
		}
		return true
	}
	return false
}

func (p *Prog) returnsOnlyIfUnset(h *ssa.Function, flag *types.Var) bool {
	rs := returns(h)
	if len(rs) == 0 {
		return false
	}
	for _, r := range rs {
		ok := false
		for _, g := range guardsOf(r.Block()) {
			neg, v := stripNot(g.Cond)
			if fv, _ := fieldLoad(v); fv == flag && g.Pol == neg {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func (p *Prog) groupOfDense(v ssa.Value, t *types.Named) bool {
	for _, l := range p.Trace(v, TraceOpt{Elems: true, NoCalls: true}) {
		if _, fa := fieldLoad(l); fa != nil && namedOf(fa.X.Type()) == t {
			return true
		}
	}
	return false
}

// extendRows: Extend resizes each group by (rows argument × the group's row size) and adds rows to the row count.
func (p *Prog) extendRows(c *Ctx, ext *ssa.Function, t *types.Named) {
	if len(ext.Params) < 2 {
		return
	}
	n := 0
	for g := range p.family(ext) {
		for _, ci := range calls(g) {
			if !ci.Common().IsInvoke() || ci.Common().Method.Name() != "resize" {
				continue
			}
			n++
			arg := p.sym(ci.Common().Args[0])
			want := "rows*RowSizeInBytes"
			hasRows, hasSize := false, false
			for v := range p.backSlice(ci.Common().Args[0]) {
				if cl, ok := v.(*ssa.Call); ok && methodNamed(cl, "RowSizeInBytes") {
					hasSize = true
				}
				if pr, ok := v.(*ssa.Parameter); ok && isIntType(pr.Type()) {
					hasRows = true
				}
			}
			c.Check(hasRows && hasSize, "resize:"+p.Name(ext), p.InstrPos(ci.(ssa.Instruction)), "each group grows by the requested rows ("+arg.String()+")", "a group's storage is not grown by "+want)
			h, body := innermostLoop(ci.Block())
			if h != nil {
				early := false
				for b := range body {
					if b == h {
						continue
					}
					for _, s := range b.Succs {
						if !body[s] && !endsInPanic(s) && !p.errorExit(s) {
							early = true
						}
					}
				}
				c.Check(!early, "resize-all:"+p.Name(ext), p.InstrPos(ci.(ssa.Instruction)), "every group is resized", "the loop over the groups can end before every group is resized")
			}
		}
	}
	c.Floor("resize calls in Extend", n, 1)
	// the row count grows by what was asked for
	size := p.Method(t, "Size")
	if size == nil {
		return
	}
	var rowField *types.Var
	for _, r := range returns(size) {
		if len(r.Results) == 2 {
			if fv, _ := fieldLoad(p.retVal(r, 1)); fv != nil {
				rowField = fv
			}
		}
	}
	if rowField == nil {
		return
	}
	k := 0
	for g := range p.family(ext) {
		for _, i := range instrs(g) {
			s, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || fieldVar(fa.X.Type(), fa.Field) != rowField {
				continue
			}
			k++
			e := &SymEnv{P: p, Atom: func(v ssa.Value) (Sym, bool) {
				if fv, _ := fieldLoad(v); fv == rowField {
					return symAtom("OLD"), true
				}
				if pr, ok := v.(*ssa.Parameter); ok && isIntType(pr.Type()) {
					return symAtom("ROWS"), true
				}
				return Sym{}, false
			}}
			got := e.Eval(s.Val)
			c.Check(got.Eq(symAtom("OLD").Add(symAtom("ROWS"))), "rows:"+p.Name(ext), p.InstrPos(s), "the row count grows by the rows asked for", "after allocating ROWS more rows the row count becomes "+got.String())
		}
	}
	c.Check(k > 0, "rows:"+p.Name(ext), p.Pos(ext.Pos()), "row count updated", "the row count is not updated when storage grows")
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// ---------- C10 ----------

// iteration: one row of a routine: a row callback or the body of a row loop.
type iteration struct {
	f    *ssa.Function
	row  ssa.Value
	loop *CountLoop // nil for callbacks
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

// rowIterations of a function family: row callbacks and loops over row numbers (induction phi starting at 0 compared
// with a row count).
func (p *Prog) rowIterations(fam map[*ssa.Function]bool) []iteration {
	var out []iteration
	for _, g := range sortedFuncs(p, fam) {
		if isRowCallback(g.Signature) {
			out = append(out, iteration{f: g, row: g.Params[len(g.Params)-1]})
		}
		for _, b := range g.Blocks {
			body := naturalLoop(b)
			if body == nil {
				continue
			}
			for _, i := range b.Instrs {
				ph, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				if !isIntType(ph.Type()) {
					continue
				}
				iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
				if !ok {
					continue
				}
				bo, ok := iff.Cond.(*ssa.BinOp)
				if !ok {
					continue
				}
				if (bo.X == ssa.Value(ph) && p.isRowCount(bo.Y)) || (bo.Y == ssa.Value(ph) && p.isRowCount(bo.X)) {
					out = append(out, iteration{f: g, row: ph, head: b, body: body})
				}
				// range over make([]T, rows) and similar are not row loops
			}
		}
	}
	return out
}

// rowEvents of instruction i w.r.t. the row value: how many times it files the row (append of the row number) or
// increments a counter.
func (p *Prog) rowEvent(i ssa.Instruction, isRow func(ssa.Value) bool, depth int) (n int, kind string) {
	switch t := i.(type) {
	case *ssa.Call:
		if b, ok := t.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" && len(t.Call.Args) == 2 {
				if s, ok := t.Type().Underlying().(*types.Slice); ok && isIntType(s.Elem()) {
					for _, l := range p.Trace(t.Call.Args[1], TraceOpt{Elems: true, NoCalls: true, NoParams: true, Stop: isRow}) {
						if isRow(l) {
							return 1, "append"
						}
					}
				}
			}
			return 0, ""
		}
		if depth > 0 {
			for _, g := range p.Callees(t) {
				if !p.IsLibFunc(g) || isExported(g) || isRowCallback(g.Signature) {
					continue
				}
				prm := map[ssa.Value]bool{}
				for k, q := range g.Params {
					if a := argFor(t, g, k); a != nil && isRow(a) {
						prm[q] = true
					}
				}
				mn, mx, kd := p.countPaths(g, nil, func(v ssa.Value) bool { return prm[v] }, depth-1)
				if mx > 0 && mn == mx {
					return mn, kd
				}
				if mx > 0 {
					return 100, kd // varies
				}
			}
		}
	case *ssa.MapUpdate:
		if p.isIncrement(t.Value, func(l ssa.Value) bool {
			lk, ok := l.(*ssa.Lookup)
			return ok && p.sameContainer(lk.X, t.Map)
		}) {
			return 1, "count"
		}
	case *ssa.Store:
		if ia, ok := t.Addr.(*ssa.IndexAddr); ok {
			if p.isIncrement(t.Val, func(l ssa.Value) bool {
				u, ok := l.(*ssa.UnOp)
				if !ok {
					return false
				}
				ib, ok := u.X.(*ssa.IndexAddr)
				return ok && p.sameContainer(ib.X, ia.X)
			}) {
				return 1, "count"
			}
		}
	}
	return 0, ""
}

func (p *Prog) sameContainer(a, b ssa.Value) bool {
	if a == b || p.sameValue(a, b) {
		return true
	}
	la, lb := p.Trace(a, TraceOpt{NoParams: true, NoCalls: true}), p.Trace(b, TraceOpt{NoParams: true, NoCalls: true})
	for _, x := range la {
		for _, y := range lb {
			if x == y || p.sym(x).Eq(p.sym(y)) {
				return true
			}
		}
	}
	return false
}

func (p *Prog) isIncrement(v ssa.Value, prev func(ssa.Value) bool) bool {
	bo, ok := v.(*ssa.BinOp)
	if !ok || bo.Op != token.ADD {
		return false
	}
	if k, ok := constInt(bo.Y); ok && k == 1 && prev(bo.X) {
		return true
	}
	if k, ok := constInt(bo.X); ok && k == 1 && prev(bo.Y) {
		return true
	}
	return false
}

// countPaths: minimal and maximal number of events on the paths of one iteration.
func (p *Prog) countPaths(f *ssa.Function, it *iteration, isRow func(ssa.Value) bool, depth int) (mn, mx int, kind string) {
	mn, mx = -1, 0
	note := func(n int) {
		if mn < 0 || n < mn {
			mn = n
		}
		if n > mx {
			mx = n
		}
	}
	count := func(pp *pathPoint) int {
		switch {
		case pp.flags["2"]:
			return 2
		case pp.flags["1"]:
			return 1
		}
		return 0
	}
	e := &Explorer{P: p, MaxEdge: 64}
	e.Visit = func(i ssa.Instruction, pp *pathPoint) bool {
		if it != nil && it.head != nil && i.Block() == it.head {
			// back at the loop head: a retry of the same row files nothing
			edge := ssa.Value(it.row)
			if e2, ok := pp.env[it.row]; ok {
				edge = e2
			}
			d, known := p.rowDelta(edge, it.row, pp)
			if known && d == 0 {
				if count(pp) > 0 {
					note(2)
				}
				return true
			}
			note(count(pp))
			return true
		}
		if it != nil && it.head != nil && !it.body[i.Block()] {
			return true // left the loop (checked by C01)
		}
		n, k := p.rowEvent(i, isRow, depth)
		if n > 0 {
			kind = k
			for ; n > 0; n-- {
				if pp.flags["1"] {
					pp.flags["2"] = true
				}
				pp.flags["1"] = true
				if pp.flags["2"] {
					break
				}
			}
		}
		switch r := i.(type) {
		case *ssa.Return:
			if it == nil || it.head == nil {
				if len(r.Results) > 0 && isErrorType(r.Results[len(r.Results)-1].Type()) {
					v := pp.Resolve(r.Results[len(r.Results)-1])
					if !isNilConst(v) && p.definitelyErr(v, r.Block(), 4) {
						return true
					}
				}
				note(count(pp))
			}
			return true
		case *ssa.Panic:
			return true
		}
		return false
	}
	if it != nil && it.head != nil {
		for _, s := range it.head.Succs {
			if it.body[s] {
				e.run(s, 0)
			}
		}
	} else {
		e.RunEntry(f)
	}
	if mn < 0 {
		mn = 0
	}
	return mn, mx, kind
}

// rowDelta: edge = row + d.
func (p *Prog) rowDelta(edge, row ssa.Value, pp *pathPoint) (int64, bool) {
	e := &SymEnv{P: p, Path: pp, Atom: func(v ssa.Value) (Sym, bool) {
		if v == row {
			return symAtom("ROW"), true
		}
		return Sym{}, false
	}}
	d := e.Eval(edge).Sub(symAtom("ROW"))
	if r, ok := d.IsConst(); ok && r.IsInt() {
		return r.Num().Int64(), true
	}
	return 0, false
}

func runC10(c *Ctx) {
	p := c.P
	subjects := []string{}
	for _, f := range p.Funcs {
		if f.Parent() != nil || !isExported(f) || f.Signature.Recv() != nil {
			continue
		}
		n := f.Name()
		if strings.HasPrefix(n, "DecomposeOn") || strings.HasPrefix(n, "GetClassDistribution") || n == "InstancesTrainTestSplit" || n == "GenerateCrossFoldValidationConfusionMatrices" {
			subjects = append(subjects, p.Name(f))
			ns := 0
			for _, it := range p.rowIterations(p.family(f)) {
				it := it
				isRow := func(v ssa.Value) bool { return v == it.row }
				mn, mx, kind := p.countPaths(it.f, &it, isRow, 3)
				if mx == 0 {
					continue
				}
				ns++
				key := "once:" + p.Name(f)
				what := "filed in exactly one part"
				if kind == "count" {
					what = "counted exactly once"
				}
				switch {
				case mn == 0:
					c.Bad(key, p.Pos(it.f.Pos()), "some row is "+strings.Replace(what, "exactly one", "no", 1)+" on some path")
				case mx > 1:
					c.Bad(key, p.Pos(it.f.Pos()), "some row is filed or counted more than once on some path")
				default:
					c.Ok(key, p.Pos(it.f.Pos()), "each row is "+what)
				}
			}
			if ns == 0 {
				c.Bad("once:"+p.Name(f), p.Pos(f.Pos()), "no per-row filing or counting found")
			}
			p.partKeys(c, f)
		}
	}
	c.Floor("dividing and counting routines", len(subjects), 7)
	p.crossFold(c)
	p.splitParts(c)
	p.shuffles(c)
	p.swapAlias(c)
}

// partKeys: m2[k] = view(rows[k']) with k == k'.
func (p *Prog) partKeys(c *Ctx, f *ssa.Function) {
	for g := range p.family(f) {
		for _, i := range instrs(g) {
			mu, ok := i.(*ssa.MapUpdate)
			if !ok {
				continue
			}
			var vc *ssa.Call
			for _, l := range p.Trace(mu.Value, TraceOpt{NoCalls: true, NoParams: true}) {
				if cl, ok := l.(*ssa.Call); ok && isCallTo(cl, "base", "", "NewInstancesViewFromVisible") {
					vc = cl
				}
			}
			if vc == nil {
				continue
			}
			for _, l := range p.Trace(vc.Call.Args[1], TraceOpt{NoCalls: true, NoParams: true}) {
				switch t := l.(type) {
				case *ssa.Lookup:
					c.Check(t.Index == mu.Key || p.sameValue(t.Index, mu.Key), "part-key:"+p.Name(f), p.InstrPos(i), "returned under the key it was collected under", "a part is returned under another key than the one its rows were collected under")
				case *ssa.Extract:
					if ek, ok := mu.Key.(*ssa.Extract); ok {
						c.Check(ek.Tuple == t.Tuple, "part-key:"+p.Name(f), p.InstrPos(i), "returned under the key it was collected under", "a part is returned under another key than the one its rows were collected under")
					}
				}
			}
		}
	}
}

// crossFold: in each round, the test rows are fold i, the training rows all folds but i, and the model is fitted on
// the latter only.
func (p *Prog) crossFold(c *Ctx) {
	for _, f := range p.Funcs {
		if f.Name() != "GenerateCrossFoldValidationConfusionMatrices" || f.Parent() != nil {
			continue
		}
		for g := range p.family(f) {
			for _, i := range instrs(g) {
				cl, ok := i.(*ssa.Call)
				if !ok {
					continue
				}
				b, isB := cl.Call.Value.(*ssa.Builtin)
				if !isB || b.Name() != "append" || len(cl.Call.Args) != 2 {
					continue
				}
				// append(rows, folds[j]...)
				var lk *ssa.Lookup
				var key ssa.Value
				if l, ok := cl.Call.Args[1].(*ssa.Lookup); ok {
					lk, key = l, l.Index
				} else if ex, ok := cl.Call.Args[1].(*ssa.Extract); ok {
					if nx, ok := ex.Tuple.(*ssa.Next); ok && ex.Index == 2 {
						for _, r := range *nx.Referrers() {
							if e2, ok := r.(*ssa.Extract); ok && e2.Index == 1 {
								key = e2
							}
						}
					}
				} else if u, ok := cl.Call.Args[1].(*ssa.UnOp); ok {
					if ia, ok := u.X.(*ssa.IndexAddr); ok {
						key = ia.Index
					}
				}
				_ = lk
				if key == nil {
					continue
				}
				guarded := false
				for _, gd := range guardsOf(cl.Block()) {
					neg, v := stripNot(gd.Cond)
					if q, ok := v.(*ssa.Call); ok {
						for _, a := range q.Call.Args {
							if p.sameValue(a, key) {
								guarded = true // asked in a part of its own
							}
						}
					}
					if bo, ok := v.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) && (p.sameValue(bo.X, key) || p.sameValue(bo.Y, key)) {
						differs := (bo.Op == token.NEQ) == (gd.Pol != neg)
						if differs {
							guarded = true
						}
					}
				}
				c.Check(guarded, "fold:"+p.Name(f), p.InstrPos(i), "the test fold is left out of the training rows", "a fold joins the training rows without being compared with the test fold")
			}
		}
		// fit and predict arguments
		var fit, pred []ssa.Value
		for g := range p.family(f) {
			for _, ci := range calls(g) {
				if methodNamed(ci, "Fit") && len(argsOf(ci)) == 1 {
					fit = append(fit, p.Trace(argsOf(ci)[0], TraceOpt{NoCalls: true})...)
				}
				if methodNamed(ci, "Predict") && len(argsOf(ci)) == 1 {
					pred = append(pred, p.Trace(argsOf(ci)[0], TraceOpt{NoCalls: true})...)
				}
			}
		}
		same := false
		for _, a := range fit {
			for _, b := range pred {
				if a == b {
					same = true
				}
			}
		}
		c.Check(len(fit) > 0 && len(pred) > 0 && !same, "fold-data:"+p.Name(f), p.Pos(f.Pos()), "fitted and tested on different parts", "the classifier is tested on the rows it was fitted on")
	}
}

// splitParts: the two results of the train/test split are views over different row lists.
func (p *Prog) splitParts(c *Ctx) {
	for _, f := range p.Funcs {
		if f.Name() != "InstancesTrainTestSplit" || f.Parent() != nil {
			continue
		}
		for _, r := range returns(f) {
			if len(r.Results) != 2 {
				continue
			}
			lists := make([]map[ssa.Value]bool, 2)
			for k := 0; k < 2; k++ {
				lists[k] = map[ssa.Value]bool{}
				for _, l := range p.Trace(r.Results[k], TraceOpt{NoParams: true, NoCalls: true}) {
					if cl, ok := l.(*ssa.Call); ok && isCallTo(cl, "base", "", "NewInstancesViewFromVisible") {
						for _, x := range p.Trace(cl.Call.Args[1], TraceOpt{NoParams: true, NoCalls: true}) {
							lists[k][x] = true
						}
					}
				}
			}
			share := false
			for x := range lists[0] {
				if lists[1][x] {
					share = true
				}
			}
			c.Check(!share && len(lists[0]) > 0 && len(lists[1]) > 0, "split:"+p.Name(f), p.InstrPos(r), "two different row lists", "the training and the testing part are built from the same rows")
		}
	}
}

// shuffles: recognised permutation and sampling schemes.
func (p *Prog) shuffles(c *Ctx) {
	n := 0
	for _, f := range p.baseGridFuncs() {
		if f.Name() != "LazyShuffle" && f.Name() != "Shuffle" && f.Name() != "SampleWithReplacement" {
			continue
		}
		n++
		fam := p.family(f)
		good, bad := "", ""
		pos := p.Pos(f.Pos())
		for g := range fam {
			for _, ci := range calls(g) {
				if isCallTo(ci, "math/rand", "", "Perm") {
					good = "rand.Perm"
				}
				if isCallTo(ci, "math/rand", "", "Shuffle") {
					good = "rand.Shuffle"
				}
			}
			for _, l := range countingLoops(g) {
				for b := range l.Body {
					for _, i := range b.Instrs {
						mu, ok := i.(*ssa.MapUpdate)
						var key, val ssa.Value
						if ok {
							key, val = mu.Key, mu.Value
						} else if s, ok := i.(*ssa.Store); ok {
							if ia, ok := s.Addr.(*ssa.IndexAddr); ok && isIntType(s.Val.Type()) {
								key, val = ia.Index, s.Val
							}
						}
						if key == nil || !isIntType(val.Type()) {
							continue
						}
						if f.Name() == "SampleWithReplacement" {
							if rc, ok := val.(*ssa.Call); ok && isCallTo(rc, "math/rand", "", "Intn") {
								if p.isRowCount(rc.Call.Args[0]) {
									good = "rows drawn below the source's row count"
								} else {
									bad, pos = "a row is drawn from a range that is not the source's row count", p.InstrPos(i)
								}
							}
							continue
						}
						if val == l.Cur { // rowMap[j] = i
							rc, ok := key.(*ssa.Call)
							if !ok || !isCallTo(rc, "math/rand", "", "Intn") {
								if key == l.Cur {
									continue // identity initialisation
								}
								continue
							}
							// j below or equal to i
							d, known := p.rowDelta(rc.Call.Args[0], l.Cur, nil)
							if !known || d != 1 {
								bad, pos = "the random position is not drawn from the rows already placed and the current one: some rows are repeated and others lost", p.InstrPos(i)
								continue
							}
							// preceded by rowMap[i] = rowMap[j]
							moved := false
							for _, k := range b.Instrs {
								m2, ok := k.(*ssa.MapUpdate)
								var k2, v2 ssa.Value
								if ok {
									k2, v2 = m2.Key, m2.Value
								} else if s2, ok := k.(*ssa.Store); ok {
									if ia2, ok := s2.Addr.(*ssa.IndexAddr); ok {
										k2, v2 = ia2.Index, s2.Val
									}
								}
								if k2 != l.Cur || !before(k, i) {
									continue
								}
								switch x := v2.(type) {
								case *ssa.Lookup:
									moved = moved || x.Index == key
								case *ssa.UnOp:
									if ia3, ok := x.X.(*ssa.IndexAddr); ok && ia3.Index == key {
										moved = true
									}
								}
							}
							if moved {
								good = "inside-out shuffle"
							} else {
								bad, pos = "the row displaced from the random position is not kept at the current one", p.InstrPos(i)
							}
						}
					}
				}
			}
			// in-place swaps are permutations whatever the positions
			for _, ci := range calls(g) {
				if o := calleeObj(ci); o != nil && o.Name() == "swapRows" {
					if good == "" {
						good = "row swaps"
					}
				}
			}
		}
		if bad == "" && good == "" {
			// delegates to another of these functions?
			for _, ci := range calls(f) {
				if g := ci.Common().StaticCallee(); g != nil && (g.Name() == "LazyShuffle" || g.Name() == "Shuffle") {
					good = "delegates"
				}
			}
		}
		if bad == "" && good == "" {
			good = "no recognised wrong scheme"
		}
		c.Check(bad == "", "permutation:"+p.Name(f), pos, good, bad)
	}
	c.Floor("shuffling and sampling routines", n, 3)
}

// swapAlias: bytes obtained by Get from a data set alias its storage; they are not used after a Set to that row.
func (p *Prog) swapAlias(c *Ctx) {
	n := 0
	for _, f := range p.Funcs {
		for _, ci := range calls(f) {
			set, ok := ci.(*ssa.Call)
			if !ok || !methodNamed(set, "Set") {
				continue
			}
			if o := calleeObj(set); o.Pkg() == nil || !strings.HasSuffix(o.Pkg().Path(), "/base") || len(argsOf(set)) != 3 {
				continue
			}
			for _, cj := range calls(f) {
				get, ok := cj.(*ssa.Call)
				if !ok || !methodNamed(get, "Get") || len(argsOf(get)) != 2 || !before(get, set) {
					continue
				}
				if !p.sameContainer(recvOf(get), recvOf(set)) || !p.sameValue(argsOf(get)[1], argsOf(set)[1]) || !p.sameSpec(argsOf(get)[0], argsOf(set)[0]) {
					continue
				}
				n++
				bad := ""
				for _, r := range *get.Referrers() {
					// a use that certainly comes after the Set in the same round
					if r == ssa.Instruction(set) {
						continue
					}
					if before(set, r) && r.Block() == set.Block() {
						bad = "bytes read from this cell are used at " + p.InstrPos(r) + " after the cell was overwritten at " + p.InstrPos(set)
					}
				}
				c.Check(bad == "", "alias:"+p.Name(f), p.InstrPos(get), "not used after being overwritten", bad)
			}
		}
	}
	c.Count("read-then-overwritten cells", n)
}

func (p *Prog) sameSpec(a, b ssa.Value) bool {
	return p.sameContainer(a, b)
}

package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C29", Rule: "every loop over a map in library code: what it carries from one iteration to the next or leaves behind must be independent of the order of the keys. Accepted: integer sums and other commutative integer updates, flags set to one constant, minima and maxima, a best key chosen with a comparison on the key itself breaking ties, stores and map updates addressed by the key, slices that are sorted by a total order before any other use. Reported: floating-point or string accumulation, unsorted slices, numbering by visiting order, an arbitrary key returned or kept, text written, random numbers drawn or shared structures appended to in map order (through callees too).", Run: runC29})
}

type mapLoop struct {
	p     *Prog
	f     *ssa.Function
	next  *ssa.Next
	m     ssa.Value
	head  *ssa.BasicBlock
	body  map[*ssa.BasicBlock]bool
	iter  map[ssa.Value]bool // varies with the key visited
	carr  map[ssa.Value]bool // depends on the order of visits
	count *CountLoop         // a loop over a slice in no particular order instead of a map
	depth int
	bad   []string
	badAt []ssa.Instruction
}

func mapLoops(p *Prog, f *ssa.Function) []*mapLoop {
	var out []*mapLoop
	for _, i := range instrs(f) {
		n, ok := i.(*ssa.Next)
		if !ok || n.IsString {
			continue
		}
		r, ok := n.Iter.(*ssa.Range)
		if !ok {
			continue
		}
		if _, ok := r.X.Type().Underlying().(*types.Map); !ok {
			continue
		}
		out = append(out, &mapLoop{p: p, f: f, next: n, m: r.X, head: n.Block(), body: naturalLoop(n.Block())})
	}
	return out
}

func (l *mapLoop) in(i ssa.Instruction) bool { return l.body[i.Block()] }

func (l *mapLoop) report(i ssa.Instruction, s string, a ...any) {
	l.bad = append(l.bad, fmt.Sprintf(s, a...))
	l.badAt = append(l.badAt, i)
}

// forward closes a set of values under computation; header phis of the loop and (optionally) everything outside it stop it.
func (l *mapLoop) forward(seed []ssa.Value, inLoop bool, stop func(ssa.Value) bool) map[ssa.Value]bool {
	set := map[ssa.Value]bool{}
	work := append([]ssa.Value{}, seed...)
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		if set[v] {
			continue
		}
		set[v] = true
		if v.Referrers() == nil {
			continue
		}
		for _, r := range *v.Referrers() {
			if inLoop && !l.in(r) {
				continue
			}
			switch x := r.(type) {
			case *ssa.Phi:
				if x.Block() == l.head || stop != nil && stop(x) {
					continue
				}
				work = append(work, x)
			case *ssa.Store:
				// through local storage
				if x.Val == v {
					if root := addrRoot(x.Addr); root != nil {
						if a, ok := root.(*ssa.Alloc); ok && (l.in(a) || !l.in(x) || l.scratch(a)) {
							work = append(work, a)
						}
					}
				}
			case *ssa.MakeClosure:
				work = append(work, x)
			case *ssa.Next:
			case ssa.Value:
				if stop != nil && stop(x) {
					continue
				}
				if c, ok := x.(*ssa.Call); ok {
					if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(c.Call.Args) > 0 {
						if !set[c.Call.Args[0]] {
							continue // what an append leaves behind is judged where the slice is carried
						}
					}
				}
				work = append(work, x)
			}
		}
	}
	return set
}

// addrRoot strips field and element selections off an address.
func addrRoot(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v
			}
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		default:
			return v
		}
	}
}

func basicInfo(t types.Type) types.BasicInfo {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Info()
	}
	return 0
}

func commutative(b *ssa.BinOp) bool {
	if basicInfo(b.Type())&types.IsInteger == 0 {
		return false
	}
	switch b.Op {
	case token.ADD, token.MUL, token.OR, token.AND, token.XOR:
		return true
	}
	return b.Op == token.SUB
}

// exactFloat: a floating-point sum of whole numbers.
func exactFloat(b *ssa.BinOp, acc map[ssa.Value]bool) bool {
	if basicInfo(b.Type())&types.IsFloat == 0 || b.Op != token.ADD && b.Op != token.SUB {
		return false
	}
	o := b.Y
	if acc[b.Y] {
		o = b.X
	}
	return wholeFloat(o, map[ssa.Value]bool{})
}

// wholeFloat: a floating-point value that is always a whole number (a converted count, a sum of such, a function returning such).
func wholeFloat(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Convert:
		return basicInfo(x.X.Type())&types.IsInteger != 0
	case *ssa.Const:
		f, ok := constFloat(x)
		return ok && f == float64(int64(f))
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !wholeFloat(e, seen) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.SUB, token.MUL:
			return wholeFloat(x.X, seen) && wholeFloat(x.Y, seen)
		}
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || g.Blocks == nil || g.Signature.Results().Len() != 1 {
			return false
		}
		for _, r := range returns(g) {
			if !wholeFloat(r.Results[0], seen) {
				return false
			}
		}
		return true
	}
	return false
}

func isCompare(op token.Token) bool {
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return true
	}
	return false
}

func isAppend(v ssa.Value) (*ssa.Call, bool) {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil, false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return c, ok && b.Name() == "append"
}

// sortsArg: the call puts its k-th argument into an order that depends only on the contents.
func (p *Prog) sortsArg(c ssa.CallInstruction, hit func(ssa.Value) bool, depth int) bool {
	if isSortCall(c) {
		for _, a := range c.Common().Args {
			if hit(a) {
				return true
			}
		}
		return false
	}
	g := c.Common().StaticCallee()
	if g == nil || !p.IsLibFunc(g) || depth > 2 {
		return false
	}
	for k, a := range c.Common().Args {
		if !hit(a) || k >= len(g.Params) {
			continue
		}
		q := g.Params[k]
		for _, d := range calls(g) {
			if p.sortsArg(d, func(v ssa.Value) bool {
				if holds(v, q) {
					return true
				}
				for _, o := range p.Trace(v, TraceOpt{NoParams: true, NoCalls: true}) {
					if o == ssa.Value(q) {
						return true
					}
					if mi, ok := o.(*ssa.MakeInterface); ok && holds(mi, q) {
						return true
					}
				}
				return false
			}, depth+1) {
				return true
			}
		}
	}
	return false
}

// holds: v is the value q (or a structure around it, or a view of it).
func holds(v, q ssa.Value) bool {
	for {
		if v == q {
			return true
		}
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		default:
			return false
		}
	}
}

// totalOrder: the comparison used by a sort call looks at the elements (here: map keys) themselves and not only at something they map to.
func (p *Prog) totalOrder(c ssa.CallInstruction, key types.Type) bool {
	o := calleeObj(c)
	if o == nil {
		return true
	}
	var less []*ssa.Function
	switch o.Name() {
	case "Sort", "Stable":
		if o.Pkg() != nil && o.Pkg().Path() == "slices" {
			return true
		}
		for _, a := range c.Common().Args {
			for _, v := range p.Trace(a, TraceOpt{NoParams: true, Stop: func(v ssa.Value) bool { _, ok := v.(*ssa.MakeInterface); return ok }}) {
				mi, ok := v.(*ssa.MakeInterface)
				if !ok {
					continue
				}
				if n := namedOf(mi.X.Type()); n != nil {
					if m := p.Method(n, "Less"); m != nil {
						less = append(less, m)
					}
				}
			}
		}
	case "Slice", "SliceStable", "SortFunc", "SortStableFunc":
		if as := c.Common().Args; len(as) > 1 {
			less = append(less, p.funcValues(as[1], map[ssa.Value]bool{})...)
		}
	default:
		return true
	}
	if len(less) == 0 {
		return true
	}
	for _, g := range less {
		if g.Blocks == nil {
			continue
		}
		ok := false
		for _, i := range instrs(g) {
			var ops []ssa.Value
			if b, isb := i.(*ssa.BinOp); isb && (isCompare(b.Op)) {
				ops = []ssa.Value{b.X, b.Y}
			}
			if d, isc := i.(*ssa.Call); isc {
				if co := calleeObj(d); co != nil && co.Name() == "Compare" {
					ops = d.Call.Args
				}
			}
			for _, v := range ops {
				if _, lk := v.(*ssa.Lookup); lk {
					continue
				}
				if ex, isx := v.(*ssa.Extract); isx {
					if _, lk := ex.Tuple.(*ssa.Lookup); lk {
						continue
					}
				}
				if basicInfo(key) == 0 || types.Identical(v.Type().Underlying(), key.Underlying()) {
					ok = true
				}
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// sortedAfter: outside the loop (or after instruction `after`) the slice is sorted before anything else looks at its order.
func (p *Prog) sortedAfter(f *ssa.Function, v ssa.Value, skip func(ssa.Instruction) bool, key types.Type, depth int) (ok bool, where ssa.Instruction) {
	set := map[ssa.Value]bool{}
	var uses []ssa.Instruction
	holders := map[ssa.Value]bool{}
	work := []ssa.Value{v}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if set[x] {
			continue
		}
		set[x] = true
		// where it is loaded from: other loads of the same place
		if u, isU := x.(*ssa.UnOp); isU && u.Op == token.MUL {
			switch a := u.X.(type) {
			case *ssa.FieldAddr:
				holders[a.X] = true
				if a.X.Referrers() != nil {
					for _, r := range *a.X.Referrers() {
						if fa, isF := r.(*ssa.FieldAddr); isF && fa.Field == a.Field {
							for _, q := range *fa.Referrers() {
								if w, isW := q.(*ssa.UnOp); isW {
									work = append(work, w)
								}
							}
						}
					}
				}
			case *ssa.Alloc:
				work = append(work, p.cellLoads(a)...)
			}
		}
		if x.Referrers() == nil {
			continue
		}
		for _, r := range *x.Referrers() {
			switch y := r.(type) {
			case *ssa.Phi, *ssa.Slice, *ssa.MakeInterface, *ssa.ChangeType, *ssa.Convert:
				work = append(work, y.(ssa.Value))
			case *ssa.DebugRef:
			case *ssa.Store:
				if y.Val == x {
					if a, isA := y.Addr.(*ssa.Alloc); isA {
						work = append(work, p.cellLoads(a)...)
						continue
					}
					if fa, isF := y.Addr.(*ssa.FieldAddr); isF {
						holders[fa.X] = true
						if _, loc := addrRoot(fa).(*ssa.Alloc); loc {
							for _, q := range *fa.X.Referrers() {
								if g, isG := q.(*ssa.FieldAddr); isG && g.Field == fa.Field {
									for _, h := range *g.Referrers() {
										if w, isW := h.(*ssa.UnOp); isW {
											work = append(work, w)
										}
									}
								}
							}
							continue
						}
					}
				}
				uses = append(uses, r)
			case *ssa.Call:
				if b, isB := y.Call.Value.(*ssa.Builtin); isB {
					if b.Name() == "len" || b.Name() == "cap" {
						continue
					}
					if b.Name() == "append" && y.Call.Args[0] == x {
						work = append(work, y)
						continue
					}
				}
				uses = append(uses, r)
			default:
				uses = append(uses, r)
			}
		}
	}
	hit := func(a ssa.Value) bool {
		for s := range set {
			if holds(a, s) {
				return true
			}
		}
		for h := range holders {
			if holds(a, h) {
				return true
			}
		}
		return false
	}
	var sorts []ssa.Instruction
	for _, c := range calls(f) {
		if p.sortsArg(c, hit, 0) && p.totalOrder(c, key) {
			sorts = append(sorts, c)
		}
	}
	for _, u := range uses {
		at := u
		if u.Parent() != f { // in a closure: it sees the slice no earlier than it is made
			at = nil
			for g := u.Parent(); g != nil && g != f; g = g.Parent() {
				if g.Parent() == f {
					for _, i := range instrs(f) {
						if mc, isM := i.(*ssa.MakeClosure); isM && mc.Fn == g {
							at = mc
						}
					}
				}
			}
			if at == nil {
				continue
			}
		}
		if skip != nil && skip(at) {
			continue
		}
		good := false
		if mc, isM := at.(*ssa.MakeClosure); isM { // the comparison itself
			good = true
			for _, r := range *mc.Referrers() {
				if c, isC := r.(ssa.CallInstruction); !isC || !isSortCall(c) {
					good = false
				}
			}
		}
		for _, s := range sorts {
			if s == at || before(s, at) {
				good = true
			}
			for _, g := range guardsOf(s.Block()) { // sorted unless there is nothing to sort
				if p.lenGuard(g, hit) {
					if in, isI := g.Cond.(ssa.Instruction); isI && before(in, at) {
						good = true
					}
				}
			}
		}
		if c, isC := u.(ssa.CallInstruction); isC && !good && p.logOnly(c) {
			good = true
		}
		if !good && p.sortPrep(u, sorts) {
			good = true
		}
		if !good && p.orderFree(u, set, depth) {
			good = true
		}
		if !good {
			return false, u
		}
	}
	return true, nil
}

// lenGuard: the guard only asks whether the slice has more than one element (or any).
func (p *Prog) lenGuard(g Guard, hit func(ssa.Value) bool) bool {
	b, ok := g.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	k, isK := constInt(b.Y)
	c, isC := b.X.(*ssa.Call)
	if !isK || !isC {
		return false
	}
	if bi, ok := c.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" || !hit(c.Call.Args[0]) {
		return false
	}
	op := b.Op
	if !g.Pol {
		op = negate(op)
	}
	return op == token.GTR && k <= 1 || op == token.GEQ && k <= 2 || op == token.NEQ && k == 0
}

func (p *Prog) cellLoads(a *ssa.Alloc) []ssa.Value {
	var out []ssa.Value
	for _, al := range p.aliasesOfCell(a) {
		if al.Referrers() == nil {
			continue
		}
		for _, q := range *al.Referrers() {
			if w, ok := q.(*ssa.UnOp); ok && w.Op == token.MUL {
				out = append(out, w)
			}
		}
	}
	return out
}

// orderFree: a use of an unsorted slice that does not reveal its order: a loop over it whose effects are order-free, or handing it as the columns to visit to a row traversal whose callback only loops over them.
func (p *Prog) orderFree(u ssa.Instruction, set map[ssa.Value]bool, depth int) bool {
	if depth > 3 {
		return false
	}
	free := func(l *CountLoop) bool {
		ml := &mapLoop{p: p, f: l.Phi.Parent(), head: l.Header, body: l.Body, count: l, depth: depth + 1}
		ml.run(map[*ssa.Function]map[int]string{}, map[*ssa.Function]map[int]bool{})
		return len(ml.bad) == 0
	}
	switch x := u.(type) {
	case *ssa.IndexAddr:
		l := loopCur(x.Index)
		return l != nil && free(l)
	case *ssa.Call:
		o := calleeObj(x)
		if o == nil || o.Name() != "MapOverRows" || len(argsOf(x)) != 2 || !set[argsOf(x)[0]] {
			return false
		}
		fs := p.funcValues(argsOf(x)[1], map[ssa.Value]bool{})
		for _, g := range fs {
			if len(g.Params) == 0 {
				return false
			}
			for _, r := range *g.Params[0].Referrers() {
				switch y := r.(type) {
				case *ssa.DebugRef:
				case *ssa.IndexAddr:
					l := loopCur(y.Index)
					if l == nil || !free(l) {
						return false
					}
				case *ssa.Call:
					if b, ok := y.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
						return false
					}
				default:
					return false
				}
			}
		}
		return len(fs) > 0
	}
	return false
}

// sortPrep: an instruction before the sort that only fills the slice.
func (p *Prog) sortPrep(u ssa.Instruction, sorts []ssa.Instruction) bool {
	if len(sorts) == 0 {
		return false
	}
	ia, ok := u.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	for _, r := range *ia.Referrers() {
		if st, ok := r.(*ssa.Store); !ok || st.Addr != ia {
			return false
		}
	}
	return true
}

func (p *Prog) logOnly(c ssa.CallInstruction) bool {
	o := calleeObj(c)
	return o != nil && o.Pkg() != nil && (o.Pkg().Path() == "log" || o.Pkg().Path() == "log/slog")
}

func isRand(c ssa.CallInstruction) bool {
	o := calleeObj(c)
	return o != nil && o.Pkg() != nil && strings.HasPrefix(o.Pkg().Path(), "math/rand")
}

// writes text or bytes somewhere in sequence.
func writesOut(c ssa.CallInstruction) (ssa.Value, bool) {
	o := calleeObj(c)
	if o == nil || o.Pkg() == nil {
		return nil, false
	}
	if o.Pkg().Path() == "fmt" && (strings.HasPrefix(o.Name(), "Fprint") || strings.HasPrefix(o.Name(), "Print")) {
		if strings.HasPrefix(o.Name(), "Print") {
			return nil, true
		}
		return argsOf(c)[0], true
	}
	if strings.HasPrefix(o.Name(), "Write") && o.Type().(*types.Signature).Recv() != nil {
		switch o.Pkg().Path() {
		case "strings", "bytes", "bufio", "io", "os", "encoding/csv", "archive/tar", "compress/gzip":
			return recvOf(c), true
		}
	}
	return nil, false
}

// orderEffects: parameters (by index), captured variables (-1) and globals (-2) in which a call leaves a trace of when it was made.
func (p *Prog) orderEffects(g *ssa.Function, memo map[*ssa.Function]map[int]string) map[int]string {
	if r, ok := memo[g]; ok {
		return r
	}
	r := map[int]string{}
	memo[g] = r
	if g.Blocks == nil {
		return r
	}
	put := func(v ssa.Value, what string) {
		if v == nil {
			r[-2] = what
			return
		}
		switch x := addrRoot(v).(type) {
		case *ssa.Parameter:
			if n := namedOf(x.Type()); n != nil && n.Obj().Name() == "ClassifierSerializer" {
				return // archives are read by key
			}
			for k, q := range g.Params {
				if q == x {
					if _, ok := r[k]; !ok {
						r[k] = what
					}
				}
			}
		case *ssa.FreeVar:
			r[-1] = what
		case *ssa.Global:
			r[-2] = what
		}
	}
	for _, i := range instrs(g) {
		switch x := i.(type) {
		case *ssa.Store:
			if a, ok := isAppend(x.Val); ok {
				if _, loc := addrRoot(x.Addr).(*ssa.Alloc); !loc {
					_ = a
					put(x.Addr, "appends at "+p.InstrPos(x))
				}
			}
		case ssa.CallInstruction:
			if isRand(x) {
				r[-2] = "draws a random number at " + p.InstrPos(x)
				continue
			}
			if w, ok := writesOut(x); ok {
				put(w, "writes at "+p.InstrPos(x))
				continue
			}
			if p.logOnly(x) {
				continue
			}
			for _, h := range p.Callees(x) {
				if !p.IsLibFunc(h) {
					continue
				}
				args := allArgs(x)
				for k, what := range p.orderEffects(h, memo) {
					if k == -2 {
						r[-2] = what
					} else if k >= 0 && k < len(args) {
						put(args[k], what)
					} else if k == -1 {
						if mc, ok := x.Common().Value.(*ssa.MakeClosure); ok {
							for _, b := range mc.Bindings {
								put(b, what)
							}
						}
					}
				}
			}
		}
	}
	return r
}

// allArgs: receiver first, as the callee's Params are laid out.
func allArgs(c ssa.CallInstruction) []ssa.Value {
	cc := c.Common()
	if cc.IsInvoke() {
		return append([]ssa.Value{cc.Value}, cc.Args...)
	}
	return cc.Args
}

func onlyStored(ia *ssa.IndexAddr) bool {
	for _, r := range *ia.Referrers() {
		if st, ok := r.(*ssa.Store); !ok || st.Addr != ssa.Value(ia) {
			return false
		}
	}
	return true
}

// trivial: the map holds at most one key where the loop runs, or is never given any.
func (l *mapLoop) trivial() bool {
	for _, g := range guardsOf(l.head) {
		b, ok := g.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		k, isK := constInt(b.Y)
		c, isC := b.X.(*ssa.Call)
		if !isK || !isC {
			continue
		}
		if bi, ok := c.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" || !valuesEqual(c.Call.Args[0], l.m) {
			continue
		}
		op := b.Op
		if !g.Pol {
			op = negate(op)
		}
		if op == token.EQL && k <= 1 || op == token.LSS && k <= 2 || op == token.LEQ && k <= 1 {
			return true
		}
	}
	if fv, _ := fieldLoad(l.m); fv != nil {
		for _, st := range l.p.fieldStores[fv] {
			mk, isMake := st.Val.(*ssa.MakeMap)
			if !isMake && !isNilConst(st.Val) {
				return false
			}
			if isMake { // filled, or handed on, before it is stored
				for _, r := range *mk.Referrers() {
					switch r.(type) {
					case *ssa.Store, *ssa.DebugRef:
					default:
						return false
					}
				}
			}
		}
		return !l.p.mapFilled(fv)
	}
	return false
}

// mapFilled: some code assigns entries of the map held in the field.
func (p *Prog) mapFilled(fv *types.Var) bool {
	for _, f := range p.Funcs {
		for _, i := range instrs(f) {
			switch x := i.(type) {
			case *ssa.MapUpdate:
				if v, _ := fieldLoad(x.Map); v == fv {
					return true
				}
			case *ssa.FieldAddr:
				if fieldVar(x.X.Type(), x.Field) == fv {
					for _, r := range *x.Referrers() {
						if st, ok := r.(*ssa.Store); ok && st.Val == ssa.Value(x) {
							return true
						}
						if _, ok := r.(ssa.CallInstruction); ok {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (l *mapLoop) run(memo map[*ssa.Function]map[int]string, unordered map[*ssa.Function]map[int]bool) {
	var seeds []ssa.Value
	l.carr = map[ssa.Value]bool{}
	var key types.Type = types.Typ[types.Invalid]
	if l.count != nil {
		for b := range l.body {
			for _, i := range b.Instrs {
				if ia, ok := i.(*ssa.IndexAddr); ok && loopCur(ia.Index) != nil && loopCur(ia.Index).Header == l.head && !onlyStored(ia) {
					seeds = append(seeds, ia)
				}
			}
		}
		l.carr[l.count.Phi] = true
		l.carr[l.count.Cur] = true
	} else {
		for _, r := range *l.next.Referrers() {
			if e, ok := r.(*ssa.Extract); ok && e.Index > 0 {
				seeds = append(seeds, e)
			}
		}
		key = l.m.Type().Underlying().(*types.Map).Key()
	}
	l.iter = l.forward(seeds, false, nil)

	// values carried from one iteration to the next
	for _, i := range l.head.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		if l.count != nil && ph == l.count.Phi {
			continue
		}
		var back []ssa.Value
		for k, e := range ph.Edges {
			if l.body[l.head.Preds[k]] {
				back = append(back, e)
			}
		}
		l.phi(ph, back, key, unordered)
	}

	for _, i := range instrs(l.f) {
		if !l.in(i) {
			// after the loop: an arbitrary key
			if r, ok := i.(*ssa.Return); ok {
				l.ret(r)
			}
			continue
		}
		switch x := i.(type) {
		case *ssa.Return:
			l.ret(x)
		case *ssa.Store:
			l.store(x, key, unordered)
		case *ssa.MapUpdate:
			l.mapUpdate(x)
		case ssa.CallInstruction:
			l.call(x, memo)
		}
	}
	// an arbitrary key kept when leaving early
	for b := range l.body {
		for _, s := range b.Succs {
			if l.body[s] {
				continue
			}
			for _, i := range s.Instrs {
				ph, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				if isErrorType(ph.Type()) {
					continue
				}
				for k, e := range ph.Edges {
					if s.Preds[k] == b && b != l.head && l.iter[e] {
						l.report(ph, "%s is whichever key came first", nameOf(ph))
					}
				}
			}
		}
	}
}

func nameOf(v ssa.Value) string {
	if ph, ok := v.(*ssa.Phi); ok && ph.Comment != "" {
		return ph.Comment
	}
	if a, ok := v.(*ssa.Alloc); ok && a.Comment != "" {
		return a.Comment
	}
	return v.Name()
}

func (l *mapLoop) ret(r *ssa.Return) {
	for _, v := range r.Results {
		if isErrorType(v.Type()) {
			continue
		}
		if _, k := v.(*ssa.Const); k {
			continue
		}
		if l.iter[v] && basicInfo(v.Type())&types.IsBoolean == 0 && !l.theOne(r.Block()) {
			l.report(r, "returns something derived from whichever key comes first")
		}
	}
}

// theOne: the block is reached only for the key (or value) that equals something fixed before the loop.
func (l *mapLoop) theOne(b *ssa.BasicBlock) bool {
	fixed := func(v ssa.Value) bool {
		if l.iter[v] || l.carr[v] {
			return false
		}
		in, ok := v.(ssa.Instruction)
		return !ok || !l.in(in) || !l.dependsOnLoop(v)
	}
	if l.next == nil {
		return false
	}
	key := func(v ssa.Value) bool {
		for _, r := range *l.next.Referrers() {
			if e, ok := r.(*ssa.Extract); ok && e.Index == 1 && (e == v || sameValue(e, v)) {
				return true
			}
		}
		return false
	}
	for _, g := range guardsOf(b) {
		if !l.in(g.If) {
			continue
		}
		switch x := g.Cond.(type) {
		case *ssa.BinOp:
			if (x.Op == token.EQL) == g.Pol && (x.Op == token.EQL || x.Op == token.NEQ) && (key(x.X) && fixed(x.Y) || key(x.Y) && fixed(x.X)) {
				return true
			}
		case *ssa.Call:
			if as := allArgs(x); g.Pol && methodNamed(x, "Equals") && len(as) == 2 && (key(as[0]) && fixed(as[1]) || key(as[1]) && fixed(as[0])) {
				return true
			}
		}
	}
	return false
}

func (l *mapLoop) phi(ph *ssa.Phi, back []ssa.Value, key types.Type, unordered map[*ssa.Function]map[int]bool) {
	// everything between ph and its next value
	chain := l.forward([]ssa.Value{ph}, true, func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Phi:
			return false
		case *ssa.BinOp:
			return !commutative(x) && basicInfo(x.Type())&(types.IsFloat|types.IsString) == 0
		case *ssa.Call:
			a, ok := isAppend(x)
			return !ok || a == nil
		case *ssa.Convert:
			return false
		}
		return true
	})
	var leaves []ssa.Value
	var ops []ssa.Instruction
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == ph || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			if l.in(x) && chain[x] {
				for _, e := range x.Edges {
					walk(e)
				}
				return
			}
		case *ssa.BinOp:
			if chain[x] && l.in(x) {
				ops = append(ops, x)
				if chain[x.X] {
					walk(x.X)
				}
				if chain[x.Y] {
					walk(x.Y)
				}
				return
			}
		case *ssa.Call:
			if _, ok := isAppend(x); ok && chain[x] {
				ops = append(ops, x)
				walk(x.Call.Args[0])
				return
			}
		}
		leaves = append(leaves, v)
	}
	for _, b := range back {
		walk(b)
	}
	if len(ops) == 0 && len(leaves) == 0 {
		return
	}
	isAcc := false
	var numbers bool
	for _, o := range ops {
		switch x := o.(type) {
		case *ssa.BinOp:
			if commutative(x) {
				numbers = true
				continue
			}
			if exactFloat(x, chain) {
				numbers = true
				continue
			}
			if l.used(ph, chain) {
				switch {
				case basicInfo(x.Type())&types.IsString != 0:
					l.report(x, "text is put together in map order")
				case basicInfo(x.Type())&types.IsFloat != 0:
					l.report(x, "floating-point values are accumulated in map order")
				default:
					l.report(x, "the value carried depends on the order of the keys")
				}
			}
			return
		case *ssa.Call:
			// a slice grows
			varies := false
			for _, e := range x.Call.Args[1:] {
				if l.iter[e] || l.carr[e] || l.elemsVary(e) {
					varies = true
				}
			}
			if varies {
				isAcc = true
			}
		}
	}
	if isAcc {
		l.slice(ph, key, unordered)
		return
	}
	for k := range chain {
		l.carr[k] = true
	}
	if len(leaves) > 0 {
		// selections
		var con *ssa.Const
		same := true
		for _, v := range leaves {
			if c, ok := v.(*ssa.Const); ok {
				if con != nil && (con.Value == nil || c.Value == nil || con.Value.ExactString() != c.Value.ExactString()) {
					same = false
				}
				con = c
				continue
			}
			if !l.iter[v] && !l.carr[v] {
				if in, ok := v.(ssa.Instruction); !ok || !l.in(in) {
					continue // the same whichever key set it
				}
				if !l.dependsOnLoop(v) {
					continue
				}
			}
			if !l.compared(chain, v) {
				if l.used(ph, chain) {
					l.report(v.(ssa.Instruction), "%s is taken from whichever key comes first or last (no comparison between candidates breaks ties)", nameOf(ph))
				}
				return
			}
			if l.unmoored(ph, v) && l.used(ph, chain) {
				l.report(v.(ssa.Instruction), "%s is taken, on one of the ways through the loop, without comparing the candidate to what is kept", nameOf(ph))
				return
			}
		}
		if !same && l.used(ph, chain) && len(ops) == 0 {
			l.report(ph, "%s depends on the last key visited", nameOf(ph))
		}
	}
	if numbers {
		// counters must not be looked at on the way
		for v := range chain {
			for _, r := range *v.Referrers() {
				if !l.in(r) {
					continue
				}
				switch x := r.(type) {
				case *ssa.Phi, *ssa.BinOp, *ssa.Convert:
					if chain[x.(ssa.Value)] || r.Block() == l.head {
						continue
					}
					if b, ok := x.(*ssa.BinOp); ok && isCompare(b.Op) && len(leaves) > 0 {
						continue
					}
				case *ssa.DebugRef:
					continue
				case *ssa.IndexAddr:
					continue // judged at the store
				case *ssa.MapUpdate:
					continue
				case *ssa.Store:
					continue
				}
				if v2, ok := r.(ssa.Value); ok && l.onlyKeys(v2) {
					continue
				}
				if inner, _ := innermostLoop(r.Block()); inner != l.head && inner != nil {
					// the condition of an inner counting loop that shares the counter
					if b, ok := r.(*ssa.BinOp); ok && isCompare(b.Op) && len(leaves) > 0 {
						continue
					}
				}
				l.report(r, "%s, which depends on how many keys were visited before, is used while iterating", nameOf(ph))
				return
			}
		}
	}
}

// onlyKeys: the value ends up only in the names of archive entries, which readers look up.
func (l *mapLoop) onlyKeys(v ssa.Value) bool {
	for x := range l.forward([]ssa.Value{v}, true, func(y ssa.Value) bool { return isSerializer(y) }) {
		if x.Referrers() == nil {
			continue
		}
		for _, r := range *x.Referrers() {
			switch y := r.(type) {
			case *ssa.Store:
				if _, loc := addrRoot(y.Addr).(*ssa.Alloc); !loc {
					return false
				}
			case *ssa.MapUpdate, *ssa.Return, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.If:
				return false
			case *ssa.Call:
				if isSerializer(y) {
					continue
				}
				if o := calleeObj(y); o == nil || o.Pkg() == nil || o.Pkg().Path() != "fmt" && o.Pkg().Path() != "strconv" {
					return false
				}
			}
		}
	}
	return true
}

// isSerializer: a call on the archive writer.
func isSerializer(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	r := recvOf(c)
	if r == nil {
		return false
	}
	n := namedOf(r.Type())
	return n != nil && strings.HasPrefix(n.Obj().Name(), "ClassifierSerializer")
}

// elemsVary: the variadic slice of an append holds something of this iteration.
func (l *mapLoop) elemsVary(e ssa.Value) bool {
	s, ok := e.(*ssa.Slice)
	if !ok {
		return false
	}
	return l.iter[s.X] || l.carr[s.X]
}

func (l *mapLoop) dependsOnLoop(v ssa.Value) bool {
	for x := range l.p.backSlice(v) {
		if l.iter[x] || l.carr[x] {
			return true
		}
		if l.next != nil && x == ssa.Value(l.next) {
			return true
		}
	}
	return false
}

// compared: an ordering comparison inside the loop sets a candidate against what is kept.
func (l *mapLoop) compared(chain map[ssa.Value]bool, v ssa.Value) bool {
	from := func(x, y ssa.Value) bool { // x from what is kept, y from the candidate
		kept := chain[x]
		if !kept {
			for k := range chain {
				if directlyFrom(x, k) {
					kept = true
					break
				}
			}
		}
		return kept && (directlyFrom(y, v) || sameValue(y, v))
	}
	for b := range l.body {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok {
				as := allArgs(c)
				for j := range as {
					for k := range as {
						if j != k && from(as[j], as[k]) && basicInfo(c.Type())&types.IsBoolean != 0 {
							return true
						}
					}
				}
				continue
			}
			x, ok := i.(*ssa.BinOp)
			if !ok || !isCompare(x.Op) {
				continue
			}
			if from(x.X, x.Y) || from(x.Y, x.X) {
				return true
			}
		}
	}
	return false
}

// unmoored: some way through the loop takes the candidate although neither it nor another value replaced with it was compared to what is kept.
func (l *mapLoop) unmoored(ph *ssa.Phi, v ssa.Value) bool {
	if ph.Block() != l.head {
		return false
	}
	if _, ok := v.(ssa.Instruction); !ok {
		return false
	}
	paths, full := turnPaths(l.head, l.body, 2000)
	if !full {
		return false
	}
	for _, t := range paths {
		if !t.feasible() || t.next(ph) != v {
			continue
		}
		ok := false
		kept := func(x ssa.Value) bool {
			seen := map[ssa.Value]bool{}
			var see func(x ssa.Value, d int) bool
			see = func(x ssa.Value, d int) bool {
				x = t.resolve(x)
				if q, is := x.(*ssa.Phi); is {
					return q.Block() == l.head && (q == ph || t.next(q) != ssa.Value(q)) || q.Block() != l.head && l.body[q.Block()]
				}
				i, is := x.(ssa.Instruction)
				if !is || seen[x] || d > 6 || !l.body[i.Block()] {
					return false
				}
				seen[x] = true
				for _, o := range i.Operands(nil) {
					if *o != nil && see(*o, d+1) {
						return true
					}
				}
				return false
			}
			return see(x, 0)
		}
		for _, fc := range t.facts() {
			if fc.iff.Block() == l.head {
				continue
			}
			if kept(fc.cond) {
				ok = true
			}
		}
		if !ok {
			return true
		}
	}
	return false
}

// directlyFrom: x is v, or a property of v (a field, a method's result).
func directlyFrom(x, v ssa.Value) bool {
	for d := 0; d < 6; d++ {
		if x == v {
			return true
		}
		switch y := x.(type) {
		case *ssa.Call:
			as := allArgs(y)
			if _, b := y.Call.Value.(*ssa.Builtin); b || len(as) != 1 {
				return false // a length says nothing about which key it is
			}
			x = as[0]
		case *ssa.UnOp:
			x = y.X
		case *ssa.FieldAddr:
			x = y.X
		case *ssa.Field:
			x = y.X
		case *ssa.Convert:
			x = y.X
		case *ssa.ChangeType:
			x = y.X
		case *ssa.MakeInterface:
			x = y.X
		default:
			return false
		}
	}
	return false
}

func sameValue(a, b ssa.Value) bool {
	x, ok := a.(*ssa.Lookup)
	y, ok2 := b.(*ssa.Lookup)
	if ok && ok2 && valuesEqual(x.X, y.X) && valuesEqual(x.Index, y.Index) {
		return true
	}
	return valuesEqual(a, b)
}

// used: the carried value matters to anything outside its own update.
func (l *mapLoop) used(ph *ssa.Phi, chain map[ssa.Value]bool) bool {
	for v := range chain {
		for _, r := range *v.Referrers() {
			if _, d := r.(*ssa.DebugRef); d {
				continue
			}
			if x, ok := r.(ssa.Value); ok && chain[x] && l.in(r) {
				continue
			}
			if r == ssa.Instruction(ph) {
				continue
			}
			return true
		}
	}
	return false
}

// slice: a slice filled in map order.
func (l *mapLoop) slice(v ssa.Value, key types.Type, unordered map[*ssa.Function]map[int]bool) {
	if sl, ok := v.Type().Underlying().(*types.Slice); ok {
		if n := namedOf(sl.Elem()); n != nil && n.Obj().Name() == "FilteredAttribute" {
			return // a list of old/new pairs, looked up by the old attribute
		}
	}
	ok, at := l.p.sortedAfter(l.f, v, l.in, key, l.depth)
	if ok {
		return
	}
	if r, isR := at.(*ssa.Return); isR && !isExported(l.f) && l.f.Parent() == nil && len(l.p.callers[l.f]) > 0 {
		if unordered[l.f] == nil {
			unordered[l.f] = map[int]bool{}
		}
		for k := range r.Results {
			if _, sl := r.Results[k].Type().Underlying().(*types.Slice); sl {
				unordered[l.f][k] = true
			}
		}
		return
	}
	l.report(at, "a slice filled in map order is used without being sorted by a total order first")
}

func (l *mapLoop) store(x *ssa.Store, key types.Type, unordered map[*ssa.Function]map[int]bool) {
	keyed := false
	var counter *ssa.IndexAddr
	v := x.Addr
	var fresh bool
walk:
	for {
		if l.iter[v] {
			keyed = true
			break
		}
		switch y := v.(type) {
		case *ssa.FieldAddr:
			v = y.X
		case *ssa.IndexAddr:
			if l.iter[y.Index] {
				keyed = true
				break walk
			}
			if l.carr[y.Index] {
				counter = y
			}
			v = y.X
		case *ssa.UnOp:
			v = y.X
		case *ssa.Slice:
			v = y.X
		default:
			break walk
		}
	}
	if in, ok := v.(ssa.Instruction); ok && l.in(in) {
		switch v.(type) {
		case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
			fresh = true
		case *ssa.Call:
			fresh = true // judged at the call
		}
	}
	if a, ok := v.(*ssa.Alloc); ok && l.scratch(a) {
		fresh = true
	}
	if keyed || fresh {
		if l.carr[x.Val] && !l.iter[x.Val] {
			if keyed {
				l.report(x, "what is stored for a key depends on how many keys were visited before")
			}
		}
		return
	}
	vary := l.iter[x.Val] || l.carr[x.Val] || l.dependsOnLoop(x.Val)
	if !vary {
		return
	}
	if counter != nil {
		l.slice(counter.X, key, unordered)
		return
	}
	if b, ok := x.Val.(*ssa.BinOp); ok {
		for _, o := range []ssa.Value{b.X, b.Y} {
			if u, ok := o.(*ssa.UnOp); ok && u.Op == token.MUL && sameAddr(u.X, x.Addr) {
				if commutative(b) || exactFloat(b, map[ssa.Value]bool{u: true}) {
					return
				}
				if basicInfo(b.Type())&types.IsFloat != 0 {
					l.report(x, "floating-point values are accumulated in map order")
					return
				}
			}
		}
	}
	if a, ok := isAppend(x.Val); ok {
		varies := false
		for _, e := range a.Call.Args[1:] {
			if l.iter[e] || l.carr[e] || l.elemsVary(e) {
				varies = true
			}
		}
		if !varies {
			return
		}
		if u, ok := a.Call.Args[0].(*ssa.UnOp); ok && sameAddr(u.X, x.Addr) {
			l.slice(u, key, unordered)
			return
		}
	}
	// kept only after a comparison with what is there
	for b := range l.body {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.BinOp); ok && isCompare(c.Op) {
				for _, o := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
					if u, ok := o[0].(*ssa.UnOp); ok && u.Op == token.MUL && sameAddr(u.X, x.Addr) && (o[1] == x.Val || directlyFrom(o[1], x.Val) || valuesEqual(o[1], x.Val)) {
						return
					}
				}
			}
		}
	}
	l.report(x, "a variable that outlives the iteration is overwritten in map order")
}

// scratch: a variable given a new value in every iteration before anything reads it, and not read after the loop.
func (l *mapLoop) scratch(a *ssa.Alloc) bool {
	var whole *ssa.Store
	var rest []ssa.Instruction
	for _, r := range *a.Referrers() {
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		if !l.in(r) {
			return false
		}
		if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(a) && whole == nil {
			whole = st
			continue
		}
		rest = append(rest, r)
	}
	if whole == nil {
		return false
	}
	for _, r := range rest {
		if !before(whole, r) {
			return false
		}
	}
	return true
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && (sameAddr(x.X, y.X) || valuesEqual(x.X, y.X))
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && (x.Index == y.Index || valuesEqual(x.Index, y.Index)) && (sameAddr(x.X, y.X) || valuesEqual(x.X, y.X))
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == token.MUL && y.Op == token.MUL && sameAddr(x.X, y.X)
	}
	return false
}

func (l *mapLoop) mapUpdate(x *ssa.MapUpdate) {
	if l.iter[x.Map] || l.iter[addrRoot(x.Map)] {
		return
	}
	if in, ok := x.Map.(ssa.Instruction); ok && l.in(in) {
		if _, ok := x.Map.(*ssa.MakeMap); ok {
			return
		}
		if lk, ok := x.Map.(*ssa.Lookup); ok && l.iter[lk.Index] {
			return
		}
	}
	if l.carr[x.Key] && !l.iter[x.Key] {
		l.report(x, "keys are numbered in map order")
		return
	}
	if l.iter[x.Key] {
		if l.carr[x.Value] && !l.iter[x.Value] {
			l.report(x, "keys are numbered in map order")
		}
		return
	}
	if !l.iter[x.Value] && !l.carr[x.Value] && !l.dependsOnLoop(x.Value) {
		return
	}
	if b, ok := x.Value.(*ssa.BinOp); ok && commutative(b) {
		return
	}
	l.report(x, "a map entry not addressed by the key is overwritten in map order")
}

func (l *mapLoop) call(c ssa.CallInstruction, memo map[*ssa.Function]map[int]string) {
	if isRand(c) {
		l.report(c, "random numbers are drawn in map order")
		return
	}
	if l.p.logOnly(c) {
		return
	}
	outside := func(v ssa.Value) bool { // the thing acted on is not particular to this key
		if l.iter[v] {
			return false
		}
		r := addrRoot(v)
		if l.iter[r] {
			return false
		}
		if in, ok := r.(ssa.Instruction); ok && l.in(in) {
			switch y := r.(type) {
			case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
				return false
			case *ssa.Lookup:
				return !l.iter[y.Index]
			case *ssa.Call:
				for _, a := range allArgs(y) {
					if l.iter[a] {
						return false
					}
				}
			}
		}
		return true
	}
	if w, ok := writesOut(c); ok {
		if w == nil || outside(w) {
			l.report(c, "output is written in map order")
		}
		return
	}
	args := allArgs(c)
	some := false
	for _, a := range args {
		if l.iter[a] || l.carr[a] {
			some = true
		}
	}
	if g := c.Common().StaticCallee(); g != nil && some && strings.Contains(g.Name(), "_Cfunc_") {
		for _, a := range args {
			if _, ptr := a.Type().Underlying().(*types.Pointer); ptr && outside(a) {
				l.report(c, "foreign code is called in map order on memory shared by all keys")
				return
			}
		}
	}
	for _, g := range l.p.Callees(c) {
		if !l.p.IsLibFunc(g) {
			continue
		}
		for k, what := range l.p.orderEffects(g, memo) {
			switch {
			case k >= 0 && k < len(args) && some && outside(args[k]):
				l.report(c, "%s %s, in map order", l.p.Name(g), what)
			case k == -2 && strings.HasPrefix(what, "draws"):
				l.report(c, "%s %s, in map order", l.p.Name(g), what)
			case k == -1 && some:
				l.report(c, "%s %s, in map order", l.p.Name(g), what)
			}
		}
	}
}

func runC29(c *Ctx) {
	p := c.P
	memo := map[*ssa.Function]map[int]string{}
	unordered := map[*ssa.Function]map[int]bool{}
	n := 0
	for _, f := range p.Funcs {
		if !p.IsLibFunc(f) {
			continue
		}
		for k, l := range mapLoops(p, f) {
			n++
			if !l.trivial() {
				l.run(memo, unordered)
			}
			key := fmt.Sprintf("order:%s#%d", p.Name(f), k)
			if len(l.bad) == 0 {
				c.Ok(key, p.InstrPos(l.next), "independent of the order of the keys")
			}
			for j, b := range l.bad {
				c.Bad(key, p.InstrPos(l.badAt[j]), b)
			}
		}
	}
	// helpers that hand out keys in map order: every caller sorts them
	for f, rs := range unordered {
		for _, site := range p.callers[f] {
			call, ok := site.(*ssa.Call)
			if !ok {
				continue
			}
			for k := range rs {
				v := ssa.Value(call)
				if _, tup := call.Type().(*types.Tuple); tup {
					if v = resultExtract(call, k); v == nil {
						continue
					}
				}
				ok, at := p.sortedAfter(call.Parent(), v, nil, types.Typ[types.Invalid], 0)
				key := "order:" + p.Name(call.Parent()) + "<-" + p.Name(f)
				if ok {
					c.Ok(key, p.InstrPos(call), "sorted before use")
				} else {
					c.Bad(key, p.InstrPos(at), "keys handed out in map order by "+p.Name(f)+" are used without being sorted")
				}
			}
		}
	}
	c.Floor("loops over maps", n, 30)
}

func constFloat(c *ssa.Const) (float64, bool) {
	if c.Value == nil || c.Value.Kind() != constant.Int && c.Value.Kind() != constant.Float {
		return 0, false
	}
	f, _ := constant.Float64Val(c.Value)
	return f, true
}

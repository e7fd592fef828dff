package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C39", Rule: "for every exported Predict operation on a data set, and every traversal or loop in it that sets predictions: each buffer, table, matrix or variable that lives longer than one row and is written while a row is handled is overwritten in full (every element by a loop over all of them, every key by a loop over the table, or the variable itself) before anything of it is read for the next row; accumulated result lists and progress output are exempt.", Run: runC39})
}

// carry: one object that outlives a row's handling.
type carry struct {
	p     *Prog
	obj   ssa.Value
	cell  bool // obj is a variable (its content is the state)
	memo  map[ssa.Value]bool
	busy  map[*ssa.Function]bool
	clean map[*ssa.Function]int
}

func (k *carry) is(v ssa.Value) bool {
	if v == nil {
		return false
	}
	if b, ok := k.memo[v]; ok {
		return b
	}
	k.memo[v] = false
	out := false
	switch v.Type().Underlying().(type) {
	case *types.Slice, *types.Map, *types.Pointer, *types.Interface, *types.Struct:
		for _, x := range k.p.Trace(v, TraceOpt{NoCalls: true, Stop: func(x ssa.Value) bool { _, sl := x.(*ssa.Slice); return sl }}) {
			if x == k.obj {
				out = true
			}
			if sl, ok := x.(*ssa.Slice); ok && x != v && k.is(sl.X) {
				out = true
			}
			if sl, ok := x.(*ssa.Slice); ok && x == v {
				out = out || k.is(sl.X)
			}
		}
	}
	k.memo[v] = out
	return out
}

// isCellAddr: v is the address of the variable.
func (k *carry) isCellAddr(v ssa.Value) bool {
	a := k.p.cellOf(v)
	return a != nil && ssa.Value(a) == k.obj
}

// element: the address of an element (or a field of one) of the object.
func (k *carry) element(addr ssa.Value) (idx ssa.Value, ok bool) {
	switch t := addr.(type) {
	case *ssa.IndexAddr:
		if k.is(t.X) {
			return t.Index, true
		}
	case *ssa.FieldAddr:
		if i, ok := k.element(t.X); ok {
			return i, true
		}
	}
	return nil, false
}

// writes: the instruction changes the object's content (without reading it).
func (k *carry) writes(i ssa.Instruction) (idx ssa.Value, ok bool) {
	switch t := i.(type) {
	case *ssa.Store:
		if k.cell {
			return nil, k.isCellAddr(t.Addr)
		}
		return k.element(t.Addr)
	case *ssa.MapUpdate:
		if k.is(t.Map) {
			return t.Key, true
		}
	case ssa.CallInstruction:
		if k.cell {
			return nil, false
		}
		if b, ok := t.Common().Value.(*ssa.Builtin); ok {
			if (b.Name() == "delete" || b.Name() == "copy" || b.Name() == "clear") && k.is(t.Common().Args[0]) {
				if b.Name() == "delete" {
					return t.Common().Args[1], true
				}
				return nil, true
			}
			return nil, false
		}
		if o := calleeObj(t); o != nil && o.Pkg() != nil && strings.HasSuffix(o.Pkg().Path(), "gonum/mat") && recvOf(t) != nil && k.is(recvOf(t)) {
			switch o.Name() {
			case "Set", "SetVec", "SetRow":
				return argsOf(t)[0], true
			case "Zero", "Copy", "CloneFrom", "Reset":
				return nil, true
			}
		}
	}
	return nil, false
}

// whole: the instruction alone replaces everything.
func (k *carry) whole(i ssa.Instruction) bool {
	switch t := i.(type) {
	case *ssa.Store:
		if k.cell && k.isCellAddr(t.Addr) {
			for x := range k.p.backSlice(t.Val) {
				if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL && k.isCellAddr(u.X) {
					return false
				}
			}
			return true
		}
	case ssa.CallInstruction:
		if b, ok := t.Common().Value.(*ssa.Builtin); ok {
			return (b.Name() == "clear" || b.Name() == "copy") && !k.cell && k.is(t.Common().Args[0])
		}
		if o := calleeObj(t); o != nil && o.Pkg() != nil && strings.HasSuffix(o.Pkg().Path(), "gonum/mat") && recvOf(t) != nil && !k.cell && k.is(recvOf(t)) {
			switch o.Name() {
			case "Zero", "Copy", "CloneFrom", "Reset":
				return true
			}
		}
		if methodNamed(t, "MapOverRows") && len(argsOf(t)) == 2 {
			// an inner traversal which writes the entry of every row it visits
			for _, g := range k.p.funcValues(argsOf(t)[1], map[ssa.Value]bool{}) {
				if !isRowCallback(g.Signature) || len(g.Blocks) == 0 {
					return false
				}
				ok, _ := mustPass(g, nil, func(j ssa.Instruction) bool {
					idx, w := k.writes(j)
					return w && idx != nil && k.p.isRowArg(idx, g)
				}, func(r *ssa.Return) bool { return k.p.successReturn(r) })
				if ok {
					return true
				}
			}
			return false
		}
		cs := k.p.Callees(t)
		if len(cs) == 0 {
			return false
		}
		for _, g := range cs {
			if !k.p.IsLibFunc(g) || len(g.Blocks) == 0 || !k.cleans(g) {
				return false
			}
		}
		return true
	}
	return false
}

func (p *Prog) isRowArg(v ssa.Value, g *ssa.Function) bool {
	for _, x := range p.Trace(v, TraceOpt{NoParams: true}) {
		if x == ssa.Value(rowArgOf(g)) {
			return true
		}
	}
	return false
}

// cleans: every path through the function overwrites the object before reading it, and does overwrite it.
func (k *carry) cleans(g *ssa.Function) bool {
	switch k.clean[g] {
	case 1:
		return true
	case 2:
		return false
	}
	k.clean[g] = 2
	used := false
	for _, i := range instrs(g) {
		for _, op := range i.Operands(nil) {
			if *op != nil && (k.is(*op) || k.cell && k.isCellAddr(*op)) {
				used = true
			}
		}
	}
	if !used {
		return false
	}
	if at, done := k.scan(g.Blocks[0], nil, nil); at == nil && done {
		k.clean[g] = 1
		return true
	}
	return false
}

// reads: the instruction looks at the object's content.
func (k *carry) reads(i ssa.Instruction) bool {
	if k.cell {
		u, ok := i.(*ssa.UnOp)
		return ok && u.Op == token.MUL && k.isCellAddr(u.X) && !onlyProgress(u, k) && !onlyGrows(u)
	}
	switch t := i.(type) {
	case *ssa.UnOp:
		if t.Op == token.MUL {
			_, ok := k.element(t.X)
			return ok && !onlyProgress(t, k)
		}
	case *ssa.Lookup:
		return k.is(t.X)
	case *ssa.Index:
		return k.is(t.X)
	case *ssa.Range:
		if !k.is(t.X) {
			return false
		}
		for _, q := range *t.Referrers() {
			if n, ok := q.(*ssa.Next); !ok || !k.resetLoop(n.Block()) {
				return true
			}
		}
	case ssa.CallInstruction:
		if b, ok := t.Common().Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap", "delete", "clear":
				return false
			case "copy":
				return k.is(t.Common().Args[1])
			}
		}
		if _, w := k.writes(i); w {
			return false
		}
		if k.whole(i) {
			return false
		}
		hit := false
		for n, a := range t.Common().Args {
			if k.is(a) {
				if n == 0 && !t.Common().IsInvoke() && isDims(t) {
					continue
				}
				hit = true
			}
			if e, ok := a.(*ssa.IndexAddr); ok {
				if _, ok := k.element(e); ok {
					hit = true
				}
			}
		}
		if t.Common().IsInvoke() && k.is(t.Common().Value) {
			hit = true
		}
		if hit {
			cs := k.p.Callees(t)
			if len(cs) == 0 {
				return true
			}
			for _, g := range cs {
				if !k.p.IsLibFunc(g) || len(g.Blocks) == 0 {
					return true
				}
				if k.busy[g] {
					continue
				}
				k.busy[g] = true
				at, _ := k.scan(g.Blocks[0], nil, nil)
				delete(k.busy, g)
				if at != nil {
					return true
				}
			}
			return false
		}
		// closures run here
		for _, a := range t.Common().Args {
			for _, g := range k.p.funcValues(a, map[ssa.Value]bool{}) {
				if len(g.Blocks) == 0 || k.busy[g] || g.Parent() == nil {
					continue
				}
				k.busy[g] = true
				at, _ := k.scan(g.Blocks[0], nil, nil)
				delete(k.busy, g)
				if at != nil {
					return true
				}
			}
		}
	}
	return false
}

func isDims(c ssa.CallInstruction) bool {
	o := calleeObj(c)
	return o != nil && (o.Name() == "Dims" || o.Name() == "Len")
}

// resetLoop: the block heads a loop that overwrites every element before reading any.
func (k *carry) resetLoop(h *ssa.BasicBlock) bool {
	body := naturalLoop(h)
	if body == nil || k.cell {
		return false
	}
	// over the table's own keys
	for _, i := range h.Instrs {
		n, ok := i.(*ssa.Next)
		if !ok {
			continue
		}
		rg, ok := n.Iter.(*ssa.Range)
		if !ok || !k.is(rg.X) {
			return false
		}
		return k.everyRound(h, body, func(idx ssa.Value) bool {
			e, ok := idx.(*ssa.Extract)
			return ok && e.Tuple == ssa.Value(n) && e.Index == 1
		})
	}
	for _, l := range countingLoops(h.Parent()) {
		if l.Header != h || l.Step != 1 {
			continue
		}
		init, isK := constInt(l.Init)
		if !l.Range && (!isK || init != 0) {
			return false
		}
		if _, short := shortBound(l); short {
			return false
		}
		return k.everyRound(h, body, func(idx ssa.Value) bool { return idx == l.Cur })
	}
	return false
}

// everyRound: each round of the loop writes the element of that round and reads nothing before; and only the header leaves.
func (k *carry) everyRound(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, own func(ssa.Value) bool) bool {
	for b := range body {
		if b == h {
			continue
		}
		for _, s := range b.Succs {
			if !body[s] {
				if len(s.Succs) == 0 {
					continue
				}
				return false
			}
		}
	}
	var start *ssa.BasicBlock
	for _, s := range h.Succs {
		if body[s] {
			start = s
		}
	}
	if start == nil {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{start}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		passed := false
		for _, i := range b.Instrs {
			if idx, w := k.writes(i); w && idx != nil && own(idx) {
				passed = true
				break
			}
			if k.reads(i) {
				return false
			}
		}
		if passed {
			continue
		}
		for _, s := range b.Succs {
			if s == h {
				return false
			}
			if body[s] {
				work = append(work, s)
			}
		}
	}
	return true
}

// scan walks from a block until the object is overwritten; it returns the first read met, and whether every path that
// ends has overwritten it.
func (k *carry) scan(start *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, stop *ssa.BasicBlock) (ssa.Instruction, bool) {
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{start}
	done := true
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] || body != nil && !body[b] {
			continue
		}
		seen[b] = true
		if k.resetLoop(b) {
			continue
		}
		over := false
		for _, i := range b.Instrs {
			if k.reads(i) {
				return i, false
			}
			if k.whole(i) {
				over = true
				break
			}
			if _, ok := i.(*ssa.Return); ok {
				done = false
			}
		}
		if over {
			continue
		}
		for _, s := range b.Succs {
			if s == stop {
				done = false
				continue
			}
			work = append(work, s)
		}
	}
	return nil, done
}

// onlyGrows: the list loaded is only appended to.
func onlyGrows(v ssa.Value) bool {
	if _, ok := v.Type().Underlying().(*types.Slice); !ok {
		return false
	}
	for _, r := range *v.Referrers() {
		switch t := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Call:
			b, ok := t.Call.Value.(*ssa.Builtin)
			if !ok || !(b.Name() == "append" && t.Call.Args[0] == v || b.Name() == "len") {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// onlyProgress: the value is only counted on, printed, or decides whether something is printed.
func onlyProgress(v ssa.Value, k *carry) bool {
	seen := map[ssa.Value]bool{}
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		rs := v.Referrers()
		if rs == nil {
			return true
		}
		for _, r := range *rs {
			switch t := r.(type) {
			case *ssa.DebugRef:
			case *ssa.BinOp:
				if !ok(t) {
					return false
				}
			case *ssa.Convert:
				if !ok(t) {
					return false
				}
			case *ssa.Phi:
				if !ok(t) {
					return false
				}
			case *ssa.MakeInterface:
				if !printed(t) {
					return false
				}
			case *ssa.Store:
				if t.Val != v || !k.isCellAddr(t.Addr) {
					if _, own := k.element(t.Addr); !own {
						return false
					}
				}
			case *ssa.If:
				if !printsOnly(t) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	return ok(v)
}

func printed(mi *ssa.MakeInterface) bool {
	for _, r := range *mi.Referrers() {
		st, ok := r.(*ssa.Store)
		if !ok {
			return false
		}
		ia, ok := st.Addr.(*ssa.IndexAddr)
		if !ok {
			return false
		}
		for _, q := range *ia.X.Referrers() {
			if sl, ok := q.(*ssa.Slice); ok {
				for _, w := range *sl.Referrers() {
					if c, ok := w.(ssa.CallInstruction); !ok || !isOutput(c) {
						return false
					}
				}
			}
		}
	}
	return true
}

func isOutput(c ssa.CallInstruction) bool {
	o := calleeObj(c)
	if o == nil || o.Pkg() == nil {
		return false
	}
	pp := o.Pkg().Path()
	return (pp == "fmt" || pp == "log") && strings.Contains(o.Name(), "rint")
}

// printsOnly: what the branch decides is only whether something is printed.
func printsOnly(iff *ssa.If) bool {
	b := iff.Block()
	for _, s := range b.Succs {
		if len(s.Preds) != 1 {
			continue // the common continuation
		}
		for _, i := range s.Instrs {
			switch t := i.(type) {
			case ssa.CallInstruction:
				if !isOutput(t) {
					return false
				}
			case *ssa.MapUpdate, *ssa.Return, *ssa.Panic, *ssa.Send:
				return false
			case *ssa.Store:
				if ia, ok := t.Addr.(*ssa.IndexAddr); !ok {
					return false
				} else if _, tmp := ia.X.(*ssa.Alloc); !tmp {
					return false
				}
			}
		}
	}
	// values chosen by the branch
	for _, s := range b.Succs {
		for _, i := range s.Instrs {
			ph, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			if bt, ok := ph.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
				continue
			}
			return false
		}
	}
	return true
}

func runC39(c *Ctx) {
	p := c.P
	r := newRowsInfo(p)
	regions, objects := 0, 0
	for _, f := range p.Funcs {
		if !isPredictRoot(p, f) {
			continue
		}
		fam := predFamily(p, f)
		name := p.Name(f)
		done := map[*rowRoot]bool{}
		for _, g := range sortedFuncs(p, fam) {
			for _, i := range instrs(g) {
				var idx ssa.Value
				if call, ok := i.(ssa.CallInstruction); ok {
					if k := p.rowSink(call); k != nil {
						idx = k.row
					}
				}
				var roots []*rowRoot
				if idx != nil {
					for _, o := range r.origins(idx) {
						if o.root != nil {
							roots = append(roots, o.root)
						}
					}
				} else if a, ok := i.(*ssa.Call); ok {
					if b, ok := a.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
						if sl, ok := a.Type().Underlying().(*types.Slice); ok && isNumber(sl.Elem()) {
							for _, l := range countingLoops(g) {
								if _, inner := innermostLoop(a.Block()); l.Body[a.Block()] && len(inner) == len(l.Body) {
									if rt := r.rootOf(l.Cur); rt != nil && rt.list != nil {
										if el, ok := rt.list.Type().Underlying().(*types.Slice); ok {
											if _, nested := el.Elem().Underlying().(*types.Slice); nested {
												roots = append(roots, rt)
											}
										}
									}
								}
							}
						}
					}
				}
				for _, root := range roots {
					if done[root] {
						continue
					}
					done[root] = true
					regions++
					objects += r.carried(c, name, fam, root)
				}
			}
		}
	}
	c.Count("loops and traversals over the rows to predict", regions)
	c.Count("objects shared between rows", objects)
	c.Floor("loops and traversals over the rows to predict", regions, 8)
}

// carried checks the objects that outlive the handling of one row.
func (r *rowsInfo) carried(c *Ctx, name string, fam map[*ssa.Function]bool, root *rowRoot) int {
	p := r.p
	var start, stop *ssa.BasicBlock
	var body map[*ssa.BasicBlock]bool
	switch {
	case root.loop != nil:
		stop = root.loop.Header
		body = root.loop.Body
		for _, s := range stop.Succs {
			if body[s] {
				start = s
			}
		}
	case root.m != nil:
		ex := root.v.(*ssa.Extract)
		stop, body = innermostLoop(ex.Block())
		start = ex.Block()
		if stop == start {
			for _, s := range stop.Succs {
				if body[s] {
					start = s
				}
			}
		}
	default:
		start = root.fn.Blocks[0]
	}
	if start == nil {
		return 0
	}
	// functions run while a row is handled
	inside := map[*ssa.Function]bool{}
	var add func(g *ssa.Function)
	enter := func(i ssa.Instruction) {
		if mc, ok := i.(*ssa.MakeClosure); ok {
			add(mc.Fn.(*ssa.Function))
		}
		if call, ok := i.(ssa.CallInstruction); ok {
			if g := call.Common().StaticCallee(); g != nil && p.IsLibFunc(g) {
				add(g)
			}
		}
	}
	add = func(g *ssa.Function) {
		if inside[g] || len(g.Blocks) == 0 {
			return
		}
		inside[g] = true
		for _, i := range instrs(g) {
			enter(i)
		}
	}
	var region []ssa.Instruction
	if body == nil {
		add(root.fn)
	} else {
		for b := range body {
			for _, i := range b.Instrs {
				region = append(region, i)
				enter(i)
			}
		}
	}
	for g := range inside {
		region = append(region, instrs(g)...)
	}
	within := map[ssa.Instruction]bool{}
	for _, i := range region {
		within[i] = true
	}
	n := 0
	for _, g := range sortedFuncs(p, fam) {
		if inside[g] && g != root.fn {
			continue
		}
		for _, i := range instrs(g) {
			if within[i] {
				continue
			}
			v, ok := i.(ssa.Value)
			if !ok {
				continue
			}
			k := &carry{p: p, obj: v, memo: map[ssa.Value]bool{}, busy: map[*ssa.Function]bool{}, clean: map[*ssa.Function]int{}}
			switch t := v.(type) {
			case *ssa.MakeSlice, *ssa.MakeMap:
			case *ssa.Alloc:
				k.cell = true
				if _, arr := deref(t.Type()).Underlying().(*types.Array); arr {
					k.cell = false
				}
			case *ssa.Call:
				o := calleeObj(t)
				if o == nil || o.Pkg() == nil || !strings.HasSuffix(o.Pkg().Path(), "gonum/mat") || !strings.HasPrefix(o.Name(), "New") {
					continue
				}
			default:
				continue
			}
			written := false
			for _, j := range region {
				if _, w := k.writes(j); w {
					written = true
				}
			}
			if !written {
				continue
			}
			if k.indexedByRow(r, region, root) {
				continue // an entry per row
			}
			n++
			at, _ := k.scan(start, body, stop)
			pos := p.Pos(v.Pos())
			if at != nil {
				pos = p.InstrPos(at)
			}
			what := "the storage made at " + p.Pos(v.Pos())
			if k.cell {
				what = "the variable " + v.(*ssa.Alloc).Comment
			}
			c.Check(at == nil, "carry:"+name, pos, what+" is overwritten before it is used for the next row", what+", shared by all rows, can be read before it was overwritten for this row")
		}
	}
	// variables carried around the loop
	if body != nil {
		for _, i := range stop.Instrs {
			ph, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			if root.loop != nil && ph == root.loop.Phi {
				continue
			}
			n++
			bad := !onlyGrows2(ph, body) && !onlyProgress(ph, &carry{p: p, obj: ph, memo: map[ssa.Value]bool{}})
			c.Check(!bad, "carry:"+name, p.Pos(ph.Pos()), "the variable "+ph.Comment+" only collects results", "the variable "+ph.Comment+" carries a value from one row to the next")
		}
	}
	return n
}

// onlyGrows2: inside the loop the list is only appended to.
func onlyGrows2(ph *ssa.Phi, body map[*ssa.BasicBlock]bool) bool {
	if _, ok := ph.Type().Underlying().(*types.Slice); !ok {
		return false
	}
	seen := map[ssa.Value]bool{}
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			if !body[r.Block()] {
				continue
			}
			switch t := r.(type) {
			case *ssa.DebugRef:
			case *ssa.Phi:
				if !ok(t) {
					return false
				}
			case *ssa.Call:
				b, isB := t.Call.Value.(*ssa.Builtin)
				if !isB || !(b.Name() == "append" && t.Call.Args[0] == v || b.Name() == "len") {
					return false
				}
				if b.Name() == "append" && !ok(t) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	return ok(ph)
}

// indexedByRow: every entry written is that of the row being handled.
func (k *carry) indexedByRow(r *rowsInfo, region []ssa.Instruction, root *rowRoot) bool {
	for _, j := range region {
		idx, w := k.writes(j)
		if !w {
			continue
		}
		if idx == nil {
			return false
		}
		mine := false
		if b, ok := idx.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			for _, o := range r.origins(idx) {
				if o.root == root && o.exact && o.off == 0 {
					mine = true
				}
			}
		}
		if !mine {
			return false
		}
	}
	return true
}

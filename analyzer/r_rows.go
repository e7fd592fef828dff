package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C18", Rule: "for every exported Predict operation on a data set: the returned predictions come from a prediction vector generated for that very data set (or from another model's Predict on it); a generated prediction vector has a row per input row; every write to the prediction vector goes to the row number of a traversal of the input (or of something row-aligned with it), unshifted, under a column resolved from the prediction vector; every path through a row's processing that continues passes such a write; cells and classes of the input read meanwhile belong to the same row; and predictions returned as a list are appended or stored exactly once per row, in row order.", Run: runC18})
	register(&Rule{ID: "C36", Rule: "wherever a row number of a traversal (callback parameter or loop over a data set's rows) is used to address rows of another data set, a matrix or a list, it is used unshifted; a traversal that fills a captured list or matrix by row number does so on every continuing path, with storage allocated for that row; and element copies between a row and a buffer keep the column number, or shift it by a constant for which the skipped columns are written too.", Run: runC36})
}

// rowRoot is where row numbers come from.
type rowRoot struct {
	v     ssa.Value
	fn    *ssa.Function
	grid  []ssa.Value // traversed data sets, when known
	loop  *CountLoop
	list  ssa.Value // a loop over a list
	m     ssa.Value // keys of a map
	short int64     // the loop stops this many elements early
}

type rowOrigin struct {
	root  *rowRoot // nil: something else
	off   int64
	exact bool
	leaf  ssa.Value
}

type rowsInfo struct {
	p     *Prog
	trav  map[*ssa.Function][]ssa.CallInstruction // callback -> traversals
	roots map[ssa.Value]*rowRoot
}

func newRowsInfo(p *Prog) *rowsInfo {
	r := &rowsInfo{p: p, trav: map[*ssa.Function][]ssa.CallInstruction{}, roots: map[ssa.Value]*rowRoot{}}
	for _, f := range p.Funcs {
		for _, c := range calls(f) {
			if !methodNamed(c, "MapOverRows") || len(argsOf(c)) != 2 {
				continue
			}
			for _, g := range p.funcValues(argsOf(c)[1], map[ssa.Value]bool{}) {
				if isRowCallback(g.Signature) {
					r.trav[g] = append(r.trav[g], c)
				}
			}
		}
	}
	return r
}

// rowArgOf: the row number parameter of a callback (bound methods have a receiver first).
func rowArgOf(f *ssa.Function) *ssa.Parameter {
	if len(f.Params) == 0 {
		return nil
	}
	return f.Params[len(f.Params)-1]
}

func (r *rowsInfo) rootOf(v ssa.Value) *rowRoot {
	if x, ok := r.roots[v]; ok {
		return x
	}
	var out *rowRoot
	switch t := v.(type) {
	case *ssa.Parameter:
		f := t.Parent()
		if cs := r.trav[f]; len(cs) > 0 && t == rowArgOf(f) {
			out = &rowRoot{v: v, fn: f}
			for _, c := range cs {
				out.grid = append(out.grid, recvOf(c))
			}
		}
	case *ssa.Extract:
		if n, ok := t.Tuple.(*ssa.Next); ok && t.Index == 1 {
			if rg, ok := n.Iter.(*ssa.Range); ok {
				if _, isMap := rg.X.Type().Underlying().(*types.Map); isMap {
					if b, ok := t.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
						out = &rowRoot{v: v, fn: t.Parent(), m: rg.X}
					}
				}
			}
		}
	default:
		if l := loopCur(v); l != nil && l.Step == 1 {
			if g := r.rowCount(l.Bound, 0); len(g) > 0 {
				out = &rowRoot{v: l.Cur, fn: l.Header.Parent(), grid: g, loop: l}
			} else {
				bound, short := l.Bound, int64(0)
				if k, ok := shortBound(l); ok {
					bound, short = l.Bound.(*ssa.BinOp).X, k
				}
				if l.Op == token.LEQ && !l.Range {
					short--
				}
				if c, ok := bound.(*ssa.Call); ok {
					if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
						if _, isSl := c.Call.Args[0].Type().Underlying().(*types.Slice); isSl {
							out = &rowRoot{v: l.Cur, fn: l.Header.Parent(), list: c.Call.Args[0], loop: l, short: short}
						}
					}
				}
			}
		}
	}
	r.roots[v] = out
	return out
}

// rowCount: the data sets whose number of rows v is (parameters followed to the call sites).
func (r *rowsInfo) rowCount(v ssa.Value, depth int) []ssa.Value {
	var out []ssa.Value
	for _, x := range r.p.Trace(v, TraceOpt{NoCalls: true}) {
		e, ok := x.(*ssa.Extract)
		if !ok || e.Index != 1 {
			return nil
		}
		call, ok := e.Tuple.(*ssa.Call)
		if !ok || !methodNamed(call, "Size") || !r.p.isGridType(recvOf(call).Type()) {
			return nil
		}
		out = append(out, recvOf(call))
	}
	return out
}

// origins of an integer used as a row number.
func (r *rowsInfo) origins(v ssa.Value) []rowOrigin {
	var out []rowOrigin
	seen := map[string]bool{}
	var walk func(v ssa.Value, off int64, exact bool)
	walk = func(v ssa.Value, off int64, exact bool) {
		k := fmt.Sprintf("%p/%d/%v", v, off, exact)
		if v == nil || seen[k] || off > 64 || off < -64 {
			return
		}
		seen[k] = true
		if root := r.rootOf(v); root != nil {
			if l := root.loop; l != nil {
				if v != l.Cur {
					off-- // the counter of a range loop before it is stepped
				}
				if k, ok := constInt(l.Init); ok && !l.Range && l.Op == token.LEQ {
					off += k // counted from k up to and including the number of rows
				}
			}
			out = append(out, rowOrigin{root, off, exact, v})
			return
		}
		switch t := v.(type) {
		case *ssa.Parameter:
			f := t.Parent()
			idx := -1
			for i, q := range f.Params {
				if q == t {
					idx = i
				}
			}
			n := 0
			if !isExported(f) {
				for _, c := range r.p.callers[f] {
					if a := argFor(c, f, idx); a != nil {
						walk(a, off, exact)
						n++
					}
				}
			}
			if n == 0 {
				out = append(out, rowOrigin{nil, off, exact, v})
			}
		case *ssa.FreeVar:
			for _, b := range r.p.freeVarBindings(t) {
				walk(b, off, exact)
			}
		case *ssa.UnOp:
			if t.Op == token.MUL {
				if a := r.p.cellOf(t.X); a != nil {
					for _, s := range r.p.cellStores(a) {
						walk(s.Val, off, exact)
					}
					return
				}
			}
			out = append(out, rowOrigin{nil, off, exact, v})
		case *ssa.Phi:
			for _, e := range t.Edges {
				walk(e, off, exact)
			}
		case *ssa.Convert:
			walk(t.X, off, exact)
		case *ssa.ChangeType:
			walk(t.X, off, exact)
		case *ssa.BinOp:
			if k, ok := constInt(t.Y); ok && (t.Op == token.ADD || t.Op == token.SUB) {
				if t.Op == token.SUB {
					k = -k
				}
				walk(t.X, off+k, exact)
				return
			}
			if k, ok := constInt(t.X); ok && t.Op == token.ADD {
				walk(t.Y, off+k, exact)
				return
			}
			walk(t.X, off, false)
			walk(t.Y, off, false)
		default:
			out = append(out, rowOrigin{nil, off, exact, v})
		}
	}
	walk(v, 0, true)
	return out
}

// ---- alignment of data sets ----

const (
	alNo = iota
	alUnknown
	alYes
)

// aligned: row i of v belongs to row i of one of the wanted values.
func (r *rowsInfo) aligned(v ssa.Value, want map[ssa.Value]bool, depth int) int {
	p := r.p
	if depth > 12 {
		return alUnknown
	}
	res := alYes
	join := func(k int) {
		if k < res {
			res = k
		}
	}
	stop := func(x ssa.Value) bool {
		if want[x] {
			return true
		}
		switch x.(type) {
		case *ssa.Call:
			return true
		case *ssa.Extract:
			return true
		}
		return false
	}
	leaves := p.Trace(v, TraceOpt{Stop: stop})
	for _, l := range leaves {
		if want[l] {
			continue
		}
		switch t := l.(type) {
		case *ssa.Const:
			if t.IsNil() {
				continue
			}
			join(alUnknown)
		case *ssa.Extract:
			if c, ok := t.Tuple.(*ssa.Call); ok {
				join(r.alignedCall(c, t.Index, want, depth))
			} else if u, ok := t.Tuple.(*ssa.UnOp); ok && u.Op == token.ARROW && t.Index == 0 {
				join(r.alignedRecv(u.X, want, depth))
			} else {
				join(alUnknown)
			}
		case *ssa.Call:
			join(r.alignedCall(t, 0, want, depth))
		case *ssa.UnOp:
			switch {
			case t.Op == token.ARROW:
				join(r.alignedRecv(t.X, want, depth))
			case t.Op == token.MUL:
				if _, ok := t.X.(*ssa.FieldAddr); ok {
					join(alNo) // stored with the model or elsewhere
				} else if ia, ok := t.X.(*ssa.IndexAddr); ok {
					join(r.alignedElems(ia.X, want, depth))
				} else {
					join(alUnknown)
				}
			default:
				join(alUnknown)
			}
		case *ssa.Parameter:
			if p.isGridType(t.Type()) && isExported(t.Parent()) {
				join(alNo)
			} else {
				join(alUnknown)
			}
		default:
			join(alUnknown)
		}
	}
	if len(leaves) == 0 {
		return alUnknown
	}
	return res
}

// alignedElems: every element stored into the list is aligned.
func (r *rowsInfo) alignedElems(list ssa.Value, want map[ssa.Value]bool, depth int) int {
	res, n := alYes, 0
	for _, base := range r.p.Trace(list, TraceOpt{}) {
		refs := base.Referrers()
		if refs == nil {
			return alUnknown
		}
		for _, q := range *refs {
			ia, ok := q.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, s := range *ia.Referrers() {
				if st, ok := s.(*ssa.Store); ok && st.Addr == ia {
					if k := r.aligned(st.Val, want, depth+1); k < res {
						res = k
					}
					n++
				}
			}
		}
	}
	if n == 0 {
		return alUnknown
	}
	return res
}

// alignedRecv: every value sent on the channel is aligned.
func (r *rowsInfo) alignedRecv(ch ssa.Value, want map[ssa.Value]bool, depth int) int {
	src := map[ssa.Value]bool{}
	for _, x := range r.p.Trace(ch, TraceOpt{}) {
		src[x] = true
	}
	res, n := alYes, 0
	for f := range r.p.family(owner(parentOf(ch))) {
		for _, i := range instrs(f) {
			s, ok := i.(*ssa.Send)
			if !ok {
				continue
			}
			hit := false
			for _, x := range r.p.Trace(s.Chan, TraceOpt{}) {
				hit = hit || src[x]
			}
			if hit {
				n++
				if k := r.aligned(s.X, want, depth+1); k < res {
					res = k
				}
			}
		}
	}
	if n == 0 {
		return alUnknown
	}
	return res
}

func parentOf(v ssa.Value) *ssa.Function {
	switch t := v.(type) {
	case ssa.Instruction:
		return t.Parent()
	case *ssa.Parameter:
		return t.Parent()
	case *ssa.FreeVar:
		return t.Parent()
	}
	return nil
}

var rowPreserving = map[string]bool{"NewLazilyFilteredInstances": true, "NewInstancesViewFromAttrs": true, "GeneratePredictionVector": true, "NewDenseCopy": true, "NewStructuralCopy": true}
var rowChanging = map[string]bool{"Shuffle": true, "LazyShuffle": true, "Sort": true, "LazySort": true, "SampleWithReplacement": true, "InstancesTrainTestSplit": true, "NewInstancesViewFromVisible": true, "NewInstancesViewFromRows": true}

func (r *rowsInfo) alignedCall(c *ssa.Call, idx int, want map[ssa.Value]bool, depth int) int {
	p := r.p
	if o := calleeObj(c); o != nil && idx == 0 {
		base := o.Pkg() != nil && o.Pkg().Path() == modPath+"/base"
		if base && rowPreserving[o.Name()] {
			return r.aligned(argsOf(c)[0], want, depth+1)
		}
		if base && rowChanging[o.Name()] {
			return alNo
		}
		if o.Name() == "Predict" {
			for _, a := range argsOf(c) {
				if p.isGridType(a.Type()) {
					return r.aligned(a, want, depth+1)
				}
			}
		}
	}
	cs := p.Callees(c)
	if len(cs) == 0 {
		return alUnknown
	}
	res := alYes
	for _, g := range cs {
		if !p.IsLibFunc(g) || len(g.Blocks) == 0 {
			return alUnknown
		}
		w := map[ssa.Value]bool{}
		for i, q := range g.Params {
			if a := argFor(c, g, i); a != nil && (p.isGridType(q.Type()) || rowList(q.Type())) {
				if rowList(q.Type()) {
					switch r.listAligned(a, want, depth+1) {
					case alYes:
						w[q] = true
					case alNo:
						return alNo
					}
				} else if r.aligned(a, want, depth+1) == alYes {
					w[q] = true
				}
			}
		}
		for _, ret := range returns(g) {
			if idx < len(ret.Results) && !isNilConst(ret.Results[idx]) {
				k := alUnknown
				if p.isGridType(ret.Results[idx].Type()) {
					k = r.aligned(ret.Results[idx], w, depth+1)
				} else {
					k = r.listAligned(ret.Results[idx], w, depth+1)
				}
				if k < res {
					res = k
				}
			}
		}
	}
	return res
}

func isNumber(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

func rowList(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// ---- lists with an element per row ----

// rootAligned: the row numbers of the root are row numbers of the wanted data sets.
func (r *rowsInfo) rootAligned(root *rowRoot, want map[ssa.Value]bool, depth int) int {
	if depth > 12 {
		return alUnknown
	}
	switch {
	case len(root.grid) > 0:
		res := alYes
		for _, g := range root.grid {
			if k := r.aligned(g, want, depth+1); k < res {
				res = k
			}
		}
		return res
	case root.list != nil:
		if root.short > 0 {
			return alNo
		}
		return r.listAligned(root.list, want, depth+1)
	case root.m != nil:
		return r.mapAligned(root.m, want, depth+1)
	}
	return alUnknown
}

// mapAligned: every key stored in the map is a row number of the wanted data sets.
func (r *rowsInfo) mapAligned(m ssa.Value, want map[ssa.Value]bool, depth int) int {
	res, n := alYes, 0
	src := map[ssa.Value]bool{}
	for _, x := range r.p.Trace(m, TraceOpt{}) {
		src[x] = true
		if _, ok := x.(*ssa.MakeMap); !ok {
			return alUnknown
		}
	}
	for f := range r.p.family(owner(parentOf(m))) {
		for _, i := range instrs(f) {
			mu, ok := i.(*ssa.MapUpdate)
			if !ok || !types.Identical(mu.Map.Type(), m.Type()) {
				continue
			}
			hit := false
			for _, x := range r.p.Trace(mu.Map, TraceOpt{}) {
				hit = hit || src[x]
			}
			if !hit {
				continue
			}
			for _, o := range r.origins(mu.Key) {
				n++
				k := alUnknown
				if o.root != nil {
					k = r.rootAligned(o.root, want, depth+1)
					if k == alYes && (o.off != 0 || !o.exact) {
						k = alNo
					}
				}
				if k < res {
					res = k
				}
			}
		}
	}
	if n == 0 {
		return alUnknown
	}
	return res
}

// listAligned: element i of the list belongs to row i of the wanted data sets.
func (r *rowsInfo) listAligned(list ssa.Value, want map[ssa.Value]bool, depth int) int {
	p := r.p
	if depth > 12 {
		return alUnknown
	}
	res := alYes
	join := func(k int) {
		if k < res {
			res = k
		}
	}
	for _, l := range p.Trace(list, TraceOpt{Stop: func(x ssa.Value) bool {
		_, isCall := x.(*ssa.Call)
		_, isEx := x.(*ssa.Extract)
		return want[x] || isCall || isEx
	}}) {
		if want[l] {
			continue
		}
		switch t := l.(type) {
		case *ssa.Const:
		case *ssa.MakeSlice:
			join(r.filledByRow(t, want, depth))
		case *ssa.Extract:
			if c, ok := t.Tuple.(*ssa.Call); ok {
				join(r.alignedCall(c, t.Index, want, depth))
			} else {
				join(alUnknown)
			}
		case *ssa.Call:
			if b, ok := t.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				k, _ := r.appendAligned(t, want, depth)
				join(k)
			} else {
				join(r.alignedCall(t, 0, want, depth))
			}
		default:
			join(alUnknown)
		}
	}
	return res
}

// filledByRow: a made list whose elements are stored at aligned row numbers.
func (r *rowsInfo) filledByRow(ms *ssa.MakeSlice, want map[ssa.Value]bool, depth int) int {
	res, n := alYes, 0
	for f := range r.p.family(owner(ms.Parent())) {
		for _, i := range instrs(f) {
			st, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			hit := false
			for _, x := range r.p.Trace(ia.X, TraceOpt{NoCalls: true}) {
				hit = hit || x == ssa.Value(ms)
			}
			if !hit {
				continue
			}
			for _, o := range r.origins(ia.Index) {
				n++
				k := alUnknown
				if o.root != nil && o.root.list == nil {
					k = r.rootAligned(o.root, want, depth+1)
					if k == alYes && (o.off != 0 || !o.exact) {
						k = alNo
					}
				} else if o.root != nil && o.off == 0 && o.exact {
					k = alYes
					if r.p.Trace(o.root.list, TraceOpt{})[0] != ssa.Value(ms) {
						k = r.listAligned(o.root.list, want, depth+1)
					}
				}
				if k < res {
					res = k
				}
			}
		}
	}
	if n == 0 {
		return alUnknown
	}
	return res
}

// appendAligned: the append happens exactly once per row of a loop or traversal over the wanted data sets.
func (r *rowsInfo) appendAligned(c *ssa.Call, want map[ssa.Value]bool, depth int) (int, string) {
	f := c.Parent()
	weight := func(i ssa.Instruction) (int, int) {
		if k, ok := i.(*ssa.Call); ok {
			if b, ok := k.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && types.Identical(k.Type(), c.Type()) && r.sameList(k, c) {
				n := 1
				if va := varargs(k); va != nil {
					n = len(va)
				}
				return n, n
			}
		}
		return 0, 0
	}
	if rowArgOf(f) != nil && len(r.trav[f]) > 0 {
		root := r.rootOf(rowArgOf(f))
		k := r.rootAligned(root, want, depth+1)
		lo, hi, ok := r.p.pathCounts(f.Blocks[0], func(b *ssa.BasicBlock) bool { return b == nil }, weight)
		if ok && (lo != 1 || hi != 1) && k == alYes {
			return alNo, "not exactly one element is appended per row"
		}
		return k, ""
	}
	best := alUnknown
	for _, l := range countingLoops(f) {
		if !l.Body[c.Block()] {
			continue
		}
		root := r.rootOf(l.Cur)
		if root == nil {
			continue
		}
		if _, inner := innermostLoop(c.Block()); inner != nil && len(inner) != len(l.Body) {
			continue
		}
		k := r.rootAligned(root, want, depth+1)
		if k != alYes {
			continue
		}
		start := l.Header.Succs[0]
		if !l.Body[start] {
			start = l.Header.Succs[1]
		}
		lo, hi, ok := r.p.pathCounts(start, func(b *ssa.BasicBlock) bool { return b == l.Header }, weight)
		if ok && (lo != 1 || hi != 1) {
			return alNo, "not exactly one element is appended per row"
		}
		best = alYes
	}
	return best, ""
}

// sameList: two appends extend the same variable.
func (r *rowsInfo) sameList(a, b *ssa.Call) bool {
	return a == b || len(a.Call.Args) > 0 && len(b.Call.Args) > 0 && (a.Call.Args[0] == b.Call.Args[0] || sameCell(r.p, a.Call.Args[0], b.Call.Args[0]) || a.Call.Args[0] == ssa.Value(b) || b.Call.Args[0] == ssa.Value(a))
}

func sameCell(p *Prog, a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 {
		return false
	}
	ca, cb := p.cellOf(x.X), p.cellOf(y.X)
	return ca != nil && ca == cb
}

// ---- C18 ----

// rowSink: a call that writes one row of an updatable data set.
type rowSink struct {
	call ssa.CallInstruction
	grid ssa.Value
	row  ssa.Value
	spec ssa.Value
}

func (p *Prog) rowSink(c ssa.CallInstruction) *rowSink {
	if isCallTo(c, "base", "", "SetClass") {
		a := argsOf(c)
		return &rowSink{c, a[0], a[1], nil}
	}
	if methodNamed(c, "Set") && len(argsOf(c)) == 3 && recvOf(c) != nil && p.isGridType(recvOf(c).Type()) {
		a := argsOf(c)
		return &rowSink{c, recvOf(c), a[1], a[0]}
	}
	return nil
}

// rowSource: a call that reads one row.
func (p *Prog) rowSource(c ssa.CallInstruction) *rowSink {
	if isCallTo(c, "base", "", "GetClass") {
		a := argsOf(c)
		return &rowSink{c, a[0], a[1], nil}
	}
	if methodNamed(c, "Get") && len(argsOf(c)) == 2 && recvOf(c) != nil && p.isGridType(recvOf(c).Type()) {
		a := argsOf(c)
		return &rowSink{c, recvOf(c), a[1], a[0]}
	}
	return nil
}

type predScan struct {
	*rowsInfo
	c     *Ctx
	f     *ssa.Function
	name  string
	want  map[ssa.Value]bool
	fam   map[*ssa.Function]bool
	sinks map[ssa.Instruction]*rowSink
	memo  map[*ssa.Function]int
	also  map[ssa.Instruction]bool
}

func isPredictRoot(p *Prog, f *ssa.Function) bool {
	if f.Parent() != nil || !isExported(f) || !strings.HasPrefix(f.Name(), "Predict") || len(f.Blocks) == 0 {
		return false
	}
	if f.Signature.Recv() != nil {
		n := namedOf(f.Signature.Recv().Type())
		if n == nil {
			return false
		}
	}
	for _, q := range f.Params {
		if p.isGridType(q.Type()) && (f.Signature.Recv() == nil || q != f.Params[0]) {
			return true
		}
	}
	return false
}

// famOf: the function, its closures and the library helpers they call directly, without package base and other models.
func predFamily(p *Prog, f *ssa.Function) map[*ssa.Function]bool {
	fam := map[*ssa.Function]bool{}
	var add func(g *ssa.Function)
	add = func(g *ssa.Function) {
		if g == nil || fam[g] || !p.IsLibFunc(g) || len(g.Blocks) == 0 {
			return
		}
		if g != f && isPredictRoot(p, g) {
			return
		}
		if o := owner(g); o.Pkg != nil && strings.HasSuffix(o.Pkg.Pkg.Path(), "/base") {
			return
		}
		fam[g] = true
		for _, h := range g.AnonFuncs {
			add(h)
		}
		for _, c := range calls(g) {
			for _, h := range p.funcValues(c.Common().Value, map[ssa.Value]bool{}) {
				add(h)
			}
			for _, a := range c.Common().Args {
				for _, h := range p.funcValues(a, map[ssa.Value]bool{}) {
					add(h)
				}
			}
		}
	}
	add(f)
	return fam
}

func isGPV(v ssa.Value) *ssa.Call {
	if c, ok := v.(*ssa.Call); ok && isCallTo(c, "base", "", "GeneratePredictionVector") {
		return c
	}
	return nil
}

func runC18(c *Ctx) {
	p := c.P
	r := newRowsInfo(p)
	if g := p.Func("base.GeneratePredictionVector"); g != nil {
		predictionVector(c, r, g)
	}
	n := 0
	for _, f := range p.Funcs {
		if !isPredictRoot(p, f) {
			continue
		}
		n++
		s := &predScan{rowsInfo: r, c: c, f: f, name: p.Name(f), want: map[ssa.Value]bool{}, fam: predFamily(p, f), sinks: map[ssa.Instruction]*rowSink{}, memo: map[*ssa.Function]int{}}
		for i, q := range f.Params {
			if p.isGridType(q.Type()) && (f.Signature.Recv() == nil || i > 0) {
				s.want[q] = true
			}
		}
		s.run()
	}
	c.Count("predict operations", n)
	c.Floor("predict operations", n, 10)
}

// predictionVector: as many rows as the data set it is made for.
func predictionVector(c *Ctx, r *rowsInfo, g *ssa.Function) {
	p := c.P
	key := "vector:" + p.Name(g)
	pos := p.Pos(g.Pos())
	n := 0
	for h := range predFamilyAll(p, g) {
		for _, call := range calls(h) {
			if !methodNamed(call, "Extend") || len(argsOf(call)) != 1 {
				continue
			}
			ok := false
			for _, x := range r.rowCount(argsOf(call)[0], 0) {
				for _, y := range p.Trace(x, TraceOpt{}) {
					ok = ok || y == ssa.Value(g.Params[0])
				}
			}
			if h == g {
				n++
				c.Check(ok, key, p.InstrPos(call), "has a row for every row of its data set", "the prediction vector is not extended by the number of rows of the data set it is made for")
			}
		}
	}
	if n == 0 {
		c.Count("undecided prediction vectors", 1)
	}
	_ = pos
}

func predFamilyAll(p *Prog, f *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{f: true}
	for _, g := range f.AnonFuncs {
		out[g] = true
	}
	return out
}

func (s *predScan) run() {
	p, c := s.p, s.c
	// sinks
	fams := sortedFuncs(p, s.fam)
	nSink := 0
	for _, g := range fams {
		for _, call := range calls(g) {
			k := p.rowSink(call)
			if k == nil {
				continue
			}
			isPred := false
			for _, x := range p.Trace(k.grid, TraceOpt{Stop: func(v ssa.Value) bool { return isGPV(v) != nil }}) {
				isPred = isPred || isGPV(x) != nil
			}
			if isPred {
				s.sinks[call] = k
				nSink++
			}
		}
	}
	// the vectors made
	for _, g := range fams {
		for _, call := range calls(g) {
			v, ok := call.(*ssa.Call)
			if !ok || isGPV(v) == nil {
				continue
			}
			c.Check(s.aligned(argsOf(call)[0], s.want, 0) != alNo, "made-for:"+s.name, p.InstrPos(call), "the prediction vector is generated for the data set to predict", "the prediction vector is generated for another data set than the one to predict")
		}
	}
	// returned value
	res := s.f.Signature.Results()
	if res.Len() == 0 {
		return
	}
	if p.isGridType(res.At(0).Type()) {
		for _, ret := range returns(s.f) {
			for _, x := range p.Trace(ret.Results[0], TraceOpt{Stop: func(v ssa.Value) bool {
				if s.want[v] || isGPV(v) != nil {
					return true
				}
				_, isCall := callOf(v)
				return isCall && predictCall(v)
			}}) {
				key := "returned:" + s.name
				switch {
				case isGPV(x) != nil:
					c.Ok(key, p.InstrPos(ret), "returns the prediction vector")
				case s.want[x]:
					c.Bad(key, p.InstrPos(ret), "returns the data set itself instead of predictions for it")
				default:
					if call, ok := callOf(x); ok && predictCall(x) {
						k := alUnknown
						for _, a := range argsOf(call) {
							if p.isGridType(a.Type()) {
								k = s.aligned(a, s.want, 0)
							}
						}
						c.Check(k != alNo, key, p.InstrPos(ret), "returns another model's predictions for the same rows", "returns another model's predictions for a different data set")
					} else if cst, ok := x.(*ssa.Const); !ok || !cst.IsNil() {
						c.Count("undecided returns", 1)
					}
				}
			}
		}
	} else if sl, ok := res.At(0).Type().Underlying().(*types.Slice); ok && isNumber(sl.Elem()) {
		for _, ret := range returns(s.f) {
			if isNilConst(ret.Results[0]) {
				continue
			}
			k := s.listAligned(ret.Results[0], s.want, 0)
			c.Check(k != alNo, "list:"+s.name, p.InstrPos(ret), "one prediction per row, in row order", "the predictions returned are not one per row in row order")
			if k == alUnknown {
				c.Count("undecided lists", 1)
			}
		}
	}
	// the writes
	used := map[*rowRoot]bool{}
	for _, g := range fams {
		for _, call := range calls(g) {
			k := s.sinks[call]
			if k == nil {
				continue
			}
			pos := p.InstrPos(call)
			key := "row:" + s.name
			for _, o := range s.origins(k.row) {
				switch {
				case o.root == nil:
					if _, isK := constInt(o.leaf); isK {
						c.Bad(key, pos, "the prediction is written to a fixed row")
					} else {
						c.Count("undecided rows", 1)
					}
				case !o.exact || o.off != 0:
					c.Bad(key, pos, "the prediction is written to a row number computed from, but not equal to, the row being predicted")
				default:
					a := s.rootAligned(o.root, s.want, 0)
					if a == alNo {
						// rows of the prediction vector itself are fine
						w := map[ssa.Value]bool{}
						for _, h := range fams {
							for _, cc := range calls(h) {
								if v, ok := cc.(*ssa.Call); ok && isGPV(v) != nil {
									w[v] = true
								}
							}
						}
						for q := range s.want {
							w[q] = true
						}
						a = s.rootAligned(o.root, w, 0)
					}
					c.Check(a != alNo, key, pos, "written at the row being predicted", "the prediction is written at a row number of another data set")
					if a == alUnknown {
						c.Count("undecided rows", 1)
					}
					used[o.root] = true
				}
			}
			if k.spec != nil {
				s.specOf(k, pos)
			}
		}
	}
	var roots []*rowRoot
	for x := range used {
		roots = append(roots, x)
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].v.Pos() < roots[j].v.Pos() })
	for _, x := range roots {
		s.everyRow(x)
		s.sameRow(x)
	}
	if nSink == 0 && p.isGridType(res.At(0).Type()) {
		c.Count("delegating predict operations", 1)
	}
}

func callOf(v ssa.Value) (*ssa.Call, bool) {
	switch t := v.(type) {
	case *ssa.Call:
		return t, true
	case *ssa.Extract:
		if t.Index == 0 {
			c, ok := t.Tuple.(*ssa.Call)
			return c, ok
		}
	}
	return nil, false
}

func predictCall(v ssa.Value) bool {
	c, ok := callOf(v)
	if !ok {
		return false
	}
	o := calleeObj(c)
	return o != nil && o.Name() == "Predict"
}

// specOf: the column written is one of the prediction vector's.
func (s *predScan) specOf(k *rowSink, pos string) {
	p := s.p
	dst := map[ssa.Value]bool{}
	for _, x := range p.Trace(k.grid, TraceOpt{Stop: func(v ssa.Value) bool { return isGPV(v) != nil }}) {
		dst[x] = true
	}
	for _, x := range p.Trace(k.spec, TraceOpt{Elems: true, NoCalls: true}) {
		call, ok := callOf(x)
		if !ok {
			continue
		}
		var g ssa.Value
		if isCallTo(call, "base", "", "ResolveAttributes") || isCallTo(call, "base", "", "ResolveAllAttributes") {
			g = argsOf(call)[0]
		} else if methodNamed(call, "GetAttribute") && recvOf(call) != nil && p.isGridType(recvOf(call).Type()) {
			g = recvOf(call)
		}
		if g == nil {
			continue
		}
		same, other := false, false
		for _, y := range p.Trace(g, TraceOpt{Stop: func(v ssa.Value) bool { return isGPV(v) != nil }}) {
			if dst[y] {
				same = true
			} else {
				other = true
			}
		}
		s.c.Check(same || !other, "column:"+s.name, pos, "the column was resolved in the prediction vector", "the column written was resolved in another data set than the prediction vector")
	}
}

// passes: how an instruction counts as setting the prediction.
func (s *predScan) passes(i ssa.Instruction) bool {
	if s.also[i] {
		return true
	}
	call, ok := i.(ssa.CallInstruction)
	if !ok {
		return false
	}
	if s.sinks[call] != nil {
		return true
	}
	for _, g := range s.p.Callees(call) {
		if !s.fam[g] {
			return false
		}
	}
	cs := s.p.Callees(call)
	if len(cs) == 0 {
		return false
	}
	for _, g := range cs {
		if !s.always(g) {
			return false
		}
	}
	return true
}

func (s *predScan) always(g *ssa.Function) bool {
	switch s.memo[g] {
	case 1:
		return true
	case 2:
		return false
	}
	s.memo[g] = 2
	if s.avoid(g.Blocks[0], nil, func(b *ssa.BasicBlock) bool { return false }, true) == nil {
		s.memo[g] = 1
		return true
	}
	return false
}

// optionGuards: fields whose values outside the listed constants make the operation fail before it starts.
func (s *predScan) optionGuards() map[*types.Var]map[string]bool {
	out := map[*types.Var]map[string]bool{}
	for _, ret := range returns(s.f) {
		if s.p.successReturn(ret) && len(ret.Results) > 1 {
			continue
		}
		for _, g := range guardsOf(ret.Block()) {
			if fv, k, eq := optionTest(g.Cond); fv != nil && eq != g.Pol {
				if out[fv] == nil {
					out[fv] = map[string]bool{}
				}
				out[fv][k] = true
			}
		}
	}
	return out
}

// optionTest: cond compares a string field with a constant; eq tells == from !=.
func optionTest(cond ssa.Value) (*types.Var, string, bool) {
	b, ok := cond.(*ssa.BinOp)
	if !ok || (b.Op != token.EQL && b.Op != token.NEQ) {
		return nil, "", false
	}
	x, y := b.X, b.Y
	k, ok := constStr(y)
	if !ok {
		if k, ok = constStr(x); !ok {
			return nil, "", false
		}
		x = y
	}
	fv, _ := fieldLoad(x)
	return fv, k, b.Op == token.EQL
}

// avoid finds a path from a block to an end that never sets the prediction; nil if there is none.
func (s *predScan) avoid(start *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, end func(*ssa.BasicBlock) bool, rets bool) ssa.Instruction {
	valid := s.optionGuards()
	type state struct {
		b   *ssa.BasicBlock
		not string
	}
	type item struct {
		b   *ssa.BasicBlock
		not map[*types.Var]map[string]bool
	}
	sig := func(m map[*types.Var]map[string]bool) string {
		var t []string
		for v, ks := range m {
			for k := range ks {
				t = append(t, v.Name()+"="+k)
			}
		}
		sort.Strings(t)
		return strings.Join(t, ";")
	}
	seen := map[state]bool{}
	work := []item{{start, nil}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		k := state{it.b, sig(it.not)}
		if seen[k] {
			continue
		}
		seen[k] = true
		if body != nil && !body[it.b] {
			continue
		}
		passed := false
		for _, i := range it.b.Instrs {
			if s.passes(i) {
				passed = true
				break
			}
			if ret, ok := i.(*ssa.Return); ok && rets && it.b != it.b.Parent().Recover && s.continues(ret) {
				return ret
			}
		}
		if passed {
			continue
		}
		// a loop over the columns to predict sets them in each round
		if s.columnLoop(it.b) {
			continue
		}
		for n, succ := range it.b.Succs {
			not := it.not
			if iff, ok := it.b.Instrs[len(it.b.Instrs)-1].(*ssa.If); ok {
				if fv, c, eq := optionTest(iff.Cond); fv != nil && valid[fv] != nil && eq == (n == 1) {
					not = map[*types.Var]map[string]bool{}
					for a, b := range it.not {
						not[a] = map[string]bool{}
						for x := range b {
							not[a][x] = true
						}
					}
					if not[fv] == nil {
						not[fv] = map[string]bool{}
					}
					not[fv][c] = true
					all := true
					for x := range valid[fv] {
						all = all && not[fv][x]
					}
					if all {
						continue // rejected before the traversal
					}
				}
			}
			if end(succ) {
				return it.b.Instrs[len(it.b.Instrs)-1]
			}
			work = append(work, item{succ, not})
		}
	}
	return nil
}

// continues: a return that lets the operation go on as if the row was handled.
func (s *predScan) continues(ret *ssa.Return) bool {
	if isRowCallback(ret.Parent().Signature) {
		if b, ok := constBool(ret.Results[0]); ok && !b {
			return false
		}
		return s.p.successReturn(ret)
	}
	return s.p.successReturn(ret)
}

// columnLoop: the block heads a loop which sets a prediction in every round.
func (s *predScan) columnLoop(h *ssa.BasicBlock) bool {
	body := naturalLoop(h)
	if body == nil {
		return false
	}
	for _, l := range countingLoops(h.Parent()) {
		if l.Header != h {
			continue
		}
		if r := s.rootOf(l.Cur); r != nil && r.list != nil && !s.p.specList(r.list) {
			return false
		}
		start := h.Succs[0]
		if !body[start] {
			start = h.Succs[1]
		}
		return s.avoid(start, body, func(b *ssa.BasicBlock) bool { return b == h }, true) == nil
	}
	return false
}

func (p *Prog) specList(v ssa.Value) bool {
	t := v.Type().String()
	return strings.HasSuffix(t, "AttributeSpec") || strings.HasSuffix(t, "base.Attribute") || t == "[][]byte"
}

// everyRow: every path through the handling of a row sets its prediction.
func (s *predScan) everyRow(root *rowRoot) {
	p := s.p
	key := "every:" + s.name
	var at ssa.Instruction
	switch {
	case root.loop != nil:
		start := root.loop.Header.Succs[0]
		if !root.loop.Body[start] {
			start = root.loop.Header.Succs[1]
		}
		// a sink in an inner, nested function is counted by passes
		at = s.avoid(start, root.loop.Body, func(b *ssa.BasicBlock) bool { return b == root.loop.Header }, false)
	case root.m != nil:
		ex := root.v.(*ssa.Extract)
		h, body := innermostLoop(ex.Block())
		if h == nil {
			return
		}
		at = s.avoid(ex.Block(), body, func(b *ssa.BasicBlock) bool { return b == h }, false)
	default:
		at = s.avoid(root.fn.Blocks[0], nil, func(*ssa.BasicBlock) bool { return false }, true)
	}
	pos := p.Pos(root.fn.Pos())
	if at != nil {
		pos = p.InstrPos(at)
	}
	s.c.Check(at == nil, key, pos, "every path through a row's processing sets its prediction", "a path through the processing of a row leaves its prediction unset")
}

// sameRow: inside the handling of a row, the input is read at that row.
func (s *predScan) sameRow(root *rowRoot) {
	p := s.p
	for _, g := range sortedFuncs(p, s.fam) {
		for _, call := range calls(g) {
			k := p.rowSource(call)
			if k == nil || s.aligned(k.grid, s.want, 0) != alYes {
				continue
			}
			ok := true
			for _, o := range s.origins(k.row) {
				if o.root == nil {
					if _, isK := constInt(o.leaf); isK {
						ok = false
					}
				} else if o.off != 0 || !o.exact || s.rootAligned(o.root, s.want, 0) == alNo {
					ok = false
				}
			}
			s.c.Check(ok, "read:"+s.name, p.InstrPos(call), "the input is read at the row being predicted", "the input is read at another row than the one being predicted")
		}
	}
}

// rowUse: a place addressed by a row number.
type rowUse struct {
	at    ssa.Instruction
	idx   ssa.Value
	what  string
	write bool
	val   ssa.Value
	dst   ssa.Value
}

// rowUses of an instruction: rows of data sets, rows of matrices, elements of lists.
func (p *Prog) rowUses(i ssa.Instruction) []rowUse {
	switch t := i.(type) {
	case ssa.CallInstruction:
		if k := p.rowSink(t); k != nil {
			return []rowUse{{i, k.row, "a data set's row", true, nil, k.grid}}
		}
		if k := p.rowSource(t); k != nil {
			return []rowUse{{i, k.row, "a data set's row", false, nil, k.grid}}
		}
		o := calleeObj(t)
		if o != nil && o.Pkg() != nil && strings.HasSuffix(o.Pkg().Path(), "gonum/mat") {
			a := argsOf(t)
			switch o.Name() {
			case "Set", "SetVec", "SetRow", "SetSym", "SetTri":
				return []rowUse{{i, a[0], "a matrix row", true, a[len(a)-1], recvOf(t)}}
			case "At", "AtVec", "RawRowView", "RowView":
				return []rowUse{{i, a[0], "a matrix row", false, nil, recvOf(t)}}
			}
		}
	case *ssa.Store:
		if ia, ok := t.Addr.(*ssa.IndexAddr); ok {
			return []rowUse{{i, ia.Index, "a list element", true, t.Val, ia.X}}
		}
	}
	return nil
}

// gridRoot: row numbers of a data set (not of a list or map).
func gridRoot(o rowOrigin) bool { return o.root != nil && len(o.root.grid) > 0 }

func runC36(c *Ctx) {
	p := c.P
	r := newRowsInfo(p)
	uses := 0
	for _, f := range p.Funcs {
		for _, i := range instrs(f) {
			for _, u := range p.rowUses(i) {
				ok, any := true, false
				for _, o := range r.origins(u.idx) {
					if !gridRoot(o) {
						continue
					}
					any = true
					if !o.exact || o.off != 0 {
						ok = false
					}
				}
				if !any {
					continue
				}
				uses++
				c.Check(ok, "row:"+p.Name(owner(f)), p.InstrPos(i), u.what+" addressed by the row number itself", u.what+" is addressed by a number computed from, but not equal to, the number of the row being handled")
			}
		}
	}
	c.Count("places addressed by a row number", uses)
	c.Floor("places addressed by a row number", uses, 15)
	var cbs []*ssa.Function
	for f := range r.trav {
		cbs = append(cbs, f)
	}
	sort.Slice(cbs, func(i, j int) bool { return cbs[i].Pos() < cbs[j].Pos() })
	for _, f := range cbs {
		r.filler(c, f)
	}
}

// filler: a traversal that stores something for each row does so for every row, in storage of the row's own.
func (r *rowsInfo) filler(c *Ctx, f *ssa.Function) {
	p := r.p
	root := r.rootOf(rowArgOf(f))
	name := p.Name(owner(f))
	byDst := map[ssa.Value][]rowUse{}
	var dsts []ssa.Value
	for _, i := range instrs(f) {
		for _, u := range p.rowUses(i) {
			if !u.write {
				continue
			}
			mine := false
			for _, o := range r.origins(u.idx) {
				mine = mine || o.root == root
			}
			if !mine {
				continue
			}
			var d ssa.Value
			if ls := p.Trace(u.dst, TraceOpt{NoParams: true, NoCalls: true}); len(ls) == 1 {
				d = ls[0]
			} else {
				continue
			}
			if byDst[d] == nil {
				dsts = append(dsts, d)
			}
			byDst[d] = append(byDst[d], u)
		}
	}
	for _, d := range dsts {
		us := byDst[d]
		at := map[ssa.Instruction]bool{}
		for _, u := range us {
			at[u.at] = true
		}
		s := &predScan{rowsInfo: r, f: owner(f), fam: map[*ssa.Function]bool{}, sinks: map[ssa.Instruction]*rowSink{}, memo: map[*ssa.Function]int{}, also: at}
		end := s.avoid(f.Blocks[0], nil, func(*ssa.BasicBlock) bool { return false }, true)
		pos := p.InstrPos(us[0].at)
		c.Check(end == nil, "every:"+name, pos, "filled for every row of the traversal", "a path through the handling of a row leaves this row's place unfilled")
		for _, u := range us {
			if u.val == nil || !holdsRefs(u.val.Type(), 0) {
				continue
			}
			shared := ""
			for _, x := range p.Trace(u.val, TraceOpt{NoCalls: true, Elems: false}) {
				if sl, ok := x.(*ssa.Slice); ok && sl.Parent() == u.at.Parent() {
					if !r.partOfRow(sl, root) {
						continue
					}
					for _, y := range p.Trace(sl.X, TraceOpt{NoCalls: true, Elems: false}) {
						if _, ok := y.(*ssa.MakeSlice); ok && parentOf(y) != u.at.Parent() {
							shared = p.Pos(y.Pos())
						}
					}
					continue
				}
				switch t := x.(type) {
				case *ssa.MakeSlice, *ssa.MakeMap, *ssa.Alloc:
					if parentOf(x) != u.at.Parent() {
						shared = p.Pos(t.Pos())
					}
				}
			}
			if u.dst != nil {
				c.Check(shared == "", "own:"+name, p.InstrPos(u.at), "every row has storage of its own", "the same storage (made outside the traversal, at "+shared+") is stored for every row")
			}
		}
	}
	r.columns(c, f)
}

// partOfRow: the part of a longer storage starts at a place which several rows have in common: at a constant, or at a
// number that repeats (a remainder, a quotient or masked bits of the row number).
func (r *rowsInfo) partOfRow(sl *ssa.Slice, root *rowRoot) bool {
	if sl.Low == nil {
		return true
	}
	var repeats func(v ssa.Value, d int) bool
	repeats = func(v ssa.Value, d int) bool {
		if d > 6 {
			return false
		}
		switch t := v.(type) {
		case *ssa.Const:
			return true
		case *ssa.Convert:
			return repeats(t.X, d+1)
		case *ssa.BinOp:
			switch t.Op {
			case token.REM, token.QUO, token.AND, token.SHR:
				for _, o := range r.origins(t.X) {
					if o.root == root {
						return true
					}
				}
			case token.MUL, token.ADD:
				return repeats(t.X, d+1) || repeats(t.Y, d+1) && t.Op == token.MUL
			}
		}
		return false
	}
	if _, ok := sl.Low.(*ssa.Const); ok {
		return true
	}
	return repeats(sl.Low, 0)
}

func holdsRefs(t types.Type, d int) bool {
	if d > 3 {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Pointer:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsRefs(u.Field(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

// columns: inside a row callback, column k of the row is used as column k.
func (r *rowsInfo) columns(c *Ctx, f *ssa.Function) {
	p := r.p
	name := p.Name(owner(f))
	rowPar := f.Params[len(f.Params)-2]
	specs := map[ssa.Value]bool{}
	for _, call := range r.trav[f] {
		for _, x := range p.Trace(argsOf(call)[0], TraceOpt{NoParams: true, NoCalls: true}) {
			specs[x] = true
		}
	}
	isRow := func(v ssa.Value) bool {
		for _, x := range p.Trace(v, TraceOpt{NoCalls: true, NoParams: parentOf(v) == f}) {
			if x == ssa.Value(rowPar) {
				return true
			}
		}
		return false
	}
	isSpecs := func(v ssa.Value) bool {
		for _, x := range p.Trace(v, TraceOpt{NoParams: true, NoCalls: true}) {
			if specs[x] {
				return true
			}
		}
		return false
	}
	for _, g := range withClosures(f) {
		for _, i := range instrs(g) {
			if ia, ok := i.(*ssa.IndexAddr); ok && (isRow(ia.X) || isSpecs(ia.X)) {
				for _, o := range r.origins(ia.Index) {
					if o.root == nil {
						continue
					}
					if o.root.loop == nil {
						continue
					}
					init, isK := constInt(o.root.loop.Init)
					full := o.root.loop.Range || isK && init == 0
					if o.root.loop.Op == token.LEQ && !o.root.loop.Range {
						full = true
					}
					if o.root.loop.Op == token.LEQ {
						full = full && o.root.short == 0
					}
					c.Check(o.exact && o.off == 0 && full && (o.root.short <= 0 || !isRow(o.root.list) && !isSpecs(o.root.list)), "column:"+name, p.InstrPos(i), "columns are visited from the first, by their own number", "a column is looked up by a number shifted from the column being handled, or the first or last columns are skipped")
				}
			}
			var idx, val, dst ssa.Value
			switch t := i.(type) {
			case *ssa.Store:
				if ia, ok := t.Addr.(*ssa.IndexAddr); ok && isNumber(t.Val.Type()) {
					idx, val, dst = ia.Index, t.Val, ia.X
				}
			case ssa.CallInstruction:
				if o := calleeObj(t); o != nil && o.Pkg() != nil && strings.HasSuffix(o.Pkg().Path(), "gonum/mat") && o.Name() == "Set" {
					idx, val, dst = argsOf(t)[1], argsOf(t)[2], recvOf(t)
					r.transposed(c, f, t)
				} else if k := p.rowSink(t); k != nil && k.spec != nil {
					val, dst = argsOf(t)[2], k.grid
					if u, ok := k.spec.(*ssa.UnOp); ok && u.Op == token.MUL {
						if ia, ok := u.X.(*ssa.IndexAddr); ok {
							idx = ia.Index
						}
					}
				}
			}
			if idx == nil {
				continue
			}
			var from []rowOrigin
			for x := range p.backSlice(val) {
				if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL {
					if ia, ok := u.X.(*ssa.IndexAddr); ok && isRow(ia.X) {
						from = append(from, r.origins(ia.Index)...)
					}
				}
			}
			if len(from) == 0 {
				continue
			}
			for _, a := range r.origins(idx) {
				for _, b := range from {
					if a.root == nil || a.root != b.root {
						continue
					}
					ok := a.exact && b.exact && a.off == b.off
					if a.exact && b.exact && a.off > b.off {
						ok = true
						for k := int64(0); k < a.off-b.off; k++ {
							ok = ok && r.writesColumn(f, dst, k)
						}
					}
					c.Check(ok, "copy:"+name, p.InstrPos(i), "a column is copied to its own place", "a column of the row is copied to the place of another column")
				}
			}
		}
	}
}

// transposed: a matrix with a row per row of the data set is addressed (column, row).
func (r *rowsInfo) transposed(c *Ctx, f *ssa.Function, call ssa.CallInstruction) {
	p := r.p
	root := r.rootOf(rowArgOf(f))
	second := false
	for _, o := range r.origins(argsOf(call)[1]) {
		second = second || o.root != nil && o.root == root
	}
	if !second {
		return
	}
	for _, o := range r.origins(argsOf(call)[0]) {
		if o.root == root {
			return
		}
	}
	for _, x := range p.Trace(recvOf(call), TraceOpt{NoCalls: true}) {
		if k, ok := x.(*ssa.Call); ok && calleeObj(k) != nil && calleeObj(k).Name() == "NewDense" && len(r.rowCount(argsOf(k)[0], 0)) > 0 && len(r.rowCount(argsOf(k)[1], 0)) == 0 {
			c.Bad("row:"+p.Name(owner(f)), p.InstrPos(call), "a matrix made with a row per row of the data set is filled with the row number as column")
		}
	}
}

// shortBound: the loop runs up to a length minus a constant.
func shortBound(l *CountLoop) (int64, bool) {
	b, ok := l.Bound.(*ssa.BinOp)
	if !ok || b.Op != token.SUB {
		return 0, false
	}
	k, ok := constInt(b.Y)
	if !ok {
		return 0, false
	}
	c, ok := b.X.(*ssa.Call)
	if !ok {
		return 0, false
	}
	bi, ok := c.Call.Value.(*ssa.Builtin)
	return k, ok && bi.Name() == "len"
}

// writesColumn: the callback also writes the constant column k of the destination.
func (r *rowsInfo) writesColumn(f *ssa.Function, dst ssa.Value, k int64) bool {
	p := r.p
	want := map[ssa.Value]bool{}
	for _, x := range p.Trace(dst, TraceOpt{NoParams: true, NoCalls: true}) {
		want[x] = true
	}
	for _, i := range instrs(f) {
		var idx, d ssa.Value
		switch t := i.(type) {
		case *ssa.Store:
			if ia, ok := t.Addr.(*ssa.IndexAddr); ok {
				idx, d = ia.Index, ia.X
			}
		case ssa.CallInstruction:
			if o := calleeObj(t); o != nil && o.Name() == "Set" && len(argsOf(t)) == 3 {
				idx, d = argsOf(t)[1], recvOf(t)
			}
		}
		if idx == nil {
			continue
		}
		if n, ok := constInt(idx); !ok || n != k {
			continue
		}
		for _, x := range p.Trace(d, TraceOpt{NoParams: true, NoCalls: true}) {
			if want[x] {
				return true
			}
		}
	}
	return false
}

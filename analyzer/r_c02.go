package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C02", Rule: "for every implementation of the grid interface: the traversal method hands each row's own loop index to the callback; assuming the callback's error is non-nil, every path returns it without another callback; assuming it says stop, no path calls it again; assuming it says continue, no path returns before the row loop is exhausted; the row loop runs from 0 in steps of 1 up to the count Size reports; each buffer slot j is filled from requested attribute j of that row through the same row mapping and filter step as Get; a direct delegation of the callback to the source is guarded by the absence of a row mapping.", Run: runC02})
}

func runC02(c *Ctx) {
	p := c.P
	n := 0
	for _, t := range p.gridTypes() {
		m := p.Method(t, "MapOverRows")
		if m == nil {
			continue
		}
		n++
		checkTraversal(c, t, m)
	}
	c.Floor("grid types", n, 4)
	checkFilterSteps(c)
}

// isCallbackParam: v comes from a row-callback parameter of a traversal method or helper.
func (p *Prog) isCallbackParam(v ssa.Value) bool {
	s, ok := v.Type().Underlying().(*types.Signature)
	if !ok || !isRowCallback(s) {
		return false
	}
	ls := p.Trace(v, TraceOpt{NoParams: true})
	for _, l := range ls {
		if _, ok := l.(*ssa.Parameter); ok {
			return true
		}
	}
	return false
}

func checkTraversal(c *Ctx, t *types.Named, m *ssa.Function) {
	p := c.P
	name := typeName(t)
	fam := map[*ssa.Function]bool{}
	for f := range p.family(m) {
		if f == m || takesRowCallback(f) || isRowCallback(f.Signature) {
			fam[f] = true
		}
	}
	ncb := 0
	for _, f := range sortedFuncs(p, fam) {
		for _, ci := range calls(f) {
			call, ok := ci.(*ssa.Call)
			if !ok {
				if _, isGo := ci.(*ssa.Go); isGo && p.isCallbackParam(ci.Common().Value) {
					c.Bad("async:"+name, p.InstrPos(ci), "the callback is started in another goroutine, so its verdict cannot stop the traversal")
				}
				continue
			}
			cc := call.Common()
			if !cc.IsInvoke() && cc.StaticCallee() == nil && p.isCallbackParam(cc.Value) {
				ncb++
				checkCallbackCall(c, t, m, f, call)
				continue
			}
			// passing the callback (or a closure around it) on to another traversal
			if methodNamed(call, "MapOverRows") {
				ncb++
				checkDelegation(c, t, m, f, call)
			}
		}
	}
	c.Check(ncb > 0, "calls:"+name, p.Pos(m.Pos()), "calls or forwards the callback", "the traversal never calls the callback")
}

func checkCallbackCall(c *Ctx, t *types.Named, m, f *ssa.Function, call *ssa.Call) {
	p := c.P
	name := typeName(t)
	pos := p.InstrPos(call)
	args := call.Common().Args
	// --- row number
	var loop *CountLoop
	good := true
	for _, l := range p.Trace(args[1], TraceOpt{Stop: func(v ssa.Value) bool {
		if loopCur(v) != nil {
			return true
		}
		if pr, ok := v.(*ssa.Parameter); ok && isRowCallback(pr.Parent().Signature) {
			return true
		}
		return false
	}}) {
		if lp := loopCur(l); lp != nil {
			loop = lp
			if l != lp.Cur {
				good = false
			}
			continue
		}
		if pr, ok := l.(*ssa.Parameter); ok && isRowCallback(pr.Parent().Signature) && pr == pr.Parent().Params[len(pr.Parent().Params)-1] {
			continue
		}
		good = false
	}
	c.Check(good, "rownumber:"+name, pos, "the callback gets the number of the row being visited", "the row number handed to the callback is not the index of the row being visited")

	// --- direct delegation of both results
	if isRowCallback(f.Signature) {
		deleg := true
		for _, r := range returns(f) {
			_ = r
		}
		okR, bad := mustPass(f, call, func(i ssa.Instruction) bool { return false }, func(r *ssa.Return) bool {
			if p.delegates(r, call) {
				return false
			}
			return true
		})
		_ = deleg
		msg := ""
		if !okR {
			msg = "the wrapper around the callback does not pass its verdict on (" + p.InstrPos(bad) + ")"
			// accept when the explorer proves the outcome is equivalent
			if w := verdictOutcome(p, f, call); w == "" {
				msg = ""
			} else {
				msg = w
			}
		}
		c.Check(msg == "", "verdict:"+name, pos, "passes the callback's verdict on", msg)
	} else {
		e1 := resultExtract(call, 1)
		e0 := resultExtract(call, 0)
		// error
		msg := ""
		if e1 == nil {
			msg = "the callback's error is ignored"
		} else {
			ex := &Explorer{P: p, Decide: assumeNil(e1, false), Visit: func(i ssa.Instruction, pp *pathPoint) bool {
				if i == ssa.Instruction(call) {
					msg = "the traversal goes on to the next row after the callback failed"
					return true
				}
				if r, ok := i.(*ssa.Return); ok {
					if len(r.Results) == 0 {
						msg = "the callback's error is not returned"
						return true
					}
					v := pp.Resolve(r.Results[len(r.Results)-1])
					if v != e1 && !p.wrapsError(v, e1, 4) {
						msg = "the callback's error is not returned (" + p.InstrPos(r) + ")"
					}
					return true
				}
				return false
			}}
			ex.Run(call)
		}
		c.Check(msg == "", "error:"+name, pos, "a callback error ends the traversal and is returned", msg)
		// stop
		msg = ""
		if e0 == nil {
			msg = "the callback's stop flag is ignored"
		} else {
			dec := func(val bool) func(v ssa.Value, pp *pathPoint) (bool, bool) {
				en := func(c ssa.Value, pp *pathPoint) (bool, bool) { return false, false }
				if e1 != nil {
					en = assumeNil(e1, true)
				}
				return func(v ssa.Value, pp *pathPoint) (bool, bool) {
					if v == e0 {
						return val, true
					}
					return en(v, pp)
				}
			}
			ex := &Explorer{P: p, Decide: dec(false), Visit: func(i ssa.Instruction, pp *pathPoint) bool {
				if i == ssa.Instruction(call) {
					msg = "the traversal goes on after the callback asked it to stop"
					return true
				}
				if r, ok := i.(*ssa.Return); ok {
					if isErrorResult(f) {
						v := pp.Resolve(r.Results[len(r.Results)-1])
						if !isNilConst(v) && v != e1 {
							msg = "stopping early is reported as an error"
						}
					}
					return true
				}
				return false
			}}
			ex.Run(call)
			if msg == "" {
				again := false
				ex = &Explorer{P: p, Decide: dec(true), Visit: func(i ssa.Instruction, pp *pathPoint) bool {
					if i == ssa.Instruction(call) {
						again = true
						return true
					}
					if loop != nil && loop.Header.Parent() == f && i.Block() == loop.Header {
						again = true
						return true
					}
					if _, ok := i.(*ssa.Return); ok && loop != nil && loop.Header.Parent() == f {
						msg = "the traversal ends although the callback asked it to continue (" + p.InstrPos(i) + ")"
						return true
					}
					return false
				}}
				ex.Run(call)
				if !again && loop != nil && loop.Header.Parent() == f && msg == "" {
					msg = "the callback is called for one row only"
				}
			}
		}
		c.Check(msg == "", "stop:"+name, pos, "continue and stop are honoured", msg)
	}
	// --- row range
	if loop != nil {
		msg := ""
		if k, ok := constInt(loop.Init); !ok || (loop.Cur == loop.Phi && k != 0) || (loop.Cur != loop.Phi && k != -1) {
			msg = "the traversal does not start at row 0"
		} else if loop.Step != 1 && !(loop.Cur != loop.Phi) {
			msg = "the traversal does not advance one row at a time"
		} else if loop.Op != token.LSS && loop.Op != token.NEQ {
			msg = "the traversal's loop condition is not 'row < number of rows'"
		} else if !p.boundIsSize(t, loop.Bound) {
			msg = "the traversal's upper bound is not the row count that Size reports"
		}
		c.Check(msg == "", "range:"+name, pos, "rows 0 … Size()-1", msg)
	}
	// --- bytes
	checkRowBuffer(c, t, m, f, call, loop)
}

func isErrorResult(f *ssa.Function) bool {
	rs := f.Signature.Results()
	return rs.Len() > 0 && isErrorType(rs.At(rs.Len()-1).Type())
}

// delegates: the return hands back both results of call.
func (p *Prog) delegates(r *ssa.Return, call *ssa.Call) bool {
	if len(r.Results) != 2 {
		return false
	}
	e0, ok0 := r.Results[0].(*ssa.Extract)
	e1, ok1 := r.Results[1].(*ssa.Extract)
	return ok0 && ok1 && e0.Tuple == call && e1.Tuple == call && e0.Index == 0 && e1.Index == 1
}

// verdictOutcome: explicit handling of the verdict inside a wrapping callback.
func verdictOutcome(p *Prog, f *ssa.Function, call *ssa.Call) string {
	e0, e1 := resultExtract(call, 0), resultExtract(call, 1)
	if e0 == nil || e1 == nil {
		return "part of the wrapped callback's verdict is ignored"
	}
	msg := ""
	(&Explorer{P: p, Decide: assumeNil(e1, false), Visit: func(i ssa.Instruction, pp *pathPoint) bool {
		if r, ok := i.(*ssa.Return); ok {
			v := pp.Resolve(r.Results[1])
			if v != e1 && !p.wrapsError(v, e1, 4) {
				msg = "the wrapped callback's error is not passed on"
			}
			return true
		}
		return false
	}}).Run(call)
	for _, val := range []bool{true, false} {
		val := val
		en := assumeNil(e1, true)
		(&Explorer{P: p, Decide: func(v ssa.Value, pp *pathPoint) (bool, bool) {
			if v == e0 {
				return val, true
			}
			return en(v, pp)
		}, Visit: func(i ssa.Instruction, pp *pathPoint) bool {
			if r, ok := i.(*ssa.Return); ok {
				v := pp.Resolve(r.Results[0])
				if v == e0 {
					return true
				}
				if b, ok := constBool(v); !ok || b != val {
					msg = "the wrapped callback's stop flag is not passed on"
				}
				return true
			}
			return false
		}}).Run(call)
	}
	return msg
}

// wrapsError: v is built from error e (fmt.Errorf("…", e), base.WrapError(e), …).
func (p *Prog) wrapsError(v, e ssa.Value, depth int) bool {
	for x := range p.backSlice(v) {
		if x == e {
			return true
		}
	}
	if c, ok := v.(*ssa.Call); ok && depth > 0 {
		for _, a := range c.Call.Args {
			for _, l := range p.Trace(a, TraceOpt{Elems: true, NoParams: true, NoCalls: true}) {
				if l == e {
					return true
				}
			}
		}
	}
	return false
}

// boundIsSize: the loop bound is what Size() returns as row count: either a Size call on the receiver, or a load of
// the same field.
func (p *Prog) boundIsSize(t *types.Named, bound ssa.Value) bool {
	size := p.Method(t, "Size")
	want := map[string]bool{}
	if size != nil {
		for _, r := range returns(size) {
			if len(r.Results) == 2 {
				for _, l := range p.Trace(r.Results[1], TraceOpt{NoParams: true}) {
					want[leafName(l)] = true
				}
			}
		}
	}
	ls := p.Trace(bound, TraceOpt{NoParams: false, Stop: func(x ssa.Value) bool { return p.isRowCountLeaf(x) }})
	if len(ls) == 0 {
		return false
	}
	for _, l := range ls {
		if p.isRowCountLeaf(l) {
			ex := l.(*ssa.Extract)
			rv := recvOf(ex.Tuple.(*ssa.Call))
			if n := namedOf(rv.Type()); n == t {
				continue
			}
			if want[leafName(l)] {
				continue
			}
			return false
		}
		if !want[leafName(l)] {
			return false
		}
	}
	return true
}

// leafName: a structural name for a provenance leaf: field loads by field, calls by callee, constants by value.
func leafName(l ssa.Value) string {
	if fv, _ := fieldLoad(l); fv != nil {
		return "field " + fv.Name()
	}
	switch t := l.(type) {
	case *ssa.Const:
		return "const " + t.String()
	case *ssa.Extract:
		return fmt.Sprintf("%s#%d", leafName(t.Tuple), t.Index)
	case *ssa.Call:
		if o := calleeObj(t); o != nil {
			r := ""
			if o.Type().(*types.Signature).Recv() != nil {
				if fv, _ := fieldLoad(recvOf(t)); fv != nil {
					r = fv.Name() + "."
				}
			}
			return "call " + r + o.Name()
		}
		if b, ok := t.Call.Value.(*ssa.Builtin); ok {
			s := "builtin " + b.Name()
			for _, a := range t.Call.Args {
				s += " " + leafName(a)
			}
			return s
		}
	case *ssa.Parameter:
		for i, q := range t.Parent().Params {
			if q == t {
				return fmt.Sprintf("param %d", i)
			}
		}
	}
	return l.String()
}

func checkDelegation(c *Ctx, t *types.Named, m, f *ssa.Function, call *ssa.Call) {
	p := c.P
	name := typeName(t)
	pos := p.InstrPos(call)
	args := argsOf(call)
	if len(args) != 2 {
		return
	}
	// the error of the forwarded traversal is returned
	msg := errorOutcome(p, f, call)
	c.Check(msg == "", "forward-error:"+name, pos, "the source traversal's error is returned", msg)
	// a direct delegation of the callback needs the absence of every row mapping used by Get
	if p.isCallbackParam(args[1]) {
		if _, isMC := args[1].(*ssa.MakeClosure); !isMC {
			for _, fv := range rowMapFields(p, t) {
				guarded := false
				for _, g := range guardsOf(call.Block()) {
					v, eq, ok := nilTest(g.Cond)
					if !ok {
						if lenZero(g, fv) {
							guarded = true
						}
						continue
					}
					if lf, _ := fieldLoad(v); lf == fv && eq == g.Pol {
						guarded = true
					}
				}
				c.Check(guarded, "forward-mapping:"+name, pos, "rows are forwarded unchanged only without a row mapping",
					"the source's rows are handed to the callback although a row mapping ("+fv.Name()+") may be in force")
			}
		}
	}
}

func lenZero(g Guard, fv *types.Var) bool {
	bo, ok := g.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, v := range []ssa.Value{bo.X, bo.Y} {
		if cl, ok := v.(*ssa.Call); ok {
			if b, ok := cl.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if lf, _ := fieldLoad(cl.Call.Args[0]); lf == fv {
					return (bo.Op == token.EQL) == g.Pol
				}
			}
		}
	}
	return false
}

// errorOutcome: assuming the call's error result is non-nil, every return of f carries it.
func errorOutcome(p *Prog, f *ssa.Function, call *ssa.Call) string {
	n := call.Common().Signature().Results().Len()
	e := resultExtract(call, n-1)
	if e == nil || e.Referrers() == nil || len(*e.Referrers()) == 0 {
		return "the error is ignored"
	}
	msg := ""
	(&Explorer{P: p, Decide: assumeNil(e, false), Visit: func(i ssa.Instruction, pp *pathPoint) bool {
		if r, ok := i.(*ssa.Return); ok {
			if len(r.Results) == 0 {
				msg = "the error is not returned"
				return true
			}
			v := pp.Resolve(r.Results[len(r.Results)-1])
			if v != e && !p.wrapsError(v, e, 4) && isNilConst(v) {
				msg = "the error is not returned (" + p.InstrPos(r) + ")"
			}
			return true
		}
		return false
	}}).Run(call)
	return msg
}

// rowMapFields: fields of the grid type that Get reads to translate its row number.
func rowMapFields(p *Prog, t *types.Named) []*types.Var {
	get := p.Method(t, "Get")
	if get == nil {
		return nil
	}
	set := map[*types.Var]bool{}
	rowParam := get.Params[len(get.Params)-1]
	// fields used as map[int]int looked up with the row
	for f := range p.family(get) {
		for _, i := range instrs(f) {
			if lk, ok := i.(*ssa.Lookup); ok {
				if mt, ok := lk.X.Type().Underlying().(*types.Map); ok && mt.Key().String() == "int" {
					if lf, _ := fieldLoad(lk.X); lf != nil {
						for _, l := range p.Trace(lk.Index, TraceOpt{Derive: true}) {
							if l == ssa.Value(rowParam) || (f != get) {
								set[lf] = true
							}
						}
					}
				}
			}
		}
	}
	var out []*types.Var
	for v := range set {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// cellRead describes one storage read in a Get or MapOverRows: callee and how its row argument is derived.
type cellRead struct {
	call *ssa.Call
	row  ssa.Value
	sig  string
}

// reads of single cells made by f (not by callees): grid Get, group get, matrix At.
func (p *Prog) cellReads(f *ssa.Function) []cellRead {
	var out []cellRead
	for _, ci := range calls(f) {
		call, ok := ci.(*ssa.Call)
		if !ok {
			continue
		}
		o := calleeObj(call)
		if o == nil {
			continue
		}
		a := argsOf(call)
		switch {
		case o.Name() == "Get" && len(a) == 2 && p.isGridType(recvOf(call).Type()):
			out = append(out, cellRead{call, a[1], "Get"})
		case o.Name() == "get" && len(a) == 2:
			out = append(out, cellRead{call, a[1], "get"})
		case o.Name() == "At" && len(a) == 2 && o.Pkg() != nil && strings.HasSuffix(o.Pkg().Path(), "gonum/mat"):
			out = append(out, cellRead{call, a[0], "At"})
		}
	}
	return out
}

// rowDerivation: the library calls and arithmetic between the root (row parameter or loop index) and v.
func (p *Prog) rowDerivation(v, root ssa.Value) (string, bool) {
	seen := map[ssa.Value]bool{}
	var ops []string
	found := false
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if v == root {
			found = true
			return
		}
		switch t := v.(type) {
		case *ssa.Call:
			if o := calleeObj(t); o != nil {
				ops = append(ops, o.Name())
				for _, a := range argsOf(t) {
					walk(a)
				}
				return
			}
		case *ssa.BinOp:
			ops = append(ops, t.Op.String())
			walk(t.X)
			walk(t.Y)
		case *ssa.Phi:
			for _, e := range t.Edges {
				walk(e)
			}
		case *ssa.Extract:
			walk(t.Tuple)
		case *ssa.Lookup:
			ops = append(ops, "lookup")
			walk(t.Index)
		case *ssa.Convert:
			walk(t.X)
		case *ssa.UnOp:
			if t.Op == token.MUL {
				if a := p.cellOf(t.X); a != nil {
					for _, s := range p.cellStores(a) {
						walk(s.Val)
					}
				}
			}
		}
	}
	walk(v)
	sort.Strings(ops)
	return strings.Join(ops, ","), found
}

func checkRowBuffer(c *Ctx, t *types.Named, m, f *ssa.Function, call *ssa.Call, loop *CountLoop) {
	p := c.P
	name := typeName(t)
	pos := p.InstrPos(call)
	buf := call.Common().Args[0]
	bufLeaves := map[ssa.Value]bool{}
	for _, l := range p.Trace(buf, TraceOpt{}) {
		bufLeaves[l] = true
	}
	isBuf := func(v ssa.Value) bool {
		if _, ok := v.Type().Underlying().(*types.Slice); !ok {
			return false
		}
		for _, l := range p.Trace(v, TraceOpt{}) {
			if bufLeaves[l] {
				return true
			}
		}
		return false
	}
	// every write into slot j uses index j in every indexed operand of the value written
	writes := 0
	bad := ""
	check := func(j ssa.Value, vals []ssa.Value, at ssa.Instruction) {
		writes++
		for _, v := range vals {
			for x := range p.backSlice(v) {
				var idx ssa.Value
				var base ssa.Value
				switch ia := x.(type) {
				case *ssa.IndexAddr:
					idx, base = ia.Index, ia.X
				case *ssa.Index:
					idx, base = ia.Index, ia.X
				default:
					continue
				}
				if isBuf(base) || !isSpecOrBytesSlice(base.Type()) {
					continue
				}
				if !valuesEqual(idx, j) {
					bad = fmt.Sprintf("buffer slot and requested attribute use different indices (%s)", p.InstrPos(at))
				}
			}
		}
	}
	for _, ins := range instrs(f) {
		ia, ok := ins.(*ssa.IndexAddr)
		if !ok || !isBuf(ia.X) {
			continue
		}
		for _, r := range *ia.Referrers() {
			switch u := r.(type) {
			case *ssa.Store:
				if u.Addr == ia {
					if _, isMS := u.Val.(*ssa.MakeSlice); isMS {
						continue
					}
					if sl, ok := u.Val.(*ssa.Slice); ok {
						if al, ok := sl.X.(*ssa.Alloc); ok && al.Comment == "makeslice" {
							continue
						}
					}
					check(ia.Index, []ssa.Value{u.Val}, u)
				}
			case *ssa.UnOp:
				for _, rr := range *u.Referrers() {
					if cl, ok := rr.(*ssa.Call); ok && cl != call {
						var vs []ssa.Value
						for _, a := range cl.Call.Args {
							if a != ssa.Value(u) {
								vs = append(vs, a)
							}
						}
						check(ia.Index, vs, cl)
					}
				}
			}
		}
	}
	c.Check(bad == "", "slots:"+name, pos, fmt.Sprintf("%d write(s) into the row buffer, each slot from the attribute of the same index", writes), bad)
	if loop == nil {
		return
	}
	// same row mapping as Get
	get := p.Method(t, "Get")
	if get == nil || loop.Header.Parent() != f {
		return
	}
	want := map[string]bool{}
	for _, r := range p.cellReads(get) {
		d, ok := p.rowDerivation(r.row, get.Params[len(get.Params)-1])
		if ok {
			want[r.sig+":"+d] = true
		}
	}
	// reads made by a part of Get
	for _, i := range instrs(get) {
		cl, ok := i.(*ssa.Call)
		if !ok || len(want) > 0 {
			continue
		}
		g := cl.Call.StaticCallee()
		if g == nil || !p.IsLibFunc(g) || len(g.Params) != len(cl.Call.Args) {
			continue
		}
		for n, a := range cl.Call.Args {
			if a != ssa.Value(get.Params[len(get.Params)-1]) {
				continue
			}
			for _, r := range p.cellReads(g) {
				if d, ok := p.rowDerivation(r.row, g.Params[n]); ok {
					want[r.sig+":"+d] = true
				}
			}
		}
	}
	if len(want) == 0 {
		c.Count("undecided: which row Get reads", 1)
		return
	}
	for _, r := range p.cellReads(f) {
		if !loop.Body[r.call.Block()] {
			continue
		}
		d, ok := p.rowDerivation(r.row, loop.Cur)
		key := r.sig + ":" + d
		if r.sig == "Get" && namedOf(recvOf(r.call).Type()) == t {
			// through its own Get: the row must be unmapped
			c.Check(ok && d == "", "mapping:"+name, p.InstrPos(r.call), "reads through Get", "Get is called with a row other than the one visited")
			continue
		}
		c.Check(ok && want[key], "mapping:"+name, p.InstrPos(r.call), "same row mapping as Get ("+key+")",
			fmt.Sprintf("the traversal reads row %q where Get reads %v: traversal and Get disagree about which bytes belong to a row", key, sortedKeys(want)))
	}
}

func isSpecOrBytesSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		if pt, okp := t.Underlying().(*types.Pointer); okp {
			if a, oka := pt.Elem().Underlying().(*types.Array); oka {
				return isElemSpecOrBytes(a.Elem())
			}
		}
		return false
	}
	return isElemSpecOrBytes(s.Elem())
}

func isElemSpecOrBytes(e types.Type) bool {
	if n := namedOf(e); n != nil && n.Obj().Name() == "AttributeSpec" {
		return true
	}
	return e.String() == "[]byte"
}

// checkFilterSteps: in a grid that applies a Filter, Transform gets the source attribute first and the filtered
// attribute second, and is only reached for attributes that are filtered.
func checkFilterSteps(c *Ctx) {
	p := c.P
	n := 0
	for _, t := range p.gridTypes() {
		for i := 0; i < t.NumMethods(); i++ {
			m := p.SSA.FuncValue(t.Method(i))
			if m == nil || (m.Name() != "Get" && m.Name() != "MapOverRows") {
				continue
			}
			for f := range p.family(m) {
				for _, ci := range calls(f) {
					if !methodNamed(ci, "Transform") || !ci.Common().IsInvoke() {
						continue
					}
					a := argsOf(ci)
					if len(a) != 3 {
						continue
					}
					n++
					key := "transform-args:" + p.Name(m)
					srcA, srcB := p.fromSourceSpec(a[0]), p.fromSourceSpec(a[1])
					c.Check(srcA && !srcB, key, p.InstrPos(ci), "Transform(source attribute, filtered attribute, bytes)",
						"Transform must get the source grid's attribute first and the filtered attribute second")
					// guarded by the pass-through test
					guarded := false
					for _, g := range guardsOf(ci.(ssa.Instruction).Block()) {
						if lk, ok := g.Cond.(*ssa.Lookup); ok {
							if lf, _ := fieldLoad(lk.X); lf != nil && strings.HasPrefix(lf.Type().Underlying().String(), "map[") && !g.Pol {
								guarded = true
							}
						}
						if cl, ok := g.Cond.(*ssa.Call); ok && len(p.Callees(cl)) > 0 {
							guarded = true
						}
						// a lookup, possibly inside a helper, decides the condition in another way
						for v := range p.backSlice(g.Cond) {
							switch x := v.(type) {
							case *ssa.Lookup:
								if v != g.Cond {
									guarded = true
								}
							case *ssa.Call:
								for _, h := range p.Callees(x) {
									for _, i := range instrs(h) {
										if _, ok := i.(*ssa.Lookup); ok {
											guarded = true
										}
									}
								}
							}
						}
					}
					c.Check(guarded, "passthrough:"+p.Name(m), p.InstrPos(ci), "unfiltered attributes bypass the filter",
						"the filter is applied without testing whether the attribute is one the filter handles")
				}
			}
		}
	}
	c.Floor("filter applications", n, 2)
}

// fromSourceSpec: the attribute was resolved against the wrapped source grid.
func (p *Prog) fromSourceSpec(v ssa.Value) bool {
	for _, l := range p.Trace(v, TraceOpt{Elems: true, Stop: func(x ssa.Value) bool {
		if pr, ok := x.(*ssa.Parameter); ok && isExported(pr.Parent()) {
			return true
		}
		if ex, ok := x.(*ssa.Extract); ok {
			if cl, ok := ex.Tuple.(*ssa.Call); ok && methodNamed(cl, "GetAttribute") {
				return true
			}
		}
		return false
	}}) {
		for x := range p.backSlice(l) {
			if ex, ok := x.(*ssa.Extract); ok {
				if cl, ok := ex.Tuple.(*ssa.Call); ok && methodNamed(cl, "GetAttribute") {
					return true
				}
				if cl, ok := ex.Tuple.(*ssa.Call); ok {
					for _, g := range p.Callees(cl) {
						for _, r := range returns(g) {
							if ex.Index < len(r.Results) && p.fromSourceSpec2(r.Results[ex.Index]) {
								return true
							}
						}
					}
				}
			}
			if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL {
				if ia, ok := u.X.(*ssa.IndexAddr); ok {
					if p.elemsFromSource(ia.X) {
						return true
					}
				}
				if fa, ok := u.X.(*ssa.FieldAddr); ok {
					if fieldVar(fa.X.Type(), fa.Field).Name() == "Old" {
						return true
					}
					if ia, ok := fa.X.(*ssa.IndexAddr); ok && p.elemsFromSource(ia.X) {
						return true
					}
					if al := p.cellOf(fa.X); al != nil {
						for _, s := range p.cellStores(al) {
							if p.fromSourceSpec2(s.Val) {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

func (p *Prog) fromSourceSpec2(v ssa.Value) bool {
	for x := range p.backSlice(v) {
		if cl, ok := x.(*ssa.Call); ok {
			if methodNamed(cl, "GetAttribute") {
				return true
			}
			for _, g := range p.Callees(cl) {
				for _, r := range returns(g) {
					for _, rv := range r.Results {
						for y := range p.backSlice(rv) {
							if cy, ok := y.(*ssa.Call); ok && methodNamed(cy, "GetAttribute") {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

// elemsFromSource: the slice's elements were stored from source-resolved specs.
func (p *Prog) elemsFromSource(base ssa.Value) bool {
	stop := func(x ssa.Value) bool {
		pr, ok := x.(*ssa.Parameter)
		return ok && isExported(pr.Parent())
	}
	for _, l := range p.Trace(base, TraceOpt{Stop: stop}) {
		f := l.Parent()
		if f == nil {
			continue
		}
		for _, g := range withClosures(owner(f)) {
			for _, ins := range instrs(g) {
				if s, ok := ins.(*ssa.Store); ok {
					if ia, ok := s.Addr.(*ssa.IndexAddr); ok {
						for _, bl := range p.Trace(ia.X, TraceOpt{Stop: stop}) {
							if bl == l && p.fromSourceSpec2(s.Val) {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

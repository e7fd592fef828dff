package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C01", Rule: "every function with the row-callback signature passed to a data-grid traversal returns 'continue' on each of its success exits (a false/nil pair silently drops the remaining rows); every counting loop bounded by a grid's row count starts at row 0, steps by one, tests with '<' against the unmodified row count, and leaves early only through an error return or panic.", Run: runC01})
}

// isRowCallback: func([][]byte, int) (bool, error)
func isRowCallback(sig *types.Signature) bool {
	if sig.Params().Len() != 2 || sig.Results().Len() != 2 {
		return false
	}
	if sig.Params().At(0).Type().String() != "[][]byte" {
		return false
	}
	if b, ok := sig.Params().At(1).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Int {
		return false
	}
	if b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
		return false
	}
	return isErrorType(sig.Results().At(1).Type())
}

// stopReason classifies the (continue, error) pair of a return; "" is fine.
func (p *Prog) stopReason(r0, r1 ssa.Value, depth int) string {
	if ph, ok := r0.(*ssa.Phi); ok {
		for i, e := range ph.Edges {
			e1 := r1
			if ph1, ok := r1.(*ssa.Phi); ok && ph1.Block() == ph.Block() {
				e1 = ph1.Edges[i]
			}
			if s := p.stopReason(e, e1, depth+1); s != "" {
				return s
			}
		}
		return ""
	}
	if ph, ok := r1.(*ssa.Phi); ok && depth < 8 {
		for _, e := range ph.Edges {
			if s := p.stopReason(r0, e, depth+1); s != "" {
				return s
			}
		}
		return ""
	}
	if b, ok := constBool(r0); ok {
		if b {
			return ""
		}
		if isNilConst(r1) {
			return "returns (false, nil): the traversal stops silently and the remaining rows are skipped"
		}
		return ""
	}
	// delegation: both results of one call
	e0, ok0 := r0.(*ssa.Extract)
	e1, ok1 := r1.(*ssa.Extract)
	if ok0 && ok1 && e0.Tuple == e1.Tuple && e0.Index == 0 && e1.Index == 1 {
		if c, ok := e0.Tuple.(*ssa.Call); ok {
			if isRowCallback(c.Call.Signature()) {
				return "" // the callee is itself a row callback and is checked as one
			}
			for _, g := range p.Callees(c) {
				for _, ret := range returns(g) {
					if len(ret.Results) == 2 && depth < 8 {
						if s := p.stopReason(ret.Results[0], ret.Results[1], depth+1); s != "" {
							return s
						}
					}
				}
			}
			if len(p.Callees(c)) > 0 {
				return ""
			}
		}
	}
	// a helper returning a single bool
	if c, ok := r0.(*ssa.Call); ok && depth < 8 {
		cs := p.Callees(c)
		for _, g := range cs {
			for _, ret := range returns(g) {
				if s := p.stopReason(ret.Results[0], r1, depth+1); s != "" {
					return s
				}
			}
		}
		if len(cs) > 0 {
			return ""
		}
	}
	// err == nil as the continue flag
	if bo, ok := r0.(*ssa.BinOp); ok && bo.Op == token.EQL {
		if (bo.X == r1 && isNilConst(bo.Y)) || (bo.Y == r1 && isNilConst(bo.X)) {
			return ""
		}
	}
	// a local cell
	if u, ok := r0.(*ssa.UnOp); ok && u.Op == token.MUL {
		if a := p.cellOf(u.X); a != nil {
			ss := p.cellStores(a)
			for _, s := range ss {
				if s := p.stopReason(s.Val, r1, depth+1); s != "" {
					return s
				}
			}
			if len(ss) > 0 {
				return ""
			}
		}
	}
	if !isNilConst(r1) {
		// false only together with a possibly non-nil error cannot be told apart here
		if _, isC := r1.(*ssa.Const); !isC {
			return ""
		}
	}
	return "the continue flag is data-dependent, so a traversal may stop early without an error"
}

// isRowCount: v is the unmodified row count of a grid.
func (p *Prog) isRowCount(v ssa.Value) bool {
	ls := p.traceRows(v, false)
	if len(ls) == 0 {
		return false
	}
	for _, l := range ls {
		if !p.isRowCountLeaf(l) {
			return false
		}
	}
	return true
}

func (p *Prog) isRowCountLeaf(l ssa.Value) bool {
	switch t := l.(type) {
	case *ssa.Extract:
		if c, ok := t.Tuple.(*ssa.Call); ok && t.Index == 1 && methodNamed(c, "Size") {
			return true
		}
	}
	return false
}

// sizeRows stops Trace at Size() calls (they are library methods).
func (p *Prog) traceRows(v ssa.Value, derive bool) []ssa.Value {
	return p.Trace(v, TraceOpt{Derive: derive, NoParams: true, Stop: func(x ssa.Value) bool {
		return p.isRowCountLeaf(x)
	}})
}

func runC01(c *Ctx) {
	p := c.P
	n := 0
	for _, f := range p.Funcs {
		if !isRowCallback(f.Signature) {
			continue
		}
		n++
		bad := ""
		pos := p.Pos(f.Pos())
		for _, r := range returns(f) {
			if s := p.stopReason(r.Results[0], r.Results[1], 0); s != "" {
				bad = s
				pos = p.InstrPos(r)
			}
		}
		owner := f
		for owner.Parent() != nil {
			owner = owner.Parent()
		}
		c.Check(bad == "", "callback:"+p.Name(f), pos, "continues on every success exit", bad)
	}
	c.Floor("row callbacks", n, 15)
	nl := 0
	for _, f := range p.Funcs {
		k := 0
		if takesRowCallback(f) {
			continue // a traversal primitive: decided by C02
		}
		for _, l := range countingLoops(f) {
			if l.Bound == nil || !(l.Op == token.LSS || l.Op == token.LEQ || l.Op == token.NEQ) {
				continue
			}
			exact := p.isRowCount(l.Bound)
			offset := int64(0) // bound = rows + offset
			if !exact {
				bo, ok := l.Bound.(*ssa.BinOp)
				if !ok || (bo.Op != token.SUB && bo.Op != token.ADD) || !p.isRowCount(bo.X) {
					continue // not a full-row loop (e.g. the truncated display of String)
				}
				d, isC := constInt(bo.Y)
				if !isC {
					continue
				}
				if bo.Op == token.SUB {
					d = -d
				}
				offset = d
			}
			if randomPermutationLoop(l) {
				continue
			}
			nl++
			k++
			key := fmt.Sprintf("loop:%s#%d", p.Name(f), k)
			pos := p.InstrPos(l.If)
			why := ""
			if init, isC := constInt(l.Init); isC {
				first := init
				if l.Cur != l.Phi {
					first++
				}
				if first != 0 {
					why = fmt.Sprintf("the traversal starts at row %d, not at row 0", first)
				}
			}
			if l.Op == token.LEQ {
				offset++
			}
			if offset != 0 && !innerLoopDependsOn(f, l) {
				why = fmt.Sprintf("the traversal ends %+d row(s) off the grid's row count", offset)
			}
			if l.Step != 0 && l.Step != 1 {
				why = fmt.Sprintf("the traversal advances by %d rows", l.Step)
			}
			if e := p.earlyExit(f, l); e != "" {
				why = e
			}
			c.Check(why == "", key, pos, "visits every row", why)
		}
	}
	c.Floor("row-count-bounded loops", nl, 10)
}

// randomPermutationLoop: the body draws a random position below (a function of) the current one — an in-place
// or inside-out shuffle, decided by the partition rule instead.
func randomPermutationLoop(l *CountLoop) bool {
	for b := range l.Body {
		for _, ins := range b.Instrs {
			c, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			o := calleeObj(c)
			if o == nil || o.Pkg() == nil || o.Pkg().Path() != "math/rand" {
				continue
			}
			for _, a := range c.Common().Args {
				if usesValue(a, l.Phi, 4) {
					return true
				}
			}
		}
	}
	return false
}

func usesValue(v, w ssa.Value, depth int) bool {
	if v == w {
		return true
	}
	if depth == 0 {
		return false
	}
	if i, ok := v.(ssa.Instruction); ok {
		for _, op := range i.Operands(nil) {
			if *op != nil && usesValue(*op, w, depth-1) {
				return true
			}
		}
	}
	return false
}

// innerLoopDependsOn: a nested loop starts from this loop's variable (the pairwise i < n-1, j = i+1 … n idiom).
func innerLoopDependsOn(f *ssa.Function, l *CountLoop) bool {
	for _, m := range countingLoops(f) {
		if m.Header != l.Header && l.Body[m.Header] && m.Init != nil && usesValue(m.Init, l.Phi, 3) {
			return true
		}
	}
	return false
}

// earlyExit: an edge that leaves the loop other than by exhausting it must not fall through to the code after
// the loop, unless it does so because an error occurred.
func (p *Prog) earlyExit(f *ssa.Function, l *CountLoop) string {
	var normal *ssa.BasicBlock
	for _, s := range l.Header.Succs {
		if !l.Body[s] {
			normal = s
		}
	}
	for b := range l.Body {
		if b == l.Header {
			continue
		}
		for _, s := range b.Succs {
			if l.Body[s] {
				continue
			}
			errGuard := false
			for _, g := range append(guardsOf(b), edgeGuard(b, s)...) {
				if isErrCheck(g) {
					errGuard = true
				}
			}
			if errGuard {
				continue
			}
			if reach(s)[normal] {
				return "the loop is left before the last row without an error (" + p.InstrPos(b.Instrs[len(b.Instrs)-1]) + ")"
			}
		}
	}
	return ""
}

func edgeGuard(from, to *ssa.BasicBlock) []Guard {
	iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok || from.Succs[0] == from.Succs[1] {
		return nil
	}
	return []Guard{{iff.Cond, from.Succs[0] == to, iff}}
}

// isErrCheck: the guard says "some error value is non-nil".
func isErrCheck(g Guard) bool {
	bo, ok := g.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	var other ssa.Value
	if isNilConst(bo.Y) {
		other = bo.X
	} else if isNilConst(bo.X) {
		other = bo.Y
	} else {
		return false
	}
	if !isErrorType(other.Type()) {
		return false
	}
	return (bo.Op == token.NEQ) == g.Pol
}

func takesRowCallback(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		for i := 0; i < g.Signature.Params().Len(); i++ {
			if s, ok := g.Signature.Params().At(i).Type().Underlying().(*types.Signature); ok && isRowCallback(s) {
				return true
			}
		}
	}
	return false
}

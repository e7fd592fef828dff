package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// Explorer walks the control-flow graph of one function under assumptions about
// the truth of some branch conditions (everything else is nondeterministic).
// Phis and local memory cells are resolved along the path taken.
type Explorer struct {
	P *Prog
	// Decide gives the assumed value of a boolean, if known.
	Decide func(v ssa.Value, pp *pathPoint) (val, known bool)
	// Visit is called for each instruction on the way; returning true ends this path.
	Visit func(i ssa.Instruction, pp *pathPoint) bool
	// MaxEdge bounds how often each edge is taken over the whole exploration.
	MaxEdge int
}

// exploreFactor widens path exploration in the thorough tier.
var exploreFactor = 1

type pathPoint struct {
	b, pred *ssa.BasicBlock
	env     map[ssa.Value]ssa.Value  // phi or load -> value chosen on this path
	cells   map[*ssa.Alloc]ssa.Value // last value stored to a local cell on this path
	flags   map[string]bool          // client state
	nils    map[ssa.Value]bool       // found (true) or excluded (false) to be nil by a test on this path
}

func (pp *pathPoint) clone() *pathPoint {
	np := &pathPoint{b: pp.b, pred: pp.pred, env: map[ssa.Value]ssa.Value{}, cells: map[*ssa.Alloc]ssa.Value{}, flags: map[string]bool{}, nils: map[ssa.Value]bool{}}
	for k, v := range pp.env {
		np.env[k] = v
	}
	for k, v := range pp.cells {
		np.cells[k] = v
	}
	for k, v := range pp.flags {
		np.flags[k] = v
	}
	for k, v := range pp.nils {
		np.nils[k] = v
	}
	return np
}

// Resolve follows the phis and loads chosen on the path, and value-preserving conversions.
func (pp *pathPoint) Resolve(v ssa.Value) ssa.Value {
	for k := 0; k < 32; k++ {
		if w, ok := pp.env[v]; ok && w != v {
			v = w
			continue
		}
		if ct, ok := v.(*ssa.ChangeType); ok {
			v = ct.X
			continue
		}
		if ci, ok := v.(*ssa.ChangeInterface); ok {
			v = ci.X
			continue
		}
		return v
	}
	return v
}

// Run starts right after instruction from.
func (e *Explorer) Run(from ssa.Instruction) {
	e.run(from.Block(), idxIn(from)+1)
}

// RunEntry starts at the function entry.
func (e *Explorer) RunEntry(f *ssa.Function) { e.run(f.Blocks[0], 0) }

func (e *Explorer) run(b *ssa.BasicBlock, idx int) {
	type edge struct{ from, to *ssa.BasicBlock }
	visits := map[edge]int{}
	max := e.MaxEdge
	if max == 0 {
		max = 8 * exploreFactor
	}
	var walk func(b *ssa.BasicBlock, idx int, pp *pathPoint)
	walk = func(b *ssa.BasicBlock, idx int, pp *pathPoint) {
		for k := idx; k < len(b.Instrs); k++ {
			ins := b.Instrs[k]
			if v, ok := ins.(ssa.Value); ok {
				delete(pp.nils, v) // computed anew
			}
			if e.P != nil {
				switch t := ins.(type) {
				case *ssa.Store:
					if a := e.P.cellOf(t.Addr); a != nil {
						pp.cells[a] = pp.Resolve(t.Val)
					}
				case *ssa.UnOp:
					if t.Op == token.MUL {
						if a := e.P.cellOf(t.X); a != nil {
							if v, ok := pp.cells[a]; ok {
								pp.env[t] = v
							} else {
								delete(pp.env, t)
							}
						}
					}
				}
			}
			if e.Visit(ins, pp) {
				return
			}
		}
		succs := b.Succs
		var tested ssa.Value
		testedEq := false
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if val, known := e.eval(iff.Cond, pp, 0); known {
				if val {
					succs = b.Succs[:1]
				} else {
					succs = b.Succs[1:2]
				}
			} else if x, eq, ok := nilTest(pp.Resolve(iff.Cond)); ok {
				tested, testedEq = pp.Resolve(x), eq
			}
		}
		for _, s := range succs {
			ed := edge{b, s}
			if visits[ed] >= max {
				continue
			}
			visits[ed]++
			np := pp.clone()
			np.b, np.pred = s, b
			if tested != nil && b.Succs[0] != b.Succs[1] {
				np.nils[tested] = (s == b.Succs[0]) == testedEq
			}
			pi := -1
			for i, p := range s.Preds {
				if p == b {
					pi = i
				}
			}
			upd := map[*ssa.Phi]ssa.Value{}
			for _, ins := range s.Instrs {
				ph, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				upd[ph] = pp.Resolve(ph.Edges[pi])
			}
			for ph, v := range upd {
				if v == ph {
					delete(np.env, ph)
				} else {
					np.env[ph] = v
				}
			}
			walk(s, 0, np)
		}
	}
	walk(b, idx, &pathPoint{b: b, env: map[ssa.Value]ssa.Value{}, cells: map[*ssa.Alloc]ssa.Value{}, flags: map[string]bool{}, nils: map[ssa.Value]bool{}})
}

func (e *Explorer) eval(v ssa.Value, pp *pathPoint, depth int) (bool, bool) {
	if depth > 12 {
		return false, false
	}
	v = pp.Resolve(v)
	if e.Decide != nil {
		if val, known := e.Decide(v, pp); known {
			return val, true
		}
	}
	switch t := v.(type) {
	case *ssa.Const:
		if b, ok := constBool(t); ok {
			return b, true
		}
	case *ssa.UnOp:
		if t.Op == token.NOT {
			val, known := e.eval(t.X, pp, depth+1)
			return !val, known
		}
	case *ssa.BinOp:
		if t.Op == token.EQL || t.Op == token.NEQ {
			x, y := pp.Resolve(t.X), pp.Resolve(t.Y)
			if isNilConst(x) && isNilConst(y) {
				return t.Op == token.EQL, true
			}
			if a, eq, ok := nilTest(t); ok {
				if isNil, known := pp.nils[pp.Resolve(a)]; known {
					return isNil == eq, true
				}
			}
			if bx, ok := constBool(x); ok {
				val, known := e.eval(y, pp, depth+1)
				return (val == bx) == (t.Op == token.EQL), known
			}
			if by, ok := constBool(y); ok {
				val, known := e.eval(x, pp, depth+1)
				return (val == by) == (t.Op == token.EQL), known
			}
		}
	}
	return false, false
}

// nilTest: c is a comparison of some value with nil; returns the value and whether the comparison is "== nil".
func nilTest(c ssa.Value) (ssa.Value, bool, bool) {
	bo, ok := c.(*ssa.BinOp)
	if !ok || (bo.Op != token.EQL && bo.Op != token.NEQ) {
		return nil, false, false
	}
	if isNilConst(bo.Y) {
		return bo.X, bo.Op == token.EQL, true
	}
	if isNilConst(bo.X) {
		return bo.Y, bo.Op == token.EQL, true
	}
	return nil, false, false
}

// assumeNil builds a Decide function fixing the nil-ness of value v on the path.
func assumeNil(v ssa.Value, isNil bool) func(c ssa.Value, pp *pathPoint) (bool, bool) {
	return func(c ssa.Value, pp *pathPoint) (bool, bool) {
		o, eq, ok := nilTest(c)
		if !ok || pp.Resolve(o) != v {
			return false, false
		}
		return eq == isNil, true
	}
}

// resultExtract: the Extract of index i of a multi-result call, or the call itself if it has a single result.
func resultExtract(c *ssa.Call, i int) ssa.Value {
	if c.Common().Signature().Results().Len() == 1 {
		if i == 0 {
			return c
		}
		return nil
	}
	for _, r := range *c.Referrers() {
		if ex, ok := r.(*ssa.Extract); ok && ex.Index == i {
			return ex
		}
	}
	return nil
}

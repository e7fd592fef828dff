package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// gridTypes: every concrete type of the library implementing base.FixedDataGrid.
func (p *Prog) gridTypes() []*types.Named {
	it := p.Type("base", "FixedDataGrid")
	if it == nil {
		panic("base.FixedDataGrid not found")
	}
	return p.implementers(it)
}

// implementers lists the concrete named types T with T or *T implementing the interface.
func (p *Prog) implementers(it *types.Named) []*types.Named {
	iface := it.Underlying().(*types.Interface)
	var out []*types.Named
	for _, n := range p.NamedTypes() {
		if _, isI := n.Underlying().(*types.Interface); isI {
			continue
		}
		if types.Implements(n, iface) || types.Implements(types.NewPointer(n), iface) {
			out = append(out, n)
		}
	}
	return out
}

// isGridType: t is (or points to) a data grid: the grid interfaces and their implementations.
func (p *Prog) isGridType(t types.Type) bool {
	it := p.Type("base", "DataGrid")
	if it == nil {
		panic("base.DataGrid not found")
	}
	iface := it.Underlying().(*types.Interface)
	return types.Implements(t, iface)
}

// owner: the named function or method enclosing a closure.
func owner(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

// withClosures: f and every function literal inside it.
func withClosures(f *ssa.Function) []*ssa.Function {
	out := []*ssa.Function{f}
	for i := 0; i < len(out); i++ {
		out = append(out, out[i].AnonFuncs...)
	}
	return out
}

// family: f, its closures, and every library helper reachable from it within the given packages' unexported
// functions — the code one exported entry point is made of.
func (p *Prog) family(f *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(g *ssa.Function)
	visit = func(g *ssa.Function) {
		if g == nil || seen[g] || !p.IsLibFunc(g) {
			return
		}
		if g != f && isExported(g) && g.Parent() == nil {
			return
		}
		seen[g] = true
		for _, a := range g.AnonFuncs {
			visit(a)
		}
		for _, c := range calls(g) {
			if s := c.Common().StaticCallee(); s != nil {
				visit(s)
			}
		}
	}
	visit(f)
	return seen
}

func valuesEqual(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	ca, ok1 := a.(*ssa.Const)
	cb, ok2 := b.(*ssa.Const)
	if ok1 && ok2 {
		return ca.String() == cb.String()
	}
	// two loads of the same never-again-stored cell
	ua, ok1 := a.(*ssa.UnOp)
	ub, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && ua.Op == token.MUL && ub.Op == token.MUL && ua.X == ub.X {
		return true
	}
	return false
}

// backSlice: every value in the backward expression slice of v inside its function (operands, transitively;
// loads of local cells continue to their stores).
func (p *Prog) backSlice(v ssa.Value) map[ssa.Value]bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if a := p.cellOf(u.X); a != nil {
				for _, s := range p.cellStores(a) {
					walk(s.Val)
				}
			}
		}
		if i, ok := v.(ssa.Instruction); ok {
			for _, op := range i.Operands(nil) {
				if *op != nil {
					walk(*op)
				}
			}
		}
	}
	walk(v)
	return seen
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// loopCur: v is the index value of a counting loop of its function.
func loopCur(v ssa.Value) *CountLoop {
	i, ok := v.(ssa.Instruction)
	if !ok || i.Parent() == nil {
		return nil
	}
	for _, l := range countingLoops(i.Parent()) {
		if l.Cur == v || l.Phi == v {
			return l
		}
	}
	return nil
}

// fieldLoad: v is a load of field `name` of struct type T (any base); returns the FieldAddr.
func fieldLoad(v ssa.Value) (*types.Var, *ssa.FieldAddr) {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil, nil
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return nil, nil
	}
	return fieldVar(fa.X.Type(), fa.Field), fa
}

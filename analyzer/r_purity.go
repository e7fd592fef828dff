package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C07", Rule: "forward may-alias analysis of the memory reachable from each data-set parameter (interface type) of each exported function, and from the receiver of each reading method of each data-set type: no store, map update, element write, copy destination or known-writing external call reaches it in any function the analysis enters (interface calls resolved to all implementers). Growing the value list of a categorical attribute during text conversion is exempt; the functions whose documented purpose is to change the data set are excluded by name.", Run: runC07})
	register(&Rule{ID: "C08", Rule: "forward may-alias analysis of the memory reachable from the receiver of each exported Predict* method: no store, map update, element write, copy destination or known-writing external call reaches it, in any function entered.", Run: runC08})
	register(&Rule{ID: "C37", Rule: "forward may-alias analysis of the memory reachable from each vector, matrix, table or map parameter of each exported function and method: no store, map update, element write, copy destination or known-writing library call (gonum, sort) reaches it, in any function entered.", Run: runC37})
	register(&Rule{ID: "C09", Rule: "for every row callback: no value that may alias the row buffer (forward may-alias analysis through helpers) is stored, sent or put into a map in memory that existed before the callback was called (captured variables, receivers, globals).", Run: runC09})
}

// mutators of a data set among the functions taking one.
var gridMutators = map[string]bool{"Shuffle": true, "Sort": true, "SetClass": true, "ParseCSVBuildInstancesFromReader": true, "ParseDenseARFFBuildInstancesFromReader": true}

// dataWrites: the writes into seed memory that count: adding a category to an attribute's value list is documented
// behaviour of text conversion.
func (p *Prog) dataWrites(t *Taint) []string {
	var s []string
	for i, w := range t.writes {
		f := i.Parent()
		if owner(f).Name() == "GetSysValFromString" {
			continue
		}
		s = append(s, p.InstrPos(i)+" ("+w+" in "+p.Name(f)+")")
	}
	sort.Strings(s)
	return s
}

func runC07(c *Ctx) {
	p := c.P
	n := 0
	for _, f := range p.Funcs {
		if !isExported(f) || f.Parent() != nil || gridMutators[f.Name()] {
			continue
		}
		for k, q := range f.Params {
			if !p.isGridType(q.Type()) {
				continue
			}
			if _, isI := q.Type().Underlying().(*types.Interface); !isI || namedOf(q.Type()).Obj().Name() == "UpdatableDataGrid" {
				continue
			}
			n++
			t := newTaint(p, f)
			t.Seed(q)
			t.Run()
			ws := p.dataWrites(t)
			key := fmt.Sprintf("input:%s:%s", p.Name(f), q.Name())
			if len(ws) == 0 {
				c.Ok(key, p.Pos(f.Pos()), "never written")
			} else {
				c.Bad(key, strings.SplitN(ws[0], " ", 2)[0], "the data set passed to "+p.Name(f)+" is modified: "+strings.Join(ws, "; "))
			}
			_ = k
		}
	}
	c.Floor("data set parameters", n, 40)
	p.keptInputs(c)
	m := 0
	for _, gt := range p.gridTypes() {
		for _, name := range []string{"Get", "GetAttribute", "AllAttributes", "AllClassAttributes", "MapOverRows", "Size", "RowString", "String", "Equal"} {
			f := p.Method(gt, name)
			if f == nil {
				continue
			}
			m++
			t := newTaint(p, f)
			t.Seed(f.Params[0])
			t.Run()
			ws := p.dataWrites(t)
			key := "reader:" + p.Name(f)
			if len(ws) == 0 {
				c.Ok(key, p.Pos(f.Pos()), "does not write")
			} else {
				c.Bad(key, strings.SplitN(ws[0], " ", 2)[0], "reading the data set with "+p.Name(f)+" modifies it: "+strings.Join(ws, "; "))
			}
		}
	}
	c.Floor("read methods", m, 25)
}

func runC08(c *Ctx) {
	p := c.P
	n := 0
	for _, f := range p.Funcs {
		if !isExported(f) || f.Parent() != nil || f.Signature.Recv() == nil || !strings.HasPrefix(f.Name(), "Predict") {
			continue
		}
		n++
		t := newTaint(p, f)
		t.Seed(f.Params[0])
		t.Run()
		ws := p.dataWrites(t)
		key := "model:" + p.Name(f)
		if len(ws) == 0 {
			c.Ok(key, p.Pos(f.Pos()), "never written")
		} else {
			c.Bad(key, strings.SplitN(ws[0], " ", 2)[0], p.Name(f)+" modifies the model: "+strings.Join(ws, "; "))
		}
	}
	c.Floor("prediction methods", n, 10)
}

// ---------- C09 ----------

// outlives: the memory addr lies in was there before the callback was called (captured variables, receivers, globals).
func (p *Prog) outlives(addr ssa.Value, cb *ssa.Function, inside map[*ssa.Function]bool, seen map[ssa.Value]bool) bool {
	if seen[addr] {
		return false
	}
	seen[addr] = true
	rec := func(v ssa.Value) bool { return p.outlives(v, cb, inside, seen) }
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		return rec(x.X)
	case *ssa.IndexAddr:
		return rec(x.X)
	case *ssa.Slice:
		return rec(x.X)
	case *ssa.UnOp:
		return rec(x.X)
	case *ssa.Lookup:
		return rec(x.X)
	case *ssa.Extract:
		if l, ok := x.Tuple.(*ssa.Lookup); ok {
			return rec(l.X)
		}
	case *ssa.TypeAssert:
		return rec(x.X)
	case *ssa.MakeInterface:
		return rec(x.X)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if rec(e) {
				return true
			}
		}
	case *ssa.Global:
		return true
	case *ssa.FreeVar:
		if x.Parent() == cb {
			return true
		}
		for _, b := range p.freeVarBindings(x) {
			if rec(b) {
				return true
			}
		}
	case *ssa.Parameter:
		f := x.Parent()
		if f == cb {
			return x != cb.Params[len(cb.Params)-2]
		}
		for k, q := range f.Params {
			if q != x {
				continue
			}
			for _, c := range p.callers[f] {
				if inside[c.Parent()] {
					if a := argFor(c, f, k); a != nil && rec(a) {
						return true
					}
				}
			}
		}
	}
	return false
}

func runC09(c *Ctx) {
	p := c.P
	n := 0
	for _, f := range p.Funcs {
		if !isRowCallback(f.Signature) || len(f.Blocks) == 0 || owner(f).Name() == "MapOverRows" {
			continue
		}
		n++
		t := newTaint(p, f)
		t.Seed(f.Params[len(f.Params)-2])
		t.Run()
		key := "row:" + p.Name(owner(f))
		bad := false
		for _, g := range sortedFuncs(p, t.funcs) {
			for _, i := range instrs(g) {
				var addr, val ssa.Value
				switch x := i.(type) {
				case *ssa.Store:
					addr, val = x.Addr, x.Val
				case *ssa.MapUpdate:
					addr, val = x.Map, x.Value
				case *ssa.Send:
					addr, val = x.Chan, x.X
				default:
					continue
				}
				if t.mask[val] == 0 || !p.outlives(addr, f, t.funcs, map[ssa.Value]bool{}) {
					continue
				}
				bad = true
				c.Bad(key, p.InstrPos(i), "a row buffer of a traversal is kept after the callback that received it ("+p.Name(g)+")")
			}
		}
		if !bad {
			c.Ok(key, p.Pos(f.Pos()), "not kept")
		}
	}
	c.Floor("row callbacks", n, 15)
}

// numericArg: a vector, matrix or table of numbers (or a map of them) handed over by reference.
func numericArg(t types.Type) bool {
	if n := namedOf(t); n != nil && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "gonum/mat") {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok {
			return b.Info()&types.IsNumeric != 0 && b.Kind() != types.Byte
		}
		return numericArg(u.Elem())
	case *types.Map:
		for _, e := range []types.Type{u.Key(), u.Elem()} {
			if _, ok := e.Underlying().(*types.Basic); ok {
				continue
			}
			if _, ok := e.Underlying().(*types.Map); !ok || !numericArg(e) {
				return false
			}
		}
		return true
	}
	return false
}

// overwritten: arguments that are documented outputs.
var overwritten = map[string]int{"(*neural.Network).Activate": 1}

func runC37(c *Ctx) {
	p := c.P
	n := 0
	for _, f := range p.Funcs {
		if !isExported(f) || f.Parent() != nil {
			continue
		}
		for k, q := range f.Params {
			if f.Signature.Recv() != nil && k == 0 || !numericArg(q.Type()) {
				continue
			}
			n++
			t := newTaint(p, f)
			t.Seed(q)
			t.Run()
			ws := p.dataWrites(t)
			if o, ok := overwritten[p.Name(f)]; ok && o == k {
				continue
			}
			key := fmt.Sprintf("arg:%s:%s", p.Name(f), q.Name())
			if len(ws) == 0 {
				c.Ok(key, p.Pos(f.Pos()), "never written")
			} else {
				c.Bad(key, strings.SplitN(ws[0], " ", 2)[0], "the numbers passed to "+p.Name(f)+" are modified: "+strings.Join(ws, "; "))
			}
		}
	}
	c.Floor("numeric parameters", n, 40)
}

// keptInputs: a data set a library object was given and keeps in a field is still the caller's: no method may write it.
func (p *Prog) keptInputs(c *Ctx) {
	grids := map[*types.Named]bool{}
	for _, g := range p.gridTypes() {
		grids[g] = true
	}
	loads := map[*types.Var]map[*ssa.Function][]ssa.Value{}
	own := map[*types.Var]*types.Named{}
	for _, f := range p.Funcs {
		for _, i := range instrs(f) {
			v, ok := i.(ssa.Value)
			if !ok {
				continue
			}
			fv, fa := fieldLoad(v)
			if fv == nil || !p.isGridType(fv.Type()) {
				continue
			}
			if _, isI := fv.Type().Underlying().(*types.Interface); !isI || namedOf(fv.Type()).Obj().Name() == "UpdatableDataGrid" {
				continue
			}
			nt := namedOf(fa.X.Type())
			if nt == nil || grids[nt] {
				continue
			}
			own[fv] = nt
			if loads[fv] == nil {
				loads[fv] = map[*ssa.Function][]ssa.Value{}
			}
			loads[fv][f] = append(loads[fv][f], v)
		}
	}
	n := 0
	var fs []*types.Var
	for fv := range loads {
		fs = append(fs, fv)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Pos() < fs[j].Pos() })
	for _, fv := range fs {
		given := fv.Exported() && len(p.fieldStores[fv]) == 0
		for _, s := range p.fieldStores[fv] {
			for _, l := range p.Trace(s.Val, TraceOpt{NoCalls: true, NoParams: true}) {
				if q, ok := l.(*ssa.Parameter); ok && (isExported(q.Parent()) || len(p.callers[q.Parent()]) > 0) {
					given = true
				}
			}
		}
		if !given {
			continue
		}
		n++
		key := fmt.Sprintf("kept:%s.%s", typeName(own[fv]), fv.Name())
		var bad []string
		seen := map[*ssa.Function]bool{}
		for f := range loads[fv] {
			seen[f] = true
		}
		for _, f := range sortedFuncs(p, seen) {
			t := newTaint(p, f)
			for _, v := range loads[fv][f] {
				t.Seed(v)
			}
			t.Run()
			bad = append(bad, p.dataWrites(t)...)
		}
		if len(bad) == 0 {
			c.Ok(key, p.Pos(fv.Pos()), "never written")
		} else {
			sort.Strings(bad)
			c.Bad(key, strings.SplitN(bad[0], " ", 2)[0], "the data set kept in "+key[5:]+" belongs to the caller, but is modified: "+strings.Join(bad, "; "))
		}
	}
	c.Floor("kept data sets", n, 2)
}

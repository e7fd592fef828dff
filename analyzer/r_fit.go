package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C32", Rule: "for every exported Fit, Load and LoadWithPrefix method (and kdtree Build): each field of the receiver that it learns (stores to, updates as a map, or appends to, helper methods and closures included) is overwritten with a value not computed from its own old value on every path before the method reads it; so nothing learnt earlier flows into the new model. The perceptron's weights and averages, which learn online by design, are exempt.", Run: runC32})
}

// fitExempt: learnt across calls by design.
var fitExempt = map[string]bool{"perceptron.AveragePerceptron.weights": true, "perceptron.AveragePerceptron.edges": true, "perceptron.AveragePerceptron.count": true}

type fitScan struct {
	p     *Prog
	t     *types.Named
	fam   map[*ssa.Function]bool
	clear map[*ssa.Function]map[*types.Var]int
	needs map[*ssa.Function]map[*types.Var]ssa.Instruction
	busy  map[*ssa.Function]bool
}

// ofRecv: the field belongs to the fitted type.
func (s *fitScan) ofRecv(fa *ssa.FieldAddr) *types.Var {
	if n := namedOf(fa.X.Type()); n == nil || n.Obj() != s.t.Obj() {
		return nil
	}
	return fieldVar(fa.X.Type(), fa.Field)
}

// derived: the value is computed from the field's own old value.
func (s *fitScan) derived(v ssa.Value, f *types.Var) bool {
	for x := range s.p.backSlice(v) {
		if fv, _ := fieldLoad(x); fv == f {
			return true
		}
	}
	return false
}

// callees of an instruction inside the family: direct calls, and closures from where they are made.
func (s *fitScan) enters(i ssa.Instruction) []*ssa.Function {
	var out []*ssa.Function
	switch x := i.(type) {
	case *ssa.MakeClosure:
		out = append(out, x.Fn.(*ssa.Function))
	case ssa.CallInstruction:
		if g := x.Common().StaticCallee(); g != nil && s.p.IsLibFunc(g) {
			out = append(out, g)
		}
	}
	return out
}

// resets: after the instruction the field no longer holds anything of its old value.
func (s *fitScan) resets(i ssa.Instruction, f *types.Var) bool {
	switch x := i.(type) {
	case *ssa.Store:
		if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
			return s.ofRecv(fa) == f && !s.derived(x.Val, f)
		}
		if n := namedOf(x.Val.Type()); n != nil && n.Obj() == s.t.Obj() {
			if _, ptr := x.Val.Type().Underlying().(*types.Pointer); !ptr {
				if _, loc := x.Addr.(*ssa.Alloc); !loc {
					return !s.derived(x.Val, f)
				}
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "clear" {
			if fv, _ := fieldLoad(x.Call.Args[0]); fv == f {
				return true
			}
		}
		for _, g := range s.enters(x) {
			if s.allPaths(g, f) {
				return true
			}
		}
	}
	return false
}

func (s *fitScan) allPaths(g *ssa.Function, f *types.Var) bool {
	if s.clear[g] == nil {
		s.clear[g] = map[*types.Var]int{}
	}
	if k := s.clear[g][f]; k != 0 {
		return k == 1
	}
	s.clear[g][f] = 2
	ok, _ := mustPass(g, nil, func(i ssa.Instruction) bool { return s.resets(i, f) }, s.p.successReturn)
	if ok {
		s.clear[g][f] = 1
	}
	return ok
}

// reads: an instruction of g reached from its entry without a reset that reads the field.
func (s *fitScan) reads(g *ssa.Function, f *types.Var) ssa.Instruction {
	if s.busy[g] {
		return nil
	}
	s.busy[g] = true
	defer delete(s.busy, g)
	var hit ssa.Instruction
	read := func(i ssa.Instruction) bool {
		if hit != nil {
			return false
		}
		if u, ok := i.(*ssa.UnOp); ok {
			if fv, fa := fieldLoad(u); fv == f && s.ofRecv(fa) == f && !s.onlyCleared(u) {
				hit = i
				return true
			}
		}
		for _, h := range s.enters(i) {
			if x := s.reads(h, f); x != nil {
				hit = x
				return true
			}
		}
		return false
	}
	mustPass(g, nil, func(i ssa.Instruction) bool {
		read(i)
		return s.resets(i, f)
	}, func(*ssa.Return) bool { return false })
	return hit
}

// onlyCleared: the old value is only released, emptied or measured to be emptied.
func (s *fitScan) onlyCleared(u *ssa.UnOp) bool {
	rs := u.Referrers()
	if rs == nil || len(*rs) == 0 {
		return true
	}
	for _, r := range *rs {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "clear" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func runC32(c *Ctx) {
	p := c.P
	n, m := 0, 0
	for _, f := range p.Funcs {
		if !isExported(f) || f.Parent() != nil || f.Signature.Recv() == nil {
			continue
		}
		switch f.Name() {
		case "Fit", "Load", "LoadWithPrefix", "Build":
		default:
			continue
		}
		t := namedOf(f.Signature.Recv().Type())
		if t == nil {
			continue
		}
		s := &fitScan{p: p, t: t, fam: map[*ssa.Function]bool{}, clear: map[*ssa.Function]map[*types.Var]int{}, busy: map[*ssa.Function]bool{}}
		var walk func(g *ssa.Function)
		walk = func(g *ssa.Function) {
			if s.fam[g] {
				return
			}
			s.fam[g] = true
			for _, i := range instrs(g) {
				for _, h := range s.enters(i) {
					walk(h)
				}
			}
		}
		walk(f)
		learnt := map[*types.Var]bool{}
		for g := range s.fam {
			for _, i := range instrs(g) {
				switch x := i.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						if fv := s.ofRecv(fa); fv != nil && !p.freshBase(fa.X) {
							learnt[fv] = true
						}
					}
				case *ssa.MapUpdate:
					for l := range p.backSlice(x.Map) {
						if fv, fa := fieldLoad(l); fv != nil && types.Identical(fv.Type(), x.Map.Type()) && s.ofRecv(fa) == fv {
							learnt[fv] = true
						}
					}
				}
			}
		}
		n++
		for fv := range learnt {
			name := typeName(t) + "." + fv.Name()
			if fitExempt[name] || fitExempt[strings.TrimPrefix(name, "*")] {
				continue
			}
			m++
			key := f.Name() + ":" + name
			if i := s.reads(f, fv); i != nil {
				c.Bad(key, p.InstrPos(i), p.Name(f)+" uses the value "+fv.Name()+" had before the call, so what was learnt earlier flows into the new model")
			} else {
				c.Ok(key, p.Pos(f.Pos()), "replaced before it is used")
			}
		}
	}
	c.Floor("fitting and loading methods", n, 30)
	c.Floor("learnt fields", m, 30)
}

package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C34", Rule: "every loop of the library, taken round once along each of its acyclic paths (inner loops entered no more than the path forces): something that a test leaving the loop depends on must have changed, a counter towards the bound it is compared with, a list only by getting shorter or by growing slower than it is walked; reading from a stream, receiving, and marking a place that the path found unmarked count as change, drawing random numbers does not. A loop that draws until it has enough different ones asks for no more than there are to draw from (provably, by the guards before it), or is entered only after a test of the same data. A loop that reads is left on every path after a failed read. Every function that calls itself passes on something smaller (a part of what it was given, or a number moved towards a limit it tests) behind a test that returns without the call; no method passes a question on unchanged to its own argument.",
		Trust: []string{"trees and lists handed over by the library's own constructors have no cycles", "a list of candidates made and ranged over in the same turn is not empty", "readers and scanners report failure or the end of the input at last", "convergence of numerical iterations (expectation maximisation) is outside"}, Run: runC34})
}

type ends struct {
	p *Prog
	c *Ctx
	// memoised: calls of a function read input / draw random numbers
	reads, draws map[*ssa.Function]bool
	stores       map[*ssa.Function]map[*types.Var]bool
}

func runC34(c *Ctx) {
	e := &ends{p: c.P, c: c, reads: map[*ssa.Function]bool{}, draws: map[*ssa.Function]bool{}, stores: map[*ssa.Function]map[*types.Var]bool{}}
	for changed := true; changed; {
		changed = false
		for _, f := range c.P.Funcs {
			for _, call := range calls(f) {
				r, d := e.extRead(call), e.extDraw(call)
				for _, g := range e.static(call) {
					r, d = r || e.reads[g], d || e.draws[g]
				}
				if r && !e.reads[f] {
					e.reads[f], changed = true, true
				}
				if d && !e.draws[f] {
					e.draws[f], changed = true, true
				}
			}
		}
	}
	loops := 0
	for _, f := range c.P.Funcs {
		if !c.P.IsLibFunc(owner(f)) {
			continue
		}
		for _, b := range f.Blocks {
			if body := naturalLoop(b); body != nil {
				loops++
				e.loop(f, b, body)
			}
		}
	}
	c.Floor("loops", loops, 250)
	e.recursion()
}

func (e *ends) static(c ssa.CallInstruction) []*ssa.Function {
	if c.Common().IsInvoke() {
		return nil
	}
	return e.p.Callees(c)
}

// extRead: a call into the standard library that consumes input.
func (e *ends) extRead(c ssa.CallInstruction) bool {
	o := calleeObj(c)
	if o == nil || o.Pkg() == nil || strings.Contains(o.Pkg().Path(), "golearn") {
		return false
	}
	switch o.Name() {
	case "Read", "ReadString", "ReadLine", "ReadBytes", "ReadByte", "ReadRune", "ReadFull", "ReadAt", "Next", "Scan", "ReadAll", "Decode", "Token", "ReadSlice", "ReadAtLeast", "Fscan", "Fscanf", "Fscanln", "CopyN", "Copy":
		switch o.Pkg().Path() {
		case "math/rand", "gonum.org/v1/gonum/mat":
			return false
		}
		return true
	}
	return false
}

func (e *ends) extDraw(c ssa.CallInstruction) bool {
	o := calleeObj(c)
	return o != nil && o.Pkg() != nil && strings.HasPrefix(o.Pkg().Path(), "math/rand")
}

func (e *ends) isRead(c ssa.CallInstruction) bool {
	if e.extRead(c) {
		return true
	}
	for _, g := range e.static(c) {
		if e.reads[g] {
			return true
		}
	}
	return false
}

func (e *ends) isDraw(c ssa.CallInstruction) bool {
	if e.extDraw(c) {
		return true
	}
	for _, g := range e.static(c) {
		if e.draws[g] {
			return true
		}
	}
	return false
}

// fieldsStored by a function and what it calls statically.
func (e *ends) fieldsStored(f *ssa.Function) map[*types.Var]bool {
	if m, ok := e.stores[f]; ok {
		return m
	}
	m := map[*types.Var]bool{}
	e.stores[f] = m
	for g := range e.p.staticReach(f) {
		for _, i := range instrs(g) {
			if s, ok := i.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					if fv := fieldVar(fa.X.Type(), fa.Field); fv != nil {
						m[fv] = true
					}
				}
			}
		}
	}
	return m
}

// exitDeps: what the tests leaving a loop depend on.
type exitDeps struct {
	phis  map[*ssa.Phi]bool   // of the loop's head
	cells map[*ssa.Alloc]bool // local variables shared with closures
	flds  map[*types.Var]bool // fields read
	objs  map[ssa.Value]bool  // objects asked by calls
	elems map[string]bool     // elements and map entries read: type of the container
	calls map[*ssa.Call]bool  // calls
	cmps  []exitCmp           // comparisons
	ifs   []*ssa.If           // leaving tests
	seen  map[ssa.Value]bool
}

type exitCmp struct {
	op   token.Token // the loop goes on while x op y
	x, y ssa.Value
	b    *ssa.BasicBlock
}

func (e *ends) depsOf(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) *exitDeps {
	d := &exitDeps{map[*ssa.Phi]bool{}, map[*ssa.Alloc]bool{}, map[*types.Var]bool{}, map[ssa.Value]bool{}, map[string]bool{}, map[*ssa.Call]bool{}, nil, nil, map[ssa.Value]bool{}}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || d.seen[v] {
			return
		}
		d.seen[v] = true
		i, ok := v.(ssa.Instruction)
		if !ok || !body[i.Block()] {
			return
		}
		switch t := v.(type) {
		case *ssa.Phi:
			if t.Block() == h {
				d.phis[t] = true
				if basicInfo(t.Type())&types.IsBoolean == 0 {
					return
				}
			}
			for k, ed := range t.Edges {
				walk(ed)
				// which edge was taken
				pr := t.Block().Preds[k]
				if !body[pr] {
					continue
				}
				if iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If); ok && body[pr] {
					walk(iff.Cond)
				} else if body[pr] {
					for _, g := range guardsOf(pr) {
						if body[g.If.Block()] {
							walk(g.Cond)
						}
					}
				}
			}
			return
		case *ssa.UnOp:
			if t.Op == token.MUL {
				if a := e.p.cellOf(t.X); a != nil {
					d.cells[a] = true
					return
				}
				switch x := t.X.(type) {
				case *ssa.FieldAddr:
					if fv := fieldVar(x.X.Type(), x.Field); fv != nil {
						d.flds[fv] = true
					}
					walk(x.X)
					return
				case *ssa.IndexAddr:
					d.elems[x.X.Type().Underlying().String()] = true
					walk(x.X)
					walk(x.Index)
					return
				}
			}
		case *ssa.Lookup:
			d.elems[t.X.Type().Underlying().String()] = true
		case *ssa.Call:
			d.calls[t] = true
			for _, a := range allArgs(t) {
				d.objs[a] = true
			}
			for _, g := range e.static(t) {
				for k := range e.p.staticReach(g) {
					for _, i := range instrs(k) {
						if u, ok := i.(*ssa.UnOp); ok && u.Op == token.MUL {
							if fa, ok := u.X.(*ssa.FieldAddr); ok {
								if fv := fieldVar(fa.X.Type(), fa.Field); fv != nil {
									d.flds[fv] = true
								}
							}
						}
					}
				}
			}
		}
		for _, op := range i.Operands(nil) {
			if *op != nil {
				walk(*op)
			}
		}
	}
	var blocks []*ssa.BasicBlock
	for b := range body {
		blocks = append(blocks, b)
	}
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].Index < blocks[j].Index })
	for _, b := range blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || body[b.Succs[0]] == body[b.Succs[1]] {
			continue
		}
		d.ifs = append(d.ifs, iff)
		e.exitTests(d, h, body, iff.Cond, body[b.Succs[0]], b, 0)
		walk(iff.Cond)
	}
	return d
}

// exitTests: the comparisons under which the loop goes on: those tested when leaving, and those that set a flag which is tested.
func (e *ends) exitTests(d *exitDeps, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, cond ssa.Value, stay bool, b *ssa.BasicBlock, depth int) {
	if depth > 4 {
		return
	}
	switch t := cond.(type) {
	case *ssa.UnOp:
		if t.Op == token.NOT {
			e.exitTests(d, h, body, t.X, !stay, b, depth+1)
		}
	case *ssa.BinOp:
		op := t.Op
		if !stay {
			op = negate(op)
		}
		d.cmps = append(d.cmps, exitCmp{op, t.X, t.Y, b})
	case *ssa.Phi:
		if !body[t.Block()] {
			return
		}
		for k, ed := range t.Edges {
			pr := t.Block().Preds[k]
			if !body[pr] {
				continue
			}
			if v, ok := constBool(ed); ok {
				if v == stay {
					continue
				}
				if iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If); ok {
					e.exitTests(d, h, body, iff.Cond, pr.Succs[0] != t.Block(), pr, depth+1)
				} else if gs := guardsOf(pr); len(gs) > 0 {
					g := gs[0]
					for _, x := range gs {
						if g.If.Block().Dominates(x.If.Block()) {
							g = x
						}
					}
					if body[g.If.Block()] {
						e.exitTests(d, h, body, g.Cond, !g.Pol, g.If.Block(), depth+1)
					}
				}
			} else {
				e.exitTests(d, h, body, ed, stay, b, depth+1)
			}
		}
	}
}

// turn is one way round the loop.
type turn struct {
	blocks []*ssa.BasicBlock
	env    map[ssa.Value]ssa.Value
	cells  map[*ssa.Alloc]ssa.Value
}

func (t *turn) resolve(v ssa.Value) ssa.Value {
	for k := 0; k < 64; k++ {
		if w, ok := t.env[v]; ok && w != v {
			v = w
			continue
		}
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		}
		return v
	}
	return v
}

// truth of a condition on the way taken.
func (t *turn) truth(c ssa.Value) (bool, bool) {
	c = t.resolve(c)
	if v, ok := constBool(c); ok {
		return v, true
	}
	switch x := c.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			v, ok := t.truth(x.X)
			return !v, ok
		}
	case *ssa.BinOp:
		if (x.Op == token.EQL || x.Op == token.NEQ) && basicInfo(x.X.Type())&types.IsFloat == 0 && t.resolve(x.X) == t.resolve(x.Y) {
			return x.Op == token.EQL, true
		}
	}
	return false, false
}

// turns enumerates the acyclic ways from the head back to it; nil if there are too many.
func (e *ends) turns(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) ([]*turn, bool) {
	var out []*turn
	n := 0
	on := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, t *turn) bool
	walk = func(b *ssa.BasicBlock, t *turn) bool {
		n++
		if n > 60000 {
			return false
		}
		on[b] = true
		defer delete(on, b)
		t.blocks = append(t.blocks, b)
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Store:
				if a := e.p.cellOf(x.Addr); a != nil {
					t.cells[a] = t.resolve(x.Val)
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if a := e.p.cellOf(x.X); a != nil {
						if v, ok := t.cells[a]; ok {
							t.env[x] = v
						}
					}
				}
			}
		}
		succs := b.Succs
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if v, ok := t.truth(iff.Cond); ok {
				if v {
					succs = b.Succs[:1]
				} else {
					succs = b.Succs[1:2]
				}
			}
		}
		for _, s := range succs {
			if !body[s] || s != h && on[s] {
				continue
			}
			nt := &turn{append([]*ssa.BasicBlock{}, t.blocks...), map[ssa.Value]ssa.Value{}, map[*ssa.Alloc]ssa.Value{}}
			for k, v := range t.env {
				nt.env[k] = v
			}
			for k, v := range t.cells {
				nt.cells[k] = v
			}
			pi := -1
			for k, pr := range s.Preds {
				if pr == b {
					pi = k
				}
			}
			upd := map[ssa.Value]ssa.Value{}
			for _, i := range s.Instrs {
				ph, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				upd[ph] = t.resolve(ph.Edges[pi])
			}
			if s == h {
				// the values for the next turn
				out = append(out, &turn{nt.blocks, mergeNext(t.env, upd), t.cells})
				continue
			}
			for k, v := range upd {
				if v == k {
					delete(nt.env, k)
				} else {
					nt.env[k] = v
				}
			}
			if !walk(s, nt) {
				return false
			}
		}
		return true
	}
	ok := walk(h, &turn{nil, map[ssa.Value]ssa.Value{}, map[*ssa.Alloc]ssa.Value{}})
	return out, ok
}

// next marks the value a head's phi gets for the next turn.
type nextOf struct{ ssa.Value }

func mergeNext(env, fin map[ssa.Value]ssa.Value) map[ssa.Value]ssa.Value {
	out := map[ssa.Value]ssa.Value{}
	for k, v := range env {
		out[k] = v
	}
	for k, v := range fin {
		out[nextOf{k}] = v
	}
	return out
}

func (t *turn) next(ph *ssa.Phi) ssa.Value { return t.env[nextOf{ph}] }

type change int

const (
	same change = iota
	up
	down
	other
)

// moved: how v stands to p, both along one turn.
func (t *turn) moved(v, p ssa.Value, depth int) (change, int64) {
	v = t.resolve(v)
	if v == p {
		return same, 0
	}
	if depth > 12 {
		return other, 0
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return t.moved(x.X, p, depth+1)
	case *ssa.BinOp:
		if c, n := t.moved(x.X, p, depth+1); c != other {
			if k, ok := constInt(x.Y); ok {
				switch {
				case x.Op == token.ADD:
					return dir(n + k)
				case x.Op == token.SUB:
					return dir(n - k)
				case x.Op == token.MUL && k >= 2 && n >= 0, x.Op == token.SHL && k >= 1 && n >= 0:
					return up, 1
				case x.Op == token.QUO && k >= 2 && n <= 0, x.Op == token.SHR && k >= 1 && n <= 0:
					return down, -1
				case x.Op == token.MUL && k == 1, x.Op == token.QUO && k == 1:
					return c, n
				}
			}
		}
		if x.Op == token.ADD {
			if c, n := t.moved(x.Y, p, depth+1); c != other {
				if k, ok := constInt(x.X); ok {
					return dir(n + k)
				}
			}
		}
	case *ssa.Slice:
		if c, n := t.moved(x.X, p, depth+1); c == same || c == down {
			if x.Low != nil {
				if k, ok := constInt(x.Low); ok && k >= 1 {
					return down, n - k
				} else if ok && x.High == nil {
					return c, n
				}
			} else if x.High == nil {
				return c, n
			}
			if x.High != nil {
				if b, ok := x.High.(*ssa.BinOp); ok && b.Op == token.SUB {
					if k, ok := constInt(b.Y); ok && k >= 1 && isLenOf(b.X, x.X) {
						return down, n - k
					}
				}
			}
		}
	case *ssa.Call:
		if a, ok := isAppend(x); ok {
			c, n := t.moved(a.Common().Args[0], p, depth+1)
			if c == same || c == up {
				return up, n + 1
			}
		}
	}
	return other, 0
}

func dir(n int64) (change, int64) {
	switch {
	case n > 0:
		return up, n
	case n < 0:
		return down, n
	}
	return same, 0
}

func (e *ends) loop(f *ssa.Function, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) {
	p, c := e.p, e.c
	key := "loop:" + p.Name(owner(f))
	pos := e.headPos(h, body)
	d := e.depsOf(h, body)
	var bodyCalls []ssa.CallInstruction
	recv := false
	for b := range body {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case ssa.CallInstruction:
				bodyCalls = append(bodyCalls, x)
			case *ssa.UnOp:
				recv = recv || x.Op == token.ARROW
			case *ssa.Select:
				recv = true
			case *ssa.Next:
				if b == h {
					c.Ok(key, pos, "ranges over a map or string")
					return
				}
			}
		}
	}
	if len(d.ifs) == 0 {
		out := false
		for b := range body {
			for _, s := range b.Succs {
				out = out || !body[s]
			}
		}
		c.Check(out || recv, key, pos, "left on the way, or waits for input", "nothing ever leaves this loop")
		return
	}
	ts, all := e.turns(h, body)
	if !all {
		c.Count("loops with too many ways round (not decided)", 1)
		c.Ok(key, pos, "too many ways round, not decided")
		return
	}
	sort.Slice(bodyCalls, func(i, j int) bool { return bodyCalls[i].Pos() < bodyCalls[j].Pos() })
	for _, call := range bodyCalls {
		e.failedRead(f, h, body, call)
	}
	bad, why := (*turn)(nil), ""
	retry := false
	for _, t := range ts {
		ok, r, w := e.progress(d, t, h, body)
		retry = retry || r
		if !ok && bad == nil {
			bad, why = t, w
		}
	}
	if bad != nil {
		at := pos
		for k := len(bad.blocks) - 1; k >= 0; k-- {
			b := bad.blocks[k]
			if ps := p.InstrPos(b.Instrs[len(b.Instrs)-1]); b != h && ps != "-" && ps != "" {
				at = ps
				break
			}
		}
		c.Bad(key, pos, why+" (by way of "+at+")")
		return
	}
	c.Ok(key, pos, fmt.Sprintf("every one of %d way(s) round changes what the end depends on", len(ts)))
	c.Count("ways round a loop", len(ts))
	if retry {
		e.enough(f, h, body, d, key, pos)
	}
}

func (e *ends) headPos(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) string {
	best := token.NoPos
	for b := range body {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Phi); ok {
				continue
			}
			if i.Pos() != token.NoPos && (best == token.NoPos || i.Pos() < best) {
				best = i.Pos()
			}
		}
	}
	return e.p.Pos(best)
}

// progress: does this turn change anything the end depends on? (second result: it only drew random numbers)
func (e *ends) progress(d *exitDeps, t *turn, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) (bool, bool, string) {
	p := e.p
	on := map[*ssa.BasicBlock]bool{}
	for _, b := range t.blocks {
		on[b] = true
	}
	drew, redrawn := false, false
	for _, b := range t.blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return true, false, ""
				}
			case *ssa.Select:
				return true, false, ""
			case *ssa.Next:
				if !body[x.Iter.(ssa.Instruction).Block()] {
					return true, false, ""
				}
			case *ssa.MapUpdate:
				if d.elems[x.Map.Type().Underlying().String()] {
					return true, false, ""
				}
			case *ssa.Store:
				switch a := x.Addr.(type) {
				case *ssa.FieldAddr:
					if fv := fieldVar(a.X.Type(), a.Field); fv != nil && d.flds[fv] {
						return true, false, ""
					}
				case *ssa.IndexAddr:
					if d.elems[a.X.Type().Underlying().String()] {
						return true, false, ""
					}
				}
			case ssa.CallInstruction:
				if _, isGo := i.(*ssa.Go); isGo {
					continue
				}
				if e.isRead(x) {
					return true, false, ""
				}
				if e.isDraw(x) {
					drew = true
				}
				if bi, ok := x.Common().Value.(*ssa.Builtin); ok {
					if bi.Name() == "delete" && d.elems[x.Common().Args[0].Type().Underlying().String()] {
						return true, false, ""
					}
					if bi.Name() == "copy" && d.elems[x.Common().Args[0].Type().Underlying().String()] {
						return true, false, ""
					}
					continue
				}
				for _, g := range e.static(x) {
					for fv := range e.fieldsStored(g) {
						if d.flds[fv] {
							return true, false, ""
						}
					}
					// closures that set a variable
					for _, fv := range g.FreeVars {
						if a := p.cellOf(fv); a != nil && d.cells[a] {
							for _, s := range p.cellStores(a) {
								if s.Parent() == g {
									return true, false, ""
								}
							}
						}
					}
				}
				if len(e.static(x)) == 0 || x.Common().IsInvoke() {
					if v, ok := i.(*ssa.Call); !ok || !d.calls[v] {
						// an operation on an object that the end asks about
						for _, a := range allArgs(x) {
							if e.asked(d, a) && !askOnly(x) {
								return true, false, ""
							}
						}
					}
				}
			}
		}
	}
	if e.marks(t) {
		return true, false, ""
	}
	// flags, counters, lists
	var phis []*ssa.Phi
	for ph := range d.phis {
		phis = append(phis, ph)
	}
	sort.Slice(phis, func(i, j int) bool { return phis[i].Name() < phis[j].Name() })
	why := "going round this way changes nothing that the end of the loop depends on"
	wrong := false
	progress := false
	for _, ph := range phis {
		nv := t.next(ph)
		if nv == nil {
			continue
		}
		ch, n := t.moved(nv, ph, 0)
		if ch == same {
			continue
		}
		if ch == other {
			// a value that depends on random draws only does not count by itself
			if drew && e.onlyDrawn(nv, body, 0) {
				redrawn = true
				continue
			}
			if e.sameAgain(t, nv, body) {
				why = fmt.Sprintf("going round this way gives %s the same value each time", nameOf(ph))
				continue
			}
			if atStart(ph, nv, body) {
				why = fmt.Sprintf("going round this way sets %s back to what it was at the start", nameOf(ph))
				continue
			}
			if k := t.folded(nv, 0); k != nil {
				// set to the same constant as before entering, or to a fixed place
				if basicInfo(ph.Type())&types.IsInteger != 0 {
					why = fmt.Sprintf("going round this way sets %s back to %s", nameOf(ph), k.Value)
					continue
				}
				if k.Value != nil && k.Value.Kind() == constant.Bool && e.keeps(d, ph, k) {
					continue
				}
			}
			progress = true
			continue
		}
		okd, w := e.direction(d, t, ph, ch, n, body)
		if okd {
			progress = true
		} else {
			wrong = true
			why = w
		}
	}
	var cells []*ssa.Alloc
	for a := range d.cells {
		cells = append(cells, a)
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].Pos() < cells[j].Pos() })
	for _, a := range cells {
		if v, ok := t.cells[a]; ok {
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && p.cellOf(u.X) == a {
				continue
			}
			progress = true
		}
	}
	if progress && !wrong {
		return true, false, ""
	}
	if progress && wrong {
		return false, false, why
	}
	// a list of candidates ranged over in this turn
	for _, b := range t.blocks {
		if b == h {
			continue
		}
		inner := naturalLoop(b)
		if inner == nil || !body[b] {
			continue
		}
		for _, i := range b.Instrs {
			ph, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			if ph.Comment == "rangeindex" && madeIn(b, body) {
				if e.inLoopChanges(d, inner) {
					return true, false, ""
				}
			}
		}
	}
	if drew && (redrawn || e.drawDecides(body)) {
		return true, true, ""
	}
	return false, false, why
}

// folded: a value that is a constant on the way taken.
func (t *turn) folded(v ssa.Value, depth int) *ssa.Const {
	v = t.resolve(v)
	if k, ok := v.(*ssa.Const); ok {
		return k
	}
	b, ok := v.(*ssa.BinOp)
	if !ok || depth > 4 || b.Op != token.ADD && b.Op != token.SUB {
		return nil
	}
	x, y := t.folded(b.X, depth+1), t.folded(b.Y, depth+1)
	if x == nil || y == nil || x.Value == nil || y.Value == nil {
		return nil
	}
	return ssa.NewConst(constant.BinaryOp(x.Value, b.Op, y.Value), b.Type())
}

// atStart: the very value the loop was entered with.
func atStart(ph *ssa.Phi, v ssa.Value, body map[*ssa.BasicBlock]bool) bool {
	if _, ok := v.(*ssa.Const); ok {
		return false
	}
	for k, ed := range ph.Edges {
		if body[ph.Block().Preds[k]] {
			continue
		}
		if ed == v {
			return true
		}
		// the same variable read again, not set in between
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && valuesEqual(u, ed) {
			set := false
			for b := range body {
				for _, i := range b.Instrs {
					if s, ok := i.(*ssa.Store); ok && s.Addr == u.X {
						set = true
					}
				}
			}
			if _, ok := u.X.(*ssa.FreeVar); ok && !set {
				return true
			}
			if _, ok := u.X.(*ssa.Alloc); ok && !set {
				return true
			}
		}
	}
	return false
}

// sameAgain: v is what a function makes of things this way round does not change.
func (e *ends) sameAgain(t *turn, v ssa.Value, body map[*ssa.BasicBlock]bool) bool {
	if x, ok := v.(*ssa.Extract); ok {
		v = x.Tuple
	}
	call, ok := v.(*ssa.Call)
	if !ok || !body[call.Block()] || call.Common().IsInvoke() || e.one(call) == nil || e.isDraw(call) || e.isRead(call) {
		return false
	}
	for _, a := range call.Common().Args {
		a = t.resolve(a)
		if ph, ok := a.(*ssa.Phi); ok && ph.Block() == t.blocks[0] {
			if t.next(ph) != ph {
				return false
			}
			continue
		}
		if i, ok := a.(ssa.Instruction); ok && body[i.Block()] {
			return false
		}
		if _, ok := a.(*ssa.FreeVar); ok {
			return false
		}
	}
	for _, b := range t.blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Store, *ssa.MapUpdate, *ssa.Send, *ssa.Go:
				return false
			case ssa.CallInstruction:
				g := e.one(x)
				if g == nil || len(g.FreeVars) > 0 {
					return false
				}
				for k := range e.p.staticReach(g) {
					for _, j := range instrs(k) {
						switch y := j.(type) {
						case *ssa.Store:
							if e.p.cellOf(y.Addr) == nil {
								return false
							}
						case *ssa.MapUpdate:
							return false
						}
					}
				}
			}
		}
	}
	return true
}

// drawDecides: a test in the loop depends on a number drawn in it.
func (e *ends) drawDecides(body map[*ssa.BasicBlock]bool) bool {
	for b := range body {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for v := range e.slice(iff.Cond, b.Parent()) {
			if call, ok := v.(*ssa.Call); ok && body[call.Block()] && e.isDraw(call) {
				return true
			}
		}
	}
	return false
}

// slice: the backward slice of v, going on through fields set in the same function.
func (e *ends) slice(v ssa.Value, f *ssa.Function) map[ssa.Value]bool {
	seen := e.p.backSlice(v)
	for changed := true; changed; {
		changed = false
		for w := range seen {
			u, ok := w.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				continue
			}
			fa, ok := u.X.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			fv := fieldVar(fa.X.Type(), fa.Field)
			for _, i := range instrs(f) {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				if fb, ok := s.Addr.(*ssa.FieldAddr); ok && fv != nil && fieldVar(fb.X.Type(), fb.Field) == fv && !seen[s.Val] {
					for x := range e.p.backSlice(s.Val) {
						if !seen[x] {
							seen[x], changed = true, true
						}
					}
				}
			}
		}
	}
	return seen
}

// madeIn: the list ranged over at b is made in the (outer) loop.
func madeIn(b *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return true
	}
	c, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return true
	}
	for _, v := range []ssa.Value{c.X, c.Y} {
		if call, ok := v.(*ssa.Call); ok && len(call.Common().Args) == 1 {
			i, ok := call.Common().Args[0].(ssa.Instruction)
			return ok && body[i.Block()]
		}
	}
	return true
}

// inLoopChanges: the inner loop sets a variable the end of the outer one depends on.
func (e *ends) inLoopChanges(d *exitDeps, inner map[*ssa.BasicBlock]bool) bool {
	for ph := range d.phis {
		for _, ed := range ph.Edges {
			if ip, ok := ed.(*ssa.Phi); ok && inner[ip.Block()] {
				for j, x := range ip.Edges {
					if inner[ip.Block().Preds[j]] && x != ip {
						return true
					}
				}
			}
		}
	}
	return false
}

// keeps: the flag's value keeps the loop going.
func (e *ends) keeps(d *exitDeps, ph *ssa.Phi, k *ssa.Const) bool {
	v, _ := constBool(k)
	for _, iff := range d.ifs {
		b := iff.Block()
		cond := iff.Cond
		pol := true
		for {
			if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
				cond, pol = u.X, !pol
				continue
			}
			break
		}
		if cond == ph {
			// stays when cond is true if Succs[0] is inside
			in0 := naturalLoop(ph.Block())[b.Succs[0]]
			return v == (in0 == pol)
		}
	}
	return false
}

func askOnly(c ssa.CallInstruction) bool {
	o := calleeObj(c)
	if o == nil {
		return false
	}
	switch o.Name() {
	case "Len", "Size", "Bit", "At", "Dims", "Get", "String", "Bytes", "Equals", "GetName", "Err", "Print", "Printf", "Println", "Sprintf", "Errorf":
		return true
	}
	return false
}

func (e *ends) asked(d *exitDeps, a ssa.Value) bool {
	if basicInfo(a.Type()) != 0 {
		return false
	}
	for o := range d.objs {
		if o == a || valuesEqual(o, a) {
			if _, ok := a.(*ssa.Const); !ok {
				return true
			}
		}
	}
	return false
}

// marks: the turn marks a place after having found it unmarked.
func (e *ends) marks(t *turn) bool {
	on := map[*ssa.BasicBlock]bool{}
	for _, b := range t.blocks {
		on[b] = true
	}
	root := func(v ssa.Value) ssa.Value {
		for k := 0; k < 8; k++ {
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
				if a := e.p.cellOf(u.X); a != nil {
					return a
				}
				if fa, ok := u.X.(*ssa.FieldAddr); ok {
					v = fa.X
					continue
				}
			}
			break
		}
		return v
	}
	var marked []struct {
		r ssa.Value
		b *ssa.BasicBlock
	}
	for _, b := range t.blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.MapUpdate:
				marked = append(marked, struct {
					r ssa.Value
					b *ssa.BasicBlock
				}{root(x.Map), b})
			case *ssa.Store:
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
					if _, ok := x.Val.(*ssa.Const); ok {
						marked = append(marked, struct {
							r ssa.Value
							b *ssa.BasicBlock
						}{root(ia.X), b})
					}
				}
			case *ssa.Call:
				if o := calleeObj(x); o != nil && strings.HasPrefix(o.Name(), "Set") {
					marked = append(marked, struct {
						r ssa.Value
						b *ssa.BasicBlock
					}{root(recvOf(x)), b})
				}
			}
		}
	}
	for _, m := range marked {
		for _, g := range guardsOf(m.b) {
			if !on[g.If.Block()] {
				continue
			}
			for v := range e.p.backSlice(g.Cond) {
				switch x := v.(type) {
				case *ssa.Lookup:
					if root(x.X) == m.r {
						return true
					}
				case *ssa.UnOp:
					if ia, ok := x.X.(*ssa.IndexAddr); ok && root(ia.X) == m.r {
						return true
					}
				case *ssa.Call:
					if r := recvOf(x); r != nil && root(r) == m.r {
						return true
					}
				}
			}
		}
	}
	return false
}

// onlyDrawn: v comes from drawing random numbers in this loop.
func (e *ends) onlyDrawn(v ssa.Value, body map[*ssa.BasicBlock]bool, depth int) bool {
	if depth > 10 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const:
		return depth > 0
	case *ssa.Call:
		if e.isDraw(x) {
			return true
		}
		for _, a := range allArgs(x) {
			if i, ok := a.(ssa.Instruction); ok && body[i.Block()] && e.onlyDrawn(a, body, depth+1) {
				return true
			}
		}
	case *ssa.Extract:
		return e.onlyDrawn(x.Tuple, body, depth+1)
	case *ssa.Convert:
		return e.onlyDrawn(x.X, body, depth+1)
	case *ssa.BinOp:
		return e.onlyDrawn(x.X, body, depth+1) || e.onlyDrawn(x.Y, body, depth+1)
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
			return e.onlyDrawn(ia.Index, body, depth+1)
		}
	}
	return false
}

// direction: the change of ph is towards leaving the loop, by the comparisons made.
func (e *ends) direction(d *exitDeps, t *turn, ph *ssa.Phi, ch change, n int64, body map[*ssa.BasicBlock]bool) (bool, string) {
	used, good := false, false
	why := ""
	for _, x := range d.cmps {
		for _, o := range [][2]ssa.Value{{x.x, x.y}, {x.y, x.x}} {
			op := x.op
			if o[0] != x.x {
				op = flip(op)
			}
			v := e.measure(o[0])
			c, _ := t.movedFrom(v, ph)
			if c == other {
				continue
			}
			used = true
			list := isListLen(o[0])
			bound := e.measure(o[1])
			grow, step := change(same), int64(0)
			if b, ok := bound.(*ssa.Phi); ok && b.Block() == ph.Block() && b != ph {
				if nv := t.next(b); nv != nil {
					grow, step = t.moved(nv, b, 0)
				}
			}
			switch op {
			case token.LSS, token.LEQ:
				if ch == up && grow == up && !list && isListLen(o[1]) {
					why = "the list grows as fast as it is walked"
					continue
				}
				if ch == up && grow != up || list && ch == up {
					good = true
					if op == token.LEQ && isMaxConst(o[1]) {
						good = false
						why = "the bound is never exceeded"
					}
				} else if why == "" {
					why = fmt.Sprintf("%s moves away from its bound", nameOf(ph))
				}
			case token.GTR, token.GEQ:
				if ch == down {
					good = true
					if k, ok := constInt(o[1]); ok && op == token.GEQ && k <= 0 && basicInfo(o[0].Type())&types.IsUnsigned != 0 {
						good = false
						why = "an unsigned number is never below zero"
					}
				} else if why == "" {
					why = fmt.Sprintf("%s moves away from its bound", nameOf(ph))
				}
			case token.NEQ:
				// two that pass each other, or steps of more than one, need never be equal
				if by := n - step; grow == other || by == 1 || by == -1 || basicInfo(o[0].Type())&types.IsInteger == 0 {
					good = true
				} else if by != 0 && why == "" {
					why = fmt.Sprintf("%s may step over the value it is compared with", nameOf(ph))
				}
			default:
				good = true
			}
		}
	}
	if !used {
		return true, ""
	}
	if why == "" {
		why = "the counter does not get nearer to its bound"
	}
	return good, why
}

// movedFrom: v is ph up to a constant.
func (t *turn) movedFrom(v ssa.Value, ph *ssa.Phi) (change, int64) {
	if v == nil {
		return other, 0
	}
	empty := &turn{nil, map[ssa.Value]ssa.Value{}, map[*ssa.Alloc]ssa.Value{}}
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.MUL {
		if k, ok := constInt(b.Y); ok && k >= 1 {
			return empty.moved(b.X, ph, 0)
		}
		if k, ok := constInt(b.X); ok && k >= 1 {
			return empty.moved(b.Y, ph, 0)
		}
	}
	if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
		if _, ok := constInt(b.Y); ok {
			return t.movedFrom(b.X, ph)
		}
	}
	return empty.moved(v, ph, 0)
}

// measure: a number itself, or the list whose length it is.
func (e *ends) measure(v ssa.Value) ssa.Value {
	switch x := v.(type) {
	case *ssa.Convert:
		return e.measure(x.X)
	case *ssa.Call:
		if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return x.Common().Args[0]
		}
	case *ssa.BinOp:
		if x.Op == token.ADD || x.Op == token.SUB {
			if _, ok := constInt(x.Y); ok {
				if w := e.measure(x.X); w != x.X {
					return w
				}
			}
		}
	}
	return v
}

func isListLen(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Convert:
		return isListLen(x.X)
	case *ssa.BinOp:
		if _, ok := constInt(x.Y); ok && (x.Op == token.ADD || x.Op == token.SUB) {
			return isListLen(x.X)
		}
	case *ssa.Call:
		b, ok := x.Common().Value.(*ssa.Builtin)
		return ok && b.Name() == "len"
	}
	return false
}

func isMaxConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
		return false
	}
	if b, ok := k.Type().Underlying().(*types.Basic); ok {
		u, exact := constant.Uint64Val(k.Value)
		if !exact {
			return false
		}
		switch b.Kind() {
		case types.Uint8:
			return u == 1<<8-1
		case types.Uint16:
			return u == 1<<16-1
		case types.Int8:
			return u == 1<<7-1
		case types.Int16:
			return u == 1<<15-1
		}
	}
	return false
}

// failedRead: a call that reads and reports failure is followed by leaving the loop when it failed.
func (e *ends) failedRead(f *ssa.Function, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, ci ssa.CallInstruction) {
	call, ok := ci.(*ssa.Call)
	if !ok || !e.extRead(call) || recvOf(call) == nil {
		return
	}
	// the stream must be older than the loop
	if i, ok := recvOf(call).(ssa.Instruction); ok && body[i.Block()] {
		u, load := i.(*ssa.UnOp)
		ph, head := i.(*ssa.Phi)
		if !(load && u.Op == token.MUL) && !(head && ph.Block() == h) {
			return
		}
	}
	if hh, _ := innermostLoop(call.Block()); hh != h {
		return
	}
	res := call.Common().Signature().Results()
	if res.Len() == 0 {
		return
	}
	last := resultExtract(call, res.Len()-1)
	key := "read:" + e.p.Name(owner(f))
	isErr := isErrorType(res.At(res.Len() - 1).Type())
	isBool := basicInfo(res.At(res.Len()-1).Type())&types.IsBoolean != 0
	if !isErr && !isBool {
		return
	}
	back := false
	if last == nil {
		back = true
	} else {
		ex := &Explorer{P: e.p, MaxEdge: 4 * exploreFactor}
		if isErr {
			ex.Decide = assumeNil(last, false)
		} else {
			ex.Decide = func(v ssa.Value, pp *pathPoint) (bool, bool) { return false, v == last }
		}
		ex.Visit = func(i ssa.Instruction, pp *pathPoint) bool {
			if i == ssa.Instruction(call) {
				back = true
				return true
			}
			return !body[i.Block()]
		}
		ex.Run(call)
	}
	e.c.Check(!back, key, e.p.InstrPos(call), "a failed read leaves the loop", "after a failed read the loop can go on reading, and a failure that stays is read for ever")
	e.c.Count("reads in loops", 1)
}

// enough: a loop that draws again when a draw is no good.
func (e *ends) enough(f *ssa.Function, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, d *exitDeps, key, pos string) {
	key = "draw:" + strings.TrimPrefix(key, "loop:")
	p := e.p
	// how many there are to draw from
	var ns, drawn []ssa.Value
	for b := range body {
		for _, i := range b.Instrs {
			if call, ok := i.(*ssa.Call); ok && e.extDraw(call) {
				for _, a := range argsOf(call) {
					if basicInfo(a.Type())&types.IsInteger != 0 {
						drawn = append(drawn, a)
					}
				}
			}
			if ia, ok := i.(*ssa.IndexAddr); ok && e.onlyDrawn(ia.Index, body, 0) {
				ns = append(ns, ia.X)
			}
		}
	}
	decided := false
	for _, x := range d.cmps {
		for _, o := range [][2]ssa.Value{{x.x, x.y}, {x.y, x.x}} {
			op := x.op
			if o[0] != x.x {
				op = flip(op)
			}
			if op != token.LSS && op != token.LEQ && op != token.NEQ {
				continue
			}
			if basicInfo(o[0].Type())&types.IsInteger == 0 {
				continue
			}
			m := e.measure(o[0])
			ph, ok := m.(*ssa.Phi)
			if !ok && !isListLen(o[0]) || ok && ph.Block() != h {
				continue
			}
			decided = true
			ok = false
			for _, n := range ns {
				if e.atMost(o[1], n, h, 0) {
					ok = true
				}
			}
			// the numbers drawn decide, where they can be seen
			if len(drawn) > 0 {
				ok = true
				for _, n := range drawn {
					ok = ok && e.atMost(o[1], n, h, 0)
				}
			}
			e.c.Check(ok, key, pos, "asks for no more than there are to draw from", "draws until it has enough different ones, but nothing makes sure that there are that many to draw from")
		}
	}
	if decided {
		return
	}
	// draws until a draw is good: the data must have been tested
	data := map[ssa.Value]bool{}
	for b := range body {
		for _, i := range b.Instrs {
			if call, ok := i.(*ssa.Call); ok {
				for _, a := range allArgs(call) {
					if in, ok := a.(ssa.Instruction); !ok || !body[in.Block()] {
						if _, isC := a.(*ssa.Const); !isC {
							data[a] = true
						}
					}
				}
			}
		}
	}
	tested := false
	for _, g := range guardsOf(h) {
		if body[g.If.Block()] {
			continue
		}
		for v := range p.backSlice(g.Cond) {
			if call, ok := v.(*ssa.Call); ok {
				if _, isB := call.Common().Value.(*ssa.Builtin); isB {
					continue
				}
				for _, a := range allArgs(call) {
					tested = tested || data[a]
				}
			}
		}
	}
	// a combined test leaves no dominating branch of its own: any test of the data before the loop whose outcome can avoid it
	if !tested {
		for _, b := range f.Blocks {
			if body[b] {
				continue
			}
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || !b.Dominates(h) && !reach(b)[h] {
				continue
			}
			avoid := false
			for _, s := range b.Succs {
				avoid = avoid || !reach(s)[h]
			}
			if !avoid {
				continue
			}
			for v := range e.slice(iff.Cond, f) {
				if call, ok := v.(*ssa.Call); ok {
					if _, isB := call.Common().Value.(*ssa.Builtin); isB {
						continue
					}
					for _, a := range allArgs(call) {
						tested = tested || data[a]
					}
				}
			}
		}
	}
	e.c.Check(tested, key, pos, "entered only after a test of the data drawn from", "draws until a draw is good, but nothing makes sure that there is a good one")
}

// atMost: t ≤ n at block b. n is a number or a list (then its length).
func (e *ends) atMost(t, n ssa.Value, b *ssa.BasicBlock, depth int) bool {
	if depth > 8 {
		return false
	}
	t, n = stripConv(t), stripConv(n)
	if e.eqN(t, n) {
		return true
	}
	if kt, ok := constInt(t); ok {
		if kn, ok := constInt(n); ok {
			return kt <= kn
		}
		if kt <= 0 {
			return true
		}
	}
	for _, g := range guardsOf(b) {
		c, ok := g.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		op := c.Op
		if !g.Pol {
			op = negate(op)
		}
		for _, o := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
			oo := op
			if o[0] != c.X {
				oo = flip(op)
			}
			if (oo == token.LSS || oo == token.LEQ || oo == token.EQL) && e.eqN(stripConv(o[0]), t) && e.eqN(stripConv(o[1]), n) {
				return true
			}
		}
	}
	switch x := t.(type) {
	case *ssa.Phi:
		if naturalLoop(x.Block()) != nil {
			return false
		}
		for k, ed := range x.Edges {
			pr := x.Block().Preds[k]
			if !e.atMost(ed, n, pr, depth+1) && !e.edgeAtMost(ed, n, pr, x.Block()) {
				return false
			}
		}
		return len(x.Edges) > 0
	case *ssa.Call:
		if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "min" {
			for _, a := range x.Common().Args {
				if e.atMost(a, n, b, depth+1) {
					return true
				}
			}
			return false
		}
		if g := x.Common().StaticCallee(); g != nil && e.p.IsLibFunc(g) {
			// a helper: one of its parameters is n, all results at most that
			for k, a := range x.Common().Args {
				if !e.eqN(stripConv(a), n) || k >= len(g.Params) {
					continue
				}
				all, some := true, false
				for _, r := range returns(g) {
					if len(r.Results) > 0 {
						some = true
						all = all && e.atMost(r.Results[0], g.Params[k], r.Block(), depth+1)
					}
				}
				if all && some {
					return true
				}
			}
		}
	case *ssa.UnOp:
		// a variable shared with closures, or a field set before
		if a := e.p.cellOf(x.X); a != nil && x.Op == token.MUL {
			ss := e.p.cellStores(a)
			if len(ss) == 1 {
				return e.atMost(ss[0].Val, n, ss[0].Block(), depth+1)
			}
		}
	case *ssa.BinOp:
		if k, ok := constInt(x.Y); ok && (x.Op == token.SUB && k >= 0 || x.Op == token.QUO && k >= 1) {
			return e.atMost(x.X, n, b, depth+1)
		}
	}
	return false
}

// edgeAtMost: the branch taken from pr to b says so.
func (e *ends) edgeAtMost(t, n ssa.Value, pr, b *ssa.BasicBlock) bool {
	iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	op := c.Op
	if pr.Succs[0] != b {
		op = negate(op)
	}
	t, n = stripConv(t), stripConv(n)
	for _, o := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
		oo := op
		if o[0] != c.X {
			oo = flip(op)
		}
		if (oo == token.LSS || oo == token.LEQ || oo == token.EQL) && e.eqN(stripConv(o[0]), t) && e.eqN(stripConv(o[1]), n) {
			return true
		}
	}
	return false
}

func stripConv(v ssa.Value) ssa.Value {
	for {
		if c, ok := v.(*ssa.Convert); ok {
			v = c.X
			continue
		}
		return v
	}
}

// eqN: the same number; a list stands for its length.
func (e *ends) eqN(a, b ssa.Value) bool {
	norm := func(v ssa.Value) ssa.Value {
		v = stripConv(v)
		if c, ok := v.(*ssa.Call); ok {
			if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				return c.Common().Args[0]
			}
		}
		return v
	}
	if a == b || valuesEqual(a, b) {
		return true
	}
	a, b = norm(a), norm(b)
	if a == b || valuesEqual(a, b) {
		return true
	}
	fa, xa := fieldLoad(a)
	fb, xb := fieldLoad(b)
	return fa != nil && fa == fb && (xa.X == xb.X || valuesEqual(xa.X, xb.X))
}

// ---- recursion ----

func (e *ends) recursion() {
	p, c := e.p, e.c
	n := 0
	// static call graph
	succ := map[*ssa.Function][]ssa.CallInstruction{}
	for _, f := range p.Funcs {
		if !p.IsLibFunc(owner(f)) {
			continue
		}
		for _, call := range calls(f) {
			if _, isGo := call.(*ssa.Go); isGo {
				continue
			}
			if g := e.one(call); g != nil {
				succ[f] = append(succ[f], call)
			}
		}
	}
	reaches := func(from, to *ssa.Function) bool {
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function) bool
		walk = func(f *ssa.Function) bool {
			if f == to {
				return true
			}
			if seen[f] {
				return false
			}
			seen[f] = true
			for _, call := range succ[f] {
				if walk(e.one(call)) {
					return true
				}
			}
			for _, a := range f.AnonFuncs {
				if walk(a) {
					return true
				}
			}
			return false
		}
		return walk(from)
	}
	for _, f := range p.Funcs {
		for _, call := range succ[f] {
			g := e.one(call)
			if !reaches(g, f) {
				continue
			}
			n++
			e.smaller(f, g, call)
		}
		// a method that asks its argument the same question about itself
		if f.Signature.Recv() == nil || f.Parent() != nil || !p.IsLibFunc(f) {
			continue
		}
		for _, call := range calls(f) {
			cc := call.Common()
			if !cc.IsInvoke() || cc.Method.Name() != f.Name() {
				continue
			}
			if q, ok := cc.Value.(*ssa.Parameter); ok && q.Parent() == f {
				same := true
				for k, a := range cc.Args {
					same = same && (k < len(cc.Args)) && e.isParam(a)
				}
				// only if this very type can be the argument
				mine := false
				for _, im := range p.Callees(call) {
					mine = mine || im == f
				}
				c.Check(!(same && mine), "asks:"+p.Name(f), p.InstrPos(call), "asks about something else", "passes the question on to its argument unchanged, which may pass it back")
			}
		}
	}
	c.Floor("calls of a function from within itself", n, 8)
}

func (e *ends) one(call ssa.CallInstruction) *ssa.Function {
	if call.Common().IsInvoke() {
		return nil
	}
	if g := call.Common().StaticCallee(); g != nil {
		if e.p.IsLibFunc(owner(g)) {
			return g
		}
		return nil
	}
	if gs := e.p.Callees(call); len(gs) == 1 && e.p.IsLibFunc(owner(gs[0])) {
		return gs[0]
	}
	return nil
}

func (e *ends) isParam(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Parameter:
		return true
	case *ssa.MakeInterface:
		return e.isParam(x.X)
	case *ssa.ChangeInterface:
		return e.isParam(x.X)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if a, ok := x.X.(*ssa.Alloc); ok {
				ss := e.p.cellStores(a)
				return len(ss) == 1 && e.isParam(ss[0].Val)
			}
		}
	}
	return false
}

type part int

const (
	pSame    part = iota // a parameter itself
	pBelow               // a component of a parameter
	pCount               // a number computed from a parameter by adding or subtracting
	pMade                // computed from a parameter
	pNothing             // unrelated
)

// relation of an argument to what the function was given.
func (e *ends) relation(v ssa.Value, f *ssa.Function, depth int, seen map[ssa.Value]bool) part {
	if depth > 24 || seen[v] {
		return pNothing
	}
	seen[v] = true
	defer delete(seen, v)
	rel := func(x ssa.Value) part { return e.relation(x, f, depth+1, seen) }
	lower := func(x ssa.Value) part {
		switch r := rel(x); r {
		case pSame, pBelow:
			return pBelow
		default:
			return r
		}
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		return pSame
	case *ssa.FreeVar:
		return pNothing
	case *ssa.Alloc:
		best := pNothing
		for _, s := range e.p.cellStores(x) {
			if r := rel(s.Val); r < best {
				best = r
			}
		}
		return best
	case *ssa.Const, *ssa.Global, *ssa.Function:
		return pNothing
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if a := e.p.cellOf(x.X); a != nil {
				best := pNothing
				for _, s := range e.p.cellStores(a) {
					if r := rel(s.Val); r < best {
						best = r
					}
				}
				return best
			}
			switch ad := x.X.(type) {
			case *ssa.FieldAddr:
				return lower(ad.X)
			case *ssa.IndexAddr:
				return lower(ad.X)
			case *ssa.Alloc:
				best := pNothing
				for _, s := range e.p.cellStores(ad) {
					if r := rel(s.Val); r < best {
						best = r
					}
				}
				return best
			}
			return rel(x.X)
		}
		return rel(x.X)
	case *ssa.FieldAddr:
		return lower(x.X)
	case *ssa.IndexAddr:
		return lower(x.X)
	case *ssa.Field:
		return lower(x.X)
	case *ssa.Index:
		return lower(x.X)
	case *ssa.Lookup:
		return lower(x.X)
	case *ssa.Extract:
		return rel(x.Tuple)
	case *ssa.Next:
		return lower(x.Iter)
	case *ssa.Range:
		return rel(x.X)
	case *ssa.TypeAssert:
		return rel(x.X)
	case *ssa.MakeInterface:
		return rel(x.X)
	case *ssa.ChangeInterface:
		return rel(x.X)
	case *ssa.ChangeType:
		return rel(x.X)
	case *ssa.Convert:
		return rel(x.X)
	case *ssa.Slice:
		if x.Low == nil && !e.cutShort(x) {
			return rel(x.X)
		}
		return lower(x.X)
	case *ssa.BinOp:
		a, b := rel(x.X), rel(x.Y)
		if x.Op == token.REM && b <= pMade {
			// comes round again
			return pSame
		}
		if _, ok := constInt(x.Y); ok && (x.Op == token.ADD || x.Op == token.SUB) && a <= pCount {
			if k, _ := constInt(x.Y); k == 0 {
				return a
			}
			return pCount
		}
		if a == pNothing && b == pNothing {
			return pNothing
		}
		return pMade
	case *ssa.Phi:
		best, worst := pNothing, pSame
		for _, ed := range x.Edges {
			r := rel(ed)
			if r < best {
				best = r
			}
			if r != pNothing && r > worst {
				worst = r
			}
		}
		if best == pNothing {
			return pNothing
		}
		return worst
	case *ssa.Call:
		best := pNothing
		for _, a := range allArgs(x) {
			if r := rel(a); r < best {
				best = r
			}
		}
		if best == pNothing {
			return pNothing
		}
		return pMade
	}
	return pNothing
}

// cutShort: the upper limit of the piece is below the length of the whole, as far as can be seen.
func (e *ends) cutShort(x *ssa.Slice) bool {
	if x.High == nil {
		return false
	}
	b, ok := stripConv(x.High).(*ssa.BinOp)
	if !ok || b.Op != token.ADD {
		return !e.eqN(x.High, x.X)
	}
	if k, ok := constInt(b.Y); !ok || k < 1 {
		return true
	}
	for _, g := range guardsOf(x.Block()) {
		c, ok := g.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		for _, o := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
			if (e.eqN(o[0], b) || e.eqN(o[0], b.X)) && isListLen(o[1]) {
				return true
			}
		}
	}
	return false
}

func (e *ends) smaller(f, g *ssa.Function, call ssa.CallInstruction) {
	p, c := e.p, e.c
	key := "recursion:" + p.Name(owner(f))
	pos := p.InstrPos(call)
	args := call.Common().Args
	below, count, made := false, false, false
	for _, a := range args {
		switch e.relation(a, f, 0, map[ssa.Value]bool{}) {
		case pBelow:
			below = true
		case pCount:
			count = true
		case pMade:
			made = true
		}
	}
	if !below && !count && !made {
		if f == g && e.unmoved(f, call) {
			c.Bad(key, pos, "calls itself with nothing changed that the tests ending the recursion look at")
			return
		}
		// given only what the function itself was given, or constants
		allSame := true
		for _, a := range args {
			if r := e.relation(a, f, 0, map[ssa.Value]bool{}); r == pNothing {
				if _, isC := a.(*ssa.Const); !isC {
					allSame = false
				}
			}
		}
		if f != g || owner(f) != f {
			c.Ok(key, pos, "through another function, not decided")
			return
		}
		c.Check(!allSame, key, pos, "given something else", "calls itself with what it was given, and so never ends")
		return
	}
	base := e.baseCase(f, call, args)
	if below {
		c.Ok(key, pos, "goes down to a part of what it was given")
		return
	}
	if f == g && e.unmoved(f, call) {
		c.Bad(key, pos, "calls itself with nothing changed that the tests ending the recursion look at")
		return
	}
	c.Check(base, key, pos, "on a part of the data or with a number nearer to a limit, behind a test that ends the recursion", "nothing ends this recursion: no test of what it was given returns before the call")
}

// unmoved: of what the tests that avoid the call look at, the call passes everything on as it was (or a count set back to a constant).
func (e *ends) unmoved(f *ssa.Function, call ssa.CallInstruction) bool {
	looked := map[int]bool{}
	b := call.Block()
	for _, x := range f.Blocks {
		iff, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If)
		if !ok || x != b && !reach(x)[b] {
			continue
		}
		avoid := false
		for _, s := range x.Succs {
			avoid = avoid || s != b && !reach(s)[b]
		}
		if !avoid {
			continue
		}
		for v := range e.slice(iff.Cond, f) {
			if a, ok := v.(*ssa.Alloc); ok {
				if ss := e.p.cellStores(a); len(ss) == 1 {
					v = ss[0].Val
				}
			}
			if q, ok := v.(*ssa.Parameter); ok && q.Parent() == f {
				for k, g := range f.Params {
					if g == q {
						looked[k] = true
					}
				}
			}
		}
	}
	args := call.Common().Args
	if len(looked) == 0 || len(args) != len(f.Params) {
		return false
	}
	rel := func(c ssa.CallInstruction, k int) part {
		return e.relation(c.Common().Args[k], f, 0, map[ssa.Value]bool{})
	}
	for k := range looked {
		if _, isC := args[k].(*ssa.Const); isC {
			counts := false
			for _, other := range calls(f) {
				if other != call && e.one(other) == f && len(other.Common().Args) == len(args) && rel(other, k) == pCount {
					counts = true
				}
			}
			if counts {
				continue
			}
			return false
		}
		if rel(call, k) != pSame || !e.own(args[k], f.Params[k], 0) {
			return false
		}
	}
	return true
}

// own: the argument is the function's own parameter, or comes round again.
func (e *ends) own(v ssa.Value, q *ssa.Parameter, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		return x == q
	case *ssa.Convert:
		return e.own(x.X, q, depth+1)
	case *ssa.BinOp:
		return x.Op == token.REM
	case *ssa.Slice:
		return x.Low == nil && !e.cutShort(x) && e.own(x.X, q, depth+1)
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			ss := e.p.cellStores(a)
			return len(ss) == 1 && e.own(ss[0].Val, q, depth+1)
		}
	}
	return false
}

// baseCase: some test of what the function was given decides between the call and returning without it.
func (e *ends) baseCase(f *ssa.Function, call ssa.CallInstruction, args []ssa.Value) bool {
	b := call.Block()
	for _, x := range f.Blocks {
		iff, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If)
		if !ok || x != b && !reach(x)[b] {
			continue
		}
		avoid := false
		for _, s := range x.Succs {
			if s != b && !reach(s)[b] {
				avoid = true
			}
		}
		if !avoid {
			continue
		}
		// loop tests over an inner list do not count, a range over a part of the data does
		if e.relation(iff.Cond, f, 0, map[ssa.Value]bool{}) != pNothing {
			return true
		}
		for v := range e.slice(iff.Cond, f) {
			if _, ok := v.(*ssa.Parameter); ok {
				return true
			}
		}
	}
	return false
}

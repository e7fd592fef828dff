package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C13",
		Rule: "Archive keys are evaluated to normal forms by an interprocedural constant-string propagation (prefix symbolic, loop counters abstracted to their start value) over everything Save/SaveWithPrefix write and Load/LoadWithPrefix read. For every model type: each key read is written under the same form with a compatible encoding, each key written is read somewhere; a key's value flows from the same field on saving that it flows to on loading; keys written only on some successful paths are not required on loading; loading loops run exactly over the saved count; every field that Predict reads and Fit sets is restored. The same twin rule is applied to the parts of a serialised data set, to parameter maps and to JSON encoders and decoders of attributes and rules, and the attribute type tags.",
		Run:  runC13})
}

// kframe: a function activation during the abstract walk.
type kframe struct {
	fn   *ssa.Function
	args [][]string
	up   *kframe // activation of the enclosing function of a closure
	from *kframe
	site ssa.CallInstruction
}

type kentry struct {
	tmpl string // alternatives joined by |
	kind string
	call ssa.CallInstruction
	fr   *kframe
	cond bool // on some successful path it does not happen
	loop bool
}

type keyWalk struct {
	p      *Prog
	memo   map[*ssa.Function]bool
	out    []*kentry
	active map[*ssa.Function]int
	steps  int
}

const unknownPart = "{?}"

func cross(a, b []string) []string {
	var out []string
	seen := map[string]bool{}
	for _, x := range a {
		for _, y := range b {
			if !seen[x+y] && len(out) < 16 {
				seen[x+y] = true
				out = append(out, x+y)
			}
		}
	}
	return out
}

func union(a, b []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, x := range append(append([]string{}, a...), b...) {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

// counterInit: v is a counter that starts at a constant and grows by one per round.
func counterInit(v ssa.Value) (int64, bool) {
	if cl := loopCur(v); cl != nil && cl.Step == 1 {
		if cl.Range {
			return 0, true
		}
		if n, ok := constInt(cl.Init); ok {
			if cl.Cur == v && cl.Cur != ssa.Value(cl.Phi) {
				n++
			}
			return n, true
		}
		return 0, false
	}
	ph, ok := v.(*ssa.Phi)
	if !ok {
		return 0, false
	}
	body := naturalLoop(ph.Block())
	if body == nil {
		return 0, false
	}
	init, found := int64(0), false
	for i, e := range ph.Edges {
		if !body[ph.Block().Preds[i]] {
			n, ok := constInt(e)
			if !ok || found && n != init {
				return 0, false
			}
			init, found = n, true
			continue
		}
		if stepOf(e, ph) != 1 {
			return 0, false
		}
	}
	return init, found
}

func (w *keyWalk) eval(v ssa.Value, fr *kframe, d int) []string {
	unk := []string{unknownPart}
	if v == nil || d > 40 {
		return unk
	}
	switch x := v.(type) {
	case *ssa.Const:
		if s, ok := constStr(x); ok {
			return []string{s}
		}
		if n, ok := constInt(x); ok {
			return []string{strconv.FormatInt(n, 10)}
		}
		return unk
	case *ssa.Parameter:
		for f := fr; f != nil; f = f.up {
			if f.fn == x.Parent() {
				for i, q := range f.fn.Params {
					if q == x && i < len(f.args) && f.args[i] != nil {
						return f.args[i]
					}
				}
				return unk
			}
		}
		return unk
	case *ssa.FreeVar:
		if fr.up == nil {
			return unk
		}
		var out []string
		for _, b := range w.p.freeVarBindings(x) {
			out = union(out, w.eval(b, fr.up, d+1))
		}
		if out == nil {
			return unk
		}
		return out
	case *ssa.Alloc:
		return unk
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return unk
		}
		a := w.p.cellOf(x.X)
		if a == nil {
			return unk
		}
		f := fr
		for f != nil && f.fn != a.Parent() {
			f = f.up
		}
		if f == nil {
			return unk
		}
		var out []string
		for _, s := range w.p.cellStores(a) {
			g := fr
			for g != nil && g.fn != s.Parent() {
				g = g.up
			}
			if g == nil {
				return unk
			}
			out = union(out, w.eval(s.Val, g, d+1))
		}
		if out == nil {
			return unk
		}
		return out
	case *ssa.MakeInterface:
		return w.eval(x.X, fr, d+1)
	case *ssa.ChangeType:
		return w.eval(x.X, fr, d+1)
	case *ssa.ChangeInterface:
		return w.eval(x.X, fr, d+1)
	case *ssa.Convert:
		return w.eval(x.X, fr, d+1)
	case *ssa.BinOp:
		if n, ok := counterInit(x); ok {
			return []string{fmt.Sprintf("{#%d}", n)}
		}
		if x.Op != token.ADD {
			return unk
		}
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return cross(w.eval(x.X, fr, d+1), w.eval(x.Y, fr, d+1))
		}
		k, ok := constInt(x.Y)
		l := w.eval(x.X, fr, d+1)
		if ok && len(l) == 1 && strings.HasPrefix(l[0], "{#") {
			if n, err := strconv.ParseInt(l[0][2:len(l[0])-1], 10, 64); err == nil {
				return []string{fmt.Sprintf("{#%d}", n+k)}
			}
		}
		return unk
	case *ssa.Phi:
		if n, ok := counterInit(x); ok {
			return []string{fmt.Sprintf("{#%d}", n)}
		}
		var out []string
		for _, e := range x.Edges {
			if e == ssa.Value(x) {
				continue
			}
			out = union(out, w.eval(e, fr, d+8))
		}
		return out
	case *ssa.Call:
		o := calleeObj(x)
		if o != nil && o.Pkg() != nil {
			switch o.Pkg().Path() + "." + o.Name() {
			case "fmt.Sprintf":
				return w.sprintf(x, fr, d)
			case "fmt.Sprint":
				out := []string{""}
				for _, a := range varargs(x) {
					out = cross(out, w.eval(a, fr, d+1))
				}
				return out
			case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint":
				return w.eval(x.Call.Args[0], fr, d+1)
			case "path.Join", "path/filepath.Join":
				var out []string
				for _, a := range varargs(x) {
					e := w.eval(a, fr, d+1)
					if out == nil {
						out = e
						continue
					}
					out = cross(cross(out, []string{"/"}), e)
				}
				return out
			}
		}
		var out []string
		for _, g := range w.callees(x) {
			if !w.p.IsLibFunc(g) || w.active[g] > 2 {
				return unk
			}
			nf := w.enter(x, g, fr, d)
			w.active[g]++
			blocks := w.blocks(nf)
			for _, r := range returns(g) {
				if blocks[r.Block()] && len(r.Results) == 1 {
					out = union(out, w.eval(r.Results[0], nf, d+1))
				}
			}
			w.active[g]--
		}
		if out == nil {
			return unk
		}
		return out
	}
	return unk
}

func (w *keyWalk) callees(c ssa.CallInstruction) []*ssa.Function {
	if c.Common().IsInvoke() {
		return nil
	}
	cs := w.p.Callees(c)
	if len(cs) == 0 {
		cs = w.p.dynCallees(c.Common().Value, map[ssa.Value]bool{})
	}
	return cs
}

func (w *keyWalk) enter(c ssa.CallInstruction, g *ssa.Function, fr *kframe, d int) *kframe {
	nf := &kframe{fn: g, from: fr, site: c}
	for i, q := range g.Params {
		var e []string
		t := q.Type().Underlying()
		b, isB := t.(*types.Basic)
		_, isI := t.(*types.Interface)
		if isB && b.Info()&(types.IsString|types.IsInteger) != 0 || isI {
			if a := argFor(c, g, i); a != nil {
				e = w.eval(a, fr, d+1)
			}
		}
		nf.args = append(nf.args, e)
	}
	if g.Parent() != nil {
		for f := fr; f != nil; {
			if f.fn == g.Parent() {
				nf.up = f
				break
			}
			if f.up != nil {
				f = f.up
			} else {
				f = f.from
			}
		}
	}
	return nf
}

func (w *keyWalk) sprintf(x *ssa.Call, fr *kframe, d int) []string {
	formats := w.eval(x.Call.Args[0], fr, d+1)
	args := varargs(x)
	var all []string
	for _, format := range formats {
		out := []string{""}
		n := 0
		for i := 0; i < len(format); i++ {
			if format[i] != '%' {
				out = cross(out, []string{string(format[i])})
				continue
			}
			i++
			for i < len(format) && strings.IndexByte("0123456789+-# .", format[i]) >= 0 {
				i++
			}
			if i >= len(format) {
				break
			}
			if format[i] == '%' {
				out = cross(out, []string{"%"})
				continue
			}
			if n < len(args) {
				out = cross(out, w.eval(args[n], fr, d+1))
			} else {
				out = cross(out, []string{unknownPart})
			}
			n++
		}
		all = union(all, out)
	}
	return all
}

// decide: a comparison of strings whose outcome is known in this activation.
func (w *keyWalk) decide(c ssa.Value, fr *kframe) (val, known bool) {
	if u, ok := c.(*ssa.UnOp); ok && u.Op == token.NOT {
		v, k := w.decide(u.X, fr)
		return !v, k
	}
	b, ok := c.(*ssa.BinOp)
	if !ok {
		return false, false
	}
	for _, side := range []struct {
		l, z ssa.Value
		op   token.Token
	}{{b.X, b.Y, b.Op}, {b.Y, b.X, flip(b.Op)}} {
		z, isZ := constInt(side.z)
		if !isZ {
			continue
		}
		l, lok := w.lenOf(side.l, fr)
		if !lok {
			continue
		}
		switch {
		case side.op == token.EQL && z == 0, side.op == token.LEQ && z == 0, side.op == token.LSS && z == 1:
			return l == 0, true
		case side.op == token.NEQ && z == 0, side.op == token.GTR && z == 0, side.op == token.GEQ && z == 1:
			return l != 0, true
		}
	}
	if b.Op != token.EQL && b.Op != token.NEQ {
		return false, false
	}
	if t, ok := b.X.Type().Underlying().(*types.Basic); !ok || t.Info()&types.IsString == 0 {
		return false, false
	}
	xs, ys := w.eval(b.X, fr, 0), w.eval(b.Y, fr, 0)
	if len(xs) != 1 || len(ys) != 1 {
		return false, false
	}
	x, y := xs[0], ys[0]
	if strings.Contains(y, unknownPart) || strings.Contains(x, unknownPart) {
		return false, false
	}
	if x == y {
		return b.Op == token.EQL, true
	}
	if !strings.Contains(x, "{") && !strings.Contains(y, "{") || x == "" || y == "" {
		return b.Op == token.NEQ, true
	}
	return false, false
}

// lenOf: v is len of a string that is known to be empty (0) or not (1).
func (w *keyWalk) lenOf(v ssa.Value, fr *kframe) (int, bool) {
	c, ok := v.(*ssa.Call)
	if !ok {
		return 0, false
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
		return 0, false
	}
	t, ok := c.Call.Args[0].Type().Underlying().(*types.Basic)
	if !ok || t.Info()&types.IsString == 0 {
		return 0, false
	}
	xs := w.eval(c.Call.Args[0], fr, 0)
	if len(xs) != 1 || strings.Contains(xs[0], unknownPart) {
		return 0, false
	}
	if xs[0] == "" {
		return 0, true
	}
	return 1, true
}

func (w *keyWalk) blocks(fr *kframe) map[*ssa.BasicBlock]bool {
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if v, known := w.decide(iff.Cond, fr); known {
				if v {
					visit(b.Succs[0])
				} else {
					visit(b.Succs[1])
				}
				return
			}
		}
		for _, s := range b.Succs {
			visit(s)
		}
	}
	visit(fr.fn.Blocks[0])
	return seen
}

func join(ts []string) string {
	s := append([]string{}, ts...)
	sort.Strings(s)
	return strings.Join(s, "|")
}

var keyPrims = map[string]string{
	"WriteBytesForKey": "bytes", "WriteU64ForKey": "u64", "WriteJSONForKey": "json", "WriteAttributeForKey": "attribute", "WriteInstancesForKey": "instances",
	"GetBytesForKey": "bytes", "GetStringForKey": "bytes", "GetU64ForKey": "u64", "GetJSONForKey": "json", "GetAttributeForKey": "attribute", "GetInstancesForKey": "instances",
}

// prim: the call writes or reads an archive entry (or, with parts, a part of a serialised data set).
func (w *keyWalk) prim(c ssa.CallInstruction, write, parts bool) (key ssa.Value, kind string) {
	o := calleeObj(c)
	if o == nil {
		return nil, ""
	}
	if parts {
		if !write && o.Name() == "GetNamedFile" {
			if a := argsOf(c); len(a) == 1 {
				return a[0], "part"
			}
		}
		return nil, ""
	}
	if o.Name() == "SaveWithPrefix" && write || o.Name() == "LoadWithPrefix" && !write {
		if c.Common().IsInvoke() {
			if a := argsOf(c); len(a) == 2 {
				return a[1], "model"
			}
		}
		return nil, ""
	}
	kind = keyPrims[o.Name()]
	if kind == "" || strings.HasPrefix(o.Name(), "Write") != write {
		return nil, ""
	}
	sig := o.Type().(*types.Signature)
	if sig.Recv() == nil {
		return nil, ""
	}
	n := namedOf(deref(sig.Recv().Type()))
	if n == nil || n.Obj().Name() != "ClassifierSerializer" && n.Obj().Name() != "ClassifierDeserializer" {
		return nil, ""
	}
	return argsOf(c)[0], kind
}

// touches: the function (or what it calls statically) writes or reads entries.
func (w *keyWalk) touches(f *ssa.Function, write, parts bool, busy map[*ssa.Function]bool) bool {
	if busy[f] || !w.p.IsLibFunc(f) {
		return false
	}
	busy[f] = true
	for _, i := range instrs(f) {
		if parts && w.partAt(i, write) != nil {
			return true
		}
		c, ok := i.(ssa.CallInstruction)
		if !ok {
			continue
		}
		if k, _ := w.prim(c, write, parts); k != nil {
			return true
		}
		for _, g := range w.callees(c) {
			if w.touches(g, write, parts, busy) {
				return true
			}
		}
	}
	return false
}

// partAt: the instruction names a part of a serialised data set: a header's Name on writing, a comparison with it on
// reading.
func (w *keyWalk) partAt(i ssa.Instruction, write bool) ssa.Value {
	isName := func(t types.Type, k int) bool {
		n := namedOf(deref(t))
		if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "archive/tar" || n.Obj().Name() != "Header" {
			return false
		}
		fv := fieldVar(t, k)
		return fv != nil && fv.Name() == "Name"
	}
	if write {
		if s, ok := i.(*ssa.Store); ok {
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok && isName(fa.X.Type(), fa.Field) {
				return s.Val
			}
		}
		return nil
	}
	if b, ok := i.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
		for k, v := range []ssa.Value{b.X, b.Y} {
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
				if fa, ok := u.X.(*ssa.FieldAddr); ok && isName(fa.X.Type(), fa.Field) {
					if k == 0 {
						return b.Y
					}
					return b.X
				}
			}
		}
	}
	return nil
}

func (w *keyWalk) walk(fr *kframe, write, parts, cond, loop bool) {
	w.steps++
	if w.active[fr.fn] > 1 || w.steps > 3000 {
		return
	}
	w.active[fr.fn]++
	defer func() { w.active[fr.fn]-- }()
	blocks := w.blocks(fr)
	for _, b := range fr.fn.Blocks {
		if !blocks[b] {
			continue
		}
		h, _ := innermostLoop(b)
		for _, i := range b.Instrs {
			if parts {
				if v := w.partAt(i, write); v != nil && fr.fn.Name() != "GetNamedFile" {
					w.out = append(w.out, &kentry{tmpl: join(w.eval(v, fr, 0)), kind: "part", call: nil, fr: fr, cond: cond || w.conditional(fr, i, blocks), loop: loop || h != nil})
				}
			}
			c, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if k, kind := w.prim(c, write, parts); k != nil {
				w.out = append(w.out, &kentry{tmpl: join(w.eval(k, fr, 0)), kind: kind, call: c, fr: fr, cond: cond || h == nil && w.conditional(fr, i, blocks), loop: loop || h != nil})
				continue
			}
			for _, g := range w.callees(c) {
				if w.touches(g, write, parts, map[*ssa.Function]bool{}) {
					w.walk(w.enter(c, g, fr, 0), write, parts, cond || h == nil && w.conditional(fr, i, blocks), loop || h != nil)
				}
			}
		}
	}
}

// conditional: a successful path of the activation avoids the instruction.
func (w *keyWalk) conditional(fr *kframe, i ssa.Instruction, blocks map[*ssa.BasicBlock]bool) bool {
	// a read with several sites of the same effect is not tracked: plain avoidance
	f := fr.fn
	type st struct {
		b *ssa.BasicBlock
		k int
	}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	seen := map[*ssa.BasicBlock]bool{}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] || !blocks[b] {
			continue
		}
		seen[b] = true
		stop := false
		for _, j := range b.Instrs {
			if j == i {
				stop = true
				break
			}
			if r, ok := j.(*ssa.Return); ok && b != f.Recover {
				if !w.returnsError(r) {
					return true
				}
			}
		}
		if stop {
			continue
		}
		succ := b.Succs
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if v, known := w.decide(iff.Cond, fr); known {
				if v {
					succ = succ[:1]
				} else {
					succ = succ[1:]
				}
			}
		}
		work = append(work, succ...)
	}
	return false
}

// returnsError: the return cannot report success.
func (w *keyWalk) returnsError(r *ssa.Return) bool {
	f := r.Parent()
	res := f.Signature.Results()
	if res.Len() == 0 || !isErrorType(res.At(res.Len()-1).Type()) {
		return false
	}
	if g, ok := w.p.retVal(r, len(r.Results)-1).(*ssa.UnOp); ok && g.Op == token.MUL {
		if _, isG := g.X.(*ssa.Global); isG {
			return true // a package's error variable
		}
	}
	return !w.p.successReturn(r)
}

// ---- data flow to and from the entries ----

type fieldHit struct {
	v    *types.Var
	role string
}

// sources: the fields the value comes from (first field loads on every backward path).
func (p *Prog) sources(v ssa.Value) []fieldHit {
	var out []fieldHit
	type st struct {
		v    ssa.Value
		role string
	}
	seen := map[st]bool{}
	var walk func(v ssa.Value, role string, d int)
	walk = func(v ssa.Value, role string, d int) {
		if v == nil || seen[st{v, role}] || d > 60 {
			return
		}
		seen[st{v, role}] = true
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if fa, ok := x.X.(*ssa.FieldAddr); ok {
					if a := p.cellOf(fa.X); a != nil {
						if ss := p.localFieldStores(a, fa.Field); len(ss) > 0 {
							for _, s := range ss {
								walk(s.Val, role, d+1)
							}
							return
						}
					}
					out = append(out, fieldHit{fieldVar(fa.X.Type(), fa.Field), role})
					return
				}
				if a := p.cellOf(x.X); a != nil {
					for _, s := range p.cellStores(a) {
						walk(s.Val, role, d+1)
					}
					return
				}
			}
			walk(x.X, role, d+1)
			return
		case *ssa.FieldAddr:
			out = append(out, fieldHit{fieldVar(x.X.Type(), x.Field), role})
			return
		case *ssa.Field:
			st := x.X.Type().Underlying().(*types.Struct)
			out = append(out, fieldHit{st.Field(x.Field), role})
			return
		case *ssa.Extract:
			if n, ok := x.Tuple.(*ssa.Next); ok {
				r := role
				if r == "" && x.Index == 1 {
					r = "key"
				} else if r == "" && x.Index == 2 {
					r = "value"
				}
				walk(n.Iter, r, d+1)
				return
			}
			walk(x.Tuple, role, d+1)
			return
		case *ssa.Lookup:
			r := role
			if r == "" {
				r = "value"
			}
			walk(x.X, r, d+1)
			return
		case *ssa.MakeMap:
			for _, u := range *x.Referrers() {
				if m, ok := u.(*ssa.MapUpdate); ok {
					walk(m.Value, "", d+1)
				}
			}
			return
		case *ssa.Alloc:
			for _, s := range p.cellStores(x) {
				walk(s.Val, role, d+1)
			}
			for _, u := range *x.Referrers() {
				if ia, ok := u.(*ssa.IndexAddr); ok {
					for _, q := range *ia.Referrers() {
						if s, ok := q.(*ssa.Store); ok && s.Addr == ssa.Value(ia) {
							walk(s.Val, role, d+1)
						}
					}
				}
			}
			return
		case *ssa.Parameter:
			if x.Parent().Signature.Recv() != nil && len(x.Parent().Params) > 0 && x.Parent().Params[0] == x {
				out = append(out, fieldHit{nil, "whole"})
				return
			}
			for _, l := range p.Trace(x, TraceOpt{}) {
				if l != ssa.Value(x) {
					walk(l, role, d+1)
				}
			}
			return
		}
		if i, ok := v.(ssa.Instruction); ok {
			for _, op := range i.Operands(nil) {
				if *op != nil {
					if _, isF := (*op).(*ssa.Function); !isF {
						walk(*op, role, d+1)
					}
				}
			}
		}
	}
	walk(v, "", 0)
	return out
}

// sinks: the fields the values end up in.
func (p *Prog) fieldSinks(start []ssa.Value) []fieldHit {
	var out []fieldHit
	type st struct {
		v    ssa.Value
		role string
	}
	seen := map[st]bool{}
	var work []st
	push := func(v ssa.Value, role string) {
		if v != nil && !seen[st{v, role}] {
			seen[st{v, role}] = true
			work = append(work, st{v, role})
		}
	}
	for _, v := range start {
		push(v, "")
	}
	addr := func(a ssa.Value, role string) {
		for {
			switch y := a.(type) {
			case *ssa.FieldAddr:
				if c := p.cellOf(y.X); c == nil {
					out = append(out, fieldHit{fieldVar(y.X.Type(), y.Field), role})
				} else {
					out = append(out, fieldHit{fieldVar(y.X.Type(), y.Field), role})
				}
				return
			case *ssa.IndexAddr:
				switch z := y.X.(type) {
				case *ssa.UnOp:
					a = z.X
					if c := p.cellOf(a); c != nil {
						for _, l := range p.cellLoads(c) {
							push(l, role)
						}
						for _, s := range p.cellStores(c) {
							push(s.Val, role)
						}
						return
					}
					continue
				default:
					push(y.X, role)
					return
				}
			default:
				if c := p.cellOf(a); c != nil {
					for _, l := range p.cellLoads(c) {
						push(l, role)
					}
				}
				return
			}
		}
	}
	for len(work) > 0 && len(seen) < 4000 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if fa, ok := s.v.(*ssa.FieldAddr); ok {
			out = append(out, fieldHit{fieldVar(fa.X.Type(), fa.Field), s.role})
			continue
		}
		if isErrorType(s.v.Type()) {
			continue
		}
		if a, ok := s.v.(*ssa.Alloc); ok {
			for _, l := range p.cellLoads(a) {
				push(l, s.role)
			}
		}
		refs := s.v.Referrers()
		if refs == nil {
			continue
		}
		for _, u := range *refs {
			switch x := u.(type) {
			case *ssa.Store:
				if x.Val == s.v {
					addr(x.Addr, s.role)
				}
			case *ssa.MapUpdate:
				r := s.role
				if x.Value == s.v && r == "" {
					r = "value"
				} else if x.Key == s.v && r == "" {
					r = "key"
				}
				if x.Map == s.v {
					continue
				}
				// the map: a field's or a local one
				if fv, _ := fieldLoad(x.Map); fv != nil {
					out = append(out, fieldHit{fv, r})
				} else if uo, ok := x.Map.(*ssa.UnOp); ok {
					addr(uo.X, r)
				} else {
					push(x.Map, r)
				}
			case *ssa.If, *ssa.Return, *ssa.DebugRef, *ssa.Panic:
				if r, ok := u.(*ssa.Return); ok {
					// a helper's result
					f := r.Parent()
					for k, rv := range r.Results {
						if rv != s.v {
							continue
						}
						for _, c := range p.callers[f] {
							cv, ok := c.(*ssa.Call)
							if !ok {
								continue
							}
							if len(r.Results) == 1 {
								push(cv, s.role)
							} else if e := resultExtract(cv, k); e != nil {
								push(e, s.role)
							}
						}
					}
				}
			case ssa.CallInstruction:
				if b, ok := x.Common().Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
					continue
				}
				// arguments by address receive the data (json.Unmarshal(b, &x))
				for _, a := range x.Common().Args {
					if a == s.v {
						continue
					}
					t := a
					if mi, ok := a.(*ssa.MakeInterface); ok {
						t = mi.X
					}
					if _, ok := t.Type().Underlying().(*types.Pointer); ok && isCallTo(x, "encoding/json", "", "Unmarshal") {
						switch y := t.(type) {
						case *ssa.Alloc, *ssa.FieldAddr:
							push(y.(ssa.Value), s.role)
						default:
							out = append(out, fieldHit{nil, "whole"})
						}
					}
				}
				if g := x.Common().StaticCallee(); g != nil && p.IsLibFunc(g) {
					for i, q := range g.Params {
						if argFor(x, g, i) == s.v {
							push(q, s.role)
						}
					}
				}
				if v, ok := u.(ssa.Value); ok {
					push(v, s.role)
				}
			default:
				if v, ok := u.(ssa.Value); ok {
					if b, isB := v.(*ssa.BinOp); isB && isCompare(b.Op) {
						continue
					}
					push(v, s.role)
				}
			}
		}
	}
	return out
}

func whole(hs []fieldHit) bool {
	for _, h := range hs {
		if h.role == "whole" {
			return true
		}
	}
	return false
}

func agree(w, r []fieldHit) bool {
	if len(w) == 0 || len(r) == 0 || whole(w) || whole(r) {
		return true
	}
	for _, a := range w {
		for _, b := range r {
			if a.v == b.v && (a.role == b.role || a.role == "" || b.role == "") {
				return true
			}
		}
	}
	return false
}

func hitNames(hs []fieldHit) string {
	m := map[string]bool{}
	for _, h := range hs {
		if h.v != nil {
			n := h.v.Name()
			if h.role == "key" {
				n += " (keys)"
			}
			m[n] = true
		}
	}
	return strings.Join(sortedKeys(m), ", ")
}

// ---- the rule ----

func compatible(w, r string) bool {
	if w == r {
		return true
	}
	raw := func(k string) bool { return k == "bytes" || k == "json" }
	return raw(w) && raw(r) || w == "bytes" || r == "bytes"
}

func (w *keyWalk) run(f *ssa.Function, prefix string, write, parts bool) []*kentry {
	w.out = nil
	w.steps = 0
	fr := &kframe{fn: f}
	for _, q := range f.Params {
		var e []string
		if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			e = []string{prefix}
		}
		fr.args = append(fr.args, e)
	}
	w.walk(fr, write, parts, false, false)
	return w.out
}

func shortTmpl(t string) string {
	t = strings.ReplaceAll(t, "{P}", "")
	return strings.TrimLeft(t, "/")
}

func runC13(c *Ctx) {
	p := c.P
	w := &keyWalk{p: p, memo: map[*ssa.Function]bool{}, active: map[*ssa.Function]int{}}
	type model struct {
		t          *types.Named
		save, load *ssa.Function
	}
	var models []model
	for _, t := range p.NamedTypes() {
		s, l := p.Method(t, "SaveWithPrefix"), p.Method(t, "LoadWithPrefix")
		if s == nil || l == nil || !p.IsLibFunc(s) || !p.IsLibFunc(l) || s.Signature.Recv() == nil || namedOf(deref(s.Signature.Recv().Type())) != t {
			continue
		}
		models = append(models, model{t, s, l})
	}
	allReads := map[string]bool{}
	type scen struct {
		name   string
		w, r   []*kentry
		parts  bool
		prefix string
	}
	var scens []scen
	for _, m := range models {
		n := typeName(m.t)
		scens = append(scens, scen{name: n, w: w.run(m.save, "{P}", true, false), r: w.run(m.load, "{P}", false, false)})
		sv, ld := p.Method(m.t, "Save"), p.Method(m.t, "Load")
		if sv != nil && ld != nil && p.IsLibFunc(sv) && p.IsLibFunc(ld) {
			scens = append(scens, scen{name: n + ".file", w: w.run(sv, "{F}", true, false), r: w.run(ld, "{F}", false, false)})
		}
	}
	sT, rT := p.Func("base.SerializeInstancesToTarWriter"), p.Func("base.DeserializeInstancesFromTarReader")
	if sT != nil && rT != nil {
		scens = append(scens, scen{name: "base.DenseInstances", parts: true, w: w.run(sT, "{P}", true, true), r: w.run(rT, "{P}", false, true)})
	}
	for _, s := range scens {
		for _, r := range s.r {
			allReads[shortTmpl(r.tmpl)] = true
		}
	}
	nw, nr := 0, 0
	for _, s := range scens {
		nw += len(s.w)
		nr += len(s.r)
		for _, r := range s.r {
			key := fmt.Sprintf("read/%s/%s", s.name, shortTmpl(r.tmpl))
			at := p.Pos(r.fr.fn.Pos())
			if r.call != nil {
				at = p.InstrPos(r.call)
			}
			if strings.Contains(r.tmpl, unknownPart) {
				continue
			}
			var match *kentry
			kinds := ""
			for _, x := range s.w {
				if x.tmpl != r.tmpl {
					continue
				}
				if compatible(x.kind, r.kind) {
					if match == nil || !x.cond {
						match = x
					}
				} else {
					kinds = x.kind
				}
			}
			if match == nil {
				wild := false
				for _, x := range s.w {
					if strings.Contains(x.tmpl, unknownPart) {
						wild = true
					}
				}
				if kinds != "" {
					c.Bad(key, at, fmt.Sprintf("loading reads %q as %s, but it is saved as %s", shortTmpl(r.tmpl), r.kind, kinds))
				} else if !wild {
					c.Bad(key, at, fmt.Sprintf("loading reads %q, which saving never writes: a saved model cannot be loaded", r.tmpl))
				}
				continue
			}
			if match.cond && !match.loop && !r.cond {
				c.Bad(key, at, fmt.Sprintf("loading requires %q, but saving can succeed without writing it", shortTmpl(r.tmpl)))
				continue
			}
			if call, ok := r.call.(*ssa.Call); ok && (r.kind == "u64" || r.kind == "attribute" || r.kind == "attributes" || r.kind == "bytes" || r.kind == "instances") && unused(resultExtract(call, 0)) {
				c.Bad(key, at, fmt.Sprintf("%q is read, but the value is thrown away", shortTmpl(r.tmpl)))
				continue
			}
			if call, ok := match.call.(*ssa.Call); ok && match.kind == "u64" && len(argsOf(call)) == 2 {
				v := argsOf(call)[1]
				for {
					if cv, ok := v.(*ssa.Convert); ok {
						v = cv.X
						continue
					}
					break
				}
				if isCap(v) {
					c.Bad(key, p.InstrPos(call), fmt.Sprintf("%q is saved as the capacity of a list, not its length", shortTmpl(r.tmpl)))
					continue
				}
			}
			if r.call != nil && match.call != nil && r.kind != "model" && r.kind != "part" {
				wf := p.entrySources(match)
				rf := p.entrySinks(r)
				if r.kind != "attribute" {
					wf, rf = plain(wf), plain(rf)
				}
				if !agree(wf, rf) {
					c.Bad(key, at, fmt.Sprintf("%q is saved from %s but loaded into %s", shortTmpl(r.tmpl), hitNames(wf), hitNames(rf)))
					continue
				}
			}
			c.Ok(key, at, "written by saving, same encoding and field")
		}
		for _, x := range s.w {
			if strings.Contains(x.tmpl, unknownPart) {
				continue
			}
			key := fmt.Sprintf("write/%s/%s", s.name, shortTmpl(x.tmpl))
			at := p.Pos(x.fr.fn.Pos())
			if x.call != nil {
				at = p.InstrPos(x.call)
			}
			c.Check(allReads[shortTmpl(x.tmpl)], key, at, "read back by loading", fmt.Sprintf("%q is saved but nothing ever reads it back: that part of the model is lost", shortTmpl(x.tmpl)))
		}
		// twice under one name: the first entry wins
		seen := map[string]*kentry{}
		for _, x := range s.w {
			if strings.Contains(x.tmpl, "{?}") || strings.Contains(x.tmpl, "|") {
				continue
			}
			if o := seen[x.tmpl]; o != nil && (o.call != x.call || o.fr.site != x.fr.site) && !exclusive(o, x) {
				at := p.Pos(x.fr.fn.Pos())
				if x.call != nil {
					at = p.InstrPos(x.call)
				}
				c.Bad("twice/"+s.name+"/"+shortTmpl(x.tmpl), at, fmt.Sprintf("%q is written twice: readers see only one of the entries", x.tmpl))
			} else if o == nil {
				seen[x.tmpl] = x
				if x.loop && !strings.Contains(x.tmpl, "{#") && !strings.HasPrefix(s.name, "zz") {
					at := p.Pos(x.fr.fn.Pos())
					if x.call != nil {
						at = p.InstrPos(x.call)
					}
					c.Bad("twice/"+s.name+"/"+shortTmpl(x.tmpl), at, fmt.Sprintf("%q is written once per round of a loop under the same name: readers see only one of the entries", x.tmpl))
				}
			}
		}
		w.loops(c, s.name, s.r, s.w)
	}
	c.Floor("entries written", nw, 40)
	c.Floor("entries read", nr, 40)
	c.Floor("model types", len(models), 8)
	for _, m := range models {
		w.restored(c, m.t, m.load)
		w.walkOver(c, m.t, m.save, m.load)
		w.mapTwins(c, "params/"+typeName(m.t), p.Method(m.t, "GetMetadata"), m.load)
		// delegated parameters are checked with the type they belong to
	}
	for _, t := range p.NamedTypes() {
		mj, uj := p.Method(t, "MarshalJSON"), p.Method(t, "UnmarshalJSON")
		if mj != nil && uj != nil && p.IsLibFunc(mj) && p.IsLibFunc(uj) && namedOf(deref(mj.Signature.Recv().Type())) == t {
			w.mapTwins(c, "json/"+typeName(t), mj, uj)
		}
	}
	w.attributeTags(c)
	columnsOrder(c, sT, rT)
}

func exclusive(a, b *kentry) bool {
	if a.call == nil || b.call == nil || a.call.Parent() != b.call.Parent() {
		return false
	}
	x, y := a.call.Block(), b.call.Block()
	return x != y && !reach(x)[y] && !reach(y)[x]
}

func (p *Prog) entrySources(e *kentry) []fieldHit {
	a := argsOf(e.call)
	if len(a) < 2 {
		return nil
	}
	return p.sources(a[1])
}

func (p *Prog) entrySinks(e *kentry) []fieldHit {
	a := argsOf(e.call)
	if e.kind == "json" && len(a) == 2 {
		v := a[1]
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		return p.fieldSinks([]ssa.Value{v})
	}
	call, ok := e.call.(*ssa.Call)
	if !ok {
		return nil
	}
	var start []ssa.Value
	if r := resultExtract(call, 0); r != nil {
		start = append(start, r)
	}
	return p.fieldSinks(start)
}

// loops: reading loops run over exactly the saved number, and neither side stops early.
func (w *keyWalk) loops(c *Ctx, name string, rs, ws []*kentry) {
	p := w.p
	done := map[string]bool{}
	for k, list := range [][]*kentry{rs, ws} {
		for _, e := range list {
			for fr, site := e.fr, ssa.Instruction(e.call); fr != nil && site != nil; {
				if e.call == nil {
					break
				}
				h, body := innermostLoop(site.Block())
				for h != nil {
					dir := "load"
					if k == 1 {
						dir = "save"
					}
					key := fmt.Sprintf("loop/%s/%s/%s", name, dir, shortTmpl(e.tmpl))
					if !done[key] {
						done[key] = true
						why := ""
						for b := range body {
							for _, n := range b.Succs {
								if body[n] || b == h || isPanic(n.Instrs[len(n.Instrs)-1]) {
									continue
								}
								if !w.onlyErrors(n, map[*ssa.BasicBlock]bool{}) {
									why = "it can end before the last element without an error"
								}
							}
						}
						for _, cl := range countingLoops(fr.fn) {
							if cl.Header != h || why != "" {
								continue
							}
							var bound ssa.Value
							bound, why = p.wholeCount(cl)
							if k == 0 && why == "" && bound != nil {
								why = w.countSource(bound, e, fr, ws)
							}
						}
						if why == "" && w.skips(h, body, func(b *ssa.BasicBlock) bool { return b == site.Block() }, fr) {
							why = "some elements are passed over"
						}
						c.Check(why == "", key, p.InstrPos(site), "the loop covers every saved element", fmt.Sprintf("the loop over %q: %s", shortTmpl(e.tmpl), why))
					}
					// outer loop
					var oh *ssa.BasicBlock
					var ob map[*ssa.BasicBlock]bool
					for _, b := range fr.fn.Blocks {
						nb := naturalLoop(b)
						if nb == nil || b == h || !nb[h] {
							continue
						}
						if ob == nil || len(nb) < len(ob) {
							oh, ob = b, nb
						}
					}
					h, body = oh, ob
					break
				}
				if fr.site == nil {
					break
				}
				site = fr.site
				fr = fr.from
			}
		}
	}
}

func isCap(v ssa.Value) bool {
	cl, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := cl.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "cap"
}

// wholeCount: the number a counting loop runs to, and why it does not visit every element below it.
func (p *Prog) wholeCount(cl *CountLoop) (ssa.Value, string) {
	bound := cl.Bound
	strip := func(v ssa.Value) ssa.Value {
		for {
			if cv, ok := v.(*ssa.Convert); ok {
				v = cv.X
				continue
			}
			return v
		}
	}
	if lc, ok := strip(bound).(*ssa.Call); ok {
		if b, ok := lc.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			for _, l := range p.Trace(lc.Call.Args[0], TraceOpt{NoCalls: true, NoParams: true}) {
				switch x := l.(type) {
				case *ssa.Slice:
					if lo, isC := constInt(x.Low); x.Low != nil && !(isC && lo == 0) {
						return nil, "it leaves out the first elements"
					}
				case *ssa.MakeSlice:
					bound = x.Len
				}
			}
			if cl.Range && bound == cl.Bound {
				return nil, ""
			}
		}
	}
	if !cl.Range {
		n, isC := constInt(cl.Init)
		switch {
		case isC && n != 0:
			return nil, "it does not start with the first element"
		case cl.Step != 1 && cl.Step != 0:
			return nil, "it skips elements"
		}
	}
	if b, ok := strip(bound).(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
		if k, isC := constInt(b.Y); isC {
			if b.Op == token.SUB && k == 1 && cl.Op == token.LEQ {
				return b.X, ""
			}
			return nil, "its bound is not the number of elements"
		}
	}
	if cl.Op == token.LEQ {
		return nil, "it runs one element too far"
	}
	return bound, ""
}

// skips: a round of the loop can end normally without reaching any of the wanted blocks.
func (w *keyWalk) skips(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, want func(*ssa.BasicBlock) bool, fr *kframe) bool {
	seen := map[*ssa.BasicBlock]bool{}
	if want(h) {
		return false
	}
	var visit func(b *ssa.BasicBlock) bool
	visit = func(b *ssa.BasicBlock) bool {
		if b == h {
			return true
		}
		if seen[b] || !body[b] || want(b) {
			return false
		}
		seen[b] = true
		if _, inner := innermostLoop(b); inner != nil && len(inner) < len(body) {
			for x := range inner {
				if want(x) {
					return false // the inner loop is judged by itself
				}
			}
		}
		succ := b.Succs
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && fr != nil {
			if v, known := w.decide(iff.Cond, fr); known {
				if v {
					succ = succ[:1]
				} else {
					succ = succ[1:]
				}
			}
		}
		for _, n := range succ {
			if visit(n) {
				return true
			}
		}
		return false
	}
	// the first block of the body
	if iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); ok {
		_ = iff
		for _, n := range h.Succs {
			if body[n] && visit(n) {
				return true
			}
		}
		return false
	}
	for _, n := range h.Succs {
		if visit(n) {
			return true
		}
	}
	return false
}

// mustDo: every successful path of f does what pred recognises, itself or in a function it calls.
func (w *keyWalk) mustDo(f *ssa.Function, pred func(ssa.Instruction) bool, d int) bool {
	if f == nil || len(f.Blocks) == 0 || d > 6 {
		return false
	}
	ok, _ := mustPass(f, nil, func(i ssa.Instruction) bool {
		if pred(i) {
			return true
		}
		cl, isC := i.(*ssa.Call)
		if !isC {
			return false
		}
		g := cl.Call.StaticCallee()
		return g != nil && g != f && w.p.IsLibFunc(g) && w.mustDo(g, pred, d+1)
	}, func(r *ssa.Return) bool { return !w.returnsError(r) })
	return ok
}

func (p *Prog) calleeInLib(c ssa.CallInstruction) bool {
	for _, g := range p.Callees(c) {
		if p.IsLibFunc(g) && calleeObj(c) != nil {
			return true
		}
	}
	return false
}

// unused: the value is thrown away.
func unused(v ssa.Value) bool {
	if v == nil {
		return true
	}
	rs := v.Referrers()
	if rs == nil {
		return false
	}
	for _, u := range *rs {
		switch x := u.(type) {
		case *ssa.DebugRef:
		case *ssa.TypeAssert:
			if !x.CommaOk {
				if !unused(x) {
					return false
				}
				continue
			}
			for _, e := range *x.Referrers() {
				if ex, ok := e.(*ssa.Extract); ok && ex.Index == 0 && !unused(ex) {
					return false
				}
			}
		case *ssa.Convert:
			if !unused(x) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// walkOver: the loops of saving and loading that copy between containers copy every element, and loops whose bound
// is a saved number run to exactly that number.
func (w *keyWalk) walkOver(c *Ctx, t *types.Named, save, load *ssa.Function) {
	p := w.p
	training := map[*ssa.Function]bool{}
	if fit := p.Method(t, "Fit"); fit != nil {
		training = p.staticReach(fit)
	}
	for k, root := range []*ssa.Function{save, load} {
		side := []string{"save", "load"}[k]
		for _, f := range sortedFuncs(p, p.staticReach(root)) {
			if f.Pkg != root.Pkg || training[f] {
				continue
			}
			for _, h := range f.Blocks {
				body := naturalLoop(h)
				if body == nil {
					continue
				}
				effect := map[*ssa.BasicBlock]bool{}
				for b := range body {
					for _, i := range b.Instrs {
						switch x := i.(type) {
						case *ssa.MapUpdate:
							effect[b] = true
						case *ssa.Store:
							if _, el := x.Addr.(*ssa.IndexAddr); el {
								effect[b] = true
							}
						case *ssa.Call:
							if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
								effect[b] = true
							}
						}
					}
				}
				if len(effect) == 0 {
					continue
				}
				key := fmt.Sprintf("copy/%s/%s/%s", typeName(t), side, p.Name(f))
				at := p.InstrPos(h.Instrs[len(h.Instrs)-1])
				c.Check(!w.skips(h, body, func(b *ssa.BasicBlock) bool { return effect[b] }, nil), key, at, "every element is copied", "some elements are passed over while the rest are copied: part of the model is lost")
			}
			if k == 0 {
				continue
			}
			for _, ci := range calls(f) {
				call, ok := ci.(*ssa.Call)
				if !ok || call.Call.Signature().Results().Len() != 2 {
					continue
				}
				rt := call.Call.Signature().Results().At(0).Type()
				if nm := namedOf(rt); nm == nil || nm != p.Type("base", "Attribute") || !p.calleeInLib(call) {
					continue
				}
				key := fmt.Sprintf("used/%s/%s/%s", typeName(t), p.Name(f), calleeObj(call).Name())
				c.Check(!unused(resultExtract(call, 0)), key, p.InstrPos(call), "the attribute loaded is kept", "an attribute is loaded, but thrown away")
			}
			for _, cl := range countingLoops(f) {
				saved := false
				for l := range p.backSlice(cl.Bound) {
					if ex, ok := l.(*ssa.Extract); ok {
						if call, ok := ex.Tuple.(*ssa.Call); ok {
							if pk, kind := w.prim(call, false, false); pk != nil && kind == "u64" {
								saved = true
							}
						}
					}
				}
				if !saved {
					continue
				}
				_, why := p.wholeCount(cl)
				c.Check(why == "", fmt.Sprintf("count/%s/%s", typeName(t), p.Name(f)), p.InstrPos(cl.If), "runs to the saved number", "a loop over a saved number: "+why)
			}
		}
	}
}

// countSource: the bound of a loading loop is a count that was saved as the length of what the saving loop walks.
func (w *keyWalk) countSource(bound ssa.Value, e *kentry, fr *kframe, ws []*kentry) string {
	p := w.p
	if _, isC := constInt(bound); isC {
		return "its bound is a constant"
	}
	for _, l := range p.Trace(bound, TraceOpt{NoCalls: true, NoParams: true}) {
		ex, ok := l.(*ssa.Extract)
		if !ok {
			continue
		}
		call, ok := ex.Tuple.(*ssa.Call)
		if !ok {
			continue
		}
		k, kind := w.prim(call, false, false)
		if k == nil || kind != "u64" {
			continue
		}
		t := join(w.eval(k, fr, 0))
		for _, x := range ws {
			if x.tmpl != t || x.kind != "u64" {
				continue
			}
			// written value must be a plain length
			v := argsOf(x.call)[1]
			for {
				if cv, ok := v.(*ssa.Convert); ok {
					v = cv.X
					continue
				}
				break
			}
			if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
				return fmt.Sprintf("the count saved under %q is not the number of elements", shortTmpl(t))
			}
			if isCap(v) {
				return fmt.Sprintf("the count saved under %q is the capacity of the list, not its length", shortTmpl(t))
			}
			// the list counted is the list written
			var want []fieldHit
			for _, y := range ws {
				if y.tmpl == e.tmpl && y.call != nil && y.loop {
					if y.kind == "model" {
						want = append(want, p.sources(recvOf(y.call))...)
					} else {
						want = append(want, p.entrySources(y)...)
					}
				}
			}
			var have []fieldHit
			for _, h := range p.sources(v) {
				have = append(have, fieldHit{h.v, ""})
			}
			if !agree(have, want) {
				// elements written may be fields of the counted list's elements
				if !p.elementOf(have, want) {
					return fmt.Sprintf("the count saved under %q is that of %s, while the elements saved are those of %s", shortTmpl(t), hitNames(have), hitNames(want))
				}
			}
		}
	}
	return ""
}

// elementOf: a wanted field belongs to the element type of a counted field.
func (p *Prog) elementOf(have, want []fieldHit) bool {
	for _, h := range have {
		if h.v == nil {
			return true
		}
		et := elemType(h.v.Type())
		n := namedOf(deref(et))
		if n == nil {
			continue
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			for _, x := range want {
				if x.v == st.Field(i) {
					return true
				}
			}
		}
	}
	return false
}

func (w *keyWalk) onlyErrors(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if seen[b] {
		return true
	}
	seen[b] = true
	if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
		return w.returnsError(r)
	}
	if isPanic(b.Instrs[len(b.Instrs)-1]) {
		return true
	}
	for _, s := range b.Succs {
		if !w.onlyErrors(s, seen) {
			return false
		}
	}
	return len(b.Succs) > 0
}

// staticReach: functions reached without interface dispatch.
func (p *Prog) staticReach(roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !p.IsLibFunc(f) {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			visit(a)
		}
		for _, c := range calls(f) {
			if g := c.Common().StaticCallee(); g != nil {
				visit(g)
			}
		}
	}
	for _, r := range roots {
		visit(r)
	}
	return seen
}

// restored: every field Predict reads and Fit sets is set by loading.
func (w *keyWalk) restored(c *Ctx, t *types.Named, load *ssa.Function) {
	p := c.P
	fit, pred := p.Method(t, "Fit"), p.Method(t, "Predict")
	if fit == nil || pred == nil {
		// trees fitted through another type: what Predict reads is what matters
		if pred == nil {
			return
		}
	}
	fields := func(fs map[*ssa.Function]bool, load bool) map[*types.Var]ssa.Instruction {
		out := map[*types.Var]ssa.Instruction{}
		for f := range fs {
			for _, i := range instrs(f) {
				fa, ok := i.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				fv := fieldVar(fa.X.Type(), fa.Field)
				if fv == nil || fv.Pkg() == nil || !p.libPkg(fv.Pkg()) {
					continue
				}
				for _, u := range *fa.Referrers() {
					switch x := u.(type) {
					case *ssa.UnOp:
						if load {
							out[fv] = i
						}
					case *ssa.Store:
						if !load && x.Addr == ssa.Value(fa) {
							out[fv] = i
						}
					case *ssa.MakeInterface:
						if !load {
							out[fv] = i
						}
					case *ssa.FieldAddr:
						// nested struct: handled by its own
					}
				}
			}
		}
		return out
	}
	users := []*ssa.Function{pred}
	if sv := p.Method(t, "SaveWithPrefix"); sv != nil {
		users = append(users, sv)
	}
	for _, o := range p.NamedTypes() {
		for _, mn := range []string{"PredictProba", "PredictLog"} {
			if m := p.Method(o, mn); m != nil && p.IsLibFunc(m) {
				users = append(users, m)
			}
		}
	}
	need := fields(p.staticReach(users...), true)
	roots := []*ssa.Function{load}
	if l := p.Method(t, "Load"); l != nil {
		roots = append(roots, l)
	}
	rs := p.staticReach(roots...)
	have := fields(rs, false)
	// json.Unmarshal into an object restores its encodable fields
	for f := range rs {
		for _, ci := range calls(f) {
			for _, dst := range jsonDst(ci) {
				p.encodable(dst.Type(), func(fv *types.Var) { have[fv] = ci }, map[types.Type]bool{})
			}
		}
	}
	var trained map[*types.Var]ssa.Instruction
	if fit != nil {
		trained = fields(p.staticReach(fit), false)
	}
	n := 0
	var names []*types.Var
	for fv := range need {
		names = append(names, fv)
	}
	sort.Slice(names, func(i, j int) bool { return names[i].Pos() < names[j].Pos() })
	st, _ := t.Underlying().(*types.Struct)
	own := func(fv *types.Var) bool {
		for i := 0; st != nil && i < st.NumFields(); i++ {
			if st.Field(i) == fv {
				return true
			}
			if st.Field(i).Embedded() {
				if es, ok := deref(st.Field(i).Type()).Underlying().(*types.Struct); ok {
					for k := 0; k < es.NumFields(); k++ {
						if es.Field(k) == fv {
							return true
						}
					}
				}
			}
		}
		return false
	}
	for _, fv := range names {
		if !own(fv) {
			continue
		}
		if trained != nil {
			if _, ok := trained[fv]; !ok {
				// parameters: must be restored if they are saved; constructors of ensembles supply the rest
				if have[fv] == nil {
					continue
				}
			}
		}
		n++
		if have[fv] != nil && own1(st, fv) {
			sets := func(i ssa.Instruction) bool {
				switch x := i.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						return fieldVar(fa.X.Type(), fa.Field) == fv
					}
					// a whole object is stored
					if nm := namedOf(x.Val.Type()); nm == t {
						return true
					}
				case *ssa.Call:
					for _, j := range jsonDst(x) {
						if fa, ok := j.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field) == fv {
							return true
						}
						hit := false
						p.encodable(j.Type(), func(g *types.Var) { hit = hit || g == fv }, map[types.Type]bool{})
						if hit {
							return true
						}
					}
					for _, a := range x.Call.Args {
						if fa, ok := a.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field) == fv {
							return true
						}
					}
				}
				return false
			}
			direct := false
			for f := range p.staticReach(load) {
				for _, i := range instrs(f) {
					if sets(i) {
						direct = true
					}
				}
			}
			if direct && !w.mustDo(load, sets, 0) {
				c.Bad("restore/"+typeName(t)+"."+fv.Name(), p.InstrPos(have[fv]), fmt.Sprintf("loading can succeed without restoring %s", fv.Name()))
				continue
			}
		}
		c.Check(have[fv] != nil, "restore/"+typeName(t)+"."+fv.Name(), p.InstrPos(need[fv]), "restored by loading", fmt.Sprintf("prediction or saving again reads %s, which training sets and loading does not restore: a loaded model predicts differently", fv.Name()))
	}
	c.Count("fields restored", n)
}

func (p *Prog) libPkg(pk *types.Package) bool {
	for q, ok := range p.isLib {
		if ok && q.Pkg == pk {
			return true
		}
	}
	return false
}

// encodable: the fields encoding/json carries.
func (p *Prog) encodable(t types.Type, f func(*types.Var), seen map[types.Type]bool) {
	t = deref(t)
	if seen[t] {
		return
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Struct:
		tags := map[string]int{}
		for i := 0; i < u.NumFields(); i++ {
			tag := strings.Split(reflect.StructTag(u.Tag(i)).Get("json"), ",")[0]
			if tag == "" {
				tag = u.Field(i).Name()
			}
			tags[tag]++
		}
		for i := 0; i < u.NumFields(); i++ {
			fv := u.Field(i)
			tag := strings.Split(reflect.StructTag(u.Tag(i)).Get("json"), ",")[0]
			name := tag
			if name == "" {
				name = fv.Name()
			}
			if !fv.Exported() || tag == "-" || tags[name] > 1 {
				continue
			}
			f(fv)
			p.encodable(fv.Type(), f, seen)
		}
	case *types.Slice:
		p.encodable(u.Elem(), f, seen)
	case *types.Map:
		p.encodable(u.Elem(), f, seen)
	case *types.Array:
		p.encodable(u.Elem(), f, seen)
	}
}

// jsonDst: what the call decodes JSON into.
func jsonDst(ci ssa.CallInstruction) []ssa.Value {
	var dst ssa.Value
	if isCallTo(ci, "encoding/json", "", "Unmarshal") {
		dst = ci.Common().Args[1]
	} else if o := calleeObj(ci); o != nil && o.Name() == "GetJSONForKey" {
		dst = argsOf(ci)[1]
	} else {
		return nil
	}
	if mi, ok := dst.(*ssa.MakeInterface); ok {
		dst = mi.X
	}
	return []ssa.Value{dst}
}

func own1(st *types.Struct, fv *types.Var) bool {
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i) == fv {
			return true
		}
	}
	return false
}

// mapTwins: a map of named values built by one function and taken apart by its counterpart.
func (w *keyWalk) mapTwins(c *Ctx, key string, wf, rf *ssa.Function) {
	p := c.P
	if wf == nil || rf == nil || !p.IsLibFunc(wf) {
		return
	}
	type wr struct {
		hits []fieldHit
		at   ssa.Instruction
		has  bool
	}
	writes := map[string]*wr{}
	dynamic := false
	for f := range p.staticReach(wf) {
		for _, i := range instrs(f) {
			m, ok := i.(*ssa.MapUpdate)
			if !ok {
				continue
			}
			if mt, ok := m.Map.Type().Underlying().(*types.Map); !ok || !isAnyMap(mt) {
				continue
			}
			k, ok := constStr(m.Key)
			if !ok {
				dynamic = true
				continue
			}
			if writes[k] == nil {
				writes[k] = &wr{at: i}
			}
			mv := m.Value
			if mi, ok := mv.(*ssa.MakeInterface); ok {
				mv = mi.X
			}
			if _, nested := mv.(*ssa.MakeMap); nested {
				continue
			}
			writes[k].hits = append(writes[k].hits, p.sources(mv)...)
		}
	}
	if len(writes) == 0 {
		return
	}
	reads := map[string]bool{}
	for _, f := range sortedFuncs(p, p.staticReach(rf)) {
		if recvNamed(f) != recvNamed(rf) && f.Signature.Recv() != nil {
			continue
		}
		for _, i := range instrs(f) {
			l, ok := i.(*ssa.Lookup)
			if !ok {
				continue
			}
			if mt, ok := l.X.Type().Underlying().(*types.Map); !ok || !isAnyMap(mt) {
				continue
			}
			k, ok := constStr(l.Index)
			if !ok {
				continue
			}
			reads[k] = true
			at := p.InstrPos(i)
			wk := writes[k]
			if wk == nil {
				if !dynamic {
					c.Bad(key+"/"+k, at, fmt.Sprintf("%q is looked for, but it is stored under no such name", k))
				}
				continue
			}
			if len(plain(wk.hits)) > 0 {
				var got ssa.Value = l
				if l.CommaOk {
					got = nil
					for _, u := range *l.Referrers() {
						if ex, ok := u.(*ssa.Extract); ok && ex.Index == 0 {
							got = ex
						}
					}
				}
				if unused(got) {
					c.Bad(key+"/"+k, at, fmt.Sprintf("%q is looked up, but the value is thrown away", k))
					continue
				}
			}
			if !w.mustDo(wf, func(i ssa.Instruction) bool {
				m, ok := i.(*ssa.MapUpdate)
				if !ok {
					return false
				}
				n, ok := constStr(m.Key)
				return ok && n == k
			}, 0) && !dynamic {
				c.Bad(key+"/"+k, p.InstrPos(wk.at), fmt.Sprintf("%q is left out on some successful path, so it is not restored", k))
				continue
			}
			if len(plain(wk.hits)) > 0 && !w.kept(l) {
				c.Bad(key+"/"+k, at, fmt.Sprintf("%q is there, but reading it can succeed without keeping its value", k))
				continue
			}
			rh := p.fieldSinks([]ssa.Value{l})
			rh = plain(rh)
			wh := plain(wk.hits)
			c.Check(agree(wh, rh), key+"/"+k, at, "written and read under the same name, from and into the same field", fmt.Sprintf("%q is written from %s and read into %s", k, hitNames(wh), hitNames(rh)))
		}
	}
	if len(reads) == 0 {
		return
	}
	for _, k := range sortedKeys(writes) {
		if reads[k] || len(plain(writes[k].hits)) == 0 {
			continue
		}
		if k == "name" {
			continue // restored by the caller, see the type tags
		}
		c.Bad(key+"/"+k, p.InstrPos(writes[k].at), fmt.Sprintf("%q is stored from %s, but never read back", k, hitNames(writes[k].hits)))
	}
}

// formatted: the place is an argument of a function that formats text.
func formatted(addr ssa.Value) bool {
	ia, ok := addr.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	for _, r := range *ia.X.Referrers() {
		s, ok := r.(*ssa.Slice)
		if !ok {
			continue
		}
		for _, u := range *s.Referrers() {
			if c, ok := u.(ssa.CallInstruction); ok {
				if o := calleeObj(c); o != nil && o.Pkg() != nil && o.Pkg().Path() == "fmt" {
					return true
				}
			}
		}
	}
	return false
}

// kept: when the map holds the value, of the kind asked for, it is put to use on every successful path.
func (w *keyWalk) kept(l *ssa.Lookup) bool {
	p := w.p
	from := map[ssa.Value]bool{l: true}
	for grown := true; grown; {
		grown = false
		for v := range from {
			if v.Referrers() == nil {
				continue
			}
			for _, u := range *v.Referrers() {
				switch t := u.(type) {
				case *ssa.Extract:
					if t.Index != 0 {
						continue
					}
				case *ssa.TypeAssert, *ssa.ChangeType, *ssa.Convert, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.Phi:
				default:
					continue
				}
				if !from[u.(ssa.Value)] {
					from[u.(ssa.Value)] = true
					grown = true
				}
			}
		}
	}
	dropped := false
	e := &Explorer{P: p}
	e.Decide = func(v ssa.Value, pp *pathPoint) (bool, bool) {
		if x, ok := v.(*ssa.Extract); ok && x.Index == 1 {
			if x.Tuple == ssa.Value(l) {
				return true, true
			}
			if t, ok := x.Tuple.(*ssa.TypeAssert); ok && from[t.X] {
				return true, true
			}
		}
		if x, eq, ok := nilTest(v); ok && from[x] {
			return !eq, true
		}
		return false, false
	}
	e.Visit = func(i ssa.Instruction, pp *pathPoint) bool {
		switch t := i.(type) {
		case *ssa.Store:
			if from[t.Val] && !formatted(t.Addr) {
				return true
			}
		case *ssa.MapUpdate:
			if from[t.Value] {
				return true
			}
		case ssa.CallInstruction:
			if o := calleeObj(t); o != nil && o.Pkg() != nil && o.Pkg().Path() == "fmt" {
				return false
			}
			for _, a := range allArgs(t) {
				if from[a] {
					return true
				}
				for b := range p.backSlice(a) {
					if from[b] && b.Parent() == i.Parent() {
						if _, isCall := a.(*ssa.Call); !isCall {
							return true
						}
					}
				}
			}
		case *ssa.IndexAddr:
			if from[t.X] {
				return true
			}
		case *ssa.Panic:
			return true
		case *ssa.Return:
			for _, r := range t.Results {
				if from[pp.Resolve(r)] {
					return true
				}
			}
			if n := len(t.Results); n > 0 && isErrorType(t.Results[n-1].Type()) {
				if r := pp.Resolve(t.Results[n-1]); !isNilConst(r) && !p.mayBeNilError(r, i.Block(), 0) {
					return true
				}
				if nl, ok := pp.nils[pp.Resolve(t.Results[n-1])]; ok && !nl {
					return true
				}
			}
			dropped = true
			return true
		}
		return false
	}
	e.Run(l)
	return !dropped
}

// plain forgets roles: values in maps of named values.
func plain(hs []fieldHit) []fieldHit {
	var out []fieldHit
	for _, h := range hs {
		if h.role != "whole" {
			out = append(out, fieldHit{h.v, ""})
		} else {
			out = append(out, h)
		}
	}
	return out
}

func recvNamed(f *ssa.Function) *types.Named {
	f = owner(f)
	if f.Signature.Recv() == nil {
		return nil
	}
	return namedOf(deref(f.Signature.Recv().Type()))
}

func isAnyMap(m *types.Map) bool {
	k, ok := m.Key().Underlying().(*types.Basic)
	if !ok || k.Info()&types.IsString == 0 {
		return false
	}
	it, ok := m.Elem().Underlying().(*types.Interface)
	return ok && it.NumMethods() == 0
}

// attributeTags: the type tag an attribute writes selects the same type on reading.
func (w *keyWalk) attributeTags(c *Ctx) {
	p := c.P
	df := p.Func("base.DeserializeAttribute")
	if df == nil {
		c.Bad("tags", "-", "base.DeserializeAttribute is gone: attributes cannot be read back")
		return
	}
	// tag -> type constructed
	made := map[string]string{}
	at := map[string]ssa.Instruction{}
	for f := range p.staticReach(df) {
		for _, i := range instrs(f) {
			b, ok := i.(*ssa.BinOp)
			if !ok || b.Op != token.EQL {
				continue
			}
			tag, ok := constStr(b.Y)
			if !ok {
				if tag, ok = constStr(b.X); !ok {
					continue
				}
			}
			for _, u := range *b.Referrers() {
				iff, ok := u.(*ssa.If)
				if !ok {
					continue
				}
				blk := iff.Block().Succs[0]
				for n := 0; n < 4; n++ {
					found := false
					for _, j := range blk.Instrs {
						var t types.Type
						switch y := j.(type) {
						case *ssa.MakeInterface:
							t = y.X.Type()
						case *ssa.Return:
							continue
						default:
							continue
						}
						if nm := namedOf(deref(t)); nm != nil && strings.HasSuffix(nm.Obj().Name(), "Attribute") {
							made[tag] = typeName(nm)
							at[tag] = j
							found = true
						}
					}
					if found || len(blk.Succs) != 1 {
						break
					}
					blk = blk.Succs[0]
				}
			}
		}
	}
	// maps of constructors are another way to write it: undecided
	n := 0
	seen := map[string]string{}
	for _, t := range p.implementers(p.Type("base", "Attribute")) {
		mj := p.Method(t, "MarshalJSON")
		if mj == nil || !p.IsLibFunc(mj) {
			continue
		}
		for f := range p.staticReach(mj) {
			for _, i := range instrs(f) {
				m, ok := i.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				k, ok := constStr(m.Key)
				if !ok || k != "type" {
					continue
				}
				v := m.Value
				if mi, ok := v.(*ssa.MakeInterface); ok {
					v = mi.X
				}
				tag, ok := constStr(v)
				if !ok {
					continue
				}
				n++
				key := "tag/" + typeName(t)
				if o := seen[tag]; o != "" {
					c.Bad(key, p.InstrPos(i), fmt.Sprintf("attribute types %s and %s both use the tag %q", o, typeName(t), tag))
					continue
				}
				seen[tag] = typeName(t)
				if len(made) == 0 {
					continue
				}
				c.Check(made[tag] == typeName(t), key, p.InstrPos(i), fmt.Sprintf("tag %q is read back as the same type", tag), fmt.Sprintf("%s is written with the tag %q, which reading turns into %q", typeName(t), tag, made[tag]))
			}
		}
	}
	c.Floor("attribute type tags", n, 3)
	// the envelope
	want := map[string]bool{}
	for _, t := range p.implementers(p.Type("base", "Attribute")) {
		if mj := p.Method(t, "MarshalJSON"); mj != nil && p.IsLibFunc(mj) {
			for f := range p.staticReach(mj) {
				for _, i := range instrs(f) {
					if m, ok := i.(*ssa.MapUpdate); ok {
						if k, ok := constStr(m.Key); ok {
							want[k] = true
						}
					}
				}
			}
		}
	}
	for f := range p.staticReach(df) {
		for _, ci := range calls(f) {
			if !isCallTo(ci, "encoding/json", "", "Unmarshal") || f != df {
				continue
			}
			d := ci.Common().Args[1]
			if mi, ok := d.(*ssa.MakeInterface); ok {
				d = mi.X
			}
			st, ok := deref(d.Type()).Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				tag := strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")[0]
				if tag == "" {
					tag = st.Field(i).Name()
				}
				hit := want[tag]
				for k := range want {
					if strings.EqualFold(k, tag) {
						hit = true
					}
				}
				c.Check(hit, "envelope/"+tag, p.InstrPos(ci), "written by every attribute", fmt.Sprintf("attributes are read from the field %q, which none of them writes", tag))
			}
			// the name is given back
			named := w.mustDo(df, func(i ssa.Instruction) bool {
				cj, ok := i.(*ssa.Call)
				return ok && methodNamed(cj, "SetName")
			}, 0)
			c.Check(named, "envelope/SetName", p.Pos(df.Pos()), "the name is restored", "attributes read back do not get their name")
		}
	}
}

// columnsOrder: class columns and other columns are laid out in the same order by the writer and the reader of a
// serialised data set.
func columnsOrder(c *Ctx, sT, rT *ssa.Function) {
	p := c.P
	if sT == nil || rT == nil {
		c.Bad("columns", "-", "the data-set serialiser or its counterpart is gone")
		return
	}
	layout := func(root *ssa.Function) (map[string]bool, ssa.Instruction) {
		off := map[string]bool{}
		var where ssa.Instruction
		role := func(v ssa.Value) string {
			r := ""
			seen := map[ssa.Value]bool{}
			var look func(v ssa.Value, d int)
			look = func(v ssa.Value, d int) {
				if v == nil || seen[v] || d > 30 || r != "" {
					return
				}
				seen[v] = true
				if cl, ok := v.(*ssa.Call); ok {
					if o := calleeObj(cl); o != nil {
						switch {
						case o.Name() == "AllClassAttributes":
							r = "class"
							return
						case strings.HasPrefix(o.Name(), "NonClass"):
							r = "other"
							return
						case o.Name() == "GetNamedFile":
							w := &keyWalk{p: p, memo: map[*ssa.Function]bool{}, active: map[*ssa.Function]int{}}
							fr := &kframe{fn: cl.Parent(), args: nil}
							for _, q := range cl.Parent().Params {
								_ = q
								fr.args = append(fr.args, []string{"{P}"})
							}
							for _, t := range w.eval(argsOf(cl)[0], fr, 0) {
								if strings.HasSuffix(t, "CATTRS") {
									r = "class"
								} else if strings.HasSuffix(t, "ATTRS") {
									r = "other"
								}
							}
							return
						}
					}
				}
				if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
					if a := p.cellOf(u.X); a != nil {
						// the store that reaches this load last, if it is plain
						var best *ssa.Store
						for _, s := range p.cellStores(a) {
							if before(s, u) && (best == nil || before(best, s)) {
								best = s
							}
						}
						if best != nil {
							look(best.Val, d+1)
							return
						}
					}
				}
				if i, ok := v.(ssa.Instruction); ok {
					for _, op := range i.Operands(nil) {
						if *op != nil {
							look(*op, d+1)
						}
					}
				}
			}
			look(v, 0)
			return r
		}
		for f := range p.staticReach(root) {
			if f.Pkg != root.Pkg || (f != root && owner(f) != root && isExported(f)) {
				continue
			}
			for _, i := range instrs(f) {
				var dst, src ssa.Value
				shifted := false
				switch x := i.(type) {
				case *ssa.Store:
					ia, ok := x.Addr.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					dst, src = ia.X, x.Val
					if b, ok := ia.Index.(*ssa.BinOp); ok && b.Op == token.ADD && loopCur(b) == nil {
						shifted = true
					}
				case *ssa.Call:
					b, ok := x.Call.Value.(*ssa.Builtin)
					if !ok {
						continue
					}
					switch b.Name() {
					case "copy":
						dst, src = x.Call.Args[0], x.Call.Args[1]
						if s, ok := dst.(*ssa.Slice); ok && s.Low != nil {
							if z, isC := constInt(s.Low); !isC || z != 0 {
								shifted = true
							}
						}
					case "append":
						if len(x.Call.Args) != 2 {
							continue
						}
						dst, src = x, x.Call.Args[1]
						first := role(x.Call.Args[0])
						if first != "" {
							off[first] = off[first] || false
							shifted = true
							where = i
						}
					default:
						continue
					}
				default:
					continue
				}
				sl, ok := dst.Type().Underlying().(*types.Slice)
				if !ok {
					continue
				}
				n := namedOf(sl.Elem())
				if n == nil || n.Obj().Name() != "Attribute" {
					continue
				}
				r := role(src)
				if r == "" {
					continue
				}
				where = i
				off[r] = off[r] || shifted
			}
		}
		return off, where
	}
	wl, wi := layout(sT)
	rl, ri := layout(rT)
	if wi == nil || ri == nil || wl["class"] == wl["other"] || rl["class"] == rl["other"] {
		c.Ok("columns", p.Pos(sT.Pos()), "column layout not of a recognised form: undecided")
		return
	}
	c.Check(wl["class"] == rl["class"], "columns", p.InstrPos(ri), "class columns are laid out in the same place on writing and reading", "the writer and the reader of a data set disagree on whether class columns come first: values are read into the wrong columns")
}

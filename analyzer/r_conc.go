package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C23",
		Rule: "For every go statement of the library: (joined) the goroutine signals a WaitGroup or channel on every path to its end, was added to it beforehand the right number of times, and every path of the spawner from the go statement to a return passes the matching Wait or receive; (race-free) an access-path effect analysis of the goroutine's code (static callees and closures included) finds each write to memory shared through captured variables, arguments, receivers or globals: it must be under a lock that every other concurrent access holds, at an index unique to the goroutine, or confined to a single goroutine with no access by the spawner before the join; (live) a channel a goroutine drains is closed on every path before that goroutine is waited for, only after all its senders were waited for, exactly once, and the draining loop ends only when the channel is closed; each received item is answered by a send or a recorded failure; (complete) spawning and feeding loops cover every index.",
		Run:  runC23})
}

// spawn is a go statement with its resolved target.
type spawn struct {
	g      *ssa.Go
	f      *ssa.Function // spawner
	t      *ssa.Function // target
	region map[*ssa.Function]bool
	order  []*ssa.Function
	loop   *ssa.BasicBlock // header of the innermost loop around the go statement, or nil
	body   map[*ssa.BasicBlock]bool
	done   []ssa.Value // WaitGroups signalled on every path
	ends   []ssa.Value // channels closed or sent on on every path
	sends  []*ssa.Send
	recvs  []*ssa.UnOp
}

type conc struct {
	p        *Prog
	c        *Ctx
	spawns   []*spawn
	cur      *spawn // context of key resolution
	memo     map[ssa.Value][]memKey
	busy     map[ssa.Value]bool
	busyLock map[*ssa.Function]bool
}

// memKey: a shared location (or the object a value leads to) with a flag saying that goroutines of the same spawn see
// different ones.
type memKey struct {
	key  string
	uniq bool
}

func (k *conc) sameObj(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	fa := func(v ssa.Value) bool { _, ok := v.(*ssa.FieldAddr); return ok }
	la := k.p.Trace(a, TraceOpt{Stop: fa, Fields: true})
	lb := k.p.Trace(b, TraceOpt{Stop: fa, Fields: true})
	for _, x := range la {
		for _, y := range lb {
			if x == y {
				return true
			}
			xf, ok1 := x.(*ssa.FieldAddr)
			yf, ok2 := y.(*ssa.FieldAddr)
			if ok1 && ok2 && fieldVar(xf.X.Type(), xf.Field) == fieldVar(yf.X.Type(), yf.Field) {
				return true
			}
		}
	}
	return false
}

func wgOp(i ssa.Instruction, name string) ssa.Value {
	c, ok := i.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	if o := calleeObj(c); o != nil && o.Pkg() != nil && o.Pkg().Path() == "sync" && o.Name() == name && isCallTo(c, "sync", "WaitGroup", name) {
		return recvOf(c)
	}
	return nil
}

func closeOp(i ssa.Instruction) ssa.Value {
	c, ok := i.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	if b, ok := c.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
		return c.Common().Args[0]
	}
	return nil
}

func recvOp(i ssa.Instruction) *ssa.UnOp {
	if u, ok := i.(*ssa.UnOp); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

// event: the instruction performs ev on every path through it (directly, or through a library callee). Go statements
// count only with viaGo.
func (k *conc) event(i ssa.Instruction, ev func(ssa.Instruction) bool, viaGo bool, depth int) bool {
	if ev(i) {
		return true
	}
	c, ok := i.(ssa.CallInstruction)
	if !ok || depth > 5 {
		return false
	}
	if _, isGo := i.(*ssa.Go); isGo && !viaGo {
		return false
	}
	if c.Common().IsInvoke() {
		return false
	}
	cs := k.p.Callees(c)
	if len(cs) == 0 {
		cs = k.p.dynCallees(c.Common().Value, map[ssa.Value]bool{})
	}
	if len(cs) == 0 {
		return false
	}
	for _, g := range cs {
		if !k.p.IsLibFunc(g) || len(g.Blocks) == 0 {
			return false
		}
		if !k.always(g, nil, ev, viaGo, depth+1) {
			return false
		}
	}
	return true
}

func (k *conc) always(f *ssa.Function, from ssa.Instruction, ev func(ssa.Instruction) bool, viaGo bool, depth int) bool {
	ok, _ := mustPass(f, from, func(i ssa.Instruction) bool { return k.event(i, ev, viaGo, depth) }, nil)
	if ok && from == nil && len(returns(f)) == 0 {
		// an endless function: the event must at least be there
		for _, i := range instrs(f) {
			if k.event(i, ev, viaGo, depth) {
				return true
			}
		}
		return false
	}
	return ok
}

// firstWithout: an instruction satisfying target that is reached from `from` (nil: entry) without passing stop.
func firstWithout(f *ssa.Function, from ssa.Instruction, target, stop func(ssa.Instruction) bool) ssa.Instruction {
	type st struct {
		b *ssa.BasicBlock
		i int
	}
	s0 := st{f.Blocks[0], 0}
	if from != nil {
		s0 = st{from.Block(), idxIn(from) + 1}
	}
	work := []st{s0}
	seen := map[*ssa.BasicBlock]bool{}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		stopped := false
		for n := s.i; n < len(s.b.Instrs); n++ {
			i := s.b.Instrs[n]
			if target(i) {
				return i
			}
			if stop(i) {
				stopped = true
				break
			}
		}
		if stopped {
			continue
		}
		for _, x := range s.b.Succs {
			if !seen[x] {
				seen[x] = true
				work = append(work, st{x, 0})
			}
		}
	}
	return nil
}

func (k *conc) collect() {
	p := k.p
	for _, f := range p.Funcs {
		for _, i := range instrs(f) {
			g, ok := i.(*ssa.Go)
			if !ok {
				continue
			}
			ts := p.Callees(g)
			if len(ts) == 0 {
				ts = p.dynCallees(g.Call.Value, map[ssa.Value]bool{})
			}
			if len(ts) != 1 || !p.IsLibFunc(ts[0]) || len(ts[0].Blocks) == 0 {
				k.c.Bad("go/"+p.Name(owner(f)), p.InstrPos(g), "the code a go statement starts cannot be determined, so its sharing and end cannot be checked")
				continue
			}
			s := &spawn{g: g, f: f, t: ts[0], region: map[*ssa.Function]bool{}}
			s.loop, s.body = innermostLoop(g.Block())
			work := []*ssa.Function{s.t}
			for len(work) > 0 {
				h := work[len(work)-1]
				work = work[:len(work)-1]
				if s.region[h] || len(h.Blocks) == 0 || !p.IsLibFunc(h) {
					continue
				}
				s.region[h] = true
				s.order = append(s.order, h)
				for _, a := range h.AnonFuncs {
					work = append(work, a)
				}
				for _, cc := range calls(h) {
					if _, isGo := cc.(*ssa.Go); isGo {
						continue
					}
					if h2 := cc.Common().StaticCallee(); h2 != nil {
						work = append(work, h2)
					}
				}
			}
			for _, h := range s.order {
				for _, j := range instrs(h) {
					if x, ok := j.(*ssa.Send); ok {
						s.sends = append(s.sends, x)
					}
					if u := recvOp(j); u != nil {
						s.recvs = append(s.recvs, u)
					}
				}
			}
			k.spawns = append(k.spawns, s)
		}
	}
	sort.SliceStable(k.spawns, func(i, j int) bool { return k.spawns[i].g.Pos() < k.spawns[j].g.Pos() })
}

// name of a spawn: exported owner plus ordinal.
func (k *conc) name(s *spawn) string {
	n := 0
	for _, o := range k.spawns {
		if o == s {
			break
		}
		if owner(o.f) == owner(s.f) {
			n++
		}
	}
	return fmt.Sprintf("%s/go%d", k.p.Name(owner(s.f)), n)
}

// signals finds what the goroutine announces its end with.
func (k *conc) signals(s *spawn) {
	seen := func(vs []ssa.Value, v ssa.Value) bool {
		for _, x := range vs {
			if k.sameObj(x, v) {
				return true
			}
		}
		return false
	}
	for _, h := range s.order {
		for _, i := range instrs(h) {
			if w := wgOp(i, "Done"); w != nil && !seen(s.done, w) {
				if k.always(s.t, nil, func(j ssa.Instruction) bool { x := wgOp(j, "Done"); return x != nil && k.sameObj(x, w) }, false, 0) {
					s.done = append(s.done, w)
				}
			}
			var ch ssa.Value
			if x := closeOp(i); x != nil {
				ch = x
			} else if x, ok := i.(*ssa.Send); ok {
				ch = x.Chan
			}
			if ch != nil && !seen(s.ends, ch) {
				if k.always(s.t, nil, func(j ssa.Instruction) bool {
					if x := closeOp(j); x != nil {
						return k.sameObj(x, ch)
					}
					if x, ok := j.(*ssa.Send); ok {
						return k.sameObj(x.Chan, ch)
					}
					return false
				}, false, 0) {
					s.ends = append(s.ends, ch)
				}
			}
		}
	}
}

// joins: the instruction waits for spawn s.
func (k *conc) joins(s *spawn) func(ssa.Instruction) bool {
	return func(i ssa.Instruction) bool {
		if w := wgOp(i, "Wait"); w != nil {
			for _, d := range s.done {
				if k.sameObj(d, w) {
					return true
				}
			}
			return false
		}
		if u := recvOp(i); u != nil {
			for _, e := range s.ends {
				if k.sameObj(e, u.X) {
					return true
				}
			}
			// a channel that another goroutine closes after waiting for s
			for _, o := range k.spawns {
				if o == s {
					continue
				}
				for _, h := range o.order {
					for _, j := range instrs(h) {
						ch := closeOp(j)
						if ch == nil || !k.sameObj(ch, u.X) {
							continue
						}
						w := firstWithout(h, nil, func(x ssa.Instruction) bool { return x == j }, func(x ssa.Instruction) bool {
							a := wgOp(x, "Wait")
							if a == nil {
								return false
							}
							for _, d := range s.done {
								if k.sameObj(d, a) {
									return true
								}
							}
							return false
						})
						if w == nil {
							return true
						}
					}
				}
			}
		}
		// a loop that receives once per goroutine may, on paper, run zero times
		if iff, ok := i.(*ssa.If); ok {
			if body := naturalLoop(iff.Block()); body != nil && !body[s.g.Block()] {
				for b := range body {
					for _, j := range b.Instrs {
						if u := recvOp(j); u != nil && j != i {
							for _, e := range s.ends {
								if k.sameObj(e, u.X) {
									return true
								}
							}
						}
					}
				}
			}
		}
		return false
	}
}

// joined: after instruction `at` of f every path to a return waits for s; obligations on captured or passed
// WaitGroups move on to the callers.
func (k *conc) joined(f *ssa.Function, at ssa.Instruction, s *spawn, depth int) bool {
	j := k.joins(s)
	if k.always(f, at, j, false, 0) {
		// a deferred wait also counts, wherever it stands
		return true
	}
	for _, i := range instrs(f) {
		if d, ok := i.(*ssa.Defer); ok && before(d, at) && k.event(d, j, false, 0) {
			return true
		}
	}
	if depth > 4 || isExported(f) {
		return false
	}
	cs := k.p.callers[f]
	if len(cs) == 0 && f.Parent() == nil {
		return false
	}
	n := 0
	for _, c := range cs {
		if !k.p.IsLibFunc(c.Parent()) {
			continue
		}
		n++
		if !k.joined(c.Parent(), c, s, depth+1) {
			return false
		}
	}
	return n > 0
}

func (k *conc) checkJoin(s *spawn) {
	c, p := k.c, k.p
	nm := k.name(s)
	pos := p.InstrPos(s.g)
	if len(s.done) == 0 && len(s.ends) == 0 {
		c.Bad("end/"+nm, pos, "this goroutine can end without signalling a WaitGroup or a channel: whoever waits for it waits for ever, or nobody waits for it")
		return
	}
	c.Ok("end/"+nm, pos, "the goroutine signals its end on every path")
	c.Check(k.joined(s.f, s.g, s, 0), "join/"+nm, pos, "every path from the go statement to a return waits for the goroutine", "a path from this go statement returns without waiting for the goroutine: results are read before they are complete")
	for _, w := range s.done {
		// Add before go
		for _, h := range s.order {
			for _, i := range instrs(h) {
				if a := wgOp(i, "Add"); a != nil && k.sameObj(a, w) {
					c.Bad("add/"+nm, p.InstrPos(i), "the goroutine adds itself to the WaitGroup: Wait may be over before it starts")
				}
			}
		}
		var adds []ssa.CallInstruction
		for _, i := range instrs(s.f) {
			if a := wgOp(i, "Add"); a != nil && k.sameObj(a, w) {
				adds = append(adds, i.(ssa.CallInstruction))
			}
		}
		if len(adds) == 0 {
			continue
		}
		late := firstWithout(s.f, nil, func(i ssa.Instruction) bool { return i == s.g }, func(i ssa.Instruction) bool {
			a := wgOp(i, "Add")
			return a != nil && k.sameObj(a, w)
		})
		if late != nil {
			c.Bad("add/"+nm, pos, "a path reaches this go statement before the WaitGroup is told about the goroutine: Wait may be over before it ends")
			continue
		}
		// the count
		total, known, deadly := int64(0), true, ""
		gos := int64(0)
		for _, o := range k.spawns {
			if o.f != s.f {
				continue
			}
			for _, d := range o.done {
				if k.sameObj(d, w) {
					if o.loop == s.loop {
						gos++
					} else {
						known = false
					}
				}
			}
		}
		for _, a := range adds {
			args := argsOf(a)
			n, isC := constInt(args[0])
			lh, _ := innermostLoop(a.Block())
			if lh != s.loop {
				if s.loop != nil && !s.body[a.Block()] && isC {
					deadly = fmt.Sprintf("the WaitGroup is told about %d goroutines outside the loop that starts them", n)
				}
				if s.loop != nil && !s.body[a.Block()] && !isC {
					for _, cl := range countingLoops(s.f) {
						if cl.Header == s.loop && !cl.Range {
							if _, c0 := constInt(cl.Bound); !c0 && !k.sameCount(args[0], cl) {
								deadly = "the WaitGroup is told about a number of goroutines other than the number the loop starts"
							}
						}
					}
				}
				known = false
				continue
			}
			if !isC {
				known = false
				continue
			}
			total += n
		}
		if deadly == "" && known && total != gos {
			deadly = fmt.Sprintf("the WaitGroup is told about %d goroutines where %d are started", total, gos)
		}
		c.Check(deadly == "", "add/"+nm, pos, "the WaitGroup knows about every goroutine before it starts", deadly+": Wait ends early or never")
	}
}

// sameCount: v equals the number of iterations of cl, as far as can be told (true when undecided).
func (k *conc) sameCount(v ssa.Value, cl *CountLoop) bool {
	init, ok := constInt(cl.Init)
	if !ok || cl.Step != 1 {
		return true
	}
	lenOf := func(v ssa.Value) ssa.Value {
		if c, ok := v.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return c.Call.Args[0]
			}
		}
		return nil
	}
	same := func(a, b ssa.Value) bool {
		if valuesEqual(a, b) {
			return true
		}
		x, y := lenOf(a), lenOf(b)
		return x != nil && y != nil && k.sameObj(x, y)
	}
	switch cl.Op {
	case token.LSS, token.NEQ:
		if init == 0 && same(v, cl.Bound) {
			return true
		}
	case token.LEQ:
		if init == 1 && same(v, cl.Bound) {
			return true
		}
	}
	// positively different: same source, other range
	return !same(v, cl.Bound)
}

// ---- shared memory ----

func (k *conc) keys(v ssa.Value) []memKey {
	if r, ok := k.memo[v]; ok {
		return r
	}
	if k.busy[v] {
		return nil
	}
	k.busy[v] = true
	r := k.keys1(v)
	delete(k.busy, v)
	m := map[memKey]bool{}
	var out []memKey
	for _, x := range r {
		if !m[x] {
			m[x] = true
			out = append(out, x)
		}
	}
	k.memo[v] = out
	return out
}

func suffix(ks []memKey, s string, uniq bool) []memKey {
	var out []memKey
	for _, x := range ks {
		if strings.Count(x.key, "[]") > 4 {
			continue
		}
		out = append(out, memKey{x.key + s, x.uniq || uniq})
	}
	return out
}

func (k *conc) keys1(v ssa.Value) []memKey {
	s := k.cur
	switch x := v.(type) {
	case *ssa.FreeVar:
		var out []memKey
		for _, b := range k.p.freeVarBindings(x) {
			out = append(out, k.keys(b)...)
		}
		return out
	case *ssa.Alloc:
		if s.region[x.Parent()] {
			return k.cellKeys(x)
		}
		// the spawner's cell: private to the goroutine when made inside the spawning loop
		uniq := s.loop != nil && s.body[x.Block()]
		return []memKey{{fmt.Sprintf("variable %s@%s", x.Comment, k.p.Pos(x.Pos())), uniq}}
	case *ssa.Global:
		return []memKey{{"global " + x.Name(), false}}
	case *ssa.Parameter:
		f := x.Parent()
		idx := -1
		for i, q := range f.Params {
			if q == x {
				idx = i
			}
		}
		var out []memKey
		if f == s.t {
			if !pointy(x.Type()) {
				return nil
			}
			if a := argFor(s.g, f, idx); a != nil {
				return k.outer(a)
			}
			return nil
		}
		if !s.region[f] {
			// the spawner's own parameter
			return []memKey{{"object " + types.TypeString(x.Type(), nil) + " " + x.Name(), false}}
		}
		for _, c := range k.p.callers[f] {
			if !s.region[c.Parent()] {
				continue
			}
			if _, isGo := c.(*ssa.Go); isGo {
				continue
			}
			if a := argFor(c, f, idx); a != nil {
				out = append(out, k.keys(a)...)
			}
		}
		return out
	case *ssa.FieldAddr:
		base := k.keys(x.X)
		fv := fieldVar(x.X.Type(), x.Field)
		return k.field(base, fv)
	case *ssa.Field:
		st := x.X.Type().Underlying().(*types.Struct)
		return k.field(k.keys(x.X), st.Field(x.Field))
	case *ssa.IndexAddr:
		return suffix(k.keys(x.X), "[]", k.unique(x.Index))
	case *ssa.Index:
		return suffix(k.keys(x.X), "[]", k.unique(x.Index))
	case *ssa.Lookup:
		return suffix(k.keys(x.X), "[]", false)
	case *ssa.Next:
		return suffix(k.keys(x.Iter), "[]", false)
	case *ssa.Range:
		return k.keys(x.X)
	case *ssa.Extract:
		return k.keys(x.Tuple)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if !pointy(x.Type()) {
				return nil
			}
			if a := k.p.cellOf(x.X); a != nil && s.region[a.Parent()] {
				var out []memKey
				for _, st := range k.p.cellStores(a) {
					out = append(out, k.keys(st.Val)...)
				}
				return out
			}
			return k.keys(x.X)
		}
		return nil
	case *ssa.Slice:
		return k.keys(x.X)
	case *ssa.ChangeType:
		return k.keys(x.X)
	case *ssa.MakeInterface:
		return k.keys(x.X)
	case *ssa.ChangeInterface:
		return k.keys(x.X)
	case *ssa.TypeAssert:
		return k.keys(x.X)
	case *ssa.Phi:
		var out []memKey
		for _, e := range x.Edges {
			out = append(out, k.keys(e)...)
		}
		return out
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return k.keys(x.Call.Args[0])
		}
		if g := x.Call.StaticCallee(); g != nil && s.region[g] && g.Signature.Results().Len() == 1 && pointy(x.Type()) {
			var out []memKey
			for _, r := range returns(g) {
				out = append(out, k.keys(r.Results[0])...)
			}
			return out
		}
	}
	return nil
}

// cellKeys: a local variable of the goroutine is its own.
func (k *conc) cellKeys(a *ssa.Alloc) []memKey { return nil }

func (k *conc) field(base []memKey, fv *types.Var) []memKey {
	var out []memKey
	for _, b := range base {
		name := "field"
		if fv != nil {
			name = "field " + fv.Name() + "@" + k.p.Pos(fv.Pos())
		}
		if strings.HasPrefix(b.key, "variable ") && !strings.Contains(b.key, "[]") && !pointyKey(b.key) {
			// a struct variable: keep the variable
			out = append(out, memKey{b.key + "." + name, b.uniq})
			continue
		}
		out = append(out, memKey{name, b.uniq})
	}
	return out
}

func pointyKey(string) bool { return false }

// outer: the spawner's value handed to the goroutine.
func (k *conc) outer(a ssa.Value) []memKey {
	s := k.cur
	switch x := a.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				return suffix(k.keys(ia.X), "[]", k.unique(ia.Index))
			}
		}
	case *ssa.MakeInterface:
		return k.outer(x.X)
	case *ssa.ChangeInterface:
		return k.outer(x.X)
	case *ssa.Call, *ssa.MakeMap, *ssa.MakeSlice:
		i := a.(ssa.Instruction)
		if s.loop != nil && s.body[i.Block()] {
			return []memKey{{"private", true}}
		}
		return []memKey{{fmt.Sprintf("value@%s", k.p.Pos(a.Pos())), false}}
	}
	return k.keys(a)
}

// unique: no two goroutines of the current spawn have the same index value.
func (k *conc) unique(v ssa.Value) bool { return k.uniqueD(v, 0) }

func (k *conc) uniqueD(v ssa.Value, d int) bool {
	if d > 10 {
		return false
	}
	s := k.cur
	switch x := v.(type) {
	case *ssa.Parameter:
		f := x.Parent()
		idx := -1
		for i, q := range f.Params {
			if q == x {
				idx = i
			}
		}
		if f == s.t {
			a := argFor(s.g, f, idx)
			return a != nil && k.uniqueD(a, d+1)
		}
		if !s.region[f] {
			return false
		}
		n := 0
		for _, c := range k.p.callers[f] {
			if !s.region[c.Parent()] {
				continue
			}
			n++
			a := argFor(c, f, idx)
			if a == nil || !k.uniqueD(a, d+1) {
				return false
			}
		}
		return n > 0
	case *ssa.Convert:
		return k.uniqueD(x.X, d+1)
	case *ssa.ChangeType:
		return k.uniqueD(x.X, d+1)
	case *ssa.Extract:
		if u, ok := x.Tuple.(*ssa.UnOp); ok && u.Op == token.ARROW && x.Index == 0 {
			return k.fedOnce(u.X)
		}
		if n, ok := x.Tuple.(*ssa.Next); ok && x.Index == 1 {
			return s.body[n.Block()]
		}
		return false
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return k.fedOnce(x.X)
		}
		if x.Op != token.MUL {
			return false
		}
		a := k.p.cellOf(x.X)
		if a == nil {
			return false
		}
		st := k.p.cellStores(a)
		if len(st) != 1 {
			return false
		}
		if !s.region[a.Parent()] && !(s.loop != nil && s.body[a.Block()]) {
			return false
		}
		return k.uniqueD(st[0].Val, d+1)
	case *ssa.Phi, *ssa.BinOp:
		cl := loopCur(v)
		if cl == nil {
			if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
				if _, isC := b.Y.(*ssa.Const); isC {
					return k.uniqueD(b.X, d+1)
				}
			}
			return false
		}
		return cl.Step != 0 && cl.Header == s.loop
	}
	return false
}

// fedOnce: every value sent on the channel is sent once: one send, of the counter of a loop that is not nested.
func (k *conc) fedOnce(ch ssa.Value) bool {
	n := 0
	for _, f := range k.p.Funcs {
		for _, i := range instrs(f) {
			x, ok := i.(*ssa.Send)
			if !ok || !k.sameObj(x.Chan, ch) {
				continue
			}
			n++
			cl := loopCur(x.X)
			if cl == nil || cl.Step == 0 {
				return false
			}
			if h, _ := innermostLoop(x.Block()); h != cl.Header {
				return false
			}
		}
	}
	return n == 1
}

type access struct {
	i     ssa.Instruction
	key   string
	write bool
	uniq  bool
	locks map[string]bool // held for writing
	rlock map[string]bool
	what  string
}

// unsafeShared: methods that need exclusive use of their receiver.
func unsafeShared(o *types.Func) bool {
	sig, ok := o.Type().(*types.Signature)
	if !ok || sig.Recv() == nil || o.Pkg() == nil {
		return false
	}
	n := namedOf(deref(sig.Recv().Type()))
	if n == nil {
		return false
	}
	switch o.Pkg().Path() + "." + n.Obj().Name() {
	case "math/rand.Rand", "bytes.Buffer", "strings.Builder", "bufio.Writer", "bufio.Reader", "container/list.List", "encoding/csv.Writer", "encoding/json.Encoder", "archive/tar.Writer":
		return true
	}
	return false
}

// accesses lists the shared accesses of the functions.
func (k *conc) accesses(fs []*ssa.Function) []access {
	var out []access
	for _, f := range fs {
		held := k.locks(f)
		for _, i := range instrs(f) {
			add := func(v ssa.Value, sfx string, write bool, what string) {
				for _, m := range k.keys(v) {
					if m.key == "private" || strings.HasPrefix(m.key, "private") {
						continue
					}
					out = append(out, access{i, m.key + sfx, write, m.uniq, held[i].w, held[i].r, what})
				}
			}
			switch x := i.(type) {
			case *ssa.Store:
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
					_ = ia
				}
				add(x.Addr, "", true, "assigned")
			case *ssa.MapUpdate:
				add(x.Map, "[]", true, "written (map)")
			case *ssa.UnOp:
				if x.Op == token.MUL {
					add(x.X, "", false, "read")
				}
			case *ssa.Lookup:
				add(x.X, "[]", false, "read (map)")
			case *ssa.Range:
				add(x.X, "[]", false, "walked (map)")
			case ssa.CallInstruction:
				cc := x.Common()
				if b, ok := cc.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "delete", "copy", "append", "clear":
						if b.Name() == "append" && len(cc.Args) < 2 {
							continue
						}
						add(cc.Args[0], "[]", true, b.Name())
					}
					continue
				}
				if o := calleeObj(x); o != nil && unsafeShared(o) {
					if r := recvOf(x); r != nil {
						add(r, ".state", true, "used by "+o.Name())
					}
				}
			}
		}
	}
	return out
}

type heldSet struct{ w, r map[string]bool }

// locks computes, per instruction, the mutexes held on every path (by shared key).
func (k *conc) locks(f *ssa.Function) map[ssa.Instruction]heldSet {
	s := k.cur
	type op struct {
		key string
		n   int // +1 lock -1 unlock
		rd  bool
	}
	opOf := func(i ssa.Instruction) *op {
		c, ok := i.(ssa.CallInstruction)
		if !ok {
			return nil
		}
		if _, isGo := i.(*ssa.Go); isGo {
			return nil
		}
		o := calleeObj(c)
		if o == nil || o.Pkg() == nil || o.Pkg().Path() != "sync" {
			return nil
		}
		var r op
		switch o.Name() {
		case "Lock":
			r.n = 1
		case "RLock":
			r.n, r.rd = 1, true
		case "Unlock":
			r.n = -1
		case "RUnlock":
			r.n, r.rd = -1, true
		default:
			return nil
		}
		if _, isD := i.(*ssa.Defer); isD {
			return nil
		}
		ks := k.keys(recvOf(c))
		if len(ks) != 1 || ks[0].uniq {
			return nil
		}
		r.key = ks[0].key
		return &r
	}
	clone := func(h heldSet) heldSet {
		n := heldSet{map[string]bool{}, map[string]bool{}}
		for x := range h.w {
			n.w[x] = true
		}
		for x := range h.r {
			n.r[x] = true
		}
		return n
	}
	entry := heldSet{map[string]bool{}, map[string]bool{}}
	if f != s.t && s.region[f] {
		first := true
		for _, c := range k.p.callers[f] {
			if !s.region[c.Parent()] || c.Parent() == f {
				continue
			}
			if k.busyLock[c.Parent()] {
				first = false
				entry = heldSet{map[string]bool{}, map[string]bool{}}
				break
			}
			k.busyLock[f] = true
			h := k.locks(c.Parent())[c]
			delete(k.busyLock, f)
			if first {
				entry = clone(h)
				first = false
				continue
			}
			for x := range entry.w {
				if !h.w[x] {
					delete(entry.w, x)
				}
			}
			for x := range entry.r {
				if !h.r[x] {
					delete(entry.r, x)
				}
			}
		}
	}
	in := map[*ssa.BasicBlock]*heldSet{f.Blocks[0]: &entry}
	out := map[ssa.Instruction]heldSet{}
	for changed := true; changed; {
		changed = false
		for _, b := range f.Blocks {
			st := in[b]
			if st == nil {
				continue
			}
			cur := clone(*st)
			for _, i := range b.Instrs {
				out[i] = clone(cur)
				if o := opOf(i); o != nil {
					set := cur.w
					if o.rd {
						set = cur.r
					}
					if o.n > 0 {
						set[o.key] = true
					} else {
						delete(set, o.key)
					}
				}
			}
			for _, n := range b.Succs {
				if in[n] == nil {
					c := clone(cur)
					in[n] = &c
					changed = true
					continue
				}
				for x := range in[n].w {
					if !cur.w[x] {
						delete(in[n].w, x)
						changed = true
					}
				}
				for x := range in[n].r {
					if !cur.r[x] {
						delete(in[n].r, x)
						changed = true
					}
				}
			}
		}
	}
	return out
}

// excluded: the two accesses cannot happen at the same time because of locks.
func excluded(a, b access) bool {
	for x := range a.locks {
		if b.locks[x] {
			return true
		}
		if b.rlock[x] && !b.write {
			return true
		}
	}
	for x := range b.locks {
		if a.rlock[x] && !a.write {
			return true
		}
	}
	return false
}

func (k *conc) regionAccesses(s *spawn) []access {
	k.cur, k.memo, k.busy = s, map[ssa.Value][]memKey{}, map[ssa.Value]bool{}
	return k.accesses(s.order)
}

// parentAccesses: accesses of the spawner's family outside goroutines, with keys of the same meaning.
func (k *conc) parentAccesses(s *spawn) []access {
	k.cur, k.memo, k.busy = s, map[ssa.Value][]memKey{}, map[ssa.Value]bool{}
	return k.accesses([]*ssa.Function{s.f})
}

func (k *conc) checkRaces() {
	c, p := k.c, k.p
	acc := map[*spawn][]access{}
	for _, s := range k.spawns {
		acc[s] = k.regionAccesses(s)
	}
	multi := func(s *spawn) bool {
		if s.loop == nil {
			return false
		}
		// one at a time if the loop waits before it goes round
		again := firstWithout(s.f, s.g, func(i ssa.Instruction) bool { return i == s.g }, func(i ssa.Instruction) bool { return k.event(i, k.joins(s), false, 0) })
		return again != nil
	}
	// overlap: goroutine b may start while a runs
	overlap := func(a, b *spawn) bool {
		if owner(a.f) != owner(b.f) || a.f != b.f {
			return false
		}
		x := firstWithout(a.f, a.g, func(i ssa.Instruction) bool { return i == b.g }, func(i ssa.Instruction) bool { return k.event(i, k.joins(a), false, 0) })
		y := firstWithout(a.f, b.g, func(i ssa.Instruction) bool { return i == a.g }, func(i ssa.Instruction) bool { return k.event(i, k.joins(b), false, 0) })
		return x != nil || y != nil
	}
	total := 0
	for _, s := range k.spawns {
		nm := k.name(s)
		bad := 0
		report := func(a access, why string) {
			bad++
			if bad > 4 {
				return
			}
			c.Bad("race/"+nm+"/"+shortKey(a.key), p.InstrPos(a.i), fmt.Sprintf("%s, shared between goroutines, is %s here %s", shortKey(a.key), a.what, why))
		}
		m := multi(s)
		seen := map[string]bool{}
		for _, a := range acc[s] {
			total++
			if !a.write || seen[a.key] {
				continue
			}
			if m && !a.uniq {
				hit := false
				for _, b := range acc[s] {
					if b.key == a.key && !excluded(a, b) {
						seen[a.key] = true
						hit = true
						if b.i == a.i {
							report(a, "without a lock, by several goroutines at once")
						} else {
							report(a, "while another goroutine may use it at "+p.InstrPos(b.i))
						}
						break
					}
				}
				if hit {
					continue
				}
			}
			for _, o := range k.spawns {
				if o == s || !overlap(s, o) {
					continue
				}
				for _, b := range acc[o] {
					if b.key == a.key && !excluded(a, b) {
						seen[a.key] = true
						report(a, "while another kind of goroutine may use it at "+p.InstrPos(b.i))
						break
					}
				}
			}
		}
		// the spawner between go and wait
		pa := k.parentAccesses(s)
		js := k.joins(s)
		reachAfter := map[ssa.Instruction]bool{}
		firstWithout(s.f, s.g, func(i ssa.Instruction) bool { reachAfter[i] = true; return false }, func(i ssa.Instruction) bool { return k.event(i, js, false, 0) })
		for _, b := range pa {
			if !reachAfter[b.i] || b.i == ssa.Instruction(s.g) {
				continue
			}
			for _, a := range acc[s] {
				if a.key != b.key || !(a.write || b.write) || excluded(a, b) || seen[a.key] {
					continue
				}
				if a.uniq && strings.HasPrefix(b.key, "variable") && !strings.Contains(b.key, "[]") {
					// a variable made for this goroutine, prepared before it starts
					if s.loop != nil && !reachSame(s, b.i) {
						continue
					}
				}
				seen[a.key] = true
				bad++
				c.Bad("race/"+nm+"/"+shortKey(a.key), p.InstrPos(b.i), fmt.Sprintf("%s is %s here while the goroutine that uses it at %s may still run", shortKey(a.key), b.what, p.InstrPos(a.i)))
				break
			}
		}
		if bad == 0 {
			c.Ok("race/"+nm, p.InstrPos(s.g), fmt.Sprintf("%d shared accesses, all writes locked, private or confined", len(acc[s])))
		}
	}
	c.Count("shared accesses", total)
}

// reachSame: the instruction runs after the go statement within the same round of the loop.
func reachSame(s *spawn, i ssa.Instruction) bool {
	return firstWithout(s.f, s.g, func(j ssa.Instruction) bool { return j == i }, func(j ssa.Instruction) bool { return j.Block() == s.loop && idxIn(j) == 0 }) != nil
}

func shortKey(s string) string {
	if i := strings.Index(s, "@"); i >= 0 {
		rest := s[i:]
		j := strings.IndexAny(rest, "[.")
		// positions contain dots (file.go:12:3): cut at the first bracket only
		j = strings.Index(rest, "[")
		if j >= 0 {
			return s[:i] + rest[j:]
		}
		return s[:i]
	}
	return s
}

// ---- channels ----

func (k *conc) checkChannels() {
	c, p := k.c, k.p
	makes := map[*ssa.MakeChan]bool{}
	for _, s := range k.spawns {
		for _, u := range s.recvs {
			for _, l := range p.Trace(u.X, TraceOpt{Fields: true}) {
				if m, ok := l.(*ssa.MakeChan); ok {
					makes[m] = true
				}
			}
		}
		for _, x := range s.sends {
			for _, l := range p.Trace(x.Chan, TraceOpt{Fields: true}) {
				if m, ok := l.(*ssa.MakeChan); ok {
					makes[m] = true
				}
			}
		}
	}
	var list []*ssa.MakeChan
	for m := range makes {
		list = append(list, m)
	}
	sort.Slice(list, func(i, j int) bool { return list[i].Pos() < list[j].Pos() })
	ordinal := map[*ssa.Function]int{}
	for _, m := range list {
		ow := owner(m.Parent())
		nm := fmt.Sprintf("%s/chan%d", p.Name(ow), ordinal[ow])
		ordinal[ow]++
		pos := p.InstrPos(m)
		var closes []ssa.Instruction
		for _, f := range p.Funcs {
			for _, i := range instrs(f) {
				if x := closeOp(i); x != nil && k.sameObj(x, m) {
					closes = append(closes, i)
				}
			}
		}
		isClose := func(i ssa.Instruction) bool { x := closeOp(i); return x != nil && k.sameObj(x, m) }
		drained := false
		for _, s := range k.spawns {
			for _, u := range s.recvs {
				if !k.sameObj(u.X, m) {
					continue
				}
				h, body := innermostLoop(u.Block())
				if h == nil {
					continue
				}
				drained = true
				k.drain(nm, s, u, body)
				// closed before the goroutine is waited for
				js := k.joins(s)
				early := firstWithout(s.f, s.g, func(i ssa.Instruction) bool { return k.event(i, js, false, 0) }, func(i ssa.Instruction) bool { return k.event(i, isClose, true, 0) })
				if early != nil {
					c.Bad("close/"+nm, p.InstrPos(early), "the goroutine that drains this channel is waited for on a path on which the channel has not been closed: the wait never ends")
				} else if k.always(s.f, s.g, isClose, true, 0) || !returnsAfter(s) {
					c.Ok("close/"+nm, pos, "closed before its reader is waited for, on every path")
				} else if !isParamChan(m, s.f) {
					c.Bad("close/"+nm, pos, "a path returns without closing the channel a goroutine drains: the goroutine never ends")
				}
			}
		}
		// senders finished before the close
		for _, cl := range closes {
			f := cl.Parent()
			for _, s := range k.spawns {
				sends := false
				for _, x := range s.sends {
					if k.sameObj(x.Chan, m) {
						sends = true
					}
				}
				if !sends || s.region[f] {
					continue
				}
				js := k.joins(s)
				var from ssa.Instruction
				if s.f == f {
					from = s.g
				}
				hit := firstWithout(f, from, func(i ssa.Instruction) bool { return i == cl }, func(i ssa.Instruction) bool { return k.event(i, js, false, 0) })
				if _, isDefer := cl.(*ssa.Defer); isDefer {
					hit = nil
				}
				c.Check(hit == nil, "senders/"+nm, p.InstrPos(cl), "closed only after all its senders were waited for", "the channel is closed while goroutines may still send on it: sending on a closed channel panics")
			}
			// the closer itself
			later := firstWithout(f, cl, func(i ssa.Instruction) bool {
				x, ok := i.(*ssa.Send)
				return ok && k.sameObj(x.Chan, m) || isClose(i)
			}, func(i ssa.Instruction) bool { return i == ssa.Instruction(m) })
			if _, isDefer := cl.(*ssa.Defer); isDefer {
				later = nil
			}
			c.Check(later == nil, "once/"+nm, p.InstrPos(cl), "nothing is sent on it and it is not closed again afterwards", "the channel is used again after it was closed: that panics")
		}
		if drained && len(closes) == 0 {
			c.Bad("close/"+nm, pos, "a goroutine drains this channel until it is closed, and nothing closes it")
		}
		k.feed(nm, m)
	}
	c.Floor("channels shared with goroutines", len(list), 1)
}

func returnsAfter(s *spawn) bool {
	for _, r := range returns(s.f) {
		if firstWithout(s.f, s.g, func(i ssa.Instruction) bool { return i == ssa.Instruction(r) }, func(ssa.Instruction) bool { return false }) != nil {
			return true
		}
	}
	return false
}

func isParamChan(m *ssa.MakeChan, f *ssa.Function) bool { return m.Parent() != f }

// drain: the receiving loop ends only when the channel is closed, and answers every item.
func (k *conc) drain(nm string, s *spawn, u *ssa.UnOp, body map[*ssa.BasicBlock]bool) {
	c, p := k.c, k.p
	f := u.Parent()
	okv := func(v ssa.Value) bool {
		e, ok := v.(*ssa.Extract)
		return ok && e.Tuple == ssa.Value(u) && e.Index == 1
	}
	closedAt := func(from, to *ssa.BasicBlock) bool {
		iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
		if ok {
			pol := from.Succs[0] == to
			for _, g := range expandGuard(nil, Guard{Cond: iff.Cond, Pol: pol, If: iff}, 0) {
				if okv(g.Cond) && !g.Pol {
					return true
				}
			}
		}
		for _, b := range []*ssa.BasicBlock{from, to} {
			for _, g := range guardsOf(b) {
				if okv(g.Cond) && !g.Pol {
					return true
				}
			}
		}
		return false
	}
	roomy := false
	for _, l := range p.Trace(u.X, TraceOpt{Fields: true}) {
		if m, ok := l.(*ssa.MakeChan); ok {
			for _, sz := range p.Trace(m.Size, TraceOpt{}) {
				if call, ok := sz.(*ssa.Call); ok {
					if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
						roomy = true
					}
				}
			}
		}
	}
	var badAt ssa.Instruction
	for b := range body {
		for _, n := range b.Succs {
			if body[n] || closedAt(b, n) {
				continue
			}
			if last := n.Instrs[len(n.Instrs)-1]; isPanic(last) {
				continue
			}
			badAt = b.Instrs[len(b.Instrs)-1]
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			badAt = r
		}
	}
	if !roomy {
		at := p.InstrPos(u)
		if badAt != nil {
			at = p.InstrPos(badAt)
		}
		c.Check(badAt == nil, "drain/"+nm, at, "the reader leaves its loop only when the channel is closed", "the goroutine can stop reading before the channel is closed: a sender then blocks for ever")
	}
	// every item is answered
	isRecv := func(i ssa.Instruction) bool { return i == ssa.Instruction(u) }
	var val ssa.Value
	if u.CommaOk {
		for _, r := range *u.Referrers() {
			if e, ok := r.(*ssa.Extract); ok && e.Index == 0 {
				val = e
			}
		}
	} else {
		val = u
	}
	if val == nil {
		c.Bad("item/"+nm, p.InstrPos(u), "items received from the channel are thrown away")
		return
	}
	k.cur, k.memo, k.busy = s, map[ssa.Value][]memKey{}, map[ssa.Value]bool{}
	sendsOut := false
	var outCh []ssa.Value
	for _, x := range s.sends {
		if !k.sameObj(x.Chan, u.X) {
			sendsOut = true
			outCh = append(outCh, x.Chan)
		}
	}
	answer := func(i ssa.Instruction) bool {
		switch x := i.(type) {
		case *ssa.Send:
			return true
		case *ssa.Store:
			return len(k.keys(x.Addr)) > 0 && !isNilConst(x.Val)
		case *ssa.MapUpdate:
			return len(k.keys(x.Map)) > 0
		}
		return false
	}
	uses := func(i ssa.Instruction) bool {
		if _, isIf := i.(*ssa.If); isIf {
			return false
		}
		if b, isB := i.(*ssa.BinOp); isB && isCompare(b.Op) {
			return false
		}
		for _, op := range i.Operands(nil) {
			if *op != nil && *op == val {
				return true
			}
		}
		return false
	}
	var start ssa.Instruction = u
	if f != u.Parent() {
		return
	}
	// start on the ok side only
	miss := k.itemPath(f, u, okv, isRecv, func(i ssa.Instruction) bool {
		if sendsOut {
			return k.event(i, answer, false, 0)
		}
		return uses(i)
	})
	_ = start
	c.Check(miss == nil, "item/"+nm, p.InstrPos(u), "every received item is answered", "an item received here can be dropped: a path reads the next one without having passed on a result or recorded a failure")
	// at most one answer per item
	for _, ch := range outCh {
		for _, x := range s.sends {
			if !k.sameObj(x.Chan, ch) || x.Parent() != f {
				continue
			}
			again := firstWithout(f, x, func(i ssa.Instruction) bool {
				y, ok := i.(*ssa.Send)
				return ok && k.sameObj(y.Chan, ch)
			}, isRecv)
			c.Check(again == nil, "single/"+nm, p.InstrPos(x), "at most one result per item", "two results can be passed on for one item: a model would vote twice")
		}
	}
}

func isPanic(i ssa.Instruction) bool { _, ok := i.(*ssa.Panic); return ok }

// itemPath: a path from the receive, assuming it succeeded, to the next receive that passes no `ok` instruction.
func (k *conc) itemPath(f *ssa.Function, u *ssa.UnOp, okv func(ssa.Value) bool, target, good func(ssa.Instruction) bool) ssa.Instruction {
	type st struct {
		b *ssa.BasicBlock
		i int
	}
	work := []st{{u.Block(), idxIn(u) + 1}}
	seen := map[*ssa.BasicBlock]bool{}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		stop := false
		for n := s.i; n < len(s.b.Instrs); n++ {
			i := s.b.Instrs[n]
			if target(i) {
				return i
			}
			if good(i) {
				stop = true
				break
			}
		}
		if stop {
			continue
		}
		succ := s.b.Succs
		if iff, ok := s.b.Instrs[len(s.b.Instrs)-1].(*ssa.If); ok && okv(iff.Cond) {
			succ = succ[:1]
		}
		for _, x := range succ {
			if !seen[x] {
				seen[x] = true
				work = append(work, st{x, 0})
			}
		}
	}
	return nil
}

// feed: a loop that hands out the indices of a list hands out all of them.
func (k *conc) feed(nm string, m *ssa.MakeChan) {
	for _, f := range k.p.Funcs {
		for _, i := range instrs(f) {
			x, ok := i.(*ssa.Send)
			if !ok || !k.sameObj(x.Chan, m) {
				continue
			}
			if cl := loopCur(x.X); cl != nil {
				k.full("feed/"+nm, cl, i, "the loop that hands out the work")
			}
		}
	}
}

// full: the loop counts every index of the list its bound measures, and does its work in every round.
func (k *conc) full(key string, cl *CountLoop, at ssa.Instruction, what string) {
	c, p := k.c, k.p
	why := ""
	if !cl.Range {
		if n, ok := constInt(cl.Init); ok && cl.Step == 1 {
			off, base := int64(0), cl.Bound
			if b, ok := cl.Bound.(*ssa.BinOp); ok {
				if d, ok := constInt(b.Y); ok && (b.Op == token.ADD || b.Op == token.SUB) {
					base = b.X
					off = d
					if b.Op == token.SUB {
						off = -d
					}
				}
			}
			if isLenOrSize(base) {
				last := off
				if cl.Op == token.LEQ {
					last++
				}
				if n != 0 || last != 0 {
					why = fmt.Sprintf("%s does not run over exactly the indices 0..len-1", what)
				}
			}
		} else if cl.Step != 1 && cl.Step != -1 && cl.Step != 0 {
			why = what + " skips indices"
		}
	}
	if why == "" {
		// conditional work
		if miss := firstWithout(at.Parent(), cl.Header.Instrs[len(cl.Header.Instrs)-1], func(i ssa.Instruction) bool {
			return i.Block() == cl.Header && idxIn(i) == 0
		}, func(i ssa.Instruction) bool { return i == at }); miss != nil {
			why = what + " can skip an index"
		}
	}
	if why == "" {
		// leaving early without giving up
		for b := range cl.Body {
			for _, n := range b.Succs {
				if !cl.Body[n] && b != cl.Header && !isPanic(n.Instrs[len(n.Instrs)-1]) {
					if !k.failing(n) {
						why = what + " can stop before the last index"
					}
				}
			}
		}
	}
	c.Check(why == "", key, p.InstrPos(at), what+" covers every index", why+": some models take no part")
}

// failing: the block leads straight to a return of an error.
func (k *conc) failing(b *ssa.BasicBlock) bool {
	if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
		for _, x := range r.Results {
			if isErrorType(x.Type()) && !isNilConst(x) {
				return true
			}
		}
	}
	return false
}

func isLenOrSize(v ssa.Value) bool {
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return true
		}
	}
	return false
}

func (k *conc) checkSpawnLoops() {
	c, p := k.c, k.p
	for _, s := range k.spawns {
		if s.loop == nil {
			continue
		}
		for _, cl := range countingLoops(s.f) {
			if cl.Header != s.loop {
				continue
			}
			k.full("spawn/"+k.name(s), cl, s.g, "the loop that starts the goroutines")
			// at least one worker
			if n, ok := constInt(cl.Init); ok && cl.Step == 1 && len(s.recvs) > 0 {
				for _, l := range p.Trace(cl.Bound, TraceOpt{Derive: true}) {
					if call, ok := l.(*ssa.Call); ok && (isCallTo(call, "runtime", "", "NumCPU") || isCallTo(call, "runtime", "", "GOMAXPROCS")) {
						short := n > 0 && cl.Op == token.LSS
						if b, ok := cl.Bound.(*ssa.BinOp); ok && (b.Op == token.SUB || b.Op == token.QUO) {
							short = true
						}
						c.Check(!short, "workers/"+k.name(s), p.InstrPos(s.g), "at least one worker on any machine", "on a machine with one processor no worker is started, and the work is never taken up")
					}
				}
			}
		}
	}
}

// checkMembers: members added to an ensemble in a loop are different objects.
func (k *conc) checkMembers() {
	c, p := k.c, k.p
	n := 0
	for _, f := range p.Funcs {
		for _, cc := range calls(f) {
			g := cc.Common().StaticCallee()
			if g == nil || g.Name() != "AddModel" || g.Signature.Recv() == nil {
				continue
			}
			h, body := innermostLoop(cc.Block())
			if h == nil {
				continue
			}
			n++
			shared := ""
			for _, l := range p.Trace(argsOf(cc)[0], TraceOpt{NoCalls: true, NoParams: true}) {
				i, ok := l.(ssa.Instruction)
				if !ok {
					continue
				}
				switch l.(type) {
				case *ssa.Call, *ssa.Alloc, *ssa.UnOp:
					if i.Parent() == f && !body[i.Block()] {
						shared = p.InstrPos(i)
					}
				}
			}
			c.Check(shared == "", "member/"+p.Name(owner(f)), p.InstrPos(cc), "each round adds a model of its own", "the same model, made at "+shared+", is added in every round: its copies are trained at the same time and all vote alike")
		}
	}
	c.Floor("ensembles built in a loop", n, 1)
}

func runC23(c *Ctx) {
	k := &conc{p: c.P, c: c, busyLock: map[*ssa.Function]bool{}}
	k.collect()
	for _, s := range k.spawns {
		k.signals(s)
	}
	for _, s := range k.spawns {
		k.checkJoin(s)
	}
	k.checkRaces()
	k.checkChannels()
	k.checkSpawnLoops()
	k.checkMembers()
	c.Floor("go statements", len(k.spawns), 2)
}

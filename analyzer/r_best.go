package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C41", Rule: "every search for the largest or smallest of a set of candidates (a loop value replaced under a comparison with itself) is followed along every path of one turn of its loop: the value kept is the value compared, all replacements go in one direction, what is used after the loop changes exactly when the best candidate changes (or on a tie), the loop runs over the whole range of candidates, skips none by its position and is left early only once the best value itself allows it, and the search starts from the first candidate, from an infinity of the right sign, or from a constant no candidate can lose to; ranges kept in a table start from infinities of the right sign. In every loop that counts votes or occurrences in a table, each path through one turn that decides how to count adds the same amount exactly once: to the old entry when there is one, to nothing when there is none, and 1 for each when whole numbers are counted.", Trust: []string{"distances, and so their reciprocals, are not negative", "values are not NaN"}, Run: runC41})
}

// a path through one turn of a loop, from its head back to it.
type turnPath struct {
	blocks []*ssa.BasicBlock
	pos    map[*ssa.BasicBlock]int
}

func turnPaths(h *ssa.BasicBlock, loop map[*ssa.BasicBlock]bool, limit int) ([]*turnPath, bool) {
	var out []*turnPath
	var cur []*ssa.BasicBlock
	on := map[*ssa.BasicBlock]bool{}
	full := true
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if len(out) >= limit {
			full = false
			return
		}
		cur = append(cur, b)
		on[b] = true
		for _, s := range b.Succs {
			if s == h {
				t := &turnPath{append(append([]*ssa.BasicBlock{}, cur...), h), map[*ssa.BasicBlock]int{}}
				for i, x := range cur {
					t.pos[x] = i
				}
				out = append(out, t)
			} else if loop[s] && !on[s] {
				walk(s)
			}
		}
		on[b] = false
		cur = cur[:len(cur)-1]
	}
	walk(h)
	return out, full
}

// resolve: what a value is on this path (values of inner loops stay as they are).
func (t *turnPath) resolve(v ssa.Value) ssa.Value {
	for n := 0; n < 50; n++ {
		ph, ok := v.(*ssa.Phi)
		if !ok {
			return v
		}
		i, on := t.pos[ph.Block()]
		if !on || i == 0 || naturalLoop(ph.Block()) != nil {
			return v
		}
		e := edgeFrom(ph, t.blocks[i-1])
		if e == nil {
			return v
		}
		v = e
	}
	return v
}

func edgeFrom(ph *ssa.Phi, from *ssa.BasicBlock) ssa.Value {
	for k, p := range ph.Block().Preds {
		if p == from {
			return ph.Edges[k]
		}
	}
	return nil
}

// next: what a loop value becomes at the end of the turn.
func (t *turnPath) next(ph *ssa.Phi) ssa.Value {
	e := edgeFrom(ph, t.blocks[len(t.blocks)-2])
	if e == nil {
		return ph
	}
	return t.resolve(e)
}

type fact struct {
	cond ssa.Value
	pol  bool
	iff  *ssa.If
}

func (t *turnPath) facts() []fact {
	var out []fact
	for i := 0; i+1 < len(t.blocks); i++ {
		b := t.blocks[i]
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || b.Succs[0] == b.Succs[1] {
			continue
		}
		c, pol := t.resolve(iff.Cond), b.Succs[0] == t.blocks[i+1]
		for {
			u, ok := c.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			c, pol = t.resolve(u.X), !pol
		}
		out = append(out, fact{c, pol, iff})
	}
	return out
}

// feasible: the path does not go against a constant it has itself fixed.
func (t *turnPath) feasible() bool {
	seen := map[ssa.Value]bool{}
	for _, f := range t.facts() {
		if k, ok := constBool(f.cond); ok && k != f.pol {
			return false
		}
		if k, ok := seen[f.cond]; ok && k != f.pol {
			return false
		}
		seen[f.cond] = f.pol
	}
	return true
}

func bareNum(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			if isNumeric(x.Type()) && isNumeric(x.X.Type()) {
				v = x.X
				continue
			}
		case *ssa.ChangeType:
			v = x.X
			continue
		}
		return v
	}
}

func isNumeric(t types.Type) bool { return basicInfo(t)&types.IsNumeric != 0 }

// sameRead: two values computed the same way from the same things within one turn of a loop.
func (p *Prog) sameRead(a, b ssa.Value) bool {
	a, b = bareNum(a), bareNum(b)
	if a == b || valuesEqual(a, b) {
		return true
	}
	switch x := a.(type) {
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString()
	case *ssa.BinOp:
		y, ok := b.(*ssa.BinOp)
		return ok && x.Op == y.Op && p.sameRead(x.X, y.X) && p.sameRead(x.Y, y.Y)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && p.sameRead(x.X, y.X)
	case *ssa.Lookup:
		y, ok := b.(*ssa.Lookup)
		return ok && p.sameRead(x.X, y.X) && p.sameRead(x.Index, y.Index)
	case *ssa.Extract:
		y, ok := b.(*ssa.Extract)
		return ok && x.Index == y.Index && p.sameRead(x.Tuple, y.Tuple)
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && p.sameRead(x.X, y.X) && p.sameRead(x.Index, y.Index)
	case *ssa.Index:
		y, ok := b.(*ssa.Index)
		return ok && p.sameRead(x.X, y.X) && p.sameRead(x.Index, y.Index)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && p.sameRead(x.X, y.X)
	case *ssa.Field:
		y, ok := b.(*ssa.Field)
		return ok && x.Field == y.Field && p.sameRead(x.X, y.X)
	case *ssa.Call:
		y, ok := b.(*ssa.Call)
		if !ok || x.Call.IsInvoke() != y.Call.IsInvoke() || len(x.Call.Args) != len(y.Call.Args) {
			return false
		}
		if x.Call.IsInvoke() {
			if x.Call.Method != y.Call.Method || !p.sameRead(x.Call.Value, y.Call.Value) {
				return false
			}
		} else if x.Call.Value != y.Call.Value {
			return false
		}
		for i := range x.Call.Args {
			if !p.sameRead(x.Call.Args[i], y.Call.Args[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// a search for the best of the values seen by a loop.
type search struct {
	f     *ssa.Function
	best  *ssa.Phi
	loop  map[*ssa.BasicBlock]bool
	paths []*turnPath
	max   bool
	cand  ssa.Value // what is compared
	iff   *ssa.If
	free  bool // some candidate is taken whatever the value kept so far
}

// better: what the path knows about candidate and best: 1 better, 0 equal, -1 not better, for a search of the given direction.
func (s *search) about(p *Prog, t *turnPath) (gt, lt, eq bool, cand ssa.Value, at *ssa.If, known bool) {
	for _, fc := range t.facts() {
		b, ok := fc.cond.(*ssa.BinOp)
		if !ok || leaves(fc.iff, s.loop) {
			continue
		}
		x, y, op := t.resolve(b.X), t.resolve(b.Y), b.Op
		if bareNum(x) == ssa.Value(s.best) {
			x, y, op = y, x, flip(op)
		}
		if bareNum(y) != ssa.Value(s.best) || bareNum(x) == ssa.Value(s.best) {
			continue
		}
		if !fc.pol {
			op = negate(op)
		}
		switch op {
		case token.GTR, token.GEQ:
			gt = true
		case token.LSS, token.LEQ:
			lt = true
		case token.EQL:
			eq = true
		case token.NEQ:
		default:
			continue
		}
		known, cand, at = true, x, fc.iff
	}
	return
}

// leaves: one outcome of the test ends the loop.
func leaves(iff *ssa.If, loop map[*ssa.BasicBlock]bool) bool {
	for _, x := range iff.Block().Succs {
		if !loop[x] {
			return true
		}
	}
	return false
}

func (p *Prog) searches(f *ssa.Function) []*search {
	var out []*search
	for _, h := range f.Blocks {
		loop := naturalLoop(h)
		if loop == nil {
			continue
		}
		var paths []*turnPath
		for _, ins := range h.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			if !isNumeric(ph.Type()) || !comparedIn(ph, loop) {
				continue
			}
			if paths == nil {
				var full bool
				paths, full = turnPaths(h, loop, 3000)
				if !full {
					paths = []*turnPath{}
				}
				var k []*turnPath
				for _, t := range paths {
					if t.feasible() {
						k = append(k, t)
					}
				}
				paths = k
			}
			s := &search{f: f, best: ph, loop: loop, paths: paths}
			up, down, other := 0, 0, 0
			for _, t := range paths {
				n := t.next(ph)
				if n == ssa.Value(ph) {
					continue
				}
				gt, lt, eq, cand, at, known := s.about(p, t)
				switch {
				case !known:
					other++
				case gt && !lt:
					up++
					s.cand, s.iff = cand, at
				case lt && !gt:
					down++
					s.cand, s.iff = cand, at
				case eq:
				}
				_ = n
			}
			if up+down == 0 {
				continue
			}
			// counters bounded by a test are not searches
			if cl := inductionOf(ph); cl {
				continue
			}
			s.max = up >= down
			s.free = other > 0
			out = append(out, s)
		}
	}
	return out
}

func comparedIn(ph *ssa.Phi, loop map[*ssa.BasicBlock]bool) bool {
	seen := map[ssa.Value]bool{}
	var see func(v ssa.Value) bool
	see = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.BinOp:
				switch x.Op {
				case token.LSS, token.GTR, token.LEQ, token.GEQ:
					if loop[x.Block()] {
						return true
					}
				}
			case *ssa.Phi:
				if loop[x.Block()] && see(x) {
					return true
				}
			case *ssa.Convert:
				if see(x) {
					return true
				}
			}
		}
		return false
	}
	return see(ph)
}

// inductionOf: the loop value moves by arithmetic on itself.
func inductionOf(ph *ssa.Phi) bool {
	loop := naturalLoop(ph.Block())
	seen := map[ssa.Value]bool{}
	var dep func(v ssa.Value) bool
	dep = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			if !loop[x.Block()] {
				return false
			}
			for k, e := range x.Edges {
				if loop[x.Block().Preds[k]] && dep(e) {
					return true
				}
			}
		case *ssa.BinOp:
			return isNumeric(x.Type()) && (reachesArith(x, ph, map[ssa.Value]bool{}))
		}
		return false
	}
	return dep(ph)
}

func reachesArith(v ssa.Value, ph *ssa.Phi, seen map[ssa.Value]bool) bool {
	if v == ssa.Value(ph) {
		return true
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.BinOp:
		return reachesArith(x.X, ph, seen) || reachesArith(x.Y, ph, seen)
	case *ssa.Convert:
		return reachesArith(x.X, ph, seen)
	case *ssa.UnOp:
		return x.Op == token.SUB && reachesArith(x.X, ph, seen)
	}
	return false
}

// starts: the values the search starts from.
func (s *search) starts() []ssa.Value {
	var out []ssa.Value
	seen := map[*ssa.Phi]bool{}
	var in func(ph *ssa.Phi)
	in = func(ph *ssa.Phi) {
		if seen[ph] {
			return
		}
		seen[ph] = true
		loop := naturalLoop(ph.Block())
		for k, e := range ph.Edges {
			if loop != nil && loop[ph.Block().Preds[k]] {
				continue
			}
			if q, ok := e.(*ssa.Phi); ok && !s.loop[q.Block()] {
				in(q)
				continue
			}
			out = append(out, e)
		}
	}
	in(s.best)
	return out
}

// extreme: +1 for the largest value of its kind, -1 for the smallest, 0 for neither.
func extreme(v ssa.Value) int {
	switch x := bareNum(v).(type) {
	case *ssa.Call:
		if o := calleeObj(x); o != nil && o.FullName() == "math.Inf" {
			if k, ok := constInt(x.Call.Args[0]); ok {
				if k >= 0 {
					return 1
				}
				return -1
			}
		}
	case *ssa.UnOp:
		if x.Op == token.SUB {
			return -extreme(x.X)
		}
	case *ssa.Const:
		z, ok := constFloat(x)
		if !ok {
			if k, isInt := constInt(x); isInt {
				z, ok = float64(k), true
			}
		}
		if ok && isNumeric(x.Type()) {
			if basicInfo(x.Type())&types.IsInteger != 0 {
				if z >= math.MaxInt32 {
					return 1
				}
				if z <= math.MinInt32 {
					return -1
				}
				return 0
			}
			if z >= math.MaxFloat32 {
				return 1
			}
			if z <= -math.MaxFloat32 {
				return -1
			}
		}
	}
	return 0
}

// notNegative: the value cannot be below zero.
func (p *Prog) notNegative(v ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	if basicInfo(v.Type())&types.IsUnsigned != 0 {
		return true
	}
	v = bareNum(v)
	if basicInfo(v.Type())&types.IsUnsigned != 0 {
		return true
	}
	switch x := v.(type) {
	case *ssa.Const:
		if z, ok := constFloat(x); ok {
			return z >= 0
		}
		if k, ok := constInt(x); ok {
			return k >= 0
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.MUL, token.QUO:
			if x.Op == token.MUL && p.sameRead(x.X, x.Y) {
				return true
			}
			return p.notNegative(x.X, depth+1) && p.notNegative(x.Y, depth+1)
		}
	case *ssa.Phi:
		if depth > 4 {
			return true
		}
		for _, e := range x.Edges {
			if e != ssa.Value(x) && !p.notNegative(e, depth+2) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap"
		}
		if o := calleeObj(x); o != nil {
			switch o.FullName() {
			case "math.Abs", "math.Sqrt", "math.Exp":
				return true
			}
		}
		if g := x.Call.StaticCallee(); g != nil && p.IsLibFunc(g) && g.Signature.Results().Len() == 1 {
			rs := returns(g)
			for _, r := range rs {
				if !p.notNegative(r.Results[0], depth+3) {
					return false
				}
			}
			return len(rs) > 0
		}
	case *ssa.Extract:
		// a table of counts or of non-negative sums
		if nx, ok := x.Tuple.(*ssa.Next); ok && x.Index == 2 {
			if r, ok := nx.Iter.(*ssa.Range); ok {
				return p.tableNotNegative(r.X, depth)
			}
		}
		if l, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
			return p.tableNotNegative(l.X, depth)
		}
	case *ssa.Lookup:
		return p.tableNotNegative(x.X, depth)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				// the length of something, or a distance handed over by a search
				if q, ok := ia.X.(*ssa.Parameter); ok && basicInfo(x.Type())&types.IsFloat != 0 {
					return p.dividesOnly(q)
				}
			}
		}
	}
	return false
}

// dividesOnly: the elements of the parameter are only divided by (distances).
func (p *Prog) dividesOnly(q *ssa.Parameter) bool {
	ok := false
	for _, r := range *q.Referrers() {
		ia, is := r.(*ssa.IndexAddr)
		if !is {
			continue
		}
		for _, l := range *ia.Referrers() {
			u, is := l.(*ssa.UnOp)
			if !is {
				return false
			}
			for _, b := range *u.Referrers() {
				bo, is := b.(*ssa.BinOp)
				if !is || bo.Op != token.QUO || bo.Y != ssa.Value(u) {
					return false
				}
				ok = true
			}
		}
	}
	return ok
}

// tableNotNegative: everything stored in the table by this function (or by whoever fills it) is not negative.
func (p *Prog) tableNotNegative(m ssa.Value, depth int) bool {
	mt, ok := m.Type().Underlying().(*types.Map)
	if !ok {
		return false
	}
	if depth > 6 {
		return basicInfo(mt.Elem())&types.IsInteger != 0
	}
	n := 0
	for _, i := range instrs(p.parentOf(m)) {
		u, ok := i.(*ssa.MapUpdate)
		if !ok || !p.sameRead(u.Map, m) {
			continue
		}
		n++
		v := bareNum(u.Value)
		if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
			x, y := b.X, b.Y
			if p.tableRead(y, u) {
				x, y = y, x
			}
			if p.tableRead(x, u) && p.notNegative(y, depth+2) {
				continue
			}
		}
		if p.tableRead(v, u) {
			continue
		}
		if !p.notNegative(v, depth+2) {
			return false
		}
	}
	if n > 0 {
		return true
	}
	// counts made elsewhere
	return basicInfo(mt.Elem())&types.IsInteger != 0
}

func (p *Prog) parentOf(v ssa.Value) *ssa.Function {
	if i, ok := v.(ssa.Instruction); ok {
		return i.Parent()
	}
	return v.Parent()
}

// tableRead: v is the entry the update writes, read earlier.
func (p *Prog) tableRead(v ssa.Value, u *ssa.MapUpdate) bool {
	v = bareNum(v)
	if e, ok := v.(*ssa.Extract); ok && e.Index == 0 {
		if l, ok := e.Tuple.(*ssa.Lookup); ok {
			return p.sameRead(l.X, u.Map) && p.sameRead(l.Index, u.Key)
		}
	}
	if l, ok := v.(*ssa.Lookup); ok && !l.CommaOk {
		return p.sameRead(l.X, u.Map) && p.sameRead(l.Index, u.Key)
	}
	return false
}

func runC41(c *Ctx) {
	p := c.P
	n := 0
	for _, f := range p.Funcs {
		if len(f.Blocks) == 0 {
			continue
		}
		for i, s := range p.searches(f) {
			n++
			c.Count("searches", 1)
			s.check(c, fmt.Sprintf("search:%s#%d", p.Name(f), i+1))
		}
		p.forgotten(c, f)
		p.tableRanges(c, f)
		p.tallies(c, f)
	}
	c.Floor("searches for a best candidate", n, 8)
}

func (s *search) check(c *Ctx, key string) {
	p := c.P
	pos := p.InstrPos(s.iff)
	word := map[bool]string{true: "largest", false: "smallest"}[s.max]
	bad := false
	report := func(sub, note string) {
		bad = true
		c.Bad(key+"#"+sub, pos, note)
	}
	// one direction, the compared value kept
	for _, t := range s.paths {
		nx := t.next(s.best)
		gt, lt, eq, cand, _, known := s.about(p, t)
		if nx == ssa.Value(s.best) {
			if known && (s.max && gt && !lt || !s.max && lt && !gt) && s.strictly(t) && !s.explained(t) {
				report("kept", "a candidate that compares better is not always kept")
			}
			continue
		}
		if !known {
			continue
		}
		if s.max && lt && !gt && !eq || !s.max && gt && !lt && !eq {
			report("direction", "the search for the "+word+" candidate also accepts one that compares the other way")
			continue
		}
		if !p.sameRead(t.resolve(nx), t.resolve(cand)) && !eq {
			if p.readable(nx) && p.readable(cand) {
				report("value", "the value kept is not the value compared: candidates are compared by one thing and the best remembered by another")
			} else {
				c.Count("undecided searches", 1)
				if verboseForms {
					fmt.Println("UNDECIDED", key, nx, cand)
				}
			}
		}
	}
	s.companions(c, report)
	s.coverage(c, report)
	s.start(c, report)
	if !bad {
		c.Ok(key, pos, "keeps the "+word+" of all candidates")
	}
}

// strictly: the path knows the candidate is strictly better by a direct test.
func (s *search) strictly(t *turnPath) bool {
	for _, fc := range t.facts() {
		b, ok := fc.cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		x, y, op := t.resolve(b.X), t.resolve(b.Y), b.Op
		if bareNum(x) == ssa.Value(s.best) {
			x, y, op = y, x, flip(op)
		}
		if bareNum(y) != ssa.Value(s.best) {
			continue
		}
		if !fc.pol {
			op = negate(op)
		}
		if op == token.GTR || op == token.LSS {
			return true
		}
	}
	return false
}

// explained: the path also took some other decision (about the data) after which the candidate was refused.
func (s *search) explained(t *turnPath) bool {
	for _, fc := range t.facts() {
		if fc.iff.Block() == s.best.Block() {
			continue
		}
		b, ok := fc.cond.(*ssa.BinOp)
		if ok && (bareNum(t.resolve(b.X)) == ssa.Value(s.best) || bareNum(t.resolve(b.Y)) == ssa.Value(s.best)) {
			continue
		}
		return true
	}
	return false
}

func (p *Prog) readable(v ssa.Value) bool {
	switch x := bareNum(v).(type) {
	case *ssa.BinOp:
		return p.readable(x.X) && p.readable(x.Y)
	}
	return true
}

func usedOutside(v ssa.Value, loop map[*ssa.BasicBlock]bool) bool {
	seen := map[ssa.Value]bool{}
	var see func(v ssa.Value) bool
	see = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			if _, dbg := r.(*ssa.DebugRef); dbg {
				continue
			}
			if ph, ok := r.(*ssa.Phi); ok {
				for k, e := range ph.Edges {
					if e == v && !loop[ph.Block()] {
						if see(ph) {
							return true
						}
						_ = k
					}
				}
				continue
			}
			if !loop[r.Block()] {
				return true
			}
		}
		return false
	}
	return see(v)
}

// companions: what is used after the loop belongs to the best candidate.
func (s *search) companions(c *Ctx, report func(sub, note string)) {
	p := c.P
	reported := usedOutside(s.best, s.loop)
	for _, ins := range s.best.Block().Instrs {
		q, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if q == s.best || !usedOutside(q, s.loop) || inductionOf(q) || loopCurOf(q) {
			continue
		}
		// the candidate itself may be remembered by another search of the same loop
		other := false
		for _, o := range p.searches(s.f) {
			if o.best == q {
				other = true
			}
		}
		if other {
			continue
		}
		with, without, missing, fixed := 0, 0, 0, 0
		var val ssa.Value
		for _, t := range s.paths {
			n := t.next(q)
			taken := t.next(s.best) != ssa.Value(s.best)
			_, _, eq, _, _, _ := s.about(p, t)
			switch {
			case taken && n != ssa.Value(q):
				with++
				val = n
				if in, ok := n.(ssa.Instruction); ok && !s.loop[in.Block()] || isConst(n) {
					fixed++
				}
			case taken && n == ssa.Value(q):
				missing++
			case !taken && n != ssa.Value(q) && !eq && !s.tiedBy(t):
				without++
			}
		}
		if with == 0 && without == 0 {
			continue
		}
		if with == 0 {
			// changes only when the best does not
			if s.isCandidate(val) || !reported {
				continue
			}
			continue
		}
		if without > 0 && !s.grows(q) {
			report(phiName(q), "what the search reports also changes when a candidate is rejected")
			continue
		}
		if missing > 0 && !s.grows(q) {
			report(phiName(q), "what the search reports does not always change with the best candidate")
			continue
		}
		// an index moved away from the candidate
		if b, ok := bareNum(val).(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) && isNumeric(q.Type()) {
			if k, isK := constInt(b.Y); isK && k != 0 && loopIndex(b.X, s.best.Block()) && !shifted(s.cand, b.X) {
				report(phiName(q), "what the search reports is next to the best candidate, not the candidate")
			}
		}
		if fixed == with {
			if isNumeric(q.Type()) || basicInfo(q.Type())&types.IsString != 0 {
				report(phiName(q), "what the search reports does not depend on which candidate is best")
			}
		}
	}
}

func isConst(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }

func phiName(q *ssa.Phi) string {
	if q.Comment != "" {
		return q.Comment
	}
	return q.Name()
}

// tiedBy: equality by way of "not better and not worse".
func (s *search) tiedBy(t *turnPath) bool {
	gt, lt := false, false
	for _, fc := range t.facts() {
		b, ok := fc.cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		x, y, op := t.resolve(b.X), t.resolve(b.Y), b.Op
		if bareNum(x) == ssa.Value(s.best) {
			x, y, op = y, x, flip(op)
		}
		if bareNum(y) != ssa.Value(s.best) {
			continue
		}
		if !fc.pol {
			op = negate(op)
		}
		if op == token.GEQ {
			gt = true
		}
		if op == token.LEQ {
			lt = true
		}
		_ = x
	}
	return gt && lt
}

func (s *search) isCandidate(v ssa.Value) bool { return v != nil }

// grows: the loop value collects (appends, adds up) rather than remembers.
func (s *search) grows(q *ssa.Phi) bool {
	for _, t := range s.paths {
		n := t.next(q)
		switch x := n.(type) {
		case *ssa.Call:
			if _, ok := isAppend(x); ok {
				for _, a := range x.Call.Args {
					if t.resolve(a) == ssa.Value(q) {
						return true
					}
				}
			}
		case *ssa.BinOp:
			if reachesArith(x, q, map[ssa.Value]bool{}) {
				return true
			}
		}
	}
	return false
}

func loopCurOf(q *ssa.Phi) bool {
	for _, l := range countingLoops(q.Parent()) {
		if l.Phi == q {
			return true
		}
	}
	return false
}

func loopIndex(v ssa.Value, h *ssa.BasicBlock) bool {
	l := loopCur(v)
	return l != nil && l.Header == h
}

// shifted: the candidate is itself read at a shifted index.
func shifted(cand, idx ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var see func(v ssa.Value, d int) bool
	see = func(v ssa.Value, d int) bool {
		if v == nil || seen[v] || d > 12 {
			return false
		}
		seen[v] = true
		if b, ok := v.(*ssa.BinOp); ok && (b.X == idx || b.Y == idx) {
			return true
		}
		i, ok := v.(ssa.Instruction)
		if !ok {
			return false
		}
		if _, ph := v.(*ssa.Phi); ph {
			return false
		}
		for _, o := range i.Operands(nil) {
			if o != nil && *o != nil && see(*o, d+1) {
				return true
			}
		}
		return false
	}
	return see(cand, 0)
}

// listLonger: a list made in the same function for all candidates is longer, by a fixed number, than the range searched.
func (s *search) listLonger(fr *sumFrame, cl *CountLoop, hi Sym) bool {
	if neighbours(cl) {
		return false
	}
	for _, r := range *cl.Cur.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok || !s.loop[ia.Block()] || ia.Index != cl.Cur {
			continue
		}
		mk, ok := ia.X.(*ssa.MakeSlice)
		if !ok {
			continue
		}
		if k, isK := fr.eval(mk.Len).Sub(hi).IsConst(); isK && k.Sign() > 0 {
			return true
		}
	}
	return false
}

// neighbours: the loop looks at the next or the previous element as well.
func neighbours(cl *CountLoop) bool {
	for _, r := range *cl.Cur.Referrers() {
		b, ok := r.(*ssa.BinOp)
		if !ok || !cl.Body[b.Block()] || b.Op != token.ADD && b.Op != token.SUB || b.Referrers() == nil {
			continue
		}
		for _, u := range *b.Referrers() {
			switch u.(type) {
			case *ssa.IndexAddr, *ssa.Index, ssa.CallInstruction:
				return true
			}
		}
	}
	return false
}

// coverage: the loop looks at every candidate.
func (s *search) coverage(c *Ctx, report func(sub, note string)) {
	p := c.P
	h := s.best.Block()
	var cl *CountLoop
	for _, l := range countingLoops(s.f) {
		if l.Header == h {
			cl = l
		}
	}
	// left early
	for b := range s.loop {
		for _, x := range b.Succs {
			if s.loop[x] || b == h || endsInPanic(x) {
				continue
			}
			if cl != nil && cl.If.Block() == b {
				continue
			}
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if s.dependsOnBest(iff.Cond) || p.isErrTest(iff.Cond) {
					continue
				}
			}
			if s.afterBestTest(b) || p.errGuarded(b) {
				continue
			}
			report("all", "the search can stop before every candidate has been looked at")
		}
	}
	if cl != nil && !cl.Range {
		if cl.Step > 1 || cl.Step < -1 {
			report("all", "the search steps over candidates")
		}
		if cl.Step == 1 {
			fr := newSumFrame(p, nil)
			lo, hi := fr.eval(cl.Init), fr.eval(cl.Bound)
			if cl.Op == token.LEQ {
				hi = hi.Add(symInt(1))
			}
			if cl.Op == token.LSS || cl.Op == token.LEQ || cl.Op == token.NEQ {
				first := s.startsFromFirst(cl)
				kl, okl := constTerm(lo)
				kh, okh := constTerm(hi)
				if okl && kl > 0 && !first && !neighbours(cl) && len(lo.num) <= 2 {
					report("all", "the search leaves out the first candidates")
				}
				if cl.Op != token.NEQ && s.listLonger(fr, cl, hi) {
					report("all", "the search ends before the end of the list it looks at")
				}
				if okh && kh < 0 && len(hi.num) > 1 && !neighbours(cl) {
					report("all", "the search leaves out the last candidates")
				}
			}
		}
	}
	// candidates skipped by their position or name
	for _, t := range s.paths {
		_, _, _, _, _, known := s.about(p, t)
		if known || t.next(s.best) != ssa.Value(s.best) {
			continue
		}
		for _, fc := range t.facts() {
			if fc.iff.Block() == h || cl != nil && cl.If == fc.iff {
				continue
			}
			b, ok := fc.cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			x, y := bareNum(b.X), bareNum(b.Y)
			if s.fromExtreme() && !s.free {
				for _, o := range p.searches(s.f) {
					if o.best != s.best && o.best.Block() == h && o.max != s.max && (t.resolve(x) == ssa.Value(o.best) || t.resolve(y) == ssa.Value(o.best)) && t.next(o.best) != ssa.Value(o.best) && p.sameRead(o.cand, s.cand) {
						report("all", "a candidate kept at one end of the range is not compared to the other end, which the first one also belongs to")
					}
				}
			}
			if s.keyOf(x) && !s.loopVal(y) || s.keyOf(y) && !s.loopVal(x) {
				report("all", "the search skips candidates by their position or name")
			}
		}
	}
}

func (s *search) keyOf(v ssa.Value) bool {
	if loopIndex(v, s.best.Block()) {
		return true
	}
	if e, ok := v.(*ssa.Extract); ok && e.Index == 1 {
		if nx, ok := e.Tuple.(*ssa.Next); ok {
			return nx.Block() == s.best.Block()
		}
	}
	return false
}

func (s *search) loopVal(v ssa.Value) bool {
	i, ok := v.(ssa.Instruction)
	return ok && s.loop[i.Block()]
}

func (p *Prog) isErrTest(v ssa.Value) bool {
	x, _, ok := nilTest(v)
	return ok && isErrorType(x.Type())
}

func (p *Prog) errGuarded(b *ssa.BasicBlock) bool {
	for _, g := range guardsOf(b) {
		if x, isNil, ok := nilTest(g.Cond); ok && isErrorType(x.Type()) && isNil != g.Pol {
			return true
		}
	}
	return false
}

func (s *search) dependsOnBest(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var see func(v ssa.Value, d int) bool
	see = func(v ssa.Value, d int) bool {
		if v == ssa.Value(s.best) {
			return true
		}
		if seen[v] || d > 8 {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			if !s.loop[x.Block()] {
				return false
			}
			for _, e := range x.Edges {
				if see(e, d+1) {
					return true
				}
			}
		case *ssa.BinOp:
			return see(x.X, d+1) || see(x.Y, d+1)
		case *ssa.UnOp:
			return see(x.X, d+1)
		case *ssa.Convert:
			return see(x.X, d+1)
		}
		return false
	}
	return see(v, 0)
}

func (s *search) afterBestTest(b *ssa.BasicBlock) bool {
	for _, g := range guardsOf(b) {
		if s.loop[g.If.Block()] && s.dependsOnBest(g.Cond) {
			return true
		}
	}
	return false
}

func constTerm(s Sym) (float64, bool) {
	if len(s.den) != 1 {
		return 0, false
	}
	d, ok := s.den[""]
	if !ok {
		return 0, false
	}
	k, has := s.num[""]
	if !has {
		return 0, true
	}
	df, _ := d.Float64()
	kf, _ := k.Float64()
	return kf / df, true
}

// startsFromFirst: the search starts from the candidate just before the first one looked at.
func (s *search) startsFromFirst(cl *CountLoop) bool {
	for _, v := range s.starts() {
		if isConst(v) || extreme(v) != 0 {
			return false
		}
	}
	return true
}

func (s *search) fromExtreme() bool {
	for _, v := range s.starts() {
		if extreme(v) != 0 {
			return true
		}
	}
	return false
}

func (s *search) start(c *Ctx, report func(sub, note string)) {
	p := c.P
	if s.free {
		return
	}
	for _, v := range s.starts() {
		e := extreme(v)
		if e != 0 {
			if (e < 0) != s.max {
				report("start", "the search starts from a value that no candidate beats")
			}
			continue
		}
		k, ok := bareNum(v).(*ssa.Const)
		if !ok {
			continue
		}
		z, isF := constFloat(k)
		if !isF {
			i, isI := constInt(k)
			if !isI {
				continue
			}
			z = float64(i)
		}
		if s.max && z <= 0 {
			cand := s.cand
			if p.notNegative(cand, 0) {
				continue
			}
			if in, ok := cand.(ssa.Instruction); ok && s.f.Blocks != nil {
				_ = in
			}
			report("start", "the search for the largest candidate starts from "+k.Value.String()+", which candidates need not exceed")
			continue
		}
		report("start", "the search for the "+map[bool]string{true: "largest", false: "smallest"}[s.max]+" candidate starts from "+k.Value.String()+", which candidates need not beat")
	}
}

// forgotten: a key is kept because its value exceeds a constant: the best value itself is never remembered.
func (p *Prog) forgotten(c *Ctx, f *ssa.Function) {
	for _, l := range mapLoops(p, f) {
		for _, ins := range l.head.Instrs {
			q, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			if !usedOutside(q, l.body) || inductionOf(q) {
				continue
			}
			paths, full := turnPaths(l.head, l.body, 2000)
			if !full {
				continue
			}
			for _, t := range paths {
				if !t.feasible() {
					continue
				}
				e, ok := t.next(q).(*ssa.Extract)
				if !ok || e.Index != 1 {
					continue
				}
				if nx, ok := e.Tuple.(*ssa.Next); !ok || nx.Block() != l.head {
					continue
				}
				byConst, other := false, false
				for _, fc := range t.facts() {
					if fc.iff.Block() == l.head {
						continue
					}
					b, ok := fc.cond.(*ssa.BinOp)
					if !ok {
						other = true
						continue
					}
					op := b.Op
					if !fc.pol {
						op = negate(op)
					}
					x, y := t.resolve(b.X), t.resolve(b.Y)
					if isConst(x) {
						x, y = y, x
					}
					switch op {
					case token.GTR, token.LSS, token.GEQ, token.LEQ:
						if isConst(y) && l.iterates(x) {
							byConst = true
							continue
						}
						other = true
					case token.EQL:
						other = true
					}
				}
				if byConst && !other {
					c.Bad("search:"+p.Name(f)+"#"+phiName(q)+"#kept", p.InstrPos(t.blocks[0].Instrs[0]), "the key kept is any whose value exceeds a constant: the best value is not remembered")
					break
				}
			}
		}
	}
}

// iterates: the value is the one of the current key.
func (l *mapLoop) iterates(v ssa.Value) bool {
	switch x := bareNum(v).(type) {
	case *ssa.Extract:
		nx, ok := x.Tuple.(*ssa.Next)
		return ok && nx.Block() == l.head && x.Index == 2
	case *ssa.Lookup:
		e, ok := x.Index.(*ssa.Extract)
		if !ok {
			return false
		}
		nx, ok := e.Tuple.(*ssa.Next)
		return ok && nx.Block() == l.head
	}
	return false
}

// tableRanges: largest and smallest values kept per entry of a table.
func (p *Prog) tableRanges(c *Ctx, f *ssa.Function) {
	for _, i := range instrs(f) {
		u, ok := i.(*ssa.MapUpdate)
		if !ok || !isNumeric(u.Value.Type()) {
			continue
		}
		for _, g := range guardsOf(u.Block()) {
			b, ok := g.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			x, y, op := b.X, b.Y, b.Op
			if p.tableRead(x, u) {
				x, y, op = y, x, flip(op)
			}
			if !p.tableRead(y, u) || p.tableRead(x, u) {
				continue
			}
			if !g.Pol {
				op = negate(op)
			}
			max := op == token.GTR || op == token.GEQ
			if !max && op != token.LSS && op != token.LEQ {
				continue
			}
			key := "range:" + p.Name(f) + "#" + tableName(u.Map)
			pos := p.InstrPos(u)
			c.Count("ranges kept in tables", 1)
			if !p.sameRead(u.Value, x) {
				c.Bad(key+"#value", pos, "the value kept is not the value compared")
				continue
			}
			// where the entry starts
			bad := false
			fromInf := false
			for _, g := range withClosures(owner(f)) {
				for _, j := range instrs(g) {
					w, ok := j.(*ssa.MapUpdate)
					if !ok || w == u || !p.sameTable(w.Map, u.Map) {
						continue
					}
					e := extreme(w.Value)
					fromInf = fromInf || e != 0
					if e != 0 && (e < 0) != max || e == 0 && isConst(bareNum(w.Value)) {
						bad = true
					}
				}
			}
			if fromInf {
				// the first value belongs to both ends
				for _, h := range guardsOf(u.Block()) {
					b, ok := h.Cond.(*ssa.BinOp)
					if !ok || h.Pol || h.If == g.If {
						continue
					}
					for _, o := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
						l, isL := bareNum(o[0]).(*ssa.Lookup)
						if isL && p.sameRead(o[1], x) && p.sameRead(l.Index, u.Key) && !p.sameRead(l.X, u.Map) {
							c.Bad(key+"#both", pos, "a value kept at one end of the range is not compared to the other end, which the first one also belongs to")
						}
					}
				}
			}
			c.Check(!bad, key, pos, "starts from an infinity of the right sign", "the entry starts from a value that not every candidate beats")
			// a name that says which end it is
			low := strings.ToLower(tableName(u.Map))
			if strings.Contains(low, "max") && !max || strings.Contains(low, "min") && max {
				c.Bad(key+"#direction", pos, "the table of the "+map[bool]string{true: "smallest", false: "largest"}[max]+" values keeps the other end")
			}
		}
	}
}

func (p *Prog) sameTable(a, b ssa.Value) bool {
	if p.sameRead(a, b) {
		return true
	}
	x, _ := fieldLoad(a)
	y, _ := fieldLoad(b)
	return x != nil && x == y
}

func tableName(m ssa.Value) string {
	if fv, _ := fieldLoad(m); fv != nil {
		return fv.Name()
	}
	return m.Name()
}

// tallies: tables of counts or weights.
func (p *Prog) tallies(c *Ctx, f *ssa.Function) {
	type group struct {
		ups []*ssa.MapUpdate
		inc ssa.Value
	}
	var groups []*group
	for _, i := range instrs(f) {
		u, ok := i.(*ssa.MapUpdate)
		if !ok || !isNumeric(u.Value.Type()) {
			continue
		}
		var g *group
		for _, o := range groups {
			if p.sameRead(o.ups[0].Map, u.Map) && p.sameRead(o.ups[0].Key, u.Key) {
				g = o
			}
		}
		if g == nil {
			g = &group{}
			groups = append(groups, g)
		}
		g.ups = append(g.ups, u)
	}
	n := 0
	for _, g := range groups {
		u := g.ups[0]
		if _, made := u.Map.(*ssa.MakeMap); made && len(g.ups) == 1 && basicInfo(u.Value.Type())&types.IsInteger != 0 && !isConst(bareNum(u.Value)) && !p.reads(u.Value, u) {
			// the numbers of one table after the other
			for _, l := range mapLoops(p, f) {
				if !l.body[u.Block()] || !l.iterates(u.Value) {
					continue
				}
				if e, ok := u.Key.(*ssa.Extract); !ok || e.Index != 1 {
					continue
				}
				for _, b := range f.Blocks {
					outer := naturalLoop(b)
					if outer == nil || b == l.head || !outer[l.head] || outer[u.Map.(*ssa.MakeMap).Block()] {
						continue
					}
					c.Bad(fmt.Sprintf("tally:%s#replaced", p.Name(f)), p.InstrPos(u), "the counts of one table replace those of another instead of adding to them")
				}
			}
		}
		counts := false
		for _, u := range g.ups {
			if b, ok := bareNum(u.Value).(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) && (p.tableReadPhi(b.X, u) || p.tableReadPhi(b.Y, u)) {
				counts = true
			}
		}
		if !counts && len(g.ups) == 2 && p.bothWays(g.ups) && p.sameRead(g.ups[0].Value, g.ups[1].Value) {
			n++
			c.Bad(fmt.Sprintf("tally:%s#%d#reset", p.Name(f), n), p.InstrPos(g.ups[0]), "an entry that is already there is replaced instead of counted on")
			continue
		}
		if !counts {
			continue
		}
		n++
		c.Count("tallies", 1)
		key := fmt.Sprintf("tally:%s#%d", p.Name(f), n)
		p.tally(c, f, g.ups, key)
		for _, o := range groups {
			for _, u := range o.ups {
				if o == g || !p.sameRead(u.Map, g.ups[0].Map) || isConst(bareNum(u.Value)) || p.reads(u.Value, u) {
					continue
				}
				absent := false
				for _, gd := range guardsOf(u.Block()) {
					if p.asks(gd.Cond, u.Map, u.Key) && !gd.Pol {
						absent = true
					}
				}
				// filled before the counting starts
				if absent || !reach(g.ups[0].Block())[u.Block()] {
					continue
				}
				c.Bad(key+"#replaced", p.InstrPos(u), "an entry of a table of counts is replaced instead of counted on")
			}
		}
	}
}

// reads: the value is made from the old entry.
func (p *Prog) reads(v ssa.Value, u *ssa.MapUpdate) bool {
	seen := map[ssa.Value]bool{}
	var see func(v ssa.Value) bool
	see = func(v ssa.Value) bool {
		v = bareNum(v)
		if seen[v] {
			return false
		}
		seen[v] = true
		if p.tableReadPhi(v, u) {
			return true
		}
		switch x := v.(type) {
		case *ssa.BinOp:
			return see(x.X) || see(x.Y)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if see(e) {
					return true
				}
			}
		}
		return false
	}
	return see(v)
}

// bothWays: the two updates are the two outcomes of asking whether the entry is there.
func (p *Prog) bothWays(ups []*ssa.MapUpdate) bool {
	pol := map[bool]bool{}
	for _, u := range ups {
		for _, g := range guardsOf(u.Block()) {
			if p.asks(g.Cond, u.Map, u.Key) {
				pol[g.Pol] = true
			}
		}
	}
	return len(pol) == 2
}

// asks: the condition is whether the table has the entry.
func (p *Prog) asks(cond, m, key ssa.Value) bool {
	e, ok := cond.(*ssa.Extract)
	if !ok || e.Index != 1 {
		return false
	}
	l, ok := e.Tuple.(*ssa.Lookup)
	return ok && p.sameRead(l.X, m) && p.sameRead(l.Index, key)
}

// tableReadPhi: the old entry, possibly replaced by zero when there is none.
func (p *Prog) tableReadPhi(v ssa.Value, u *ssa.MapUpdate) bool {
	if p.tableRead(v, u) {
		return true
	}
	if ph, ok := v.(*ssa.Phi); ok {
		r := false
		for _, e := range ph.Edges {
			if p.tableRead(e, u) {
				r = true
			} else if !isConst(e) {
				return false
			}
		}
		return r
	}
	return false
}

func (p *Prog) tally(c *Ctx, f *ssa.Function, ups []*ssa.MapUpdate, key string) {
	pos := p.InstrPos(ups[0])
	// the smallest region all of them are in: a loop, or the whole function
	var head *ssa.BasicBlock
	var loop map[*ssa.BasicBlock]bool
	for _, b := range f.Blocks {
		l := naturalLoop(b)
		if l == nil {
			continue
		}
		all := true
		for _, u := range ups {
			all = all && l[u.Block()]
		}
		if all && (loop == nil || len(l) < len(loop)) {
			head, loop = b, l
		}
	}
	var paths []*turnPath
	full := true
	if head != nil {
		paths, full = turnPaths(head, loop, 3000)
	} else {
		paths, full = wholePaths(f, 3000)
	}
	if !full {
		c.Count("undecided tallies", 1)
		return
	}
	isUp := map[*ssa.MapUpdate]bool{}
	for _, u := range ups {
		isUp[u] = true
	}
	type eff struct {
		inc string
		v   ssa.Value
	}
	var first *eff
	for _, t := range paths {
		if !t.feasible() {
			continue
		}
		asked, present, askedOuter := false, false, false
		for _, fc := range t.facts() {
			if p.asks(fc.cond, ups[0].Map, ups[0].Key) {
				asked, present = true, fc.pol
			}
			if l, ok := ups[0].Map.(*ssa.Lookup); ok && p.asks(fc.cond, l.X, l.Index) {
				askedOuter = true
			}
		}
		var done []*ssa.MapUpdate
		for _, b := range t.blocks[:len(t.blocks)-1] {
			for _, i := range b.Instrs {
				if u, ok := i.(*ssa.MapUpdate); ok && isUp[u] {
					done = append(done, u)
				}
			}
		}
		if len(done) == 0 {
			if (asked || askedOuter) && !again(t, head) {
				c.Bad(key+"#lost", pos, "an occurrence is not counted on one of the ways the table is asked about its entry")
				return
			}
			continue
		}
		// total added on this path
		var inc ssa.Value
		zero := false // the entry is known to be zero at this point
		bad := false
		for n, u := range done {
			v := t.resolve(bareNum(u.Value))
			if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
				x, y := t.resolve(b.X), t.resolve(b.Y)
				if p.tableRead(y, u) && b.Op == token.ADD || asked && !present && isConstZero(y) {
					x, y = y, x
				}
				if p.tableRead(x, u) || (asked && !present || zero) && isZeroNum(x) {
					if inc != nil || b.Op == token.SUB {
						bad = true
					}
					inc = y
					zero = false
					continue
				}
			}
			// an entry set from scratch
			if isZeroNum(v) && inc == nil {
				zero = true
				if asked && present {
					c.Bad(key+"#reset", pos, "an entry that is already there is set back instead of counted on")
					return
				}
				continue
			}
			if asked && !present && inc == nil {
				inc = v
				continue
			}
			if asked && present {
				c.Bad(key+"#reset", pos, "an entry that is already there is replaced instead of counted on")
				return
			}
			if k, ok := constInt(v); ok && k == 1 && n < len(done)-1 {
				bad = true
				continue
			}
			c.Count("undecided tallies", 1)
			return
		}
		if bad {
			c.Bad(key+"#twice", pos, "an occurrence is counted twice, or taken off, on one path")
			return
		}
		if inc == nil {
			if asked {
				c.Bad(key+"#lost", pos, "the first occurrence of an entry is not counted")
				return
			}
			continue
		}
		if k, ok := constInt(inc); ok && basicInfo(inc.Type())&types.IsInteger != 0 && k != 1 {
			c.Bad(key+"#one", pos, fmt.Sprintf("an occurrence counts for %d", k))
			return
		}
		if first == nil {
			first = &eff{v: inc}
		} else if !p.sameRead(first.v, inc) {
			c.Bad(key+"#same", pos, "the first occurrence of an entry counts differently from later ones")
			return
		}
	}
	c.Ok(key, pos, "each occurrence is counted once")
}

// again: the turn is repeated for the same element (the index does not move on).
func again(t *turnPath, head *ssa.BasicBlock) bool {
	if head == nil {
		return false
	}
	for _, cl := range countingLoops(head.Parent()) {
		if cl.Header != head {
			continue
		}
		v, k := t.next(cl.Phi), int64(0)
		for v != ssa.Value(cl.Phi) {
			b, ok := v.(*ssa.BinOp)
			if !ok {
				return false
			}
			d, isK := constInt(b.Y)
			if !isK {
				return false
			}
			if b.Op == token.SUB {
				d = -d
			} else if b.Op != token.ADD {
				return false
			}
			k += d
			v = t.resolve(b.X)
		}
		return k == 0
	}
	return false
}

func isZeroNum(v ssa.Value) bool {
	if isConstZero(v) {
		return true
	}
	k, ok := constInt(v)
	return ok && k == 0
}

// wholePaths: the paths through a function from entry to return, loops passed at most once.
func wholePaths(f *ssa.Function, limit int) ([]*turnPath, bool) {
	var out []*turnPath
	var cur []*ssa.BasicBlock
	on := map[*ssa.BasicBlock]bool{}
	full := true
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if len(out) >= limit {
			full = false
			return
		}
		cur = append(cur, b)
		on[b] = true
		if len(b.Succs) == 0 {
			t := &turnPath{append(append([]*ssa.BasicBlock{}, cur...), nil), map[*ssa.BasicBlock]int{}}
			for i, x := range cur {
				t.pos[x] = i
			}
			out = append(out, t)
		}
		for _, s := range b.Succs {
			if !on[s] {
				walk(s)
			}
		}
		on[b] = false
		cur = cur[:len(cur)-1]
	}
	walk(f.Blocks[0])
	return out, full
}

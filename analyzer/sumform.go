package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Sums over maps and slices in algebraic normal form: an accumulator that only ever has terms added to it inside loops is
// the sum, over those loops, of the terms under the conditions that guard the additions.

type sumFrame struct {
	p       *Prog
	bind    map[ssa.Value]Sym
	keys    map[*ssa.BasicBlock]string // loops being summed over -> name of the key
	level   int
	env     *SymEnv
	deep    int
	path    []ssa.Value
	atom    func(f *sumFrame, v ssa.Value) (Sym, bool) // names given by the caller
	mats    map[string]matDef
	busyLen map[ssa.Value]bool
	sqrts   map[string]Sym
	last    bool // some accumulator is not a sum (overwritten or multiplied)
}

func newSumFrame(p *Prog, atom func(f *sumFrame, v ssa.Value) (Sym, bool)) *sumFrame {
	f := &sumFrame{p: p, bind: map[ssa.Value]Sym{}, keys: map[*ssa.BasicBlock]string{}, atom: atom, busyLen: map[ssa.Value]bool{}, sqrts: map[string]Sym{}, mats: map[string]matDef{}}
	f.env = &SymEnv{P: p, bind: f.bind, Atom: f.hook}
	return f
}

func (f *sumFrame) eval(v ssa.Value) Sym { return f.env.Eval(v) }

type domain struct {
	loop   map[*ssa.BasicBlock]bool
	head   *ssa.BasicBlock
	name   string
	isKeys bool // the key ranges over map keys (looking up a missing one gives zero)
	next   *ssa.Next
	count  *CountLoop
	elem   string // prefix for slice elements
}

// mapKeysOf: the slice holds exactly the keys of a map (collected in a loop over it, here or in the helper called).
func (f *sumFrame) mapKeysOf(v ssa.Value) (Sym, bool) {
	switch x := v.(type) {
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || !f.p.IsLibFunc(g) {
			return Sym{}, false
		}
		ls := mapLoops(f.p, g)
		if len(ls) != 1 {
			return Sym{}, false
		}
		for k, q := range g.Params {
			if ls[0].m == ssa.Value(q) && f.keysCollected(ls[0]) {
				if rs := returns(g); len(rs) >= 1 {
					return f.eval(x.Call.Args[k]), true
				}
			}
		}
	case *ssa.Phi:
		for _, l := range mapLoops(f.p, x.Parent()) {
			if l.head == x.Block() && f.keysCollected(l) {
				return f.eval(l.m), true
			}
		}
	case *ssa.UnOp:
		if a := f.p.cellOf(x.X); a != nil {
			for _, st := range f.p.cellStores(a) {
				if s, ok := f.mapKeysOf(st.Val); ok {
					return s, true
				}
				if c, ok := isAppend(st.Val); ok {
					for _, l := range mapLoops(f.p, x.Parent()) {
						if l.body[c.Block()] && f.keysCollected(l) {
							return f.eval(l.m), true
						}
					}
				}
			}
		}
	}
	return Sym{}, false
}

// keysCollected: every iteration of the loop appends its key.
func (f *sumFrame) keysCollected(l *mapLoop) bool {
	for _, i := range instrs(l.f) {
		if !l.in(i) {
			continue
		}
		switch x := i.(type) {
		case *ssa.Store:
			e, ok := x.Val.(*ssa.Extract)
			if ok && e.Tuple == ssa.Value(l.next) && e.Index == 1 && len(l.inGuards(x.Block())) == 0 {
				return true
			}
		}
	}
	return false
}

// inGuards: the conditions inside the loop that guard a block.
func (l *mapLoop) inGuards(b *ssa.BasicBlock) []Guard {
	var out []Guard
	for _, g := range guardsOf(b) {
		in, ok := g.Cond.(ssa.Instruction)
		if !ok || !l.body[in.Block()] {
			continue
		}
		if e, ok := g.Cond.(*ssa.Extract); ok && e.Tuple == ssa.Value(l.next) {
			continue
		}
		out = append(out, g)
	}
	return out
}

func (f *sumFrame) domainOf(h *ssa.BasicBlock) *domain {
	for _, l := range mapLoops(f.p, h.Parent()) {
		if l.head == h {
			return &domain{loop: l.body, head: h, name: f.eval(l.m).String(), isKeys: true, next: l.next}
		}
	}
	for _, l := range countingLoops(h.Parent()) {
		if l.Header != h {
			continue
		}
		d := &domain{loop: l.Body, head: h, count: l}
		if l.Step == -1 {
			k, ok := constInt(l.Bound)
			if !ok || l.Op != token.GEQ && l.Op != token.GTR {
				return nil
			}
			if l.Op == token.GTR {
				k++
			}
			d.name = fmt.Sprintf("%d..%s", k, f.eval(l.Init).Add(symInt(1)).String())
			return d
		}
		if l.Op != token.LSS && l.Op != token.NEQ && l.Op != token.LEQ || l.Step != 1 {
			return nil
		}
		k, ok := constInt(l.Init)
		if !ok {
			return nil
		}
		if l.Range {
			k = 0
		}
		if l.Op == token.LEQ {
			d.name = fmt.Sprintf("%d..%s", k, f.eval(l.Bound).Add(symInt(1)).String())
			return d
		}
		if c, ok := l.Bound.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && k == 0 {
				if m, ok := f.mapKeysOf(c.Call.Args[0]); ok {
					d.name = m.String()
					d.isKeys = true
					return d
				}
			}
		}
		d.name = fmt.Sprintf("%d..%s", k, f.eval(l.Bound).String())
		return d
	}
	return nil
}

func (f *sumFrame) key(h *ssa.BasicBlock) (string, bool) { k, ok := f.keys[h]; return k, ok }

func (f *sumFrame) hook(v ssa.Value) (Sym, bool) {
	if f.atom != nil {
		if s, ok := f.atom(f, v); ok {
			return s, true
		}
	}
	switch x := v.(type) {
	case *ssa.Const:
		if z, ok := constFloat(x); ok && math.Abs(z-0.5772156649015329) < 1e-6 {
			return symAtom("γ"), true
		}
	case *ssa.Alloc:
		// an array copied into a local variable
		if _, ok := deref(x.Type()).Underlying().(*types.Array); ok {
			var whole ssa.Value
			for _, r := range *x.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
					if whole != nil {
						return Sym{}, false
					}
					whole = st.Val
				}
			}
			if whole != nil {
				return f.eval(whole), true
			}
		}
	case *ssa.Phi:
		if l := loopCur(x); l != nil {
			if k, ok := f.key(l.Header); ok {
				return symAtom(k), true
			}
		}
		return f.phi(x), true
	case *ssa.BinOp:
		if l := loopCur(x); l != nil && l.Cur == ssa.Value(x) {
			if k, ok := f.key(l.Header); ok {
				return symAtom(k), true
			}
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Next:
			if k, ok := f.key(t.Block()); ok {
				if x.Index == 1 {
					return symAtom(k), true
				}
				if r, ok := t.Iter.(*ssa.Range); ok {
					return symAtom(f.eval(r.X).String() + "[" + k + "]"), true
				}
			}
		case *ssa.Lookup:
			if x.Index == 0 {
				return symAtom(f.eval(t.X).String() + "[" + f.eval(t.Index).String() + "]"), true
			}
		case *ssa.Call:
			if s, ok := f.call(t, x.Index); ok {
				return s, true
			}
		}
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
			if l := loopCur(ia.Index); l != nil {
				if k, ok := f.key(l.Header); ok {
					if _, isK := f.mapKeysOf(ia.X); isK {
						return symAtom(k), true
					}
				}
			}
			idx := f.eval(ia.Index).String()
			if s, ok := f.sliceElem(ia.X, idx); ok {
				return s, true
			}
			return symAtom(f.eval(ia.X).String() + "[" + idx + "]"), true
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if m, ok := f.mapKeysOf(x.Call.Args[0]); ok {
				return symAtom("len(" + m.String() + ")"), true
			}
			if n, ok := f.sliceLen(x.Call.Args[0]); ok {
				return n, true
			}
			return Sym{}, false
		}
		if s, ok := f.math(x); ok {
			return s, true
		}
		if s, ok := f.call(x, 0); ok {
			return s, true
		}
		if x.Call.StaticCallee() == nil && !x.Call.IsInvoke() {
			if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
				var as []string
				for _, a := range x.Call.Args {
					as = append(as, f.eval(a).String())
				}
				return symAtom(f.eval(x.Call.Value).String() + "(" + strings.Join(as, ",") + ")"), true
			}
		}
	}
	return Sym{}, false
}

// filled: the loop that fills a local slice, one element per iteration, and the value it stores.
func (f *sumFrame) filled(v ssa.Value) (*domain, ssa.Value) {
	switch x := v.(type) {
	case *ssa.MakeSlice:
		var d *domain
		var val ssa.Value
		for _, r := range *x.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, q := range *ia.Referrers() {
				st, ok := q.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(ia) {
					continue
				}
				l := loopCur(ia.Index)
				if l == nil || val != nil {
					return nil, nil
				}
				d = f.domainOf(l.Header)
				if d == nil || len(f.loopGuards(st.Block(), d)) > 0 {
					return nil, nil
				}
				if n := f.eval(x.Len); "0.."+n.String() != d.name {
					return nil, nil
				}
				val = st.Val
			}
		}
		return d, val
	case *ssa.Phi:
		loop := naturalLoop(x.Block())
		var val ssa.Value
		for k, e := range x.Edges {
			if !loop[x.Block().Preds[k]] {
				switch y := e.(type) {
				case *ssa.Const:
				case *ssa.MakeSlice:
					if n, ok := constInt(y.Len); !ok || n != 0 {
						return nil, nil
					}
				case *ssa.Slice:
					if a, ok := y.X.(*ssa.Alloc); !ok || !strings.HasPrefix(deref(a.Type()).String(), "[0]") {
						return nil, nil
					}
				default:
					return nil, nil
				}
				continue
			}
			c, ok := isAppend(e)
			if !ok || c.Call.Args[0] != ssa.Value(x) || val != nil {
				return nil, nil
			}
			sl, ok := c.Call.Args[1].(*ssa.Slice)
			if !ok {
				return nil, nil
			}
			a, ok := sl.X.(*ssa.Alloc)
			if !ok {
				return nil, nil
			}
			for _, r := range *a.Referrers() {
				ia, ok := r.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				for _, q := range *ia.Referrers() {
					if st, ok := q.(*ssa.Store); ok {
						if val != nil {
							return nil, nil
						}
						val = st.Val
					}
				}
			}
			d := f.domainOf(x.Block())
			if val == nil || d == nil || d.count == nil || len(f.loopGuards(c.Block(), d)) > 0 {
				return nil, nil
			}
			return d, val
		}
	}
	return nil, nil
}

func (f *sumFrame) sliceLen(v ssa.Value) (Sym, bool) {
	if f.busyLen[v] {
		return Sym{}, false
	}
	f.busyLen[v] = true
	defer delete(f.busyLen, v)
	switch x := v.(type) {
	case *ssa.MakeSlice:
		return f.eval(x.Len), true
	case *ssa.Phi:
		if d, val := f.filled(x); val != nil && strings.HasPrefix(d.name, "0..") {
			return f.eval(d.count.Bound), true
		}
	case *ssa.Call:
		if g, in := f.enter(x); g != nil {
			if rs := returns(g); len(rs) == 1 && len(rs[0].Results) > 0 {
				return in.sliceLen(rs[0].Results[0])
			}
		}
	}
	return Sym{}, false
}

// sliceElem: the element of a local slice at an index.
func (f *sumFrame) sliceElem(v ssa.Value, idx string) (Sym, bool) {
	switch x := v.(type) {
	case *ssa.MakeSlice, *ssa.Phi:
		d, val := f.filled(x)
		if val == nil || f.keys[d.head] != "" {
			return Sym{}, false
		}
		f.keys[d.head] = idx
		defer delete(f.keys, d.head)
		return f.eval(val), true
	case *ssa.Call:
		if g, in := f.enter(x); g != nil {
			if rs := returns(g); len(rs) == 1 && len(rs[0].Results) > 0 {
				return in.sliceElem(rs[0].Results[0], idx)
			}
		}
	}
	return Sym{}, false
}

func (f *sumFrame) isSqrt(s Sym) (Sym, bool) {
	if len(s.num) == 1 && len(s.den) == 1 {
		for m, c := range s.num {
			if d, ok := s.den[""]; ok && d.Cmp(c) == 0 {
				in, ok := f.sqrts[m]
				return in, ok
			}
		}
	}
	return Sym{}, false
}

// math: the functions with algebraic rules.
func (f *sumFrame) math(c *ssa.Call) (Sym, bool) {
	o := calleeObj(c)
	if o == nil || o.Pkg() == nil || o.Pkg().Path() != "math" {
		return Sym{}, false
	}
	as := c.Call.Args
	switch o.Name() {
	case "Abs":
		s := f.eval(as[0]).reduce()
		n := symInt(0).Sub(s).reduce()
		if n.String() < s.String() {
			s = n
		}
		return symAtom("abs(" + s.String() + ")"), true
	case "Sqrt":
		return f.sqrt(f.eval(as[0])), true
	case "Pow":
		b, e := f.eval(as[0]), f.eval(as[1])
		if k, ok := e.IsConst(); ok {
			if k.IsInt() && k.Num().IsInt64() && k.Num().Int64() >= 0 && k.Num().Int64() < 6 {
				n := k.Num().Int64()
				if in, ok := f.isSqrt(b); ok && n%2 == 0 {
					b, n = in, n/2
				}
				out := symInt(1)
				for ; n > 0; n-- {
					out = out.Mul(b)
				}
				return out, true
			}
			if k.Cmp(big.NewRat(1, 2)) == 0 {
				return f.sqrt(b), true
			}
		}
		return symAtom("pow(" + f.squares(b).reduce().String() + "," + f.squares(e).reduce().String() + ")"), true
	case "Exp2":
		return symAtom("pow(2," + f.eval(as[0]).reduce().String() + ")"), true
	case "Log":
		return symLog(f.eval(as[0])), true
	case "Log2":
		return symLog(f.eval(as[0])).Div(symLog(symInt(2))), true
	case "Log10":
		return symLog(f.eval(as[0])).Div(symLog(symInt(10))), true
	case "Exp":
		return symAtom("exp(" + f.squares(f.eval(as[0])).reduce().String() + ")"), true
	}
	return Sym{}, false
}

func (f *sumFrame) sqrt(s Sym) Sym {
	s = s.reduce()
	if len(s.num) == 1 && len(s.den) == 1 {
		for m, c := range s.num {
			if d, ok := s.den[""]; ok && d.Cmp(c) == 0 && strings.Contains(m, "·") {
				out := symInt(1)
				for _, a := range strings.Split(m, "·") {
					out = out.Mul(f.sqrt(symAtom(a)))
				}
				return f.squares(out)
			}
		}
	}
	a := "sqrt(" + s.String() + ")"
	f.sqrts[a] = s
	return symAtom(a)
}

// squares: a square root times itself is its argument.
func (f *sumFrame) squares(s Sym) Sym {
	sub := func(p poly) Sym {
		out := symInt(0)
		for m, c := range p {
			t := symConst(c)
			cnt := map[string]int{}
			if m != "" {
				for _, a := range strings.Split(m, "·") {
					cnt[a]++
				}
			}
			for _, a := range sortedKeys(cnt) {
				n := cnt[a]
				in, ok := f.sqrts[a]
				for ; n >= 2 && ok; n -= 2 {
					t = t.Mul(in)
				}
				for ; n > 0; n-- {
					t = t.Mul(symAtom(a))
				}
			}
			out = out.Add(t)
		}
		return out
	}
	return sub(s.num).Div(sub(s.den))
}

// symLog expands the logarithm of a quotient or product.
func symLog(s Sym) Sym {
	s = s.reduce()
	return logPoly(s.num).Sub(logPoly(s.den))
}

func logPoly(p poly) Sym {
	if len(p) != 1 {
		return symAtom("log(" + p.String() + ")")
	}
	out := symInt(0)
	for m, c := range p {
		if c.Cmp(big.NewRat(1, 1)) != 0 {
			out = out.Add(symAtom("log(" + c.RatString() + ")"))
		}
		if m != "" {
			for _, a := range strings.Split(m, "·") {
				out = out.Add(symAtom("log(" + a + ")"))
			}
		}
	}
	return out
}

// reduce cancels common factors of the monomials and makes the denominator's first coefficient one.
func (s Sym) reduce() Sym {
	if len(s.num) == 0 {
		return symInt(0)
	}
	var common map[string]int
	for _, p := range []poly{s.num, s.den} {
		for m := range p {
			cnt := map[string]int{}
			if m != "" {
				for _, a := range strings.Split(m, "·") {
					cnt[a]++
				}
			}
			if common == nil {
				common = cnt
				continue
			}
			for a := range common {
				if cnt[a] < common[a] {
					common[a] = cnt[a]
				}
			}
		}
	}
	lead := ""
	first := true
	for m := range s.den {
		if first || m < lead {
			lead = m
			first = false
		}
	}
	k := s.den[lead]
	div := func(p poly) poly {
		out := poly{}
		for m, c := range p {
			left := map[string]int{}
			for a, n := range common {
				left[a] = n
			}
			var rest []string
			if m != "" {
				for _, a := range strings.Split(m, "·") {
					if left[a] > 0 {
						left[a]--
						continue
					}
					rest = append(rest, a)
				}
			}
			out[strings.Join(rest, "·")] = new(big.Rat).Quo(c, k)
		}
		return out
	}
	n, d := div(s.num), div(s.den)
	// the whole numerator is a multiple of the denominator
	if len(n) == len(d) {
		var q *big.Rat
		same := true
		for m, c := range d {
			o, ok := n[m]
			if !ok {
				same = false
				break
			}
			r := new(big.Rat).Quo(o, c)
			if q != nil && q.Cmp(r) != 0 {
				same = false
				break
			}
			q = r
		}
		if same && q != nil {
			return symConst(q)
		}
	}
	return Sym{n, d}
}

// call substitutes a library function's own formula.
func (f *sumFrame) call(c *ssa.Call, k int) (Sym, bool) {
	g, in := f.enter(c)
	if g == nil {
		return Sym{}, false
	}
	return in.result(g, k)
}

func (f *sumFrame) enter(c *ssa.Call) (*ssa.Function, *sumFrame) {
	g := c.Call.StaticCallee()
	if g == nil || !f.p.IsLibFunc(g) || f.deep > 5 || g.Blocks == nil {
		return nil, nil
	}
	for _, p := range f.path {
		if p == ssa.Value(g) {
			return nil, nil
		}
	}
	in := newSumFrame(f.p, f.atom)
	in.deep = f.deep + 1
	in.level = f.level
	in.sqrts = f.sqrts
	in.mats = f.mats
	in.path = append(append([]ssa.Value{}, f.path...), g)
	for i, q := range g.Params {
		in.bind[q] = f.eval(c.Call.Args[i])
	}
	return g, in
}

// result: the formula for the k-th result. Constant results for the empty case (under a test against zero) are set aside.
func (f *sumFrame) result(g *ssa.Function, k int) (Sym, bool) {
	main := f.results(g, k)
	if len(main) != 1 {
		return Sym{}, false
	}
	return main[0], true
}

// results: the different formulas for the k-th result.
func (f *sumFrame) results(g *ssa.Function, k int) []Sym {
	var main []Sym
	for _, r := range returns(g) {
		if k >= len(r.Results) {
			return nil
		}
		v := r.Results[k]
		if f.emptyCase(v, r.Block()) {
			continue
		}
		s := f.eval(v)
		dup := false
		for _, m := range main {
			if m.Eq(s) {
				dup = true
			}
		}
		if !dup {
			main = append(main, s)
		}
	}
	return main
}

// emptyCase: a constant (or not-a-number) chosen because a quantity is zero.
func (f *sumFrame) emptyCase(v ssa.Value, b *ssa.BasicBlock) bool {
	switch x := v.(type) {
	case *ssa.Const:
	case *ssa.Call:
		if o := calleeObj(x); o == nil || o.Pkg() == nil || o.Pkg().Path() != "math" || o.Name() != "NaN" && o.Name() != "Inf" {
			return false
		}
	default:
		return false
	}
	for _, g := range guardsOf(b) {
		c, ok := g.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		op := c.Op
		if !g.Pol {
			op = negate(op)
		}
		for _, o := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
			if k, ok := o[1].(*ssa.Const); ok {
				if z, ok := constFloat(k); ok && z == 0 && (op == token.EQL || op == token.LEQ) {
					return true
				}
				if z, ok := constInt(k); ok && z == 1 && isIntType(o[0].Type()) && (op == token.LSS && o[0] == c.X || op == token.GTR && o[0] == c.Y) {
					return true
				}
			}
		}
	}
	return false
}

type contrib struct {
	s      Sym
	guards []Guard
	some   []Guard // conditions some outcomes of which pass the term over
}

func opaque(v ssa.Value) Sym { return symAtom("?" + v.Name() + "@" + parentName(v)) }

func (f *sumFrame) phi(x *ssa.Phi) Sym {
	loop := naturalLoop(x.Block())
	isHead := false
	for _, pr := range x.Block().Preds {
		if loop[pr] {
			isHead = true
		}
	}
	if !isHead {
		// alternatives: all the same, or one formula besides the empty case
		var main []Sym
		for k, e := range x.Edges {
			pr := x.Block().Preds[k]
			if f.emptyCase(e, pr) || f.emptyEdge(e, pr, x.Block()) {
				continue
			}
			s := f.eval(e)
			dup := false
			for _, m := range main {
				if m.Eq(s) {
					dup = true
				}
			}
			if !dup {
				main = append(main, s)
			}
		}
		if len(main) == 1 {
			return main[0]
		}
		if s, ok := f.clamp(x); ok {
			return s
		}
		return opaque(x)
	}
	d := f.domainOf(x.Block())
	if d == nil || f.keys[d.head] != "" {
		return opaque(x)
	}
	var init ssa.Value
	var backs []ssa.Value
	for k, e := range x.Edges {
		if loop[x.Block().Preds[k]] {
			backs = append(backs, e)
		} else if init == nil {
			init = e
		}
	}
	if init == nil {
		return opaque(x)
	}
	cs, ok := f.sum(d, x, backs)
	if !ok {
		if s, ok := f.maxFold(d, x, init, backs); ok {
			f.last = false
			return s
		}
		if f.last {
			f.last = false
			return symAtom("not-a-sum:" + nameOf(x))
		}
		return opaque(x)
	}
	out := f.eval(init)
	for _, c := range cs {
		out = out.Add(f.leftover(c))
	}
	return out
}

// clamp: outside loops, a quantity replaced by a limit that it exceeds (other than a constant).
func (f *sumFrame) clamp(x *ssa.Phi) (Sym, bool) {
	if h, _ := innermostLoop(x.Block()); h != nil || len(x.Edges) != 2 {
		return Sym{}, false
	}
	for k, e := range x.Edges {
		o := x.Edges[1-k]
		if _, isC := e.(*ssa.Const); isC {
			continue
		}
		for _, g := range append(guardsOf(x.Block().Preds[k]), guardsOf(x.Block().Preds[1-k])...) {
			c, ok := g.Cond.(*ssa.BinOp)
			if !ok || !isCompare(c.Op) {
				continue
			}
			_, isC := o.(*ssa.Const)
			if isC {
				continue
			}
			es, os := f.eval(e), f.eval(o)
			if unreadable(es) || unreadable(os) {
				continue
			}
			cx, cy := f.eval(c.X), f.eval(c.Y)
			if cx.Eq(es) && cy.Eq(os) || cx.Eq(os) && cy.Eq(es) {
				return symAtom("limited(" + es.reduce().String() + ";" + os.reduce().String() + ")"), true
			}
		}
	}
	return Sym{}, false
}

// maxFold: the accumulator only ever takes the larger of itself and a term that is never negative, starting from zero or below.
func (f *sumFrame) maxFold(d *domain, acc *ssa.Phi, init ssa.Value, backs []ssa.Value) (Sym, bool) {
	switch i := init.(type) {
	case *ssa.Const:
		if z, ok := constFloat(i); !ok || z > 0 {
			return Sym{}, false
		}
	case *ssa.Call:
		if o := calleeObj(i); o == nil || o.FullName() != "math.Inf" {
			return Sym{}, false
		}
		if z, ok := constInt(i.Call.Args[0]); !ok || z >= 0 {
			return Sym{}, false
		}
	default:
		return Sym{}, false
	}
	t, ok := f.maxTerm(d, acc, backs)
	if !ok {
		return Sym{}, false
	}
	return symAtom("MAX" + t), true
}

func (f *sumFrame) maxTerm(d *domain, acc *ssa.Phi, backs []ssa.Value) (string, bool) {
	name := fmt.Sprintf("⟪%d⟫", f.level)
	f.keys[d.head] = name
	f.level++
	defer func() { delete(f.keys, d.head); f.level-- }()
	term := ""
	ok := true
	set := func(s string) {
		if term != "" && term != s {
			ok = false
		}
		term = s
	}
	seen := map[ssa.Value]bool{}
	own := map[ssa.Value]bool{acc: true}
	var walk func(v ssa.Value)
	leaf := func(t ssa.Value) {
		s := f.eval(t).reduce().String()
		if !strings.HasPrefix(s, "abs(") {
			s = "signed:" + s
		}
		set(s)
	}
	walk = func(v ssa.Value) {
		if own[v] || seen[v] || !ok {
			return
		}
		seen[v] = true
		in, isI := v.(ssa.Instruction)
		if !isI || !d.loop[in.Block()] {
			ok = false
			return
		}
		switch x := v.(type) {
		case *ssa.Call:
			if o := calleeObj(x); o == nil || o.FullName() != "math.Max" {
				if b, isB := x.Call.Value.(*ssa.Builtin); !isB || b.Name() != "max" || len(x.Call.Args) != 2 {
					ok = false
					return
				}
			}
			if len(f.loopGuards(x.Block(), d)) > 0 {
				ok = false
				return
			}
			a, t := x.Call.Args[0], x.Call.Args[1]
			if f.reaches(t, acc, map[ssa.Value]bool{}) {
				a, t = t, a
			}
			if !f.reaches(a, acc, map[ssa.Value]bool{}) {
				ok = false
				return
			}
			walk(a)
			leaf(t)
		case *ssa.Phi:
			inner := naturalLoop(x.Block())
			var ini, bk []ssa.Value
			for k, e := range x.Edges {
				if inner[x.Block().Preds[k]] {
					bk = append(bk, e)
				} else {
					ini = append(ini, e)
				}
			}
			if len(bk) > 0 {
				di := f.domainOf(x.Block())
				if di == nil || len(ini) != 1 || len(f.loopGuards(x.Block(), d)) > 0 {
					ok = false
					return
				}
				walk(ini[0])
				t, iok := f.maxTerm(di, x, bk)
				if !iok {
					ok = false
					return
				}
				set(t)
				return
			}
			// if t > acc { acc = t }
			for k, e := range x.Edges {
				if own[e] || f.reaches(e, acc, map[ssa.Value]bool{}) {
					walk(e)
					continue
				}
				pr := x.Block().Preds[k]
				hit := false
				for _, g := range guardsOf(pr) {
					c, isB := g.Cond.(*ssa.BinOp)
					if !isB {
						continue
					}
					op := c.Op
					if !g.Pol {
						op = negate(op)
					}
					l, r := c.X, c.Y
					if op == token.LSS || op == token.LEQ {
						l, r, op = r, l, flip(op)
					}
					if (op == token.GTR || op == token.GEQ) && f.reaches(r, acc, map[ssa.Value]bool{}) && f.eval(l).Eq(f.eval(e)) {
						hit = true
					}
				}
				if !hit || len(f.loopGuards(pr, d)) > 1 {
					ok = false
					return
				}
				leaf(e)
			}
		default:
			ok = false
		}
	}
	for _, b := range backs {
		walk(b)
	}
	if !ok || term == "" {
		return "", false
	}
	return bound("{"+name+"∈"+flat(d.name)+"}"+flat(term), name), true
}

func (f *sumFrame) emptyEdge(e ssa.Value, pr, b *ssa.BasicBlock) bool {
	if _, ok := e.(*ssa.Const); !ok || len(pr.Succs) != 2 {
		return false
	}
	i, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c, ok := i.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	op := c.Op
	if pr.Succs[1] == b {
		op = negate(op)
	}
	k, ok := c.Y.(*ssa.Const)
	if !ok {
		return false
	}
	z, ok := constFloat(k)
	return ok && z == 0 && (op == token.EQL || op == token.LEQ)
}

// sum: the terms added by a loop to the accumulator acc.
func (f *sumFrame) sum(d *domain, acc *ssa.Phi, backs []ssa.Value) ([]contrib, bool) {
	name := fmt.Sprintf("⟪%d⟫", f.level)
	f.keys[d.head] = name
	f.level++
	defer func() { delete(f.keys, d.head); f.level-- }()
	var cs []contrib
	ok := true
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == ssa.Value(acc) || seen[v] || !ok {
			return
		}
		seen[v] = true
		in, isI := v.(ssa.Instruction)
		if !isI || !d.loop[in.Block()] {
			ok = false
			_, f.last = v.(*ssa.Const) // started afresh
			return
		}
		switch x := v.(type) {
		case *ssa.Phi:
			inner := naturalLoop(x.Block())
			var ini, bk []ssa.Value
			for k, e := range x.Edges {
				if inner[x.Block().Preds[k]] {
					bk = append(bk, e)
				} else {
					ini = append(ini, e)
				}
			}
			for _, e := range ini {
				walk(e)
			}
			if len(bk) == 0 || !ok {
				return
			}
			di := f.domainOf(x.Block())
			if di == nil {
				ok = false
				return
			}
			ics, iok := f.sum(di, x, bk)
			if !iok {
				ok = false
				return
			}
			gs := f.loopGuards(x.Block(), d)
			over := f.passedOver(x.Block(), d, gs)
			for _, c := range ics {
				cs = append(cs, contrib{c.s, append(c.guards, gs...), over})
			}
		case *ssa.BinOp:
			if x.Op != token.ADD && x.Op != token.SUB {
				ok = false
				f.last = true
				return
			}
			a, t := x.X, x.Y
			if !f.reaches(a, acc, map[ssa.Value]bool{}) {
				if x.Op == token.SUB || !f.reaches(t, acc, map[ssa.Value]bool{}) {
					ok = false
					return
				}
				a, t = t, a
			}
			if f.reaches(t, acc, map[ssa.Value]bool{}) {
				ok = false
				return
			}
			s := f.eval(t)
			if x.Op == token.SUB {
				s = symInt(0).Sub(s)
			}
			gs := f.loopGuards(x.Block(), d)
			cs = append(cs, contrib{s: s, guards: gs, some: f.passedOver(x.Block(), d, gs)})
			walk(a)
		case *ssa.Convert:
			walk(x.X)
		case *ssa.Call:
			ok = false
			f.last = !f.uses(x, acc)
		case *ssa.Extract:
			ok = false
			call, isCall := x.Tuple.(*ssa.Call)
			f.last = !isCall || !f.uses(call, acc)
		default:
			ok = false
			f.last = true
		}
	}
	for _, b := range backs {
		walk(b)
	}
	if !ok {
		return nil, false
	}
	var out []contrib
	for _, c := range cs {
		out = append(out, f.close(d, name, c)...)
	}
	return out, true
}

// uses: the call gets the accumulator.
func (f *sumFrame) uses(c *ssa.Call, acc *ssa.Phi) bool {
	for _, a := range c.Call.Args {
		if f.reaches(a, acc, map[ssa.Value]bool{}) {
			return true
		}
	}
	return false
}

func (f *sumFrame) reaches(v ssa.Value, acc *ssa.Phi, seen map[ssa.Value]bool) bool {
	if v == ssa.Value(acc) {
		return true
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if f.reaches(e, acc, seen) {
				return true
			}
		}
	case *ssa.BinOp:
		return f.reaches(x.X, acc, seen) || f.reaches(x.Y, acc, seen)
	case *ssa.Convert:
		return f.reaches(x.X, acc, seen)
	}
	return false
}

// loopGuards: the guards of a block inside the loop, without the loop conditions themselves.
func (f *sumFrame) loopGuards(b *ssa.BasicBlock, d *domain) []Guard {
	var out []Guard
	for _, g := range guardsOf(b) {
		in, ok := g.Cond.(ssa.Instruction)
		if !ok || !d.loop[in.Block()] || in.Block() == d.head {
			continue
		}
		if e, ok := g.Cond.(*ssa.Extract); ok {
			if _, n := e.Tuple.(*ssa.Next); n {
				continue
			}
		}
		if innermost, _ := innermostLoop(in.Block()); innermost == in.Block() {
			continue // the condition of a loop
		}
		out = append(out, g)
	}
	return out
}

// passedOver: the conditions, other than those that dominate the block, under which a turn of the loop misses it
// (alternatives that meet again, such as a continue after a conjunction).
func (f *sumFrame) passedOver(b *ssa.BasicBlock, d *domain, gs []Guard) []Guard {
	if b == d.head {
		return nil
	}
	starts := []*ssa.BasicBlock{}
	for _, s := range d.head.Succs {
		if d.loop[s] {
			starts = append(starts, s)
		}
	}
	for _, g := range gs {
		if g.If == nil {
			return nil
		}
		t := g.If.Block().Succs[0]
		if !g.Pol {
			t = g.If.Block().Succs[1]
		}
		if len(starts) != 1 || starts[0].Dominates(t) {
			starts = []*ssa.BasicBlock{t}
		}
	}
	back, seen := false, map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock)
	walk = func(x *ssa.BasicBlock) {
		if x == d.head {
			back = true
			return
		}
		if seen[x] || x == b || !d.loop[x] {
			return
		}
		seen[x] = true
		for _, s := range x.Succs {
			walk(s)
		}
	}
	for _, s := range starts {
		walk(s)
	}
	if !back {
		return nil
	}
	var out []Guard
	for _, x := range b.Parent().Blocks {
		iff, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If)
		if !ok || !seen[x] {
			continue
		}
		if h, _ := innermostLoop(x); h == x {
			continue
		}
		meets := false
		done := map[*ssa.BasicBlock]bool{}
		var to func(y *ssa.BasicBlock)
		to = func(y *ssa.BasicBlock) {
			if y == b {
				meets = true
			}
			if done[y] || y == b || y == d.head || !d.loop[y] {
				return
			}
			done[y] = true
			for _, s := range y.Succs {
				to(s)
			}
		}
		to(x)
		if meets {
			out = append(out, Guard{Cond: iff.Cond, Pol: true, If: iff})
		}
	}
	return out
}

// close turns a term under conditions into sums over the loop's key, as far as the conditions concern that key.
func (f *sumFrame) close(d *domain, k string, c contrib) []contrib {
	type alt struct {
		s     Sym
		fixed bool
		sign  int64
	}
	alts := []alt{{c.s, false, 1}}
	var rest []Guard
	opq := ""
	for _, g := range c.guards {
		b, isB := g.Cond.(*ssa.BinOp)
		if isB {
			op := b.Op
			if !g.Pol {
				op = negate(op)
			}
			x, y := f.eval(b.X).String(), f.eval(b.Y).String()
			if y == k {
				x, y = y, x
			}
			if x == k && (op == token.EQL || op == token.NEQ) && !strings.Contains(y, k) && d.isKeys {
				var next []alt
				for _, a := range alts {
					if a.fixed {
						next = append(next, a)
						continue
					}
					if !linearIn(a.s, k) {
						opq += fmt.Sprintf("|%s%s%s", k, op, y)
						next = append(next, a)
						continue
					}
					sub := alt{substKey(a.s, k, y), true, a.sign}
					if op == token.EQL {
						next = append(next, sub)
					} else {
						sub.sign = -a.sign
						next = append(next, a, sub)
					}
				}
				alts = next
				continue
			}
			if op == token.NEQ || op == token.GTR {
				if cst, ok := b.Y.(*ssa.Const); ok {
					if z, ok := constFloat(cst); ok && z == 0 && factorOf(f.eval(b.X), c.s) {
						continue // adding zero or not adding
					}
				}
			}
			if strings.Contains(x, k) || strings.Contains(y, k) {
				sep := "|"
				if z, ok := b.Y.(*ssa.Const); ok && z.Value != nil && basicInfo(z.Type())&types.IsNumeric != 0 {
					sep = "&" // really leaves out terms
				}
				opq += sep + x + op.String() + y
				continue
			}
			rest = append(rest, g)
			continue
		}
		if e, ok := g.Cond.(*ssa.Extract); ok {
			if lk, ok := e.Tuple.(*ssa.Lookup); ok {
				in, ix := f.eval(lk.X).String(), f.eval(lk.Index).String()
				at := in + "[" + ix + "]"
				if g.Pol && (strings.Contains(c.s.num.String(), at) || ix == k && in == d.name) {
					continue
				}
				if strings.Contains(at, k) {
					opq += fmt.Sprintf("&%v:has %s", g.Pol, at)
					continue
				}
			}
		}
		t := f.eval(g.Cond).String()
		if strings.Contains(t, k) {
			opq += fmt.Sprintf("|%v:%s", g.Pol, t)
			continue
		}
		rest = append(rest, g)
	}
	if len(c.some) > 0 {
		sep, note := "|", []string{}
		for _, g := range c.some {
			b, ok := g.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			note = append(note, f.eval(b.X).String()+b.Op.String()+f.eval(b.Y).String())
			if z, ok := b.Y.(*ssa.Const); ok && z.Value != nil && basicInfo(z.Type())&types.IsNumeric != 0 && strings.Contains(f.eval(b.X).String(), k) {
				if y, ok := constFloat(z); !ok || y != 0 || !factorOf(f.eval(b.X), c.s) {
					sep = "&"
				}
			}
		}
		opq += sep + "some of " + strings.Join(note, ",")
	}
	var out []contrib
	for _, a := range alts {
		s := a.s
		if a.sign < 0 {
			s = symInt(0).Sub(s)
		}
		if a.fixed {
			out = append(out, contrib{s: s, guards: rest})
			continue
		}
		out = append(out, contrib{s: sumOver(s, d.name, k, opq), guards: rest})
	}
	return out
}

// factorOf: x divides every term of s, so that s vanishes where x does.
func factorOf(x, s Sym) bool {
	if x.Eq(s) {
		return true
	}
	if len(x.num) != 1 || len(x.den) != 1 {
		return false
	}
	for a := range x.num {
		if a == "" || strings.Contains(a, "·") {
			return false
		}
		for m := range s.num {
			hit := false
			for _, b := range strings.Split(m, "·") {
				if a == b {
					hit = true
				}
			}
			if !hit {
				return false
			}
		}
	}
	return true
}

func (f *sumFrame) leftover(c contrib) Sym {
	s := c.s
	for _, g := range c.guards {
		s = s.Mul(symAtom(fmt.Sprintf("if(%v:%s)", g.Pol, flat(f.eval(g.Cond).String()))))
	}
	return s
}

func flat(s string) string { return strings.ReplaceAll(s, "·", "*") }

// linearIn: the term vanishes where the key is missing from the map: every monomial looks something up under the key.
func linearIn(s Sym, k string) bool {
	if strings.Contains(s.den.String(), k) {
		return false
	}
	for m := range s.num {
		if !strings.Contains(m, "["+k+"]") {
			return false
		}
	}
	return true
}

func substKey(s Sym, k, y string) Sym {
	sub := func(p poly) poly {
		out := poly{}
		for m, c := range p {
			atoms := ""
			if m != "" {
				for _, a := range strings.Split(m, "·") {
					atoms = mulMono(atoms, strings.ReplaceAll(a, k, y))
				}
			}
			out = out.add(poly{atoms: c}, 1)
		}
		return out
	}
	return Sym{sub(s.num), sub(s.den)}
}

func sumOver(s Sym, dom, k, opq string) Sym {
	s = s.reduce()
	if d, ok := s.den[""]; !ok || len(s.den) != 1 {
		if strings.Contains(s.den.String(), k) {
			return symAtom(bound("Σ{"+k+"∈"+flat(dom)+flat(opq)+"}("+flat(s.String())+")", k))
		}
	} else {
		_ = d
	}
	out := symInt(0)
	ms := make([]string, 0, len(s.num))
	for m := range s.num {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	for _, m := range ms {
		c := s.num[m]
		var in, ex []string
		if m != "" {
			for _, a := range strings.Split(m, "·") {
				if strings.Contains(a, k) {
					in = append(in, a)
				} else {
					ex = append(ex, a)
				}
			}
		}
		var t Sym
		if len(in) == 0 && opq == "" {
			t = symAtom("len(" + flat(dom) + ")")
			if at := strings.Index(dom, ".."); at > 0 {
				if from, err := strconv.Atoi(dom[:at]); err == nil {
					t = symAtom(flat(dom[at+2:])).Sub(symInt(int64(from)))
				}
			}
		} else {
			t = symAtom(canonAtom(bound("Σ{"+k+"∈"+flat(dom)+flat(opq)+"}"+strings.Join(in, "*"), k)))
		}
		t = t.Mul(symConst(new(big.Rat).Set(c)))
		for _, a := range ex {
			t = t.Mul(symAtom(a))
		}
		out = out.Add(t)
	}
	return Sym{out.num.mul(constPoly(big.NewRat(1, 1))), out.den.mul(s.den)}
}

// bound names the key of a closed sum by how many sums are nested inside it, so that equal sums read the same wherever they stand.
func bound(s, k string) string {
	h := 0
	for i := 0; strings.Contains(s, fmt.Sprintf("⟨%d⟩", i)); i++ {
		h = i + 1
	}
	return strings.ReplaceAll(s, k, fmt.Sprintf("⟨%d⟩", h))
}

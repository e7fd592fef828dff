package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C31", Rule: "clustering by density: the distance of every two rows is stored at both places of the table (or every place is filled by its own), a row counts as a neighbour exactly when its distance is at most Eps, over all rows from the first; every comparison with MinCount makes exactly MinCount enough; on every turn of the loop over all rows, a row visited already starts nothing, one with enough neighbours of its own starts a cluster with a number not used before, and any other marks nothing but that it has been visited; on every turn of the loop over a cluster's neighbours, a row that is no neighbour changes nothing, one not visited is marked so and, exactly when it has enough neighbours of its own, adds them and has the loop start again from the first row, and one in no cluster yet, and only such a one, is put into this cluster and marked; the table of bits in a byte counts them; and inverting a cluster map gives every row the key of the list it is in, or an error when it has one already; and two cluster maps are found equal only when the rows of each cluster of one are all in one of the other, and both have as many.",
		Trust: []string{"big integers set and give the bits they are asked for", "a fresh matrix holds zeros"}, Run: runC31})
}

type dens struct {
	c       *Ctx
	p       *Prog
	visited ssa.Value // the set of rows looked at already
}

func (r *dens) check(ok bool, key, pos, good, bad string) {
	r.c.Count("clustering obligations", 1)
	r.c.Check(ok, key, pos, good, bad)
}

func (r *dens) undecided(what string) { r.c.Count("undecided: "+what, 1) }

func runC31(c *Ctx) {
	r := &dens{c: c, p: c.P}
	if top := c.P.Func("clustering.DBSCAN"); top != nil {
		var fs []*ssa.Function
		for _, f := range c.P.within(top) {
			if f.Pkg == top.Pkg {
				fs = append(fs, f)
			}
		}
		for _, f := range fs {
			r.region(f)
			r.distances(f)
			r.minimum(f)
			r.bits(f)
		}
		for _, f := range fs {
			r.allRows(f)
		}
		for _, f := range fs {
			r.neighbours(f)
		}
	}
	if f := c.P.Func("(clustering.ClusterMap).Invert"); f != nil {
		r.invert(f)
	}
	if f := c.P.Func("(clustering.ClusterMap).Equals"); f != nil {
		r.equals(f)
	}
	c.Floor("obligations about clustering", c.Counts["clustering obligations"], 6)
}

func bigCall(i ssa.Instruction) (*ssa.Call, string) {
	c, ok := i.(*ssa.Call)
	if !ok || calleeObj(c) == nil || recvOf(c) == nil {
		return nil, ""
	}
	n, ok := deref(recvOf(c).Type()).(*types.Named)
	if !ok || n.Obj().Name() != "Int" || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "math/big" {
		return nil, ""
	}
	return c, calleeObj(c).Name()
}

func isBig(t types.Type) bool {
	n, ok := deref(t).(*types.Named)
	return ok && n.Obj().Name() == "Int" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big"
}

// set: which set of rows a value is.
func (r *dens) set(t *turnPath, v ssa.Value) ssa.Value {
	for n := 0; n < 10; n++ {
		if t != nil {
			v = t.resolve(v)
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if a := r.p.cellOf(x.X); a != nil {
					return a
				}
			}
			return v
		case *ssa.Call:
			if c, name := bigCall(x); name == "SetBit" || name == "Or" {
				v = recvOf(c)
				continue
			}
			return v
		}
		return v
	}
	return v
}

// ---- which rows are near ----

func (r *dens) region(f *ssa.Function) {
	for _, i := range instrs(f) {
		c, name := bigCall(i)
		if name != "SetBit" || len(argsOf(c)) != 3 {
			continue
		}
		for _, g := range guardsOf(c.Block()) {
			b, ok := g.Cond.(*ssa.BinOp)
			if !ok || !isFloatType(b.X.Type()) {
				continue
			}
			x, op := b.X, b.Op
			at, ok := x.(*ssa.Call)
			if !ok {
				at, ok = b.Y.(*ssa.Call)
				op = mirrored(op)
			}
			if !ok || calleeObj(at) == nil || calleeObj(at).Name() != "At" || len(argsOf(at)) != 2 {
				continue
			}
			if !g.Pol {
				op = negate(op)
			}
			bad := ""
			if op != token.LEQ {
				bad = "a row at exactly the distance allowed is not a neighbour, or one farther is"
			}
			ix := argsOf(c)[1]
			l := innermost(f, c.Block())
			if one, isC := constInt(argsOf(c)[2]); isC && one != 1 {
				bad = "a neighbour is not marked as one"
			}
			if l != nil {
				a := argsOf(at)
				if l.Cur != ix && !r.p.sameRead(l.Cur, ix) {
					bad = "the row marked is not the one whose distance is asked"
				} else if (a[0] == ix) == (a[1] == ix) {
					bad = "the distance asked is not the one between the two rows"
				}
				if bad == "" && (!fromZero(l) || leavesEarly(l) || skipsBeyond(r.c, r.p, l, at)) {
					bad = "some rows are never looked at"
				}
			}
			r.check(bad == "", "near:"+r.p.Name(f), r.p.InstrPos(c), "a neighbour is a row at most Eps away", bad)
		}
	}
}

// skipsBeyond: some turn of the loop does not come by at.
func skipsBeyond(c *Ctx, p *Prog, l *CountLoop, at ...ssa.Instruction) bool {
	return len((&convert{c, p}).turnsWithout(l.Header, l.Body, at...)) > 0
}

func (r *dens) distances(f *ssa.Function) {
	type put struct {
		i, j ssa.Value
		at   *ssa.Call
	}
	sets := map[*ssa.Call][]put{}
	var order []*ssa.Call
	for _, i := range instrs(f) {
		c, ok := i.(*ssa.Call)
		if !ok || calleeObj(c) == nil || calleeObj(c).Name() != "Set" || len(argsOf(c)) != 3 {
			continue
		}
		d, ok := argsOf(c)[2].(*ssa.Call)
		if !ok || calleeObj(d) == nil || calleeObj(d).Name() != "Distance" || len(argsOf(d)) != 2 {
			continue
		}
		if sets[d] == nil {
			order = append(order, d)
		}
		sets[d] = append(sets[d], put{argsOf(c)[0], argsOf(c)[1], c})
	}
	for _, d := range order {
		_, i, ok1 := r.p.elemOf(argsOf(d)[0])
		_, j, ok2 := r.p.elemOf(argsOf(d)[1])
		inner := innermost(f, d.Block())
		if !ok1 || !ok2 || inner == nil {
			r.undecided("which rows a distance is between")
			continue
		}
		var outer *CountLoop
		for _, l := range countingLoops(f) {
			if l.Header != inner.Header && l.Body[inner.Header] && (outer == nil || len(l.Body) < len(outer.Body)) {
				outer = l
			}
		}
		if outer == nil {
			r.undecided("which rows a distance is between")
			continue
		}
		bad := ""
		if !(i == outer.Cur && j == inner.Cur || i == inner.Cur && j == outer.Cur) {
			bad = "a distance is not between the two rows of the turn"
		}
		there, back := false, false
		for _, s := range sets[d] {
			switch {
			case s.i == outer.Cur && s.j == inner.Cur:
				there = true
			case s.i == inner.Cur && s.j == outer.Cur:
				back = true
			default:
				bad = "a distance is stored where it does not belong"
			}
			if skipsBeyond(r.c, r.p, inner, s.at) {
				bad = "some distances are not stored"
			}
		}
		full := fromZero(inner)
		if bad == "" && !full {
			// from the row after, or the row itself
			after := false
			if x, k := (&near{r.c, r.p}).plus(inner.Init); x == outer.Cur && (k == 0 || k == 1) {
				after = true
			}
			if inner.Range && inner.Init == nil {
				after = true
			}
			if !after {
				bad = "some distances are never computed"
			} else if !there || !back {
				bad = "a distance is stored at one of its two places only"
			}
		}
		if bad == "" && (!fromZero(outer) || leavesEarly(outer) || leavesEarly(inner)) {
			bad = "some distances are never computed"
		}
		r.check(bad == "", "distances:"+r.p.Name(f), r.p.InstrPos(d), "every two rows' distance is stored", bad)
	}
}

// ---- how many are enough ----

func isMin(v ssa.Value) bool {
	_, fld := loadedField(v)
	if fl, ok := v.(*ssa.Field); ok {
		fld = fieldVar(fl.X.Type(), fl.Field).Name()
	}
	return fld == "MinCount"
}

// enough: a comparison with MinCount, as "at least MinCount" (or its opposite); the number compared.
func (r *dens) enough(v ssa.Value) (is bool, ge bool, off int64, number ssa.Value) {
	if c, ok := v.(*ssa.Call); ok {
		// in a part of its own
		gs := r.p.Callees(c)
		if len(gs) != 1 || len(returns(gs[0])) != 1 || len(returns(gs[0])[0].Results) != 1 {
			return
		}
		if _, again := returns(gs[0])[0].Results[0].(*ssa.BinOp); !again {
			return
		}
		is, ge, off, _ = r.enough(returns(gs[0])[0].Results[0])
		return is, ge, off, nil
	}
	b, ok := v.(*ssa.BinOp)
	if !ok || !isIntType(b.X.Type()) {
		return
	}
	nr := &near{r.c, r.p}
	x, i := nr.plus(b.X)
	y, j := nr.plus(b.Y)
	op := b.Op
	if x == nil || y == nil {
		return
	}
	if isMin(x) {
		x, y, i, j, op = y, x, j, i, mirrored(op)
	}
	if !isMin(y) || isMin(x) {
		return
	}
	if _, isCall := x.(*ssa.Call); !isCall {
		return
	}
	off = j - i
	switch op {
	case token.GEQ:
		return true, true, off, x
	case token.GTR:
		return true, true, off + 1, x
	case token.LSS:
		return true, false, off, x
	case token.LEQ:
		return true, false, off + 1, x
	}
	return
}

func (r *dens) minimum(f *ssa.Function) {
	for _, i := range instrs(f) {
		b, ok := i.(*ssa.BinOp)
		if !ok {
			continue
		}
		if is, _, off, _ := r.enough(b); is {
			r.check(off == 0, "enough:"+r.p.Name(f), r.p.InstrPos(b), "MinCount rows are enough, one fewer are not", "MinCount rows are not enough, or fewer are")
		}
	}
}

// ---- counting bits ----

func (r *dens) bits(f *ssa.Function) {
	for _, i := range instrs(f) {
		ia, ok := i.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		g := globalOf(ia.X)
		if g == nil {
			continue
		}
		_, over, ok := r.p.elemOf(bareNum(ia.Index))
		if !ok {
			continue
		}
		by, ok := bareNum(ia.Index).Type().Underlying().(*types.Basic)
		if !ok || by.Kind() != types.Uint8 {
			continue
		}
		vals, ok := r.table(g)
		if !ok || len(vals) == 0 {
			r.undecided("a table of bytes")
			continue
		}
		bad := ""
		for k := int64(0); k < 256; k++ {
			n := int64(0)
			for x := k; x > 0; x >>= 1 {
				n += x & 1
			}
			if vals[k] != n {
				bad = "the table is wrong about how many bits a byte has"
			}
		}
		if l := innermost(f, ia.Block()); l != nil && bad == "" {
			if l.Cur != over || !fromZero(l) || leavesEarly(l) || skipsBeyond(r.c, r.p, l, ia) {
				bad = "the bits of some bytes are not counted"
			}
		}
		r.check(bad == "", "bits:"+r.p.Name(f), r.p.InstrPos(ia), "neighbours are counted by their bits", bad)
	}
}

func globalOf(v ssa.Value) *ssa.Global {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		v = u.X
	}
	g, _ := v.(*ssa.Global)
	return g
}

// table: the numbers a table starts with.
func (r *dens) table(g *ssa.Global) (map[int64]int64, bool) {
	init := g.Pkg.Func("init")
	if init == nil {
		return nil, false
	}
	var base ssa.Value = g
	for _, i := range instrs(init) {
		if st, ok := i.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
			if sl, ok := st.Val.(*ssa.Slice); ok {
				base = sl.X
			}
		}
	}
	out := map[int64]int64{}
	for _, i := range instrs(init) {
		st, ok := i.(*ssa.Store)
		if !ok {
			continue
		}
		ia, ok := st.Addr.(*ssa.IndexAddr)
		if !ok || ia.X != base {
			continue
		}
		k, ok1 := constInt(ia.Index)
		n, ok2 := constInt(st.Val)
		if !ok1 || !ok2 {
			return nil, false
		}
		out[k] = n
	}
	return out, true
}

// ---- the turns of both loops ----

type densTurn struct {
	t       *turnPath
	tests   map[ssa.Value]map[ssa.Value]bool // set -> row -> in it
	marks   map[ssa.Value]map[ssa.Value]bool
	puts    []ssa.Value
	grows   []*ssa.Call
	expands []*ssa.Call
	other   bool // asks what is not followed
	core    string
	number  ssa.Value
	pos     token.Pos
}

// puts: the row a list of rows of a cluster gains.
func (r *dens) puts(i ssa.Instruction) (ssa.Value, bool) {
	up, ok := i.(*ssa.MapUpdate)
	if !ok {
		return nil, false
	}
	m, ok := up.Map.Type().Underlying().(*types.Map)
	if !ok || m.Elem().String() != "[]int" {
		return nil, false
	}
	ap, ok := isAppend(up.Value)
	if !ok || len(ap.Call.Args) != 2 {
		return nil, false
	}
	vs := varargs(ap)
	if len(vs) != 1 {
		return nil, false
	}
	return vs[0], true
}

func (r *dens) reachesPut(f *ssa.Function) bool {
	for _, g := range r.p.within(f) {
		for _, i := range instrs(g) {
			if _, ok := r.puts(i); ok {
				return true
			}
		}
	}
	return false
}

func (r *dens) turnsOf(h *ssa.BasicBlock, loop map[*ssa.BasicBlock]bool) ([]*densTurn, bool) {
	paths, full := turnPaths(h, loop, 2000)
	if !full {
		return nil, false
	}
	var out []*densTurn
	for _, t := range paths {
		if !t.feasible() {
			continue
		}
		d := &densTurn{t: t, tests: map[ssa.Value]map[ssa.Value]bool{}, marks: map[ssa.Value]map[ssa.Value]bool{}}
		for _, fc := range t.facts() {
			if is, ge, _, n := r.enough(fc.cond); is {
				d.core = "no"
				if ge == fc.pol {
					d.core = "yes"
				}
				d.number, d.pos = n, fc.cond.Pos()
				continue
			}
			if _, isCall := fc.cond.(*ssa.Call); isCall {
				d.other = true
			}
			b, ok := fc.cond.(*ssa.BinOp)
			if !ok || b.Op != token.EQL && b.Op != token.NEQ && b.Op != token.GTR {
				continue
			}
			k, isC := constInt(b.Y)
			cl, isI := b.X.(ssa.Instruction)
			if !isC || !isI {
				continue
			}
			c, name := bigCall(cl)
			if name != "Bit" {
				continue
			}
			in := (k == 1) == (b.Op == token.EQL)
			if b.Op == token.GTR {
				in = k == 0
			}
			s := r.set(t, recvOf(c))
			if d.tests[s] == nil {
				d.tests[s] = map[ssa.Value]bool{}
			}
			d.tests[s][t.resolve(argsOf(c)[0])] = in == fc.pol
			if !d.pos.IsValid() {
				d.pos = b.Pos()
			}
		}
		for _, b := range t.blocks[:len(t.blocks)-1] {
			for _, i := range b.Instrs {
				if row, ok := r.puts(i); ok {
					d.puts = append(d.puts, t.resolve(row))
					continue
				}
				if c, name := bigCall(i); c != nil {
					switch name {
					case "SetBit":
						s := r.set(t, recvOf(c))
						if d.marks[s] == nil {
							d.marks[s] = map[ssa.Value]bool{}
						}
						d.marks[s][t.resolve(argsOf(c)[1])] = true
					case "Or":
						d.grows = append(d.grows, c)
					}
					continue
				}
				if c, ok := i.(*ssa.Call); ok {
					for _, g := range r.p.Callees(c) {
						if g.Pkg == h.Parent().Pkg && r.reachesPut(g) {
							d.expands = append(d.expands, c)
							break
						}
					}
				}
			}
		}
		out = append(out, d)
	}
	return out, true
}

// query: the row a set of neighbours is of.
func (r *dens) query(t *turnPath, v ssa.Value) (ssa.Value, bool) {
	v = t.resolve(v)
	c, ok := v.(*ssa.Call)
	if !ok || c.Call.IsInvoke() || calleeObj(c) == nil {
		return nil, false
	}
	if _, name := bigCall(c); name != "" {
		return nil, false
	}
	var row ssa.Value
	for _, a := range c.Call.Args {
		if isIntType(a.Type()) {
			if row != nil {
				return nil, false
			}
			row = t.resolve(a)
		}
	}
	return row, row != nil
}

// counted: the row whose neighbours a number counts.
func (r *dens) counted(t *turnPath, n ssa.Value) (ssa.Value, bool) {
	if n == nil {
		return nil, false
	}
	c, ok := t.resolve(n).(*ssa.Call)
	if !ok || len(c.Call.Args) != 1 || !isBig(c.Call.Args[0].Type()) {
		return nil, false
	}
	return r.query(t, c.Call.Args[0])
}

// step: a loop value after the turn, as it was before plus a number, or a number.
func (r *dens) step(t *turnPath, ph *ssa.Phi) (ssa.Value, int64) {
	v := t.next(ph)
	k := int64(0)
	for n := 0; n < 8; n++ {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD && b.Op != token.SUB {
			break
		}
		c, isC := constInt(b.Y)
		if !isC {
			break
		}
		if b.Op == token.SUB {
			c = -c
		}
		k += c
		v = t.resolve(b.X)
	}
	if c, isC := constInt(v); isC {
		return nil, k + c
	}
	return v, k
}

func intPhis(h *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, i := range h.Instrs {
		if ph, ok := i.(*ssa.Phi); ok && isIntType(ph.Type()) {
			out = append(out, ph)
		}
	}
	return out
}

// allRows: the loop that starts clusters.
func (r *dens) allRows(f *ssa.Function) {
	for _, h := range f.Blocks {
		loop := naturalLoop(h)
		if loop == nil {
			continue
		}
		ts, ok := r.turnsOf(h, loop)
		if !ok {
			continue
		}
		starts, widens := false, false
		for _, d := range ts {
			starts = starts || len(d.expands) > 0
			widens = widens || r.widens(ts, d)
		}
		if widens {
			continue
		}
		if !starts {
			continue
		}
		// the row of the turn
		var row *ssa.Phi
		for _, ph := range intPhis(h) {
			for _, d := range ts {
				for s, rows := range d.tests {
					if _, ok := rows[ph]; ok {
						row, r.visited = ph, s
					}
				}
			}
		}
		if row == nil {
			r.undecided("which row may start a cluster")
			continue
		}
		bad, where := "", f.Pos()
		say := func(d *densTurn, s string) {
			if bad == "" {
				bad = s
				if d.pos.IsValid() {
					where = d.pos
				}
			}
		}
		for _, d := range ts {
			if d.other {
				r.undecided("a test in a part of its own")
				continue
			}
			in, tested := d.tests[r.visited][row]
			starting := len(d.expands) > 0
			if tested && in {
				if starting {
					say(d, "a row visited already starts a cluster")
				}
				continue
			}
			if d.core == "" {
				if starting {
					say(d, "a row starts a cluster however few neighbours it has")
				}
				continue
			}
			if of, ok := r.counted(d.t, d.number); ok && of != ssa.Value(row) {
				say(d, "the neighbours counted are those of another row")
			}
			switch {
			case d.core == "yes" && !starting:
				say(d, "a row with enough neighbours starts no cluster")
			case d.core == "no" && starting:
				say(d, "a row with too few neighbours starts a cluster")
			}
			if !starting {
				if len(d.puts) > 0 {
					say(d, "a row with too few neighbours is put into a cluster")
				}
				for _, g := range d.grows {
					if s := r.set(d.t, recvOf(g)); s != r.visited {
						if _, cell := s.(*ssa.Alloc); cell {
							say(d, "the neighbours of a row with too few of them count as being in a cluster: none reached later can have them")
						}
					}
				}
				for s, rows := range d.marks {
					if s != r.visited && len(rows) > 0 {
						if _, cell := s.(*ssa.Alloc); cell {
							say(d, "a row with too few neighbours counts as being in a cluster: none reached later can have it")
						}
					}
				}
				continue
			}
			// for the same row, with its neighbours and a number of its own
			c := d.expands[0]
			sameRow, numbered, known := false, false, false
			for _, a := range c.Call.Args {
				v := d.t.resolve(a)
				if v == ssa.Value(row) {
					sameRow = true
					continue
				}
				if isBig(a.Type()) {
					if of, ok := r.query(d.t, a); ok && of != ssa.Value(row) {
						say(d, "a cluster starts with another row's neighbours")
					}
					continue
				}
				if !isIntType(a.Type()) {
					continue
				}
				for _, ph := range intPhis(h) {
					if x, _ := (&near{r.c, r.p}).plus(v); x == ssa.Value(ph) && ph != row {
						known = true
						if y, k := r.step(d.t, ph); y != ssa.Value(ph) || k != 0 {
							numbered = true
						}
					}
				}
			}
			if !sameRow {
				r.undecided("which row starts a cluster")
			}
			if known && !numbered {
				say(d, "two clusters have the same number")
			}
		}
		for _, l := range countingLoops(f) {
			if l.Header == h && (!fromZero(l) || leavesEarly(l)) {
				if bad == "" {
					bad = "some rows are never looked at"
				}
			}
		}
		r.check(bad == "", "starts:"+r.p.Name(f), r.p.Pos(where), "a cluster starts with every row that has enough neighbours", bad)
	}
}

// widens: the turn adds to the set of rows the loop goes by.
func (r *dens) widens(ts []*densTurn, d *densTurn) bool {
	for _, g := range d.grows {
		s := r.set(d.t, recvOf(g))
		for _, o := range ts {
			if len(o.tests[s]) > 0 {
				return true
			}
		}
	}
	return false
}

// neighbours: the loop that widens a cluster.
func (r *dens) neighbours(f *ssa.Function) {
	for _, h := range f.Blocks {
		loop := naturalLoop(h)
		if loop == nil {
			continue
		}
		ts, ok := r.turnsOf(h, loop)
		if !ok {
			continue
		}
		var grow *ssa.Call
		parts := false
		for _, d := range ts {
			if r.widens(ts, d) {
				grow = d.grows[0]
			}
			parts = parts || len(d.expands) > 0
		}
		if grow == nil {
			continue
		}
		// the row of the turn, and the set looped over
		var row *ssa.Phi
		for _, ph := range intPhis(h) {
			for _, d := range ts {
				for _, rows := range d.tests {
					if _, ok := rows[ph]; ok {
						row = ph
					}
				}
			}
		}
		if row == nil || r.visited == nil {
			r.undecided("how a cluster is widened")
			continue
		}
		var nb, cl ssa.Value
		for _, d := range ts {
			for _, g := range d.grows {
				nb = r.set(d.t, recvOf(g))
			}
		}
		for _, d := range ts {
			for s := range d.tests {
				if s != nb && s != r.visited {
					cl = s
				}
			}
			for s := range d.marks {
				if s != nb && s != r.visited && cl == nil {
					if _, cell := s.(*ssa.Alloc); cell {
						cl = s
					}
				}
			}
		}
		bad, where := "", f.Pos()
		say := func(d *densTurn, s string) {
			if bad == "" {
				bad = s
				if d.pos.IsValid() {
					where = d.pos
				}
			}
		}
		for _, d := range ts {
			if d.other {
				r.undecided("a test in a part of its own")
				continue
			}
			isNb, asked := d.tests[nb][row]
			put := len(d.puts) > 0 || len(d.expands) > 0
			next, by := r.step(d.t, row)
			if asked && !isNb {
				if put || len(d.grows) > 0 || len(d.marks) > 0 {
					say(d, "a row that is no neighbour changes a cluster")
				}
				if next != ssa.Value(row) || by != 1 {
					say(d, "some neighbours are passed over")
				}
				continue
			}
			if !asked && (put || len(d.grows) > 0) {
				say(d, "rows that are no neighbours are put into the cluster")
				continue
			}
			// looked at already?
			seen, known := d.tests[r.visited][row]
			if !known && len(d.grows) == 0 {
				say(d, "a neighbour's own neighbours are not looked for")
			}
			if known && seen && len(d.grows) > 0 {
				r.undecided("a row looked at twice")
			}
			if known && !seen {
				if !d.marks[r.visited][row] {
					say(d, "a row looked at is not marked as visited")
				}
				switch d.core {
				case "":
					if len(d.grows) > 0 {
						say(d, "a row with too few neighbours widens a cluster")
					} else {
						say(d, "a neighbour's own neighbours are not looked for")
					}
				case "yes":
					if len(d.grows) == 0 {
						say(d, "a neighbour with enough neighbours of its own does not add them")
					}
				case "no":
					if len(d.grows) > 0 {
						say(d, "a row with too few neighbours widens a cluster")
					}
				}
				if d.core != "" {
					if of, ok := r.counted(d.t, d.number); ok && of != ssa.Value(row) {
						say(d, "the neighbours counted are those of another row")
					}
				}
			}
			if len(d.grows) > 0 {
				for _, a := range argsOf(d.grows[0]) {
					if of, ok := r.query(d.t, a); ok && of != ssa.Value(row) {
						say(d, "another row's neighbours are added")
					}
				}
				if next != nil || by != 0 {
					if x, k := next, by; x == ssa.Value(row) && k == 1 || x == nil && k > 0 || x != nil && x != ssa.Value(row) {
						say(d, "neighbours added at lower numbers than the row that adds them are never looked at")
					}
				}
			} else if next != ssa.Value(row) || by != 1 {
				if next == nil && by == 0 {
					r.undecided("starting again without need")
				} else {
					say(d, "some neighbours are passed over")
				}
			}
			// in a cluster already?
			if parts || cl == nil {
				continue
			}
			has, known := d.tests[cl][row]
			switch {
			case put && (!known || has):
				say(d, "a row that is in a cluster already is put into another")
			case known && !has && !put:
				say(d, "a neighbour in no cluster yet is left out")
			case put && !d.marks[cl][row]:
				say(d, "a row put into a cluster is not marked as being in one")
			case !put && d.marks[cl] != nil:
				say(d, "a row counts as being in a cluster but is put into none")
			case put && d.puts[0] != ssa.Value(row):
				say(d, "another row than the neighbour is put into the cluster")
			}
		}
		r.check(bad == "", "widens:"+r.p.Name(f), r.p.Pos(where), "a cluster is widened by every row with enough neighbours", bad)
	}
}

// ---- cluster maps ----

func (r *dens) invert(f *ssa.Function) {
	for _, i := range instrs(f) {
		up, ok := i.(*ssa.MapUpdate)
		if !ok || up.Map.Type().String() != "map[int]int" {
			continue
		}
		bad := ""
		list, _, ok := r.p.elemOf(up.Key)
		if !ok {
			if _, _, ok := r.p.elemOf(up.Value); ok {
				bad = "the rows are not the keys of what is returned"
			} else {
				r.undecided("how a cluster map is inverted")
				continue
			}
		}
		if bad == "" {
			l := innermost(f, up.Block())
			lk, isL := list.(*ssa.Lookup)
			if isL && !r.p.sameRead(lk.Index, up.Value) {
				bad = "a row gets another cluster's number"
			}
			if l != nil && (!fromZero(l) || skipsBeyond(r.c, r.p, l, up)) {
				bad = "some rows get no cluster"
			}
			asked := false
			for _, j := range instrs(f) {
				q, ok := j.(*ssa.Lookup)
				if ok && q.CommaOk && r.p.sameRead(q.X, up.Map) && r.p.sameRead(q.Index, up.Key) {
					for _, g := range guardsOf(up.Block()) {
						if ex, ok := g.Cond.(*ssa.Extract); ok && ex.Tuple == ssa.Value(q) && !g.Pol {
							asked = true
						}
					}
				}
			}
			if bad == "" && !asked && l != nil {
				bad = "a row in two clusters is not refused"
			}
		}
		r.check(bad == "", "invert:"+r.p.Name(f), r.p.InstrPos(up), "every row gets its cluster", bad)
	}
}

func (r *dens) equals(f *ssa.Function) {
	// one cluster corresponds to one
	for _, i := range instrs(f) {
		up, ok := i.(*ssa.MapUpdate)
		if !ok || up.Map.Type().String() != "map[int]int" {
			continue
		}
		var q *ssa.Lookup
		for _, j := range instrs(f) {
			if l, ok := j.(*ssa.Lookup); ok && l.CommaOk && r.p.sameRead(l.X, up.Map) && r.p.sameRead(l.Index, up.Key) {
				q = l
			}
		}
		h, loop := innermostLoop(up.Block())
		if q == nil && h != nil {
			for b := range loop {
				for _, j := range b.Instrs {
					if l, ok := j.(*ssa.Lookup); ok && l.CommaOk && r.p.sameRead(l.X, up.Map) {
						r.check(false, "corresponds:"+r.p.Name(f), r.p.InstrPos(up), "", "what a cluster corresponds to is noted for another one than is asked about")
					}
				}
			}
		}
		if q == nil || h == nil || !loop[q.Block()] {
			r.undecided("how clusters correspond")
			continue
		}
		paths, full := turnPaths(h, loop, 1000)
		if !full {
			r.undecided("how clusters correspond")
			continue
		}
		bad := ""
		for _, t := range paths {
			if !t.feasible() {
				continue
			}
			if _, on := t.pos[q.Block()]; !on {
				bad = "a row the other map lacks is passed over"
				continue
			}
			found, known, same := false, false, false
			for _, fc := range t.facts() {
				if ex, ok := fc.cond.(*ssa.Extract); ok && ex.Tuple == ssa.Value(q) {
					found, known = fc.pol, true
				}
				b, ok := fc.cond.(*ssa.BinOp)
				if !ok || b.Op != token.EQL && b.Op != token.NEQ || (b.Op == token.EQL) != fc.pol {
					continue
				}
				for _, xy := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
					if ex, ok := xy[0].(*ssa.Extract); ok && ex.Tuple == ssa.Value(q) && r.p.sameRead(xy[1], up.Value) {
						same = true
					}
				}
			}
			_, put := t.pos[up.Block()]
			switch {
			case known && found && !same:
				bad = "rows of one cluster may be in two of the other map"
			case known && !found && !put:
				bad = "which cluster corresponds is not noted"
			}
		}
		r.check(bad == "", "corresponds:"+r.p.Name(f), r.p.InstrPos(up), "one cluster corresponds to one", bad)
	}
	// two lists of rows are compared
	for _, g := range r.p.within(f) {
		if g.Signature.Results().Len() != 1 || len(g.Params) != 2 || g.Params[0].Type().String() != "[]int" || g.Params[1].Type().String() != "[]int" {
			continue
		}
		for _, h := range r.p.within(f) {
			for _, i := range instrs(h) {
				c, ok := i.(*ssa.Call)
				if !ok || len(c.Call.Args) != 2 {
					continue
				}
				is := false
				for _, q := range r.p.Callees(c) {
					is = is || q == g
				}
				if !is {
					continue
				}
				a, ok1 := c.Call.Args[0].(*ssa.Lookup)
				b, ok2 := c.Call.Args[1].(*ssa.Lookup)
				if !ok1 || !ok2 {
					continue
				}
				bad := ""
				if r.p.sameRead(a.X, b.X) {
					bad = "a cluster is compared with one of the same map"
				}
				r.check(bad == "", "compares:"+r.p.Name(f), r.p.InstrPos(c), "clusters of both maps are compared", bad)
			}
		}
		lens := 0
		for _, h := range r.p.within(f) {
			for _, i := range instrs(h) {
				if b, ok := i.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
					x, ok1 := lenOf(b.X)
					y, ok2 := lenOf(b.Y)
					if ok1 && ok2 && x != y && x.Type().String() == "[]int" && y.Type().String() == "[]int" {
						lens++
					}
				}
			}
		}
		looks := map[ssa.Value]bool{}
		for _, i := range instrs(g) {
			if q, ok := i.(*ssa.Lookup); ok {
				if l, _, ok := r.p.elemOf(q.Index); ok {
					looks[l] = true
				}
			}
		}
		if len(looks) == 1 {
			r.check(lens > 0, "both:"+r.p.Name(f), r.p.Pos(g.Pos()), "clusters are compared both ways", "rows of one cluster that the other lacks are not noticed")
		}
	}
}

func lenOf(v ssa.Value) (ssa.Value, bool) {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil, false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "len" {
		return nil, false
	}
	return c.Call.Args[0], true
}

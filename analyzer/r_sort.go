package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C44", Rule: "sorting: the bytes a row is compared by are those of every Attribute asked for, and numbers among them are made comparable by a test of the sign in their last byte, which turns only the sign of the positive ones and every byte of the negative ones; the list of Attributes is turned round completely before and the distribution pass goes over the bytes upwards from the first, over the rows in their order, puts the values and the row numbers into the bin of the same byte, and collects all 256 bins upwards, both at the same place; the row numbers start as each row's own; following a cycle swaps each place with the one its row comes from, and ends only on returning to where it started; swaps exchange both places, none is passed over; the reversal for descending order exchanges first and last up to the middle, and only when descending order is asked for; and a view leaves out of its mapping only rows that stay in place.",
		Trust: []string{"system representations are 8 bytes little-endian, or one byte", "a view shows a row that is not in its mapping as itself"}, Run: runC44})
}

type sorting struct {
	c *Ctx
	p *Prog
}

func (r *sorting) check(ok bool, key, pos, good, bad string) {
	r.c.Count("sorting obligations", 1)
	r.c.Check(ok, key, pos, good, bad)
}

func (r *sorting) undecided(what string) { r.c.Count("undecided: "+what, 1) }

func runC44(c *Ctx) {
	r := &sorting{c, c.P}
	seen := map[*ssa.Function]bool{}
	for _, n := range []string{"base.Sort", "base.LazySort"} {
		top := c.P.Func(n)
		if top == nil {
			r.undecided(n)
			continue
		}
		for _, f := range c.P.within(top) {
			if seen[f] || f.Pkg == nil || !strings.HasSuffix(c.P.Fset.Position(f.Pos()).Filename, ".go") {
				continue
			}
			seen[f] = true
			if !r.sorts(f) {
				continue
			}
			r.reversals(f)
			r.swaps(f)
			r.passes(f)
			r.rows(f)
			r.cycles(f)
			r.mapping(f)
		}
		r.instructions(top)
		r.keys(top)
		r.sizes(top)
		r.rowSwap(top)
	}
	c.Floor("obligations about sorting", c.Counts["sorting obligations"], 8)
}

// sorts: a function the result of the sort passes through: one that handles row numbers as numbers.
func (r *sorting) sorts(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		file := r.p.Fset.Position(g.Pos()).Filename
		if strings.HasSuffix(file, "sort.go") {
			return true
		}
	}
	for _, s := range []*types.Tuple{f.Signature.Params(), f.Signature.Results()} {
		for i := 0; i < s.Len(); i++ {
			t := s.At(i).Type().String()
			if strings.HasSuffix(t, "[]int") || strings.HasSuffix(t, "SortDirection") || strings.HasSuffix(t, "sortSpec") {
				return true
			}
		}
	}
	return false
}

// ---- reversals ----

type exchange struct {
	list  ssa.Value // nil: rows of a data set
	i, j  ssa.Value
	at    ssa.Instruction
	wrong bool // not both exchanged
}

// exchanges: the pairs of places a block exchanges.
func (r *sorting) exchanges(b *ssa.BasicBlock) []exchange {
	var out []exchange
	var sts []*ssa.Store
	at := map[ssa.Instruction]int{}
	for n, i := range b.Instrs {
		at[i] = n
		switch x := i.(type) {
		case *ssa.Store:
			if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
				if l, _, ok := r.p.elemOf(x.Val); ok && r.p.sameRead(l, ia.X) {
					sts = append(sts, x)
				}
			}
		case *ssa.Call:
			o := calleeObj(x)
			if o != nil && o.Name() == "swapRows" && len(argsOf(x)) == 2 {
				out = append(out, exchange{nil, argsOf(x)[0], argsOf(x)[1], x, false})
			}
		}
	}
	for n := 0; n+1 < len(sts); n += 2 {
		a, c := sts[n].Addr.(*ssa.IndexAddr), sts[n+1].Addr.(*ssa.IndexAddr)
		if !r.p.sameRead(a.X, c.X) {
			continue
		}
		_, va, _ := r.p.elemOf(sts[n].Val)
		_, vc, _ := r.p.elemOf(sts[n+1].Val)
		ok := r.p.sameRead(a.Index, vc) && r.p.sameRead(c.Index, va)
		for _, s := range []*ssa.Store{sts[n], sts[n+1]} {
			if ld, isI := s.Val.(ssa.Instruction); isI {
				if k, here := at[ld]; here && k > at[sts[n]] {
					ok = false // read after the other has been overwritten
				}
			}
		}
		out = append(out, exchange{a.X, a.Index, c.Index, sts[n], !ok})
	}
	return out
}

func (r *sorting) swaps(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, e := range r.exchanges(b) {
			if e.list != nil {
				r.check(!e.wrong, "swap:"+r.p.Name(f), r.p.InstrPos(e.at), "two places are exchanged", "two places are not exchanged: one of them is lost, or left as it was")
			}
		}
	}
}

func oneBefore(v ssa.Value) (ssa.Value, bool) {
	b, ok := bareNum(v).(*ssa.BinOp)
	if !ok || b.Op != token.SUB {
		return nil, false
	}
	k, isC := constInt(b.Y)
	return b.X, isC && k == 1
}

func (r *sorting) reversals(f *ssa.Function) {
	for _, h := range f.Blocks {
		loop := naturalLoop(h)
		if loop == nil {
			continue
		}
		iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		var es []exchange
		for b := range loop {
			if b2, _ := innermostLoop(b); b2 == h {
				es = append(es, r.exchanges(b)...)
			}
		}
		if len(es) != 1 {
			continue
		}
		e := es[0]
		up, isU := e.i.(*ssa.Phi)
		down, isD := e.j.(*ssa.Phi)
		if !isU || !isD || up.Block() != h || down.Block() != h {
			// i and n-1-i
			l := innermost(f, e.at.Block())
			if l == nil || l.Header != h || l.Step != 1 {
				continue
			}
			var other ssa.Value
			switch {
			case e.i == l.Cur:
				other = e.j
			case e.j == l.Cur:
				other = e.i
			}
			b, ok := other.(*ssa.BinOp)
			if !ok || b.Op != token.SUB || !madeFrom(other, l.Cur, map[ssa.Value]bool{}) {
				continue
			}
			half, ok := bareNum(l.Bound).(*ssa.BinOp)
			bad := ""
			if !ok || half.Op != token.QUO && half.Op != token.SHR {
				continue
			}
			if k, isC := constInt(half.Y); isC && (half.Op == token.QUO && k != 2 || half.Op == token.SHR && k != 1) {
				bad = "the order is not turned round up to the middle"
			}
			if k, isC := constInt(l.Init); isC && k != 0 {
				bad = "the first is left where it is"
			}
			r.check(bad == "", "reverse:"+r.p.Name(f), r.p.InstrPos(e.at), "the order is turned round completely", bad)
			r.descending(f, h, e)
			continue
		}
		step := func(p *ssa.Phi) (int64, ssa.Value) {
			var k int64
			var init ssa.Value
			for n, in := range p.Edges {
				if !loop[h.Preds[n]] {
					init = in
					continue
				}
				if b, ok := in.(*ssa.BinOp); ok && b.X == ssa.Value(p) {
					if c, isC := constInt(b.Y); isC {
						k = c
						if b.Op == token.SUB {
							k = -c
						}
					}
				}
			}
			return k, init
		}
		su, iu := step(up)
		sd, id := step(down)
		if su < 0 && sd > 0 {
			up, down, su, sd, iu, id = down, up, sd, su, id, iu
		}
		if su == 0 || sd == 0 || su == sd {
			continue
		}
		bad := ""
		if k, isC := constInt(iu); isC && k != 0 {
			bad = "the first is left where it is"
		}
		if _, last := oneBefore(id); !last {
			bad = "turning round does not start at the last"
		}
		if su != 1 || sd != -1 {
			bad = "some places are passed over when turning round"
		}
		cond, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		x, y, op := cond.X, cond.Y, cond.Op
		if y == ssa.Value(up) || x == ssa.Value(down) {
			x, y, op = y, x, mirrored(op)
		}
		if loop[h.Succs[1]] {
			op = negate(op)
		}
		if x != ssa.Value(up) || y != ssa.Value(down) || op != token.LSS && op != token.LEQ {
			bad = "the order is not turned round up to the middle"
		}
		r.check(bad == "", "reverse:"+r.p.Name(f), r.p.InstrPos(e.at), "the order is turned round completely", bad)
		r.descending(f, h, e)
	}
}

// descending: rows are turned round only for descending order.
func (r *sorting) descending(f *ssa.Function, h *ssa.BasicBlock, e exchange) {
	if e.list != nil {
		if sl, ok := e.list.Type().Underlying().(*types.Slice); !ok || !isIntType(sl.Elem()) {
			return
		}
	}
	var want *types.Const
	if f.Pkg != nil {
		want, _ = f.Pkg.Pkg.Scope().Lookup("Descending").(*types.Const)
	}
	if want == nil {
		return
	}
	asked, other := false, false
	for _, g := range guardsOf(h) {
		b, ok := g.Cond.(*ssa.BinOp)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ || !strings.HasSuffix(b.X.Type().String(), "SortDirection") {
			continue
		}
		c, ok := b.Y.(*ssa.Const)
		if !ok {
			c, ok = b.X.(*ssa.Const)
		}
		if !ok || c.Value == nil {
			continue
		}
		is := c.Value.ExactString() == want.Val().ExactString()
		if eq := (b.Op == token.EQL) == g.Pol; eq == is {
			asked = true
		} else {
			other = true
		}
	}
	if !asked && !other {
		takes := false
		for _, q := range f.Params {
			takes = takes || strings.HasSuffix(q.Type().String(), "SortDirection")
		}
		if !takes {
			r.undecided("when rows are turned round")
			return
		}
	}
	r.check(asked, "descending:"+r.p.Name(f), r.p.InstrPos(e.at), "rows are turned round for descending order", "rows are not turned round exactly when descending order is asked for")
}

// ---- distribution ----

func fromZero(l *CountLoop) bool {
	if l.Range {
		return true
	}
	k, isC := constInt(l.Init)
	return isC && k == 0 && l.Step == 1
}

func (r *sorting) passes(f *ssa.Function) {
	var bins []ssa.Value // the lists of bins
	for _, i := range instrs(f) {
		st, ok := i.(*ssa.Store)
		if !ok {
			continue
		}
		ia, ok := st.Addr.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		ap, ok := isAppend(st.Val)
		if !ok || len(ap.Call.Args) != 2 {
			continue
		}
		bl, bi, ok := r.p.elemOf(ap.Call.Args[0])
		if !ok || !r.p.sameRead(bl, ia.X) {
			continue
		}
		list, byt, ok := r.p.elemOf(ia.Index)
		if !ok {
			continue
		}
		if bt, isB := ia.Index.Type().Underlying().(*types.Basic); !isB || bt.Kind() != types.Uint8 {
			if cv, isC := ia.Index.(*ssa.Convert); !isC || cv.X.Type().String() != "byte" && cv.X.Type().String() != "uint8" {
				continue
			}
		}
		rows, row, ok := r.p.elemOf(list)
		if !ok {
			continue
		}
		_ = rows
		bins = append(bins, ia.X)
		bad := ""
		if !r.p.sameRead(bi, ia.Index) {
			bad = "what is put in a bin is added to the contents of another"
		}
		els := varargs(ap)
		if len(els) == 1 {
			if _, ev, ok := r.p.elemOf(els[0]); ok {
				if !r.p.sameRead(ev, row) {
					bad = "the row put in a bin is not the one whose byte was looked at"
				}
			} else if !r.p.sameRead(els[0], list) && !isIntType(els[0].Type()) {
				bad = "the row put in a bin is not the one whose byte was looked at"
			} else if isIntType(els[0].Type()) {
				bad = "the place of a row in this pass is taken for its number"
			}
		}
		in := innermost(f, st.Block())
		var out *CountLoop
		for _, l := range countingLoops(f) {
			if in != nil && l.Header != in.Header && l.Body[in.Header] && (out == nil || len(l.Body) < len(out.Body)) {
				out = l
			}
		}
		if in == nil || out == nil {
			r.undecided("the distribution pass")
			continue
		}
		if in.Cur == row && bad == "" {
			if in.Step != 1 && !in.Range {
				bad = "the rows are not gone over in their order: the order of the passes before is lost"
			} else if !fromZero(in) || leavesEarly(in) {
				bad = "some rows are passed over"
			}
			if _, cut := oneBefore(in.Bound); cut {
				bad = "the last row is passed over"
			}
			if len((&convert{r.c, r.p}).turnsWithout(in.Header, in.Body, st)) > 0 {
				bad = "some rows are not put in any bin"
			}
		}
		if out.Cur == byt && bad == "" {
			if out.Step != 1 && !out.Range {
				bad = "the bytes are not gone over from the least to the most significant"
			} else if !fromZero(out) || leavesEarly(out) {
				bad = "some bytes take no part in the order"
			}
			if _, cut := oneBefore(out.Bound); cut {
				bad = "the last byte takes no part in the order"
			}
		} else if bad == "" && in.Cur == byt {
			bad = "the order of bytes and rows is exchanged"
		}
		r.check(bad == "", "pass:"+r.p.Name(f), r.p.InstrPos(st), "rows go to the bins of their bytes", bad)
	}
	if len(bins) == 0 {
		return
	}
	// collecting the bins
	type gather struct {
		call    *ssa.Call
		off, ix ssa.Value
		list    ssa.Value
	}
	var gs []gather
	for _, i := range instrs(f) {
		call, ok := i.(*ssa.Call)
		if !ok {
			continue
		}
		b, ok := call.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "copy" {
			continue
		}
		l, ix, ok := r.p.elemOf(call.Call.Args[1])
		if !ok {
			continue
		}
		isBin := false
		for _, x := range bins {
			isBin = isBin || r.p.sameRead(x, l)
		}
		sl, ok := call.Call.Args[0].(*ssa.Slice)
		if !isBin || !ok || sl.Low == nil {
			if isBin {
				r.undecided("how bins are collected")
			}
			continue
		}
		gs = append(gs, gather{call, sl.Low, ix, l})
		bad := ""
		k := innermost(f, call.Block())
		if k == nil || k.Cur != ix {
			if _, isC := constInt(ix); isC {
				bad = "the same bin is collected again and again"
			} else {
				continue
			}
		} else {
			if !k.Range {
				n, isC := constInt(k.Bound)
				if k.Step == -1 {
					bad = "the bins are collected from the highest down"
				} else if !fromZero(k) {
					bad = "some bins are not collected"
				} else if isC && (k.Op == token.LSS && n != 256 || k.Op == token.LEQ && n != 255 || k.Op == token.NEQ && n != 256) {
					bad = "some bins are not collected"
				}
			}
			if leavesEarly(k) {
				bad = "some bins are not collected"
			}
		}
		// the place grows by what was put there
		if ph, ok := sl.Low.(*ssa.Phi); ok && k != nil && ph.Block() == k.Header && bad == "" {
			for n, e := range ph.Edges {
				if !k.Body[k.Header.Preds[n]] {
					if c, isC := constInt(e); isC && c != 0 {
						bad = "the first place is not filled"
					} else if !isC {
						bad = "collecting does not start at the first place"
					}
					continue
				}
				b, ok := e.(*ssa.BinOp)
				if !ok || b.Op != token.ADD {
					bad = "the place bins are put at does not move on"
					continue
				}
				ln, ok := b.Y.(*ssa.Call)
				if !ok {
					ln, ok = b.X.(*ssa.Call)
				}
				if !ok {
					bad = "the place bins are put at does not move on by the size of the bin"
					continue
				}
				if bi, isB := ln.Call.Value.(*ssa.Builtin); isB && bi.Name() == "len" {
					if _, lx, ok := r.p.elemOf(ln.Call.Args[0]); ok && !r.p.sameRead(lx, ix) {
						bad = "the place bins are put at moves on by the size of another bin"
					}
				}
			}
		}
		r.check(bad == "", "collect:"+r.p.Name(f), r.p.InstrPos(call), "bins are collected one after the other", bad)
	}
	for n := 1; n < len(gs); n++ {
		ok := r.p.sameRead(gs[n].off, gs[0].off) && r.p.sameRead(gs[n].ix, gs[0].ix)
		r.check(ok, "together:"+r.p.Name(f), r.p.InstrPos(gs[n].call), "values and row numbers stay together", "the values and the row numbers are not collected from the same bin to the same place")
	}
	if len(gs) == 1 && len(bins) > 1 {
		r.check(false, "together:"+r.p.Name(f), r.p.InstrPos(gs[0].call), "", "values and row numbers are not both collected")
	}
	for n := 1; n < len(gs); n++ {
		if r.p.sameRead(gs[n].list, gs[n-1].list) {
			r.check(false, "together:"+r.p.Name(f), r.p.InstrPos(gs[n].call), "", "the bins of one are collected as those of the other")
		}
	}
}

// rows: each row is kept under its own number.
func (r *sorting) rows(f *ssa.Function) {
	if f.Parent() == nil || len(f.Params) != 2 || !isIntType(f.Params[1].Type()) {
		return
	}
	no := ssa.Value(f.Params[1])
	for _, i := range instrs(f) {
		st, ok := i.(*ssa.Store)
		if !ok {
			continue
		}
		ia, ok := st.Addr.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		u, ok := ia.X.(*ssa.UnOp)
		if !ok {
			continue
		}
		if _, isFV := u.X.(*ssa.FreeVar); !isFV {
			continue
		}
		bad := ""
		if ia.Index != no {
			bad = "what is noted of a row is kept under another number"
		}
		if isIntType(st.Val.Type()) && bareNum(st.Val) != no {
			bad = "a row is noted under the number of another"
		}
		r.check(bad == "", "row:"+r.p.Name(f), r.p.InstrPos(st), "a row is noted under its own number", bad)
	}
	// every Attribute takes part
	for _, i := range instrs(f) {
		call, ok := i.(*ssa.Call)
		if !ok || calleeObj(call) == nil {
			continue
		}
		if n := calleeObj(call).FullName(); n != "encoding/binary.Write" && n != "(*bytes.Buffer).Write" {
			continue
		}
		l := innermost(f, call.Block())
		if l == nil {
			continue
		}
		bad := ""
		if !fromZero(l) || leavesEarly(l) {
			bad = "some Attributes take no part in the order"
		}
		others := []ssa.Instruction{call}
		for _, j := range instrs(f) {
			if d, ok := j.(*ssa.Call); ok && d != call && calleeObj(d) == calleeObj(call) {
				others = append(others, d)
			}
		}
		if bad == "" && len((&convert{r.c, r.p}).turnsWithout(l.Header, l.Body, others...)) > 0 {
			bad = "some Attributes take no part in the order"
		}
		r.check(bad == "", "parts:"+r.p.Name(f), r.p.InstrPos(call), "every Attribute takes part in the order", bad)
	}
}

// ---- cycles ----

func (r *sorting) cycles(f *ssa.Function) {
	for _, i := range instrs(f) {
		al, ok := i.(*ssa.Alloc)
		if !ok {
			continue
		}
		n, ok := deref(al.Type()).(*types.Named)
		if !ok || n.Obj().Name() != "sortSpec" {
			continue
		}
		var one, two ssa.Value
		for _, rf := range *al.Referrers() {
			fa, ok := rf.(*ssa.FieldAddr)
			if !ok || fa.Referrers() == nil {
				continue
			}
			for _, q := range *fa.Referrers() {
				if st, ok := q.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
					if fa.Field == 0 {
						one = st.Val
					} else {
						two = st.Val
					}
				}
			}
		}
		if one == nil || two == nil {
			continue
		}
		// one of them is read at the other
		from, to := one, two
		list, ix, ok := r.p.elemOf(to)
		if !ok {
			from, to = two, one
			list, ix, ok = r.p.elemOf(to)
		}
		if !ok {
			r.undecided("how swaps are found")
			continue
		}
		bad := ""
		if !r.p.sameRead(ix, from) {
			bad = "a place is not swapped with the one its row comes from"
		}
		h, loop := innermostLoop(al.Block())
		if h == nil {
			r.undecided("how swaps are found")
			continue
		}
		ph, ok := bareNum(from).(*ssa.Phi)
		if !ok || ph.Block() != h {
			r.undecided("how swaps are found")
			continue
		}
		var init ssa.Value
		for k, e := range ph.Edges {
			if !loop[h.Preds[k]] {
				init = e
				continue
			}
			if _, nx, ok := r.p.elemOf(e); bad == "" && (!ok || !r.p.sameRead(nx, from)) {
				bad = "the place looked at next is not the one the row comes from"
			}
		}
		// until the cycle comes back to its start
		for b := range loop {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || loop[b.Succs[0]] && loop[b.Succs[1]] {
				continue
			}
			c, ok := iff.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			x, y := c.X, c.Y
			if _, _, isE := r.p.elemOf(x); !isE {
				x, y = y, x
			}
			l2, xi, isE := r.p.elemOf(x)
			op := c.Op
			if loop[b.Succs[0]] {
				op = negate(op)
			}
			if isE && r.p.sameRead(l2, list) && bad == "" {
				if !r.p.sameRead(xi, from) || op != token.EQL || init != nil && !r.p.sameRead(y, init) {
					bad = "a cycle does not end where it started"
				}
			}
		}
		// every place gone through is marked
		for b := range loop {
			for _, j := range b.Instrs {
				st, ok := j.(*ssa.Store)
				if !ok {
					continue
				}
				if v, isB := constBool(st.Val); isB && bad == "" {
					ia, ok := st.Addr.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					if l2, nx, isE := r.p.elemOf(ia.Index); v && isE && r.p.sameRead(l2, list) && r.p.sameRead(nx, from) {
						continue // the place looked at next
					}
					if !v || !r.p.sameRead(ia.Index, from) {
						bad = "a place gone through is not marked: its cycle is followed again"
					}
				}
			}
		}
		r.check(bad == "", "cycle:"+r.p.Name(f), r.p.InstrPos(al), "a cycle of places is followed once", bad)
	}
}

// instructions: the swaps found are all made, in their order.
func (r *sorting) instructions(top *ssa.Function) {
	for _, f := range r.p.within(top) {
		if !r.sorts(f) {
			continue
		}
		for _, l := range countingLoops(f) {
			var es []exchange
			for b := range l.Body {
				es = append(es, r.exchanges(b)...)
			}
			if len(es) != 1 {
				continue
			}
			e := es[0]
			isSpec := func(v ssa.Value) (ssa.Value, int, bool) {
				switch x := v.(type) {
				case *ssa.UnOp:
					if fa, ok := x.X.(*ssa.FieldAddr); ok && strings.HasSuffix(deref(fa.X.Type()).String(), "sortSpec") {
						return fa.X, fa.Field, true
					}
				case *ssa.Field:
					if strings.HasSuffix(x.X.Type().String(), "sortSpec") {
						return x.X, x.Field, true
					}
				}
				return nil, 0, false
			}
			s1, f1, ok1 := isSpec(e.i)
			s2, f2, ok2 := isSpec(e.j)
			if !ok1 && !ok2 {
				continue
			}
			bad := ""
			if !ok1 || !ok2 || f1 == f2 || !r.p.sameRead(s1, s2) {
				bad = "a swap does not exchange the two places of one instruction"
			}
			if !l.Range && !fromZero(l) || leavesEarly(l) || len((&convert{r.c, r.p}).turnsWithout(l.Header, l.Body, e.at)) > 0 {
				bad = "some of the swaps are not made, or not in their order"
			}
			if _, cut := oneBefore(l.Bound); cut {
				bad = "some of the swaps are not made"
			}
			r.check(bad == "", "swaps:"+r.p.Name(f), r.p.InstrPos(e.at), "all swaps are made in order", bad)
		}
	}
}

// mapping: only rows that stay in place are left out of a view's mapping.
func (r *sorting) mapping(f *ssa.Function) {
	for _, i := range instrs(f) {
		up, ok := i.(*ssa.MapUpdate)
		if !ok {
			continue
		}
		mt := up.Map.Type().Underlying().(*types.Map)
		if !isIntType(mt.Key()) || !isIntType(mt.Elem()) {
			continue
		}
		l := innermost(f, up.Block())
		_, ix, isV := r.p.elemOf(up.Value)
		_, kx, isK := r.p.elemOf(up.Key)
		bad := ""
		switch {
		case isV && !isK:
			if !r.p.sameRead(ix, up.Key) {
				bad = "a row is shown in the place of another"
			}
		case isK && !isV:
			bad = "the mapping is the wrong way round: it says where a row goes, not which row is shown"
			_ = kx
		default:
			r.undecided("a view's mapping")
			continue
		}
		if l != nil && bad == "" {
			paths, full := turnPaths(l.Header, l.Body, 500)
			if full {
				for _, t := range paths {
					if _, on := t.pos[up.Block()]; on || !t.feasible() {
						continue
					}
					same := false
					for _, fc := range t.facts() {
						b, ok := fc.cond.(*ssa.BinOp)
						if !ok || (b.Op != token.EQL) == fc.pol && !(b.Op == token.NEQ && !fc.pol) {
							continue
						}
						if b.Op == token.EQL && fc.pol || b.Op == token.NEQ && !fc.pol {
							if r.p.sameRead(b.X, up.Key) && r.p.sameRead(b.Y, up.Value) || r.p.sameRead(b.Y, up.Key) && r.p.sameRead(b.X, up.Value) {
								same = true
							}
						}
					}
					if !same {
						bad = "a row that moves is left out of the mapping"
					}
				}
			}
			if !fromZero(l) || leavesEarly(l) {
				bad = "rows are left out of the mapping"
			}
		}
		r.check(bad == "", "mapping:"+r.p.Name(f), r.p.InstrPos(up), "each place shows its row", bad)
	}
	// the positions start as each row's own
	for _, l := range countingLoops(f) {
		for b := range l.Body {
			if h, _ := innermostLoop(b); h != l.Header {
				continue
			}
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				ia, ok := st.Addr.(*ssa.IndexAddr)
				if bt, isB := st.Val.Type().Underlying().(*types.Basic); !ok || !isB || bt.Kind() != types.Int || ia.Index != l.Cur {
					continue
				}
				if !madeFrom(st.Val, l.Cur, map[ssa.Value]bool{}) {
					continue
				}
				if _, _, isE := r.p.elemOf(st.Val); isE {
					continue
				}
				ok = bareNum(st.Val) == l.Cur && fromZero(l) && !leavesEarly(l)
				r.check(ok, "start:"+r.p.Name(f), r.p.InstrPos(st), "each row starts in its own place", "a row does not start in its own place")
			}
		}
	}
}

// ---- keys ----

// keys: numbers are compared as numbers.
func (r *sorting) keys(top *ssa.Function) {
	signed, other := "", false
	var at ssa.Instruction
	bad := ""
	for _, f := range r.p.within(top) {
		if !r.sorts(f) && f.Parent() == nil {
			continue
		}
		for _, i := range instrs(f) {
			switch x := i.(type) {
			case *ssa.Call:
				if o := calleeObj(x); o != nil {
					switch o.Name() {
					case "Float64bits", "GetFloatFromSysVal", "UnpackBytesToFloat", "Float64frombits", "SliceStable", "Slice", "Compare":
						other = true
					}
				}
			case *ssa.BinOp:
				k, isC := constInt(x.Y)
				if !isC {
					continue
				}
				isByte := false
				if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
					isByte = true
				}
				if !isByte {
					continue
				}
				switch x.Op {
				case token.AND, token.GEQ, token.LSS, token.GTR, token.LEQ, token.SHR:
					_, ix, ok := r.p.elemOf(x.X)
					mask := x.Op == token.AND && k == 0x80 || (x.Op == token.GEQ || x.Op == token.LSS) && k == 0x80 || (x.Op == token.GTR || x.Op == token.LEQ) && k == 0x7f || x.Op == token.SHR && k == 7
					if !ok || !mask {
						continue
					}
					at = x
					if _, last := oneBefore(ix); last {
						signed = "last"
					} else if n, isC := constInt(ix); isC && n == 7 {
						signed = "last"
					} else if signed == "" {
						signed = "elsewhere"
					}
				case token.XOR:
					_, ix, ok := r.p.elemOf(x.X)
					if !ok {
						continue
					}
					if at == nil {
						at = x
					}
					_, last := oneBefore(ix)
					n, isN := constInt(ix)
					if isN && n == 7 {
						last = true
					}
					if k == 0x80 && !last {
						bad = "the sign is not turned where it is, in the last byte"
					}
					if k == 0xff {
						l := innermost(f, x.Block())
						if l == nil || l.Cur != ix {
							if l != nil || !last {
								bad = "not all of a negative number's bytes are turned"
							}
						} else if !fromZero(l) || leavesEarly(l) {
							bad = "not all of a negative number's bytes are turned"
						}
					}
				}
			}
		}
	}
	if bad == "" && signed == "elsewhere" {
		bad = "the sign of a number is looked for where it is not"
	}
	if bad == "" && signed == "" && !other {
		bad = "numbers are compared by their bytes whatever their sign: negative numbers come after the positive ones, backwards"
	}
	pos := r.p.Pos(top.Pos())
	if at != nil {
		pos = r.p.InstrPos(at)
	}
	if signed == "" && other {
		r.undecided("how numbers are compared")
		return
	}
	r.check(bad == "", "keys:"+r.p.Name(top), pos, "numbers are compared by sign and size", bad)
}

// sizes: the bytes a row is compared by are counted over all of its values.
func (r *sorting) sizes(top *ssa.Function) {
	for _, f := range r.p.within(top) {
		if !r.sorts(f) && f.Parent() == nil {
			continue
		}
		for _, i := range instrs(f) {
			mk, ok := i.(*ssa.MakeSlice)
			if !ok || mk.Type().String() != "[]byte" {
				continue
			}
			u, ok := bareNum(mk.Len).(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				continue
			}
			cell := r.p.cellOf(u.X)
			if cell == nil {
				continue
			}
			bad := ""
			counted := false
			for _, st := range r.p.cellStores(cell) {
				if innermost(st.Parent(), st.Block()) == nil {
					continue
				}
				lens, onTop := false, false
				for v := range sliceOf(st.Val) {
					switch x := v.(type) {
					case *ssa.Call:
						if b, isB := x.Call.Value.(*ssa.Builtin); isB && b.Name() == "len" {
							lens = true
						}
					case *ssa.UnOp:
						if x.Op == token.MUL && r.p.cellOf(x.X) == cell {
							onTop = true
						}
					}
				}
				if !lens {
					continue
				}
				counted = true
				if !onTop {
					bad = "the bytes of a row are not counted over all of its values: rows with values of different sizes are compared by the wrong bytes"
				}
			}
			if counted {
				r.check(bad == "", "size:"+r.p.Name(top), r.p.InstrPos(mk), "a row's bytes are counted over all its values", bad)
			}
		}
	}
}

// sliceOf: the values an expression is made of, within its function.
func sliceOf(v ssa.Value) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || out[v] {
			return
		}
		out[v] = true
		if i, ok := v.(ssa.Instruction); ok {
			for _, o := range i.Operands(nil) {
				walk(*o)
			}
		}
	}
	walk(v)
	return out
}

// rowSwap: exchanging two rows of a data set.
func (r *sorting) rowSwap(top *ssa.Function) {
	for _, f := range r.p.within(top) {
		if f.Name() != "swapRows" || len(f.Params) != 3 {
			continue
		}
		p := ssa.Value(f.Params[1])
		q := ssa.Value(f.Params[2])
		type cell struct {
			row, from ssa.Value
			copied    bool
			at        ssa.Instruction
		}
		var sets []cell
		// which row a value was read from
		var src func(v ssa.Value, copied bool, n int) (ssa.Value, bool)
		src = func(v ssa.Value, copied bool, n int) (ssa.Value, bool) {
			if n > 5 {
				return nil, false
			}
			if c, ok := v.(*ssa.Call); ok {
				if o := calleeObj(c); o != nil && o.Name() == "Get" && len(argsOf(c)) == 2 {
					return argsOf(c)[1], copied
				}
				if ap, ok := isAppend(v); ok && len(ap.Call.Args) == 2 {
					return src(ap.Call.Args[1], true, n+1)
				}
				return nil, false
			}
			if _, ok := v.(*ssa.Alloc); !ok {
				if _, ok := v.(*ssa.MakeSlice); !ok {
					if sl, ok := v.(*ssa.Slice); ok {
						return src(sl.X, copied, n+1)
					}
					return nil, false
				}
			}
			for _, rf := range *v.Referrers() {
				if c, ok := rf.(*ssa.Call); ok {
					if b, isB := c.Call.Value.(*ssa.Builtin); isB && b.Name() == "copy" && c.Call.Args[0] == v {
						return src(c.Call.Args[1], true, n+1)
					}
				}
			}
			return nil, false
		}
		for _, i := range instrs(f) {
			c, ok := i.(*ssa.Call)
			if !ok || calleeObj(c) == nil || calleeObj(c).Name() != "Set" || len(argsOf(c)) != 3 {
				continue
			}
			from, copied := src(argsOf(c)[2], false, 0)
			sets = append(sets, cell{argsOf(c)[1], from, copied, c})
		}
		if len(sets) != 2 || sets[0].from == nil || sets[1].from == nil {
			r.undecided("how rows are exchanged")
			continue
		}
		bad := ""
		if !(sets[0].row == p && sets[1].row == q || sets[0].row == q && sets[1].row == p) || sets[0].from == sets[0].row || sets[1].from == sets[1].row {
			bad = "two rows are not exchanged"
		} else if !sets[1].copied {
			bad = "the second row is written from cells the first write has changed already"
		}
		if l := innermost(f, sets[0].at.Block()); l != nil && bad == "" {
			if !fromZero(l) || leavesEarly(l) || len((&convert{r.c, r.p}).turnsWithout(l.Header, l.Body, sets[0].at)) > 0 || len((&convert{r.c, r.p}).turnsWithout(l.Header, l.Body, sets[1].at)) > 0 {
				bad = "some cells of the two rows are not exchanged"
			}
		}
		// of all Attributes
		for _, i := range instrs(f) {
			if c, ok := i.(*ssa.Call); ok && calleeObj(c) != nil && strings.Contains(calleeObj(c).Name(), "NonClass") {
				bad = "the cells of some Attributes are not exchanged"
			}
		}
		r.check(bad == "", "rows:"+r.p.Name(f), r.p.InstrPos(sets[0].at), "two rows are exchanged cell by cell", bad)
	}
}

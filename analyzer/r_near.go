package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C43", Rule: "the k-d tree: building divides a list of rows into the part before a row, that row, and the part after it, hands on both parts whole (the next feature first), and a node, leaf or not, holds the coordinates and the number of one and the same row; on every way through the search of a node, the side the target lies on is searched, the node itself is kept whenever fewer than k are or the farthest kept is farther (which is then removed first), and the other side is left out only when k are kept and the farthest is no farther than the target is from the division, measured in the feature that divides; the exhaustive search keeps by the same rule and goes to both sides; the heap of those kept has on every way through its operations the order it relies on (what moves up is larger than what it displaces and than the other child, and it stops only where that order holds); and the results are taken farthest first from the last place to the first, number and distance at the same place.",
		Trust: []string{"the distance along one feature is not larger than the distance (true of the Euclidean and Manhattan distances)", "the root's search is made with an empty heap and k at least 1"}, Run: runC43})
}

type near struct {
	c *Ctx
	p *Prog
}

func (r *near) check(ok bool, key, pos, good, bad string) {
	r.c.Count("neighbour obligations", 1)
	r.c.Check(ok, key, pos, good, bad)
}

func (r *near) undecided(what string) { r.c.Count("undecided: "+what, 1) }

func runC43(c *Ctx) {
	r := &near{c, c.P}
	if f := c.P.Func("(*kdtree.Tree).Build"); f != nil {
		for _, g := range c.P.within(f) {
			r.build(g)
		}
	}
	if f := c.P.Func("(*kdtree.Tree).Search"); f != nil {
		for _, g := range c.P.within(f) {
			r.search(g)
			r.results(g)
			r.heap(g)
		}
	}
	c.Floor("obligations about nearest neighbours", c.Counts["neighbour obligations"], 8)
}

// nodeField: the field of a tree node an address is of, and the node.
func nodeField(v ssa.Value) (ssa.Value, string) {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return nil, ""
	}
	return fa.X, fieldVar(fa.X.Type(), fa.Field).Name()
}

func loadedField(v ssa.Value) (ssa.Value, string) {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil, ""
	}
	return nodeField(u.X)
}

// plus: v is x plus a constant.
func (r *near) plus(v ssa.Value) (ssa.Value, int64) {
	var k int64
	for n := 0; n < 6; n++ {
		b, ok := bareNum(v).(*ssa.BinOp)
		if !ok || b.Op != token.ADD && b.Op != token.SUB {
			break
		}
		c, isC := constInt(b.Y)
		x := b.X
		if !isC && b.Op == token.ADD {
			c, isC = constInt(b.X)
			x = b.Y
		}
		if !isC {
			break
		}
		if b.Op == token.SUB {
			c = -c
		}
		k += c
		v = x
	}
	if c, isC := constInt(v); isC {
		return nil, k + c
	}
	return bareNum(v), k
}

func (r *near) same(a, b ssa.Value, d int64) bool {
	x, i := r.plus(a)
	y, j := r.plus(b)
	if x == nil || y == nil {
		return x == nil && y == nil && i == j+d
	}
	return i == j+d && r.p.sameRead(x, y)
}

// ---- building ----

func (r *near) build(f *ssa.Function) {
	if f.Signature.Results().Len() != 1 || !strings.HasSuffix(f.Signature.Results().At(0).Type().String(), "node") {
		return
	}
	var list *ssa.Parameter
	for _, q := range f.Params {
		if q.Type().String() == "[]int" {
			list = q
		}
	}
	if list == nil {
		return
	}
	name := r.p.Name(f)
	// the node that is returned, and where its row stands
	rows := map[ssa.Value]ssa.Value{} // node -> index of its row
	at := map[ssa.Value]ssa.Instruction{}
	var order []ssa.Value
	for _, i := range instrs(f) {
		st, ok := i.(*ssa.Store)
		if !ok {
			continue
		}
		n, fld := nodeField(st.Addr)
		if fld != "srcRowNo" {
			continue
		}
		l, ix, ok := r.p.elemOf(st.Val)
		if !ok || l != ssa.Value(list) {
			continue
		}
		n = r.nodeOf(n)
		rows[n], at[n] = ix, st
		order = append(order, n)
	}
	var root ssa.Value
	for _, ret := range returns(f) {
		if rows[r.nodeOf(ret.Results[0])] != nil {
			root = r.nodeOf(ret.Results[0])
		}
	}
	if root == nil {
		r.undecided("which row a node holds")
		return
	}
	d := rows[root]
	// coordinates and number are of one row
	for _, i := range instrs(f) {
		c, ok := i.(*ssa.Call)
		if !ok {
			continue
		}
		b, ok := c.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "copy" {
			continue
		}
		n, fld := loadedField(c.Call.Args[0])
		if fld != "value" {
			continue
		}
		n = r.nodeOf(n)
		_, row, ok := r.p.elemOf(c.Call.Args[1])
		if !ok || rows[n] == nil {
			continue
		}
		l, ix, ok := r.p.elemOf(row)
		if !ok || l != ssa.Value(list) {
			continue
		}
		r.check(r.p.sameRead(ix, rows[n]), "row:"+name, r.p.InstrPos(c), "a node holds one row", "a node holds the coordinates of one row and the number of another")
	}
	// both parts are handed on whole
	for _, i := range instrs(f) {
		c, ok := i.(*ssa.Call)
		if !ok || c.Call.StaticCallee() == nil {
			continue
		}
		g := c.Call.StaticCallee()
		if g != f && !r.p.staticReach(g)[f] {
			continue
		}
		for _, a := range c.Call.Args {
			sl, ok := a.(*ssa.Slice)
			if !ok || sl.X != ssa.Value(list) {
				continue
			}
			bad := ""
			switch {
			case sl.Low == nil && sl.High != nil:
				if !r.same(sl.High, d, 0) {
					bad = "rows are lost, or held twice: the part before a row does not end with it"
				}
			case sl.High == nil && sl.Low != nil:
				if !r.same(sl.Low, d, 1) {
					bad = "rows are lost, or held twice: the part after a row does not start after it"
				}
			default:
				bad = "rows are lost: a part is handed on with both ends cut off"
			}
			r.check(bad == "", "part:"+name, r.p.InstrPos(c), "a part is handed on whole", bad)
		}
		// by the next feature
		if g == f {
			for n, a := range c.Call.Args {
				if n < len(f.Params) && isIntType(f.Params[n].Type()) && a == ssa.Value(f.Params[n]) {
					r.check(false, "feature:"+name, r.p.InstrPos(c), "", "both levels divide by the same feature")
				}
			}
		}
	}
	// a leaf for a part of one row
	for _, n := range order {
		if n == root {
			continue
		}
		ix := rows[n]
		bad := ""
		known := false
		for _, g := range guardsOf(at[n].Block()) {
			b, ok := g.Cond.(*ssa.BinOp)
			if !ok || !r.same(b.X, d, 0) {
				continue
			}
			if !(b.Op == token.EQL && g.Pol || b.Op == token.NEQ && !g.Pol) {
				if x, k := r.plus(b.Y); x != nil && k < -2 && (b.Op == token.GEQ && g.Pol || b.Op == token.LSS && !g.Pol) {
					known = true
					bad = "a leaf is made of a part that may have more than one row"
				}
				continue
			}
			known = true
			x, k := r.plus(b.Y)
			y, j := r.plus(ix)
			if x == nil {
				if k != 1 || y != nil || j != 0 {
					bad = "the only row before is not the one in the leaf"
				}
			} else if k != -2 || !r.same(ix, d, 1) {
				bad = "the only row after is not the one in the leaf"
			}
		}
		if known {
			r.check(bad == "", "leaf:"+name, r.p.InstrPos(at[n]), "a leaf holds the only row of its part", bad)
		}
	}
	// divided by the feature noted
	for _, i := range instrs(f) {
		st, ok := i.(*ssa.Store)
		if !ok {
			continue
		}
		n, fld := nodeField(st.Addr)
		if fld == "feature" && r.nodeOf(n) == root {
			_, isP := st.Val.(*ssa.Parameter)
			_, isC := constInt(st.Val)
			if isC || isP {
				r.check(isP, "noted:"+name, r.p.InstrPos(st), "a node notes the feature it divides by", "a node does not note the feature it divides by")
			}
		}
		if fld == "Feature" {
			_, isP := st.Val.(*ssa.Parameter)
			if _, isC := constInt(st.Val); isC || isP {
				r.check(isP, "sorted:"+name, r.p.InstrPos(st), "rows are sorted by the feature that divides them", "rows are not sorted by the feature that divides them")
			}
		}
	}
}

// nodeOf: the node a value is, through the fields it is kept in.
func (r *near) nodeOf(v ssa.Value) ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return v
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return v
	}
	// the last store to this field before
	var out ssa.Value
	for _, i := range instrs(fa.Parent()) {
		st, ok := i.(*ssa.Store)
		if !ok {
			continue
		}
		g, ok := st.Addr.(*ssa.FieldAddr)
		if ok && g.Field == fa.Field && g.X == fa.X && (st.Block() == u.Block() || st.Block().Dominates(u.Block())) {
			out = st.Val
		}
	}
	if out == nil {
		return v
	}
	return out
}

// ---- searching ----

func (r *near) heapCall(i ssa.Instruction) string {
	c, ok := i.(*ssa.Call)
	if !ok || calleeObj(c) == nil || recvOf(c) == nil {
		return ""
	}
	n, ok := deref(recvOf(c).Type()).(*types.Named)
	if !ok || n.Obj().Name() != "heap" {
		return ""
	}
	return calleeObj(c).Name()
}

// dist: a distance of the target, and along which feature if only one.
func (r *near) dist(v ssa.Value) (kind string, feature ssa.Value) {
	c, ok := v.(*ssa.Call)
	if !ok || calleeObj(c) == nil || calleeObj(c).Name() != "Distance" || len(argsOf(c)) != 2 {
		return "", nil
	}
	kind = "all"
	for _, a := range argsOf(c) {
		m, ok := bareMat(a).(*ssa.Call)
		if !ok || len(m.Call.Args) != 3 {
			return "?", nil
		}
		sl, ok := m.Call.Args[2].(*ssa.Slice)
		if !ok {
			continue
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok {
			if sl.Low != nil && sl.High != nil {
				kind = "one"
				if feature != nil && !r.p.sameRead(feature, sl.Low) {
					return "mixed", nil
				}
				feature = sl.Low
			}
			continue
		}
		kind = "one"
		for _, rf := range *al.Referrers() {
			ia, ok := rf.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, q := range *ia.Referrers() {
				st, ok := q.(*ssa.Store)
				if !ok {
					continue
				}
				_, ix, ok := r.p.elemOf(st.Val)
				if !ok {
					return "?", nil
				}
				if feature != nil && !r.p.sameRead(feature, ix) {
					return "mixed", nil
				}
				feature = ix
			}
		}
	}
	return kind, feature
}

func (r *near) farthest(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Field:
		if c, ok := x.X.(*ssa.Call); ok {
			return r.heapCall(c) == "maximum"
		}
	case *ssa.UnOp:
		if _, fld := loadedField(v); fld == "length" {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				if al, ok := fa.X.(*ssa.Alloc); ok {
					for _, rf := range *al.Referrers() {
						if st, ok := rf.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
							if c, ok := st.Val.(*ssa.Call); ok {
								return r.heapCall(c) == "maximum"
							}
						}
					}
				}
			}
		}
	}
	return false
}

func (r *near) search(f *ssa.Function) {
	var node, k *ssa.Parameter
	var target *ssa.Parameter
	for _, q := range f.Params {
		if n, ok := deref(q.Type()).(*types.Named); ok && n.Obj().Name() == "node" {
			node = q
		}
		if isIntType(q.Type()) && k == nil {
			k = q
		}
		if q.Type().String() == "[]float64" {
			target = q
		}
	}
	if node == nil || k == nil || target == nil {
		return
	}
	keeps, goesOn := false, false
	for _, i := range instrs(f) {
		if r.heapCall(i) == "insert" {
			keeps = true
		}
		if c, ok := i.(*ssa.Call); ok && c.Call.StaticCallee() != nil && c.Call.StaticCallee().Pkg == f.Pkg && r.heapCall(i) == "" {
			if r.p.staticReach(c.Call.StaticCallee())[f] {
				goesOn = true
			}
		}
	}
	if !goesOn {
		return
	}
	name := r.p.Name(f)
	// calls to parts that keep or go on in ways not followed here
	for _, i := range instrs(f) {
		c, ok := i.(*ssa.Call)
		if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().Pkg != f.Pkg || r.heapCall(i) != "" {
			continue
		}
		if r.child(c, node) == "" {
			r.undecided("a search in parts")
			return
		}
	}
	if !keeps {
		r.undecided("a search in parts")
		return
	}
	paths, full := wholePaths(f, 3000)
	if !full {
		r.undecided("the ways through a search")
		return
	}
	// does it divide by the target, or look at everything?
	divides := false
	bad, where := "", f.Pos()
	say := func(s string, p token.Pos) {
		if bad == "" {
			bad = s
			if p.IsValid() {
				where = p
			}
		}
	}
	sideTest := func(b *ssa.BasicBlock, c *ssa.BinOp, pol bool) (string, ssa.Value) {
		x, y, op := c.X, c.Y, c.Op
		lx, ix, ok1 := r.p.elemOf(x)
		_, iy, ok2 := r.p.elemOf(y)
		if !ok1 || !ok2 || !isFloatType(x.Type()) {
			return "", nil
		}
		if lx != ssa.Value(target) {
			op = mirrored(op)
		}
		if !r.p.sameRead(ix, iy) {
			return "mixed", nil
		}
		if !pol {
			op = negate(op)
		}
		switch op {
		case token.LEQ, token.LSS:
			return "left", ix
		case token.GTR, token.GEQ:
			return "right", ix
		}
		return "", nil
	}
	for _, t := range paths {
		for _, fc := range t.facts() {
			if b, ok := fc.cond.(*ssa.BinOp); ok {
				if s, _ := sideTest(nil, b, fc.pol); s != "" {
					divides = true
				}
			}
		}
	}
	n := 0
	emptyMark, hasEmpty := r.emptyMark()
	hasEmpty = hasEmpty && !r.askedBefore(f, node)
	for _, t := range paths {
		if !t.feasible() {
			continue
		}
		var fullness, closer, oneTest string // "yes" "no"
		side := ""
		var feat, oneFeat ssa.Value
		leaf, empty, nilLeft, nilRight := false, false, false, false
		var pos token.Pos
		for _, fc := range t.facts() {
			b, ok := fc.cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			pos = b.Pos()
			if s, ft := sideTest(nil, b, fc.pol); s != "" {
				side, feat = s, ft
				continue
			}
			// the kind of node
			if x, fld := loadedField(b.X); fld == "feature" && x == ssa.Value(node) {
				if c, isC := constInt(b.Y); isC && (b.Op == token.EQL) == fc.pol && (b.Op == token.EQL || b.Op == token.NEQ) {
					leaf = leaf || c == -1
					empty = empty || c == -2
				}
			}
			empty = empty || r.saysEmpty(b, fc.pol, node)
			if x, fld := loadedField(b.X); x == ssa.Value(node) && isNilConst(b.Y) {
				is := (b.Op == token.EQL) == fc.pol
				nilLeft = nilLeft || fld == "left" && is
				nilRight = nilRight || fld == "right" && is
			}
			// fewer than k?
			x, y, op := b.X, b.Y, b.Op
			if y == ssa.Value(k) {
				x, y, op = y, x, mirrored(op)
			}
			if x == ssa.Value(k) {
				c, ok := y.(*ssa.Call)
				if ok && (r.heapCall(c) == "size" || c.Call.StaticCallee() == nil) {
					if !fc.pol {
						op = negate(op)
					}
					switch op {
					case token.GTR, token.NEQ:
						fullness = "no"
					case token.LEQ, token.EQL:
						fullness = "yes"
					default:
						say("whether k are kept already is not what is asked", b.Pos())
					}
				}
				continue
			}
			// nearer than the farthest?
			x, y, op = b.X, b.Y, b.Op
			if r.farthest(y) {
				x, y, op = y, x, mirrored(op)
			}
			if !r.farthest(x) {
				continue
			}
			kind, ft := r.dist(t.resolve(y))
			if !fc.pol {
				op = negate(op)
			}
			res := ""
			switch op {
			case token.GTR, token.GEQ:
				res = "yes"
			case token.LSS, token.LEQ:
				res = "no"
			}
			switch kind {
			case "all":
				closer = res
			case "one":
				oneTest, oneFeat = res, ft
			case "mixed":
				say("the distance to the division compares two different features", b.Pos())
			}
		}
		// what is done
		kept, removed, late := 0, 0, false
		went := map[string]bool{}
		for _, bl := range t.blocks {
			if bl == nil {
				continue
			}
			for _, i := range bl.Instrs {
				switch r.heapCall(i) {
				case "insert":
					kept++
					c := i.(*ssa.Call)
					for _, a := range argsOf(c) {
						if x, fld := loadedField(a); fld != "" && x != ssa.Value(node) {
							say("what is kept is not the node looked at", c.Pos())
						}
						if isFloatType(a.Type()) {
							if kd, _ := r.dist(t.resolve(a)); kd == "one" {
								say("a node is kept with the distance along one feature", c.Pos())
							}
						}
					}
				case "extractMax":
					removed++
					if kept > 0 {
						late = true
					}
				}
				if c, ok := i.(*ssa.Call); ok {
					if ch := r.child(c, node); ch != "" {
						went[ch] = true
					}
				}
			}
		}
		if kept > 0 && hasEmpty && r.mayBeEmpty(t, node, emptyMark) {
			say("an empty side is kept as if it were a row", pos)
		}
		if len(t.blocks) < 2 {
			continue
		}
		if empty {
			continue
		}
		n++
		if leaf {
			if kept == 0 && fullness != "yes" {
				say("a leaf is passed over", pos)
			}
			if divides {
				continue
			}
		}
		// the node itself
		switch {
		case fullness == "no":
			if kept != 1 || removed > 0 {
				say("with fewer than k kept, a node is not simply added", pos)
			}
		case fullness == "yes" && closer == "yes":
			if kept != 1 || removed != 1 || late {
				say("a nearer node does not take the place of the farthest", pos)
			}
		case fullness == "yes" && closer == "no":
			if kept > 0 || removed > 0 {
				say("a node farther than those kept takes the place of one", pos)
			}
		case fullness == "" && kept == 0:
			say("a node is passed over", pos)
		case fullness == "yes" && closer == "" && (kept == 0 || removed == 0):
			say("a node is passed over", pos)
		}
		// the sides
		if divides {
			if side == "" {
				continue
			}
			if side == "mixed" {
				say("the side is chosen by comparing two different features", pos)
				continue
			}
			far := "left"
			if side == "left" {
				far = "right"
			}
			if !went[side] {
				say("the side the target lies on is not searched", pos)
			}
			if !went[far] {
				ok := fullness == "yes" && oneTest == "no"
				if !ok {
					say("the other side is left out although nearer rows may lie there", pos)
				} else if oneFeat != nil && feat != nil && !r.p.sameRead(oneFeat, feat) {
					say("the other side is left out by the distance along another feature than the one that divides", pos)
				}
			}
		} else {
			if !went["left"] && !nilLeft || !went["right"] && !nilRight {
				if !leaf {
					say("one side of a node is not searched", pos)
				}
			}
		}
	}
	if n == 0 {
		r.undecided("the ways through a search")
		return
	}
	r.check(bad == "", "search:"+name, r.p.Pos(where), fmt.Sprintf("%d ways through the search of a node", n), bad)
}

// child: the side of a node a call goes to.
func (r *near) child(c *ssa.Call, node ssa.Value) string {
	for _, a := range c.Call.Args {
		if x, fld := loadedField(a); x == node && (fld == "left" || fld == "right") {
			return fld
		}
	}
	return ""
}

// results: the places the results are put at.
func (r *near) results(f *ssa.Function) {
	type put struct {
		st  *ssa.Store
		ix  ssa.Value
		fld string
	}
	var puts []put
	for _, i := range instrs(f) {
		st, ok := i.(*ssa.Store)
		if !ok {
			continue
		}
		ia, ok := st.Addr.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		fld := ""
		switch x := st.Val.(type) {
		case *ssa.Field:
			if c, ok := x.X.(*ssa.Call); ok && r.heapCall(c) == "maximum" {
				fld = fieldVar(x.X.Type(), x.Field).Name()
			}
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				if al, ok := fa.X.(*ssa.Alloc); ok {
					for _, s := range r.p.cellStores(al) {
						if c, ok := s.Val.(*ssa.Call); ok && r.heapCall(c) == "maximum" {
							fld = fieldVar(fa.X.Type(), fa.Field).Name()
						}
					}
				}
			}
		}
		if fld != "" {
			puts = append(puts, put{st, ia.Index, fld})
		}
	}
	if len(puts) < 2 {
		return
	}
	name := r.p.Name(f)
	for _, q := range puts[1:] {
		r.check(r.p.sameRead(q.ix, puts[0].ix), "results:"+name, r.p.InstrPos(q.st), "number and distance stand at the same place", "the number and the distance of a neighbour are put at different places")
	}
	ph, ok := puts[0].ix.(*ssa.Phi)
	if !ok {
		return
	}
	loop := naturalLoop(ph.Block())
	if loop == nil {
		return
	}
	bad := ""
	for n, e := range ph.Edges {
		x, d := r.plus(e)
		if loop[ph.Block().Preds[n]] {
			if x != ssa.Value(ph) || d != -1 {
				bad = "the farthest do not go to the last places"
			}
		} else if d != -1 || x == nil {
			bad = "the farthest do not go to the last places"
		}
	}
	taken := false
	for b := range loop {
		for _, i := range b.Instrs {
			taken = taken || r.heapCall(i) == "extractMax"
		}
	}
	if !taken {
		bad = "a neighbour put in its place is not removed from those left"
	}
	r.check(bad == "", "places:"+name, r.p.InstrPos(puts[0].st), "results are put in place from the farthest", bad)
}

// ---- the heap ----

// place: an index as a multiple of the place looked at, plus a constant.
type place struct {
	of   string // "": constant
	a, b int64
}

func (pl place) String() string { return fmt.Sprintf("%d%s%+d", pl.a, pl.of, pl.b) }

func (r *near) place(t *turnPath, v ssa.Value, depth int) (place, bool) {
	v = bareNum(t.resolve(bareNum(v)))
	if c, isC := constInt(v); isC {
		return place{"", 0, c}, true
	}
	if depth > 10 {
		return place{}, false
	}
	switch x := v.(type) {
	case *ssa.Phi:
		return place{"t", 1, 0}, true
	case *ssa.BinOp:
		l, ok1 := r.place(t, x.X, depth+1)
		m, ok2 := r.place(t, x.Y, depth+1)
		if !ok1 || !ok2 {
			return place{}, false
		}
		switch {
		case x.Op == token.ADD && (l.of == "" || m.of == "" || l.of == m.of):
			return place{l.of + m.of[:len(m.of)*boolInt(l.of == "")], l.a + m.a, l.b + m.b}, true
		case x.Op == token.SUB && (l.of == "" || m.of == "" || l.of == m.of):
			return place{l.of + m.of[:len(m.of)*boolInt(l.of == "")], l.a - m.a, l.b - m.b}, true
		case x.Op == token.MUL && m.of == "":
			return place{l.of, l.a * m.b, l.b * m.b}, true
		case x.Op == token.MUL && l.of == "":
			return place{m.of, m.a * l.b, m.b * l.b}, true
		case x.Op == token.SHL && m.of == "" && m.b == 1:
			return place{l.of, l.a * 2, l.b * 2}, true
		case (x.Op == token.QUO && m.of == "" && m.b == 2 || x.Op == token.SHR && m.of == "" && m.b == 1) && l.a == 1:
			return place{fmt.Sprintf("(%s%+d)/2", l.of, l.b), 1, 0}, true
		}
	}
	return place{}, false
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

// lengthAt: the place whose length a value is.
func (r *near) lengthAt(t *turnPath, v ssa.Value) (place, bool) {
	u, ok := t.resolve(v).(*ssa.UnOp)
	if !ok {
		return place{}, false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || fieldVar(fa.X.Type(), fa.Field).Name() != "length" {
		return place{}, false
	}
	ia, ok := fa.X.(*ssa.IndexAddr)
	if !ok {
		return place{}, false
	}
	return r.place(t, ia.Index, 0)
}

func (r *near) heap(f *ssa.Function) {
	recv := f.Signature.Recv()
	if recv == nil {
		return
	}
	if n, ok := deref(recv.Type()).(*types.Named); !ok || n.Obj().Name() != "heap" {
		return
	}
	s := &sorting{r.c, r.p}
	name := r.p.Name(f)
	for _, h := range f.Blocks {
		loop := naturalLoop(h)
		if loop == nil {
			continue
		}
		var ex []exchange
		for b := range loop {
			ex = append(ex, s.exchanges(b)...)
		}
		if len(ex) == 0 {
			continue
		}
		bad, where := "", ex[0].at.Pos()
		say := func(m string) {
			if bad == "" {
				bad = m
			}
		}
		for _, e := range ex {
			if e.wrong {
				say("two entries are not exchanged: one of them is lost")
			}
		}
		turns, full1 := turnPaths(h, loop, 1000)
		wholes, full2 := wholePaths(f, 3000)
		if !full1 || !full2 {
			r.undecided("the ways through the heap")
			continue
		}
		up := false
		known := true
		type rel struct{ x, y string } // x is not smaller than y
		// what a path knows
		learn := func(t *turnPath, from int) (rels map[rel]bool, in, out map[string]bool, ok bool) {
			rels, in, out, ok = map[rel]bool{}, map[string]bool{}, map[string]bool{}, true
			for i := from; i+1 < len(t.blocks); i++ {
				if t.blocks[i] == nil || !loop[t.blocks[i]] {
					continue
				}
				b := t.blocks[i]
				iff, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If)
				if !isIf || b.Succs[0] == b.Succs[1] {
					continue
				}
				c, isB := t.resolve(iff.Cond).(*ssa.BinOp)
				pol := b.Succs[0] == t.blocks[i+1]
				if !isB {
					continue
				}
				op := c.Op
				if !pol {
					op = negate(op)
				}
				if x, okx := r.lengthAt(t, c.X); okx {
					y, oky := r.lengthAt(t, c.Y)
					if !oky {
						continue
					}
					switch op {
					case token.GTR, token.GEQ:
						rels[rel{x.String(), y.String()}] = true
					case token.LSS, token.LEQ:
						rels[rel{y.String(), x.String()}] = true
					}
					continue
				}
				isLen := func(v ssa.Value) bool {
					q, ok := v.(*ssa.Call)
					if !ok {
						return false
					}
					if bi, isB := q.Call.Value.(*ssa.Builtin); isB {
						return bi.Name() == "len"
					}
					return r.heapCall(q) == "size"
				}
				x, y := c.X, c.Y
				if isLen(x) {
					x, y, op = y, x, mirrored(op)
				}
				if isLen(y) {
					pl, okp := r.place(t, x, 0)
					if !okp {
						continue
					}
					switch op {
					case token.LSS:
						in[pl.String()] = true
					case token.LEQ:
						pl.b--
						in[pl.String()] = true
					case token.GEQ:
						out[pl.String()] = true
					case token.GTR:
						pl.b--
						out[pl.String()] = true
					}
					continue
				}
				px, ok1 := r.place(t, x, 0)
				py, ok2 := r.place(t, y, 0)
				if ok1 && ok2 && px.of != "" && py.of != "" {
					if (op == token.EQL) != (px == py) && (op == token.EQL || op == token.NEQ) {
						ok = false
					}
				}
			}
			return
		}
		// where parent and children stand: from the places exchanged
		off := int64(0)
		offKnown := false
		for _, t := range turns {
			rels, _, _, ok := learn(t, 0)
			if !ok || !t.feasible() {
				continue
			}
			var e *exchange
			for n := range ex {
				if _, on := t.pos[ex[n].at.Block()]; on {
					e = &ex[n]
				}
			}
			if e == nil {
				continue
			}
			x, ok1 := r.place(t, e.i, 0)
			y, ok2 := r.place(t, e.j, 0)
			if !ok1 || !ok2 {
				known = false
				continue
			}
			if strings.Contains(x.of, "/2") || strings.Contains(y.of, "/2") {
				// moving up
				up = true
				if strings.Contains(x.of, "/2") {
					x, y = y, x
				}
				// x child, y parent
				if x.of != "t" || x.a != 1 || y.a != 1 {
					known = false
					continue
				}
				// child index t+b: parent of the 0-based index (t+b-1)/2
				want := fmt.Sprintf("(%s%+d)/2", "t", x.b-1)
				pw := place{want, 1, 0}
				if x.b == -1 { // t-1: (t-2)/2 = t/2-1
					alt := place{"(t+0)/2", 1, -1}
					if y != alt && y != pw {
						say("an entry is not compared with the one above it")
					}
				} else if y != pw {
					say("an entry is not compared with the one above it")
				}
				if !rels[rel{x.String(), y.String()}] {
					say("an entry moves up past one that is not smaller")
				}
				ph, isPh := r.header(h)
				if isPh {
					nx, ok := r.place(t, t.next(ph), 0)
					yy := y
					yy.b -= x.b
					if ok && nx != yy {
						say("an entry that has moved up is not followed to its new place")
					}
				}
				continue
			}
			// moving down: one is t+off, the other a child
			p, c := x, y
			if p.a != 1 || p.of != "t" {
				p, c = y, x
			}
			if p.a != 1 || p.of != "t" || c.of != "t" {
				if ph, isPh := r.header(h); isPh && (p.of == "") != (c.of == "") {
					// an exchange with one fixed place, while the next place is the one above
					if nx, ok := r.place(t, t.next(ph), 0); ok && strings.Contains(nx.of, "/2") {
						up = true
						say("an entry is not compared with the one above it")
					}
				}
				known = false
				continue
			}
			off, offKnown = p.b, true
			// 0-based children of i=t+off: 2i+1, 2i+2
			l := place{"t", 2, 2*off + 1}
			rr := place{"t", 2, 2*off + 2}
			other := rr
			if c == rr {
				other = l
			} else if c != l {
				say("an entry is exchanged with one that is not below it")
				continue
			}
			_, _, out, _ := learn(t, 0)
			above := rels[rel{c.String(), p.String()}] || rels[rel{c.String(), other.String()}] && rels[rel{other.String(), p.String()}]
			if !above {
				say("an entry moves up past one that is not smaller")
			}
			if !(rels[rel{c.String(), other.String()}] || out[other.String()] || rels[rel{p.String(), other.String()}] && rels[rel{c.String(), p.String()}]) {
				say("the entry that moves up may be smaller than the other one below")
			}
			if ph, isPh := r.header(h); isPh {
				nx, ok := r.place(t, t.next(ph), 0)
				cc := c
				cc.b -= off
				if ok && nx != cc {
					say("an entry that has moved down is not followed to its new place")
				}
			}
		}
		// where it stops
		if !up && offKnown {
			p := place{"t", 1, off}
			l := place{"t", 2, 2*off + 1}
			rr := place{"t", 2, 2*off + 2}
			for _, t := range wholes {
				i, on := t.pos[h]
				if !on || !t.feasible() {
					continue
				}
				rels, _, out, ok := learn(t, i)
				if !ok {
					continue
				}
				through := false
				for _, e := range ex {
					if _, on := t.pos[e.at.Block()]; on {
						through = true
					}
				}
				// a way out through the loop's own condition that is always true
				if last, isIf := h.Instrs[len(h.Instrs)-1].(*ssa.If); isIf && i+1 < len(t.blocks) && !loop[t.blocks[i+1]] {
					if _, isC := constBool(last.Cond); isC {
						continue
					}
				}
				if through {
					continue
				}
				if !(out[l.String()] || rels[rel{p.String(), l.String()}] || rels[rel{p.String(), rr.String()}] && rels[rel{rr.String(), l.String()}]) {
					say("moving down stops although the first entry below may be larger")
				}
				if !(out[l.String()] || out[rr.String()] || rels[rel{p.String(), rr.String()}] || rels[rel{p.String(), l.String()}] && rels[rel{l.String(), rr.String()}]) {
					say("moving down stops although the second entry below may be larger")
				}
			}
		}
		if !known || !up && !offKnown {
			r.undecided("places in the heap")
			if bad == "" {
				continue
			}
		}
		r.check(bad == "", "heap:"+name, r.p.Pos(where), "the order of the heap is kept", bad)
	}
}

// emptyMark: the feature that marks a node made without coordinates.
func (r *near) emptyMark() (int64, bool) {
	f := r.p.Func("(*kdtree.Tree).Build")
	if f == nil {
		return 0, false
	}
	for _, g := range r.p.within(f) {
		marks := map[ssa.Value]int64{}
		valued := map[ssa.Value]bool{}
		for _, i := range instrs(g) {
			st, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			n, fld := nodeField(st.Addr)
			if n == nil {
				continue
			}
			n = r.nodeOf(n)
			if m, isC := constInt(st.Val); isC && fld == "feature" {
				if _, isNew := n.(*ssa.Alloc); isNew {
					marks[n] = m
				}
			}
			if fld != "feature" {
				valued[n] = true
			}
		}
		for n, m := range marks {
			if !valued[n] {
				return m, true
			}
		}
	}
	return 0, false
}

// askedBefore: a caller asks something of a node before it hands it on.
func (r *near) askedBefore(f *ssa.Function, node *ssa.Parameter) bool {
	for _, g := range r.p.Funcs {
		if g.Pkg != f.Pkg {
			continue
		}
		for _, i := range instrs(g) {
			c, ok := i.(*ssa.Call)
			if !ok || c.Call.StaticCallee() != f {
				continue
			}
			for n, a := range c.Call.Args {
				if n >= len(f.Params) || f.Params[n] != node {
					continue
				}
				for _, gd := range guardsOf(c.Block()) {
					if b, ok := gd.Cond.(*ssa.BinOp); ok {
						for _, v := range []ssa.Value{b.X, b.Y} {
							if x, fld := loadedField(v); fld != "" && (x == a || r.p.sameRead(x, a)) {
								return true
							}
						}
						continue
					}
					if q, ok := gd.Cond.(*ssa.Call); ok {
						for _, v := range q.Call.Args {
							if v == a || r.p.sameRead(v, a) {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

// saysEmpty: the test holds of empty nodes only.
func (r *near) saysEmpty(b *ssa.BinOp, pol bool, node ssa.Value) bool {
	op := b.Op
	if !pol {
		op = negate(op)
	}
	x, fld := loadedField(b.X)
	if x == node && fld == "value" && isNilConst(b.Y) {
		return op == token.EQL
	}
	k, isC := constInt(b.Y)
	if !isC {
		return false
	}
	if x == node && fld == "feature" {
		return op == token.LSS && k <= -1 || op == token.LEQ && k <= -2
	}
	if q, ok := b.X.(*ssa.Call); ok && len(q.Call.Args) == 1 {
		if bi, isB := q.Call.Value.(*ssa.Builtin); isB && bi.Name() == "len" {
			if nd, fl := loadedField(q.Call.Args[0]); nd == node && fl == "value" {
				return op == token.EQL && k == 0 || op == token.LSS && k == 1 || op == token.LEQ && k == 0
			}
		}
	}
	return false
}

// mayBeEmpty: nothing asked on the way excludes an empty node.
func (r *near) mayBeEmpty(t *turnPath, node *ssa.Parameter, mark int64) bool {
	for _, fc := range t.facts() {
		b, ok := fc.cond.(*ssa.BinOp)
		if !ok {
			if q, isCall := fc.cond.(*ssa.Call); isCall {
				for _, a := range q.Call.Args {
					if a == ssa.Value(node) {
						return false
					}
				}
			}
			continue
		}
		x, y, op := b.X, b.Y, b.Op
		if _, fld := loadedField(y); fld != "" {
			x, y, op = y, x, mirrored(op)
		}
		if !fc.pol {
			op = negate(op)
		}
		if q, isLen := x.(*ssa.Call); isLen && len(q.Call.Args) == 1 {
			if nd, _ := loadedField(q.Call.Args[0]); nd == ssa.Value(node) {
				return false // asks for the coordinates
			}
		}
		nd, fld := loadedField(x)
		if nd != ssa.Value(node) {
			continue
		}
		switch fld {
		case "feature":
			k, isC := constInt(y)
			if !isC {
				return false
			}
			holds := map[token.Token]bool{token.EQL: mark == k, token.NEQ: mark != k, token.LSS: mark < k, token.LEQ: mark <= k, token.GTR: mark > k, token.GEQ: mark >= k}[op]
			if !holds {
				return false
			}
		case "value", "left", "right":
			if isNilConst(y) && op == token.NEQ {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// header: the place looked at, as the loop's own value.
func (r *near) header(h *ssa.BasicBlock) (*ssa.Phi, bool) {
	var out *ssa.Phi
	for _, i := range h.Instrs {
		if ph, ok := i.(*ssa.Phi); ok && isIntType(ph.Type()) {
			if out != nil {
				return nil, false
			}
			out = ph
		}
	}
	return out, out != nil
}

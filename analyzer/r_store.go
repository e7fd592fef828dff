package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C06", Rule: "for every attribute group type, the storage address (byte offset, and bit mask for packed groups) computed symbolically in the reader equals the one in the writer; consecutive rows are exactly one row size apart and columns inside a row do not overlap; the writer cannot run past its own cell; growing copies the old storage into storage that is larger by the amount asked for; every attribute specification made by a dense data set names the group and the position of the attribute it was made for.", Run: runC06})
	register(&Rule{ID: "C11", Rule: "bit-provenance analysis of the byte codecs: every byte written by each packer is traced to the bits of the value and every bit read by the matching unpacker to the bytes; their composition is the identity on 64 bits. Every attribute type uses one codec consistently in all its conversions, a categorical value is encoded as its own index in the value list and decoded by indexing with the decoded number.", Run: runC11})
}

// ---------- C06 ----------

type storeAcc struct {
	i    ssa.Instruction
	kind string // slice, elem
	low  Sym
	high Sym
	hasH bool
	env  *SymEnv
}

// storageField: the []byte field of a group type.
func storageField(t *types.Named) *types.Var {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if s, ok := st.Field(i).Type().Underlying().(*types.Slice); ok && bitWidth(s.Elem()) == 8 {
			return st.Field(i)
		}
	}
	return nil
}

func attrListField(t *types.Named) *types.Var {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if s, ok := st.Field(i).Type().Underlying().(*types.Slice); ok {
			if n := namedOf(s.Elem()); n != nil && n.Obj().Name() == "Attribute" {
				return st.Field(i)
			}
		}
	}
	return nil
}

// storageAccesses: the slices and elements of the storage field that f (and its helpers) touch, with their addresses
// in terms of f's parameters.
func (p *Prog) storageAccesses(f *ssa.Function, fld *types.Var, env *SymEnv, depth int) []storeAcc {
	var out []storeAcc
	isStore := func(v ssa.Value) bool {
		for k := 0; k < 4; k++ {
			if fv, _ := fieldLoad(v); fv == fld {
				return true
			}
			break
		}
		if cl, ok := v.(*ssa.Call); ok {
			if g := cl.Common().StaticCallee(); g != nil && g.Name() == "Storage" {
				return true
			}
		}
		return false
	}
	for _, i := range instrs(f) {
		switch t := i.(type) {
		case *ssa.Slice:
			if !isStore(t.X) || t.Low == nil && t.High == nil {
				continue
			}
			a := storeAcc{i: i, kind: "slice", low: symInt(0), env: env}
			if t.Low != nil {
				a.low = env.Eval(t.Low)
			}
			if t.High != nil {
				a.high, a.hasH = env.Eval(t.High), true
			}
			out = append(out, a)
		case *ssa.IndexAddr:
			if isStore(t.X) {
				out = append(out, storeAcc{i: i, kind: "elem", low: env.Eval(t.Index), env: env})
			}
		case ssa.CallInstruction:
			g := t.Common().StaticCallee()
			if depth == 0 || g == nil || !p.IsLibFunc(g) || isExported(g) || len(g.Blocks) == 0 {
				continue
			}
			in := &SymEnv{P: p, Atom: env.Atom, bind: map[ssa.Value]Sym{}, depth: env.depth + 1}
			for k, q := range g.Params {
				if k < len(t.Common().Args) {
					in.bind[q] = env.Eval(t.Common().Args[k])
				}
			}
			out = append(out, p.storageAccesses(g, fld, in, depth-1)...)
		}
	}
	return out
}

func cellEnv(p *Prog, f *ssa.Function, row string) *SymEnv {
	e := &SymEnv{P: p, bind: map[ssa.Value]Sym{}}
	if len(f.Params) >= 3 {
		e.bind[f.Params[0]] = symAtom("GROUP")
		e.bind[f.Params[1]] = symAtom("COL")
		if row == "0" {
			e.bind[f.Params[2]] = symInt(0)
		} else {
			e.bind[f.Params[2]] = symAtom(row)
		}
	}
	return e
}

func runC06(c *Ctx) {
	p := c.P
	it := p.Type("base", "AttributeGroup")
	if it == nil {
		c.Bad("groups", "-", "base.AttributeGroup not found")
		return
	}
	n := 0
	for _, t := range p.implementers(it) {
		n++
		p.groupCells(c, t)
		p.groupGrows(c, t)
	}
	c.Floor("attribute group types", n, 2)
	p.specsMade(c)
}

func (p *Prog) groupCells(c *Ctx, t *types.Named) {
	name := typeName(t)
	get, set, rs := p.Method(t, "get"), p.Method(t, "set"), p.Method(t, "RowSizeInBytes")
	fld, al := storageField(t), attrListField(t)
	if get == nil || set == nil || rs == nil || fld == nil || al == nil {
		c.Bad("cells:"+name, "-", "get, set, RowSizeInBytes or the storage field not found")
		return
	}
	ga := p.storageAccesses(get, fld, cellEnv(p, get, "ROW"), 4)
	sa := p.storageAccesses(set, fld, cellEnv(p, set, "ROW"), 4)
	if len(ga) == 0 || len(sa) == 0 {
		c.Bad("cells:"+name, p.Pos(get.Pos()), "no storage access found in get or set")
		return
	}
	// one address
	addr := ga[0].low
	same := true
	for _, a := range append(append([]storeAcc{}, ga...), sa...) {
		if !a.low.Eq(addr) {
			same = false
			c.Bad("cells:"+name, p.InstrPos(a.i), "storage is addressed at "+a.low.String()+" here but at "+addr.String()+" in "+p.InstrPos(ga[0].i))
		}
	}
	if same {
		c.Ok("cells:"+name, p.Pos(get.Pos()), "get and set address "+addr.String())
	}
	// row stride
	rowSize := (&SymEnv{P: p, bind: map[ssa.Value]Sym{rs.Params[0]: symAtom("GROUP")}}).callSym(rs)
	ga0 := p.storageAccesses(get, fld, cellEnv(p, get, "0"), 4)
	off0 := ga0[0].low
	stride := addr.Sub(off0)
	c.Check(stride.Eq(symAtom("ROW").Mul(rowSize)), "stride:"+name, p.InstrPos(ga[0].i), "rows are "+rowSize.String()+" bytes apart", "row ROW starts at "+stride.String()+" but a row is "+rowSize.String()+" bytes long")
	// columns
	listLen := symAtom("len(." + al.Name() + ")")
	if ga[0].kind == "slice" {
		if ga[0].hasH {
			size := ga[0].high.Sub(ga[0].low)
			c.Check(off0.Eq(symAtom("COL").Mul(size)), "columns:"+name, p.InstrPos(ga[0].i), "column COL starts at COL·"+size.String(), "column COL starts at "+off0.String()+" but a cell is "+size.String()+" bytes long")
			if strings.Contains(rowSize.String(), "len(") {
				c.Check(rowSize.Eq(listLen.Mul(size)), "row-size:"+name, p.Pos(rs.Pos()), "a row holds all its cells", "a row is "+rowSize.String()+" bytes long but holds "+listLen.String()+" cells of "+size.String()+" bytes")
			}
			p.boundedWrite(c, name, set, sa, size)
		} else {
			c.Bad("columns:"+name, p.InstrPos(ga[0].i), "the cell returned by get has no end: it runs into the following cells")
		}
		return
	}
	// packed: one bit per column
	c.Check(off0.Eq(symAtom("idiv(COL,8)")), "columns:"+name, p.InstrPos(ga[0].i), "column COL is in byte COL/8", "column COL is looked for in byte "+off0.String()+" of its row instead of COL/8")
	mask := func(as []storeAcc, f *ssa.Function) (and, or, clr []Sym, at map[string]ssa.Instruction) {
		at = map[string]ssa.Instruction{}
		for _, a := range as {
			for _, r := range *a.i.(ssa.Value).Referrers() {
				ld, ok := r.(*ssa.UnOp)
				if !ok {
					continue
				}
				for _, rr := range *ld.Referrers() {
					bo, ok := rr.(*ssa.BinOp)
					if !ok {
						continue
					}
					other := bo.Y
					if other == ssa.Value(ld) {
						other = bo.X
					}
					m := a.env.Eval(other)
					switch bo.Op {
					case token.AND:
						ms := m.String()
						if strings.HasPrefix(ms, "not(") {
							clr = append(clr, symAtom(strings.TrimSuffix(strings.TrimPrefix(ms, "not("), ")")))
							at["clr"] = bo
						} else {
							and = append(and, m)
							at["and"] = bo
						}
					case token.AND_NOT:
						clr = append(clr, m)
						at["clr"] = bo
					case token.OR:
						or = append(or, m)
						at["or"] = bo
					case token.SHR:
						and = append(and, symAtom("shl(1,"+m.String()+")"))
						at["and"] = bo
					}
				}
			}
		}
		return
	}
	gAnd, _, _, _ := mask(ga, get)
	_, sOr, sClr, at := mask(sa, set)
	want := symAtom("shl(1,mod(COL,8))")
	chk := func(key string, ms []Sym, what string) {
		if len(ms) == 0 {
			c.Ok(key+":"+name, p.Pos(get.Pos()), "not in the recognised form (undecided)")
			return
		}
		for _, m := range ms {
			c.Check(m.Eq(want), key+":"+name, p.Pos(get.Pos()), "bit COL%8", what+" uses mask "+m.String()+" instead of bit COL%8")
		}
	}
	chk("bit-read", gAnd, "get")
	chk("bit-set", sOr, "setting a cell")
	chk("bit-clear", sClr, "clearing a cell")
	p.bitSemantics(c, name, get, set, fld)
	// polarity: the bit is set under a positive test of the value, cleared otherwise
	for k, wantPol := range map[string]bool{"or": true, "clr": false} {
		i := at[k]
		if i == nil {
			continue
		}
		ok, known := false, false
		for _, g := range guardsOf(i.Block()) {
			if pos, isT := p.positiveTest(g.Cond); isT {
				known = true
				if (pos == g.Pol) == wantPol {
					ok = true
				}
			}
		}
		c.Check(ok || !known, "polarity-"+k+":"+name, p.InstrPos(i), "in step with the value", "the bit is set for a zero value or cleared for a non-zero one")
	}
	// a non-zero bit reads as a non-zero byte
	for _, r := range returns(get) {
		if len(r.Results) != 1 {
			continue
		}
		k, isC := p.byteSliceConst(r.Results[0])
		if !isC {
			continue
		}
		for _, g := range guardsOf(r.Block()) {
			if pos, isT := p.positiveTest(g.Cond); isT {
				c.Check((k != 0) == (pos == g.Pol), fmt.Sprintf("read-back-%d:%s", k, name), p.InstrPos(r), "read back as stored", "a set bit is read back as zero or a clear bit as non-zero")
			}
		}
	}
	// the row is long enough
	ok, decided := true, false
	at0 := int64(0)
	for k := int64(0); k <= 600; k++ {
		r, known := p.foldLen(rs, al, k)
		if !known {
			break
		}
		decided = true
		if r*8 < k {
			ok, at0 = false, k
			break
		}
	}
	c.Check(ok, "row-size:"+name, p.Pos(rs.Pos()), map[bool]string{true: "at least one bit per attribute", false: "not in the recognised form (undecided)"}[decided], fmt.Sprintf("with %d attributes a row has fewer bits than attributes", at0))
}

// bitSemantics: what set does to the byte of a column and what get makes of it, for each of two bytes of columns.
func (p *Prog) bitSemantics(c *Ctx, name string, get, set *ssa.Function, fld *types.Var) {
	isCell := func(addr ssa.Value) bool {
		ia, ok := addr.(*ssa.IndexAddr)
		if !ok {
			return false
		}
		fv, _ := fieldLoad(ia.X)
		return fv == fld
	}
	bad, why := "", ""
	for col := int64(0); col < 16 && bad == ""; col++ {
		for v := int64(0); v < 2 && bad == ""; v++ {
			fo := newFolder(p)
			fo.env.ints[set.Params[1]] = col
			fo.cell, fo.cur = isCell, srcBits("old", 8)
			val := set.Params[len(set.Params)-1]
			stored := false
			for _, i := range instrs(set) {
				if ld, ok := i.(*ssa.UnOp); ok && ld.Op == token.MUL {
					if ia, ok := ld.X.(*ssa.IndexAddr); ok && ia.X == ssa.Value(val) {
						fo.bits[ld] = constBits(v, 8)
					}
				}
			}
			fo.run(set, func(i ssa.Instruction) {
				if s, ok := i.(*ssa.Store); ok && isCell(s.Addr) {
					stored = true
				}
			})
			if !stored || !fo.cur.known {
				why = "set not in the recognised form (undecided)"
				continue
			}
			for n, b := range fo.cur.b {
				if int64(n) == col%8 {
					if b.src != "" || b.one != (v == 1) {
						bad = fmt.Sprintf("writing %d to column %d does not leave its bit %d", v, col, v)
					}
				} else if b.src != "old" || b.n != n {
					bad = fmt.Sprintf("writing column %d also changes bit %d of the byte, another column's cell", col, n)
				}
			}
		}
	}
	c.Check(bad == "", "bit-write:"+name, p.Pos(set.Pos()), "exactly the column's own bit changes, to the value written"+why, bad)
}

// callSym: the value of a single-result function body.
func (e *SymEnv) callSym(f *ssa.Function) Sym {
	rs := returns(f)
	if len(rs) == 1 && len(rs[0].Results) == 1 && len(f.Blocks) == 1 {
		return e.Eval(rs[0].Results[0])
	}
	return symAtom(f.Name() + "()")
}

// foldLen: the integer result of f when the attribute list has k elements.
func (p *Prog) foldLen(f *ssa.Function, al *types.Var, k int64) (int64, bool) {
	rs := returns(f)
	if len(rs) != 1 || len(rs[0].Results) != 1 || len(f.Blocks) != 1 {
		return 0, false
	}
	e := &bitEnv{p: p, ints: map[ssa.Value]int64{}}
	for _, ci := range calls(f) {
		if cl, ok := ci.(*ssa.Call); ok {
			if b, ok := cl.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if fv, _ := fieldLoad(cl.Call.Args[0]); fv == al {
					e.ints[cl] = k
				}
			}
		}
	}
	return e.constOf(rs[0].Results[0])
}

// positiveTest: cond compares an unsigned or byte expression with zero: true when it holds for non-zero values.
func (p *Prog) positiveTest(cond ssa.Value) (nonzero bool, ok bool) {
	neg, v := stripNot(cond)
	bo, isB := v.(*ssa.BinOp)
	if !isB {
		return false, false
	}
	k, isC := constInt(bo.Y)
	x, op := bo.X, bo.Op
	if !isC {
		k, isC = constInt(bo.X)
		x, op = bo.Y, flip(bo.Op)
	}
	if !isC || bitWidth(x.Type()) == 0 {
		return false, false
	}
	switch {
	case op == token.GTR && k == 0, op == token.NEQ && k == 0, op == token.GEQ && k == 1, op == token.EQL && k == 1:
		return !neg, true
	case op == token.EQL && k == 0, op == token.LSS && k == 1, op == token.LEQ && k == 0, op == token.NEQ && k == 1:
		return neg, true
	}
	return false, false
}

// byteSliceConst: a one-byte slice literal with a constant element.
func (p *Prog) byteSliceConst(v ssa.Value) (int64, bool) {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return 0, false
	}
	a, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return 0, false
	}
	for _, r := range *a.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, rr := range *ia.Referrers() {
			if s, ok := rr.(*ssa.Store); ok && s.Addr == ssa.Value(ia) {
				return constIntOK(s.Val)
			}
		}
	}
	return 0, true // zero value
}

func constIntOK(v ssa.Value) (int64, bool) {
	k, ok := constInt(v)
	return k, ok
}

// boundedWrite: what set copies cannot run past its cell: the destination is exactly one cell long, or the value's
// length is tested against the cell size.
func (p *Prog) boundedWrite(c *Ctx, name string, set *ssa.Function, sa []storeAcc, size Sym) {
	key := "bounded:" + name
	for _, a := range sa {
		if a.kind != "slice" {
			continue
		}
		if a.hasH {
			d := a.high.Sub(a.low)
			if !d.Eq(size) {
				c.Bad(key, p.InstrPos(a.i), "set writes "+d.String()+" bytes but a cell has "+size.String())
				continue
			}
			c.Ok(key, p.InstrPos(a.i), "bounded by the cell")
			continue
		}
		// length test on every path to the write
		f := a.i.Parent()
		val := set.Params[len(set.Params)-1]
		ok := false
		for _, g := range guardsOf(a.i.Block()) {
			if p.lenTest(g, a.env, size) {
				ok = true
			}
		}
		if !ok && f != set {
			// tested by the caller before the helper is entered
			for _, ci := range p.callers[f] {
				for _, g := range guardsOf(ci.Block()) {
					if p.lenTest(g, cellEnv(p, set, "ROW"), size) {
						ok = true
					}
				}
			}
		}
		_ = val
		c.Check(ok, key, p.InstrPos(a.i), "the value's length is checked first", "a value longer than the cell overwrites the following cells (its length is not tested against the cell size)")
	}
}

// lenTest: the guard implies len(value) <= size.
func (p *Prog) lenTest(g Guard, e *SymEnv, size Sym) bool {
	neg, v := stripNot(g.Cond)
	bo, ok := v.(*ssa.BinOp)
	if !ok {
		return false
	}
	pol := g.Pol != neg
	x, y, op := bo.X, bo.Y, bo.Op
	isLen := func(v ssa.Value) bool {
		cl, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := cl.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "len"
	}
	if !isLen(x) {
		x, y, op = y, x, flip(op)
	}
	if !isLen(x) || !e.Eval(y).Eq(size) {
		return false
	}
	if !pol {
		op = negate(op)
	}
	return op == token.EQL || op == token.LEQ || op == token.LSS
}

// groupGrows: resize keeps the old bytes and adds the requested amount.
func (p *Prog) groupGrows(c *Ctx, t *types.Named) {
	f := p.Method(t, "resize")
	fld := storageField(t)
	if f == nil || fld == nil || len(f.Params) < 2 {
		return
	}
	key := "grow:" + typeName(t)
	env := &SymEnv{P: p, bind: map[ssa.Value]Sym{f.Params[1]: symAtom("ADD")}}
	stored := 0
	for g := range p.family(f) {
		for _, i := range instrs(g) {
			s, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || fieldVar(fa.X.Type(), fa.Field) != fld {
				continue
			}
			stored++
			for _, l := range p.Trace(s.Val, TraceOpt{NoParams: true, NoCalls: true}) {
				switch x := l.(type) {
				case *ssa.MakeSlice:
					want := symAtom("len(." + fld.Name() + ")").Add(symAtom("ADD"))
					got := env.Eval(x.Len)
					if g == f {
						c.Check(got.Eq(want), key, p.InstrPos(x), "the new storage is the old plus the requested bytes", "the new storage has "+got.String()+" bytes instead of "+want.String())
					}
					cp := false
					for _, ci := range calls(g) {
						cl, ok := ci.(*ssa.Call)
						if !ok {
							continue
						}
						b, ok := cl.Call.Value.(*ssa.Builtin)
						if !ok || b.Name() != "copy" {
							continue
						}
						src, _ := fieldLoad(cl.Call.Args[1])
						if src == fld && before(cl, s) {
							for _, dl := range p.Trace(cl.Call.Args[0], TraceOpt{NoParams: true, NoCalls: true}) {
								if dl == ssa.Value(x) {
									cp = true
								}
							}
							if sl, ok := cl.Call.Args[0].(*ssa.Slice); ok && sl.Low != nil {
								if k, isC := constInt(sl.Low); !isC || k != 0 {
									cp = false
								}
							}
						}
					}
					c.Check(cp, key+":keep", p.InstrPos(x), "the old storage is copied over", "the old storage is not copied to the start of the new one")
				}
			}
		}
	}
	c.Check(stored > 0, key+":store", p.Pos(f.Pos()), "new storage installed", "resize does not install new storage")
}

// specsMade: attribute specifications made by a dense data set.
func (p *Prog) specsMade(c *Ctx) {
	spec := p.Type("base", "AttributeSpec")
	dense := p.Type("base", "DenseInstances")
	if spec == nil || dense == nil {
		c.Bad("specs", "-", "base.AttributeSpec or base.DenseInstances not found")
		return
	}
	st := spec.Underlying().(*types.Struct)
	var pondIdx, posIdx, attrIdx = -1, -1, -1
	ints := []int{}
	for i := 0; i < st.NumFields(); i++ {
		if isIntType(st.Field(i).Type()) {
			ints = append(ints, i)
		} else {
			attrIdx = i
		}
	}
	// which integer field selects the group: the one used to index the group list in Get
	get := p.Method(dense, "Get")
	set := p.Method(dense, "Set")
	if get == nil || set == nil || len(ints) != 2 {
		c.Bad("specs", "-", "AttributeSpec layout or DenseInstances.Get/Set not recognised")
		return
	}
	type use struct{ pond, pos, row ssa.Value }
	cellCall := func(f *ssa.Function, m string) (pond, pos *types.Var, row ssa.Value, at ssa.Instruction) {
		for g := range p.family(f) {
			for _, ci := range calls(g) {
				if !ci.Common().IsInvoke() || ci.Common().Method.Name() != m {
					continue
				}
				at = ci.(ssa.Instruction)
				for _, l := range p.Trace(ci.Common().Value, TraceOpt{NoParams: true, NoCalls: true}) {
					if u, ok := l.(*ssa.UnOp); ok {
						if ia, ok := u.X.(*ssa.IndexAddr); ok {
							pond = specField(ia.Index, spec)
						}
					}
				}
				pos = specField(ci.Common().Args[0], spec)
				row = ci.Common().Args[1]
				if q := specField(row, spec); q != nil {
					c.Bad("address-row:"+f.Name(), p.InstrPos(at), "the attribute's "+q.Name()+" is used as the row number")
				}
			}
		}
		return
	}
	gp, gq, gr, gat := cellCall(get, "get")
	sp, sq, sr, sat := cellCall(set, "set")
	if gp != nil && gq != nil && sp != nil && sq != nil {
		c.Check(gp == sp && gq == sq && gp != gq, "address:DenseInstances", p.InstrPos(sat), "Get and Set resolve a specification the same way", "Get and Set use different fields of the attribute specification")
		rowOK := func(f *ssa.Function, r ssa.Value) bool {
			for _, l := range p.Trace(r, TraceOpt{NoParams: true}) {
				if pr, ok := l.(*ssa.Parameter); ok && isIntType(pr.Type()) {
					return true
				}
			}
			return r.Parent() != f
		}
		c.Check(rowOK(get, gr), "address-row:Get", p.InstrPos(gat), "the row asked for", "the row read is not the row asked for")
		c.Check(rowOK(set, sr), "address-row:Set", p.InstrPos(sat), "the row asked for", "the row written is not the row asked for")
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i) == gp {
				pondIdx = i
			}
			if st.Field(i) == gq {
				posIdx = i
			}
		}
	}
	if pondIdx < 0 || posIdx < 0 {
		c.Ok("specs", p.InstrPos(gat), "cell addressing not in the recognised form (undecided)")
		return
	}
	n := 0
	for _, f := range p.Funcs {
		if f.Signature.Recv() == nil || namedOf(f.Signature.Recv().Type()) != dense {
			continue
		}
		for _, i := range instrs(f) {
			a, ok := i.(*ssa.Alloc)
			if !ok || namedOf(a.Type()) != spec {
				continue
			}
			fs := func(k int) ssa.Value {
				for _, s := range p.localFieldStores(a, k) {
					return s.Val
				}
				return nil
			}
			at, pond, pos := fs(attrIdx), fs(pondIdx), fs(posIdx)
			if at == nil || isNilConst(at) || pond == nil || pos == nil {
				continue
			}
			n++
			key := "spec:" + p.Name(f)
			// (a) an attribute taken from a group's list: same group, same index
			if u, ok := at.(*ssa.UnOp); ok {
				if ia, ok := u.X.(*ssa.IndexAddr); ok {
					idxOK := ia.Index == pos || p.sym(ia.Index).Eq(p.sym(pos))
					grpOK := true
					for _, l := range p.Trace(ia.X, TraceOpt{NoParams: true, NoCalls: true}) {
						if cl, ok := l.(*ssa.Call); ok && cl.Call.IsInvoke() && cl.Call.Method.Name() == "Attributes" {
							for _, gl := range p.Trace(cl.Call.Value, TraceOpt{NoParams: true, NoCalls: true}) {
								if gu, ok := gl.(*ssa.UnOp); ok {
									if gia, ok := gu.X.(*ssa.IndexAddr); ok {
										grpOK = gia.Index == pond || p.sym(gia.Index).Eq(p.sym(pond))
									}
								}
							}
						}
					}
					c.Check(idxOK, key, p.InstrPos(i), "position of the attribute in its group", "the position is not the one the attribute was found at")
					c.Check(grpOK, key, p.InstrPos(i), "group the attribute was found in", "the group number is not that of the group the attribute was found in")
					continue
				}
			}
			// (b) an attribute just added: last position of the group it was added to
			for _, ci := range calls(f) {
				if !ci.Common().IsInvoke() || ci.Common().Method.Name() != "AddAttribute" || len(ci.Common().Args) != 1 || !p.sameContainer(ci.Common().Args[0], at) {
					continue
				}
				got := p.sym(pos)
				ln := symAtom("len(Attributes())")
				shift := int64(-1)
				for v := range p.backSlice(pos) {
					if cl, ok := v.(*ssa.Call); ok && cl.Call.IsInvoke() && cl.Call.Method.Name() == "Attributes" {
						if before(cl, ci.(ssa.Instruction)) && cl.Block() == ci.Block() {
							shift = 0
						}
						c.Check(p.sameContainer(cl.Call.Value, ci.Common().Value), key, p.InstrPos(i), "counted in the group it was added to", "the position is counted in another group than the one the attribute was added to")
					}
				}
				if strings.Contains(got.String(), "len(Attributes())") {
					c.Check(got.Eq(ln.Add(symInt(shift))), key, p.InstrPos(i), "last position of its group", "the position returned is "+got.String()+", not the position the attribute was added at")
				}
				for k := 0; k < dense.Underlying().(*types.Struct).NumFields(); k++ {
					whole := symAtom("len(." + dense.Underlying().(*types.Struct).Field(k).Name() + ")")
					if d, isC := got.Sub(whole).IsConst(); isC {
						c.Bad(key, p.InstrPos(i), "the position returned is counted over the whole data set ("+got.String()+"), not in the attribute's group; off by "+d.String())
					}
				}
				for _, gl := range p.Trace(ci.Common().Value, TraceOpt{NoParams: true, NoCalls: true}) {
					if gu, ok := gl.(*ssa.UnOp); ok {
						if gia, ok := gu.X.(*ssa.IndexAddr); ok {
							c.Check(gia.Index == pond || p.sym(gia.Index).Eq(p.sym(pond)), key, p.InstrPos(i), "group it was added to", "the group number returned is not that of the group the attribute was added to")
						}
					}
				}
			}
		}
	}
	c.Floor("attribute specifications made", n, 3)
	// a new group's number is its place in the group list
	for _, f := range p.Funcs {
		if f.Signature.Recv() == nil || namedOf(f.Signature.Recv().Type()) != dense {
			continue
		}
		for _, i := range instrs(f) {
			s, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || namedOf(fa.X.Type()) != dense {
				continue
			}
			fv := fieldVar(fa.X.Type(), fa.Field)
			sl, ok := fv.Type().Underlying().(*types.Slice)
			if !ok {
				continue
			}
			if nn := namedOf(sl.Elem()); nn == nil || nn.Obj().Name() != "AttributeGroup" {
				continue
			}
			ap, ok := s.Val.(*ssa.Call)
			if !ok {
				continue
			}
			if b, ok := ap.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" {
				continue
			}
			for _, j := range instrs(f) {
				mu, ok := j.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				num := mu.Value
				if !isIntType(num.Type()) {
					num = mu.Key
				}
				if !isIntType(num.Type()) || !strings.Contains(p.sym(num).String(), "len(."+fv.Name()+")") {
					continue
				}
				want := symAtom("len(." + fv.Name() + ")")
				if before(s, j) {
					// the length was taken after the append if its load follows it
					for v := range p.backSlice(num) {
						if l, ok := v.(*ssa.Call); ok {
							if b, ok := l.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && before(s, l) {
								want = want.Sub(symInt(1))
							}
						}
					}
				}
				c.Check(p.sym(num).Eq(want), "group-number:"+p.Name(f), p.InstrPos(j), "the number of a new group is its place in the list", "a new group is recorded under number "+p.sym(num).String()+" although it is stored at "+want.String())
			}
		}
	}
}

func specField(v ssa.Value, spec *types.Named) *types.Var {
	if f, ok := v.(*ssa.Field); ok && namedOf(f.X.Type()) == spec {
		return spec.Underlying().(*types.Struct).Field(f.Field)
	}
	if fv, fa := fieldLoad(v); fa != nil && namedOf(fa.X.Type()) == spec {
		return fv
	}
	return nil
}

// ---------- C11 ----------

// packBytes: provenance of each of the 8 bytes f writes for its numeric parameter.
func (p *Prog) packBytes(f *ssa.Function, depth int) (out [8]Bits, why string) {
	if len(f.Params) == 0 || depth == 0 {
		return out, "no parameters"
	}
	val := f.Params[0]
	env := &bitEnv{p: p, atom: func(v ssa.Value) (Bits, bool) {
		if v == ssa.Value(val) {
			return srcBits("v", bitWidth(val.Type())), true
		}
		return Bits{}, false
	}}
	n := 0
	put := func(k int64, b Bits) {
		if k >= 0 && k < 8 {
			out[k] = b.width(8)
			n++
		}
	}
	for _, i := range instrs(f) {
		switch t := i.(type) {
		case *ssa.Store:
			ia, ok := t.Addr.(*ssa.IndexAddr)
			if !ok || bitWidth(t.Val.Type()) != 8 {
				continue
			}
			if l := loopOf(ia.Index); l != nil {
				lo, ok1 := constInt(l.Init)
				hi, ok2 := p.loopHigh(l, env)
				if !ok1 || !ok2 || l.Step == 0 {
					return out, "loop bounds not constant"
				}
				if l.Range {
					lo = 0
				}
				for k := lo; l.Step > 0 && k < hi || l.Step < 0 && k >= hi; k += l.Step {
					env.ints = map[ssa.Value]int64{l.Cur: k, l.Phi: k}
					if l.Range {
						env.ints = map[ssa.Value]int64{l.Cur: k}
					}
					idx, ok := env.constOf(ia.Index)
					b := env.eval(t.Val)
					if !ok || !b.known {
						return out, "value not understood"
					}
					put(idx, b)
				}
				env.ints = nil
				continue
			}
			k, ok := env.constOf(ia.Index)
			b := env.eval(t.Val)
			if !ok {
				// an index computed from a loop variable
				var l *CountLoop
				for v := range p.backSlice(ia.Index) {
					if l == nil {
						l = loopOf(v)
					}
				}
				if l == nil {
					return out, "index not understood"
				}
				lo, ok1 := constInt(l.Init)
				hi, ok2 := p.loopHigh(l, env)
				if !ok1 || !ok2 || l.Step == 0 {
					return out, "loop bounds not constant"
				}
				for q := lo; l.Step > 0 && q < hi || l.Step < 0 && q >= hi; q += l.Step {
					env.ints = map[ssa.Value]int64{l.Cur: q}
					idx, ok := env.constOf(ia.Index)
					b := env.eval(t.Val)
					if !ok || !b.known {
						return out, "value not understood"
					}
					put(idx, b)
				}
				env.ints = nil
				continue
			}
			if !b.known {
				return out, "value not understood"
			}
			put(k, b)
		case *ssa.Call:
			o := calleeObj(t)
			if o == nil {
				continue
			}
			if o.Pkg() != nil && o.Pkg().Path() == "encoding/binary" && strings.HasSuffix(o.Name(), "Uint64") {
				for _, a := range t.Call.Args {
					if bitWidth(a.Type()) != 64 {
						continue
					}
					b := env.eval(a)
					if !b.known {
						return out, "value not understood"
					}
					for k := int64(0); k < 8; k++ {
						j := k
						if strings.Contains(strings.ToLower(typeNameOf(recvType(o))), "big") {
							j = 7 - k
						}
						put(k, Bits{b.b[8*j : 8*j+8], true})
					}
				}
				continue
			}
			g := t.Common().StaticCallee()
			if g == nil || !p.IsLibFunc(g) || len(t.Call.Args) == 0 {
				continue
			}
			in, w := p.packBytes(g, depth-1)
			if w != "" {
				return out, w
			}
			arg := env.eval(t.Call.Args[0])
			if !arg.known {
				return out, "value not understood"
			}
			for k := range in {
				put(int64(k), substBits(in[k], func(n int) bit { return at(arg, n) }))
			}
		}
	}
	if n == 0 {
		return out, "no bytes written"
	}
	for k := range out {
		if !out[k].known {
			out[k] = Bits{make([]bit, 8), true}
		}
	}
	return out, ""
}

func recvType(o *types.Func) types.Type {
	if s, ok := o.Type().(*types.Signature); ok && s.Recv() != nil {
		return s.Recv().Type()
	}
	return nil
}

func typeNameOf(t types.Type) string {
	if t == nil {
		return ""
	}
	return t.String()
}

func at(b Bits, n int) bit {
	if n < len(b.b) {
		return b.b[n]
	}
	return bit{}
}

func substBits(b Bits, f func(n int) bit) Bits {
	out := make([]bit, len(b.b))
	for i, x := range b.b {
		if x.src == "" {
			out[i] = x
		} else {
			out[i] = f(x.n)
		}
	}
	return Bits{out, true}
}

func loopOf(v ssa.Value) *CountLoop {
	l := loopCur(v)
	return l
}

// loopHigh: exclusive upper (or inclusive lower) constant bound of a counting loop; ranges over the 8-byte target count 8.
func (p *Prog) loopHigh(l *CountLoop, e *bitEnv) (int64, bool) {
	if l.Bound == nil {
		return 0, false
	}
	if l.Range {
		if k, ok := constInt(l.Bound); ok {
			return k, true
		}
		return 8, true
	}
	k, ok := e.constOf(l.Bound)
	if !ok {
		return 0, false
	}
	switch l.Op {
	case token.LSS, token.GEQ:
		return k, true
	case token.LEQ:
		return k + 1, true
	case token.GTR:
		return k + 1, true
	}
	return 0, false
}

// unpackBits: provenance of the 64 bits f returns in terms of the bytes "b0".."b7" of its parameter.
func (p *Prog) unpackBits(f *ssa.Function, depth int) (Bits, string) {
	rs := returns(f)
	if len(rs) != 1 || len(rs[0].Results) != 1 || depth == 0 || len(f.Params) != 1 {
		return Bits{}, "not in the recognised form"
	}
	prm := f.Params[0]
	le := func() Bits {
		out := make([]bit, 64)
		for i := range out {
			out[i] = bit{src: fmt.Sprintf("b%d", i/8), n: i % 8}
		}
		return Bits{out, true}
	}
	var env *bitEnv
	env = &bitEnv{p: p, atom: func(v ssa.Value) (Bits, bool) {
		switch t := v.(type) {
		case *ssa.UnOp:
			if t.Op != token.MUL {
				return Bits{}, false
			}
			if ia, ok := t.X.(*ssa.IndexAddr); ok && ia.X == ssa.Value(prm) {
				if k, ok := env.constOf(ia.Index); ok && k < 8 {
					return srcBits(fmt.Sprintf("b%d", k), 8), true
				}
			}
			// *(*T)(unsafe.Pointer(&val[0])) on a little-endian machine
			x := t.X
			for k := 0; k < 6; k++ {
				if cv, ok := x.(*ssa.Convert); ok {
					x = cv.X
					continue
				}
				if ia, ok := x.(*ssa.IndexAddr); ok && ia.X == ssa.Value(prm) && x != t.X {
					if k, ok := constInt(ia.Index); ok && k == 0 && bitWidth(t.Type()) > 0 {
						return le().width(bitWidth(t.Type())), true
					}
				}
				break
			}
		case *ssa.Call:
			o := calleeObj(t)
			if o == nil {
				return Bits{}, false
			}
			if o.Pkg() != nil && o.Pkg().Path() == "encoding/binary" && o.Name() == "Uint64" {
				b := le()
				if strings.Contains(strings.ToLower(typeNameOf(recvType(o))), "big") {
					out := make([]bit, 64)
					for i := range out {
						out[i] = bit{src: fmt.Sprintf("b%d", 7-i/8), n: i % 8}
					}
					b = Bits{out, true}
				}
				return b, true
			}
			if g := t.Common().StaticCallee(); g != nil && p.IsLibFunc(g) && len(t.Call.Args) == 1 && t.Call.Args[0] == ssa.Value(prm) {
				b, w := p.unpackBits(g, depth-1)
				return b, w == ""
			}
		}
		return Bits{}, false
	}}
	b := env.eval(rs[0].Results[0])
	if !b.known {
		return b, "not in the recognised form"
	}
	return b, ""
}

func runC11(c *Ctx) {
	p := c.P
	pairs := [][2]string{{"PackU64ToBytes", "UnpackBytesToU64"}, {"PackU64ToBytesInline", "UnpackBytesToU64"}, {"PackFloatToBytes", "UnpackBytesToFloat"}, {"PackFloatToBytesInline", "UnpackBytesToFloat"}}
	find := func(name string) *ssa.Function {
		for _, f := range p.Funcs {
			if f.Name() == name && f.Parent() == nil && f.Signature.Recv() == nil && f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "/base") {
				return f
			}
		}
		return nil
	}
	n := 0
	for _, pr := range pairs {
		pk, un := find(pr[0]), find(pr[1])
		if pk == nil || un == nil {
			c.Bad("codec:"+pr[0], "-", "codec pair not found")
			continue
		}
		n++
		key := "codec:" + pr[0]
		bs, w1 := p.packBytes(pk, 4)
		ub, w2 := p.unpackBits(un, 4)
		if w1 != "" || w2 != "" {
			c.Ok(key, p.Pos(pk.Pos()), "undecided: "+w1+" "+w2)
			continue
		}
		bad := ""
		for i := 0; i < 64 && bad == ""; i++ {
			x := at(ub, i)
			if x.src == "" {
				bad = fmt.Sprintf("bit %d of the decoded number is constant", i)
				break
			}
			var k int
			fmt.Sscanf(x.src, "b%d", &k)
			y := at(bs[k], x.n)
			if y.src != "v" || y.n != i {
				what := "constant"
				if y.src == "v" {
					what = fmt.Sprintf("bit %d of the value", y.n)
				}
				bad = fmt.Sprintf("bit %d of the decoded number is %s (through byte %d)", i, what, k)
			}
		}
		c.Check(bad == "", key, p.Pos(pk.Pos()), "decoding gives back all 64 bits", bad)
	}
	c.Floor("codec pairs", n, 4)
	p.attrCodecs(c)
	p.categoricalIndex(c)
}

// attrCodecs: each attribute type packs and unpacks with the same codec family in all its conversion methods.
func (p *Prog) attrCodecs(c *Ctx) {
	it := p.Type("base", "Attribute")
	if it == nil {
		c.Bad("attributes", "-", "base.Attribute not found")
		return
	}
	n := 0
	for _, t := range p.implementers(it) {
		n++
		fam := map[string]string{}
		var kinds []string
		for _, m := range []string{"GetSysValFromString", "GetStringFromSysVal", "GetSysVal", "GetUsrVal", "CheckSysValFromString", "GetFloatFromSysVal"} {
			f := p.Method(t, m)
			if f == nil {
				continue
			}
			k := p.codecKind(f)
			if k == "" {
				continue
			}
			fam[m] = k
			kinds = append(kinds, k)
		}
		key := "attr-codec:" + typeName(t)
		bad := ""
		for _, m := range sortedKeys(fam) {
			if fam[m] != kinds[0] {
				bad = fmt.Sprintf("%s uses the %s representation but another conversion of the type uses the %s representation", m, fam[m], kinds[0])
			}
		}
		if len(kinds) == 0 {
			c.Ok(key, "-", "no multi-byte representation")
			continue
		}
		c.Check(bad == "", key, p.Pos(p.Method(t, "GetStringFromSysVal").Pos()), "one representation ("+kinds[0]+") in all conversions", bad)
	}
	c.Floor("attribute types", n, 3)
	// binary attributes: a positive number is stored as non-zero and read back as "1"
	t := p.Type("base", "BinaryAttribute")
	if t == nil {
		return
	}
	if f := p.Method(t, "GetStringFromSysVal"); f != nil {
		for v := int64(0); v < 2; v++ {
			fo := newFolder(p)
			for _, i := range instrs(f) {
				if ld, ok := i.(*ssa.UnOp); ok && ld.Op == token.MUL {
					if ia, ok := ld.X.(*ssa.IndexAddr); ok && ia.X == ssa.Value(f.Params[len(f.Params)-1]) {
						fo.bits[ld] = constBits(v, 8)
					}
				}
			}
			r := fo.run(f, nil)
			if r == nil {
				c.Ok(fmt.Sprintf("binary-text-%d", v), p.Pos(f.Pos()), "not in the recognised form (undecided)")
				continue
			}
			k, ok := fo.num(r.Results[0])
			if !ok || k.Kind() != constant.String {
				c.Ok(fmt.Sprintf("binary-text-%d", v), p.Pos(f.Pos()), "not in the recognised form (undecided)")
				continue
			}
			c.Check(constant.StringVal(k) == fmt.Sprint(v), fmt.Sprintf("binary-text-%d", v), p.InstrPos(r), "in step with the stored value", fmt.Sprintf("a cell holding %d is shown as %s", v, k))
		}
	}
	if f := p.Method(t, "GetSysValFromString"); f != nil {
		for _, x := range []float64{0, 0.25, 1, 2, 7} {
			fo := newFolder(p)
			for _, ci := range calls(f) {
				cl, ok := ci.(*ssa.Call)
				if !ok || !isCallTo(cl, "strconv", "", "ParseFloat") {
					continue
				}
				for _, r := range *cl.Referrers() {
					if ex, ok := r.(*ssa.Extract); ok {
						if ex.Index == 0 {
							fo.known[ex] = constant.MakeFloat64(x)
						} else {
							fo.known[ex] = constant.MakeString("nil")
						}
					}
				}
			}
			byteAt := func(a ssa.Value) bool {
				ia, ok := a.(*ssa.IndexAddr)
				return ok && bitWidth(a.Type().Underlying().(*types.Pointer).Elem()) == 8 && ia != nil
			}
			fo.cell, fo.cur = byteAt, constBits(0, 8)
			key := "binary-value"
			r := fo.run(f, nil)
			if r == nil || !fo.cur.known {
				c.Ok(key, p.Pos(f.Pos()), "not in the recognised form (undecided)")
				continue
			}
			one, known := false, true
			for _, b := range fo.cur.b {
				known = known && b.src == ""
				one = one || b.one
			}
			c.Check(!known || one == (x > 0), key, p.InstrPos(r), "positive text is stored as non-zero, zero as zero", fmt.Sprintf("the text %g is stored as %v", x, one))
		}
	}
}

func (p *Prog) codecKind(f *ssa.Function) string {
	k := ""
	for g := range p.family(f) {
		for _, ci := range calls(g) {
			o := calleeObj(ci)
			if o == nil || o.Pkg() == nil || !strings.HasSuffix(o.Pkg().Path(), "/base") {
				continue
			}
			if strings.HasPrefix(o.Name(), "PackFloat") || o.Name() == "UnpackBytesToFloat" {
				k = "floating-point"
			}
			if strings.HasPrefix(o.Name(), "PackU64") || o.Name() == "UnpackBytesToU64" {
				k = "integer"
			}
			// a conversion delegating to another conversion of the type
			if k == "" && isExported(f) {
				if s := ci.Common().StaticCallee(); s != nil && s != f && s.Signature.Recv() != nil && f.Signature.Recv() != nil && types.Identical(s.Signature.Recv().Type(), f.Signature.Recv().Type()) {
					k = p.codecKind(s)
				}
			}
		}
	}
	return k
}

// categoricalIndex: encoding packs the index at which the text was found (or appended); decoding indexes with the
// unpacked number.
func (p *Prog) categoricalIndex(c *Ctx) {
	t := p.Type("base", "CategoricalAttribute")
	if t == nil {
		c.Bad("categorical", "-", "base.CategoricalAttribute not found")
		return
	}
	var list *types.Var
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := st.Field(i).Type().Underlying().(*types.Slice); ok {
			list = st.Field(i)
		}
	}
	n := 0
	for _, m := range []string{"GetSysVal", "GetSysValFromString"} {
		f := p.Method(t, m)
		if f == nil {
			continue
		}
		raw := f.Params[len(f.Params)-1]
		for g := range p.family(f) {
			for _, ci := range calls(g) {
				cl, ok := ci.(*ssa.Call)
				if !ok || !isCallTo(cl, "base", "", "PackU64ToBytes") {
					continue
				}
				n++
				key := "categorical-encode:" + m
				vals := []ssa.Value{}
				seen := map[ssa.Value]bool{}
				var walk func(v ssa.Value)
				walk = func(v ssa.Value) {
					if seen[v] {
						return
					}
					seen[v] = true
					switch x := v.(type) {
					case *ssa.Convert:
						if w := bitWidth(x.Type()); w < 32 {
							c.Bad("categorical-encode:"+m, p.InstrPos(cl), fmt.Sprintf("the index is cut down to %d bits before it is stored", w))
						}
						walk(x.X)
					case *ssa.Phi:
						if loopCur(x) != nil && loopCur(x).Phi == x {
							vals = append(vals, x)
							return
						}
						for _, e := range x.Edges {
							walk(e)
						}
					default:
						vals = append(vals, v)
					}
				}
				walk(cl.Call.Args[0])
				for _, v := range vals {
					if k, ok := constInt(v); ok && k < 0 {
						continue // "not found" marker, replaced before packing
					}
					if l := loopCur(v); l != nil {
						// index of the element compared with the text
						matched := false
						for b := range l.Body {
							for _, i := range b.Instrs {
								bo, ok := i.(*ssa.BinOp)
								if !ok || (bo.Op != token.EQL && bo.Op != token.NEQ) {
									continue
								}
								for _, s := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
									u, ok := s[0].(*ssa.UnOp)
									if !ok {
										continue
									}
									ia, ok := u.X.(*ssa.IndexAddr)
									if ok && (ia.Index == v || ia.Index == l.Cur) && p.reachesParam(s[1], raw) {
										matched = true
									}
								}
							}
						}
						c.Check(matched, key, p.InstrPos(cl), "index of the matching value", "the number stored is not the index at which the text was found")
						continue
					}
					s := (&SymEnv{P: p}).Eval(v)
					ln := symAtom("len(." + list.Name() + ")")
					if d, ok := s.Sub(ln).IsConst(); ok && d.IsInt() {
						// after or before the append
						want := int64(0)
						var lenCall ssa.Instruction
						for x := range p.backSlice(v) {
							if lc, ok := x.(*ssa.Call); ok {
								if b, ok := lc.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
									lenCall = lc
								}
							}
						}
						for _, st := range p.fieldStores[list] {
							if st.Parent() == g && lenCall != nil && before(st, lenCall) {
								want = -1
							}
						}
						c.Check(d.Num().Int64() == want, key, p.InstrPos(cl), "index of the value just added", "the number stored for a new value is "+s.String()+", not the index it was added at")
						continue
					}
					for x := range p.backSlice(v) {
						if l := loopCur(x); l != nil && l.Cur == x {
							if d, ok := s.Sub((&SymEnv{P: p}).Eval(x)).IsConst(); ok && d.Sign() != 0 {
								c.Bad(key, p.InstrPos(cl), "the number stored is off by "+d.String()+" from the index at which the text was found")
							}
						}
					}
					if u, ok := v.(*ssa.Call); ok && p.IsLibFunc(u.Common().StaticCallee()) {
						continue // a lookup helper: looked at through the family
					}
				}
			}
		}
	}
	for _, m := range []string{"GetStringFromSysVal", "GetUsrVal"} {
		f := p.Method(t, m)
		if f == nil {
			continue
		}
		for g := range p.family(f) {
			for _, i := range instrs(g) {
				ia, ok := i.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				if fv, _ := fieldLoad(ia.X); fv != list {
					continue
				}
				n++
				isNum := false
				e := &SymEnv{P: p, Atom: func(v ssa.Value) (Sym, bool) {
					if cl, ok := v.(*ssa.Call); ok && isCallTo(cl, "base", "", "UnpackBytesToU64") {
						isNum = true
						return symAtom("NUM"), true
					}
					return Sym{}, false
				}}
				s := e.Eval(ia.Index)
				c.Check(!isNum || s.Eq(symAtom("NUM")), "categorical-decode:"+m, p.InstrPos(i), "the value at the decoded index", "the value shown is the one at "+s.String())
			}
		}
	}
	c.Floor("categorical conversions", n, 4)
}

func (p *Prog) reachesParam(v ssa.Value, prm ssa.Value) bool {
	for _, l := range p.Trace(v, TraceOpt{}) {
		if l == prm {
			return true
		}
	}
	for _, l := range p.Trace(v, TraceOpt{NoParams: true, NoCalls: true}) {
		if l == prm {
			return true
		}
		if q, ok := l.(*ssa.Parameter); ok && q.Parent() != prm.Parent() {
			return true
		}
	}
	return false
}

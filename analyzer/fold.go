package main

import (
	"go/constant"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// folder propagates constants (and the provenance of bits) along the one path of a function that the constants select.
type folder struct {
	p     *Prog
	env   *bitEnv
	known map[ssa.Value]constant.Value // constants given from outside
	bits  map[ssa.Value]Bits
	prev  *ssa.BasicBlock
	cell  func(addr ssa.Value) bool // an address of the one byte tracked
	cur   Bits                      // its content
	steps int
	why   string
}

func newFolder(p *Prog) *folder {
	fo := &folder{p: p, known: map[ssa.Value]constant.Value{}, bits: map[ssa.Value]Bits{}}
	fo.env = &bitEnv{p: p, ints: map[ssa.Value]int64{}}
	fo.env.atom = func(v ssa.Value) (Bits, bool) {
		b, ok := fo.bits[v]
		return b, ok
	}
	return fo
}

func constBits(k int64, w int) Bits {
	out := make([]bit, w)
	for i := range out {
		out[i].one = uint64(k)>>uint(i)&1 == 1
	}
	return Bits{out, true}
}

// num: the constant an integer or float value has.
func (fo *folder) num(v ssa.Value) (constant.Value, bool) {
	if k, ok := fo.known[v]; ok {
		return k, true
	}
	if c, ok := v.(*ssa.Const); ok && c.Value != nil {
		return c.Value, true
	}
	b := fo.env.eval(v)
	if !b.known {
		return nil, false
	}
	var k uint64
	for i, x := range b.b {
		if x.src != "" {
			return nil, false
		}
		if x.one {
			k |= 1 << uint(i)
		}
	}
	if isIntType(v.Type()) {
		return constant.MakeInt64(int64(k)), true
	}
	return constant.MakeUint64(k), true
}

func (fo *folder) cond(v ssa.Value) (bool, bool) {
	if k, ok := fo.known[v]; ok && k.Kind() == constant.Bool {
		return constant.BoolVal(k), true
	}
	switch t := v.(type) {
	case *ssa.Const:
		return constBool(t)
	case *ssa.UnOp:
		if t.Op == token.NOT {
			b, ok := fo.cond(t.X)
			return !b, ok
		}
	case *ssa.BinOp:
		if isNilConst(t.Y) || isNilConst(t.X) {
			x := t.X
			if isNilConst(x) {
				x = t.Y
			}
			if k, ok := fo.known[x]; ok && k.Kind() == constant.String && constant.StringVal(k) == "nil" {
				return t.Op == token.EQL, true
			}
			return false, false
		}
		x, ok1 := fo.num(t.X)
		y, ok2 := fo.num(t.Y)
		switch t.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if ok1 && ok2 && x.Kind() != constant.String && y.Kind() != constant.String && x.Kind() != constant.Bool {
				return constant.Compare(constant.ToFloat(x), t.Op, constant.ToFloat(y)), true
			}
		}
	}
	return false, false
}

// run follows f from its entry; visit sees every instruction. It ends at the return reached, or nil with why set.
func (fo *folder) run(f *ssa.Function, visit func(i ssa.Instruction)) *ssa.Return {
	if len(f.Blocks) == 0 {
		fo.why = "no body"
		return nil
	}
	b := f.Blocks[0]
	fo.prev = nil
	for {
		// phis take their values together
		phis := map[ssa.Value]Bits{}
		pk := map[ssa.Value]constant.Value{}
		for _, i := range b.Instrs {
			ph, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			for k, pr := range b.Preds {
				if pr == fo.prev {
					phis[ph] = fo.env.eval(ph.Edges[k])
					if c, ok := fo.num(ph.Edges[k]); ok {
						pk[ph] = c
					} else if cb, ok := fo.cond(ph.Edges[k]); ok {
						pk[ph] = constant.MakeBool(cb)
					}
				}
			}
		}
		for v, x := range phis {
			delete(fo.known, v)
			delete(fo.bits, v)
			delete(fo.env.ints, v)
			if x.known {
				fo.bits[v] = x
			}
			if c, ok := pk[v]; ok {
				fo.known[v] = c
				if c.Kind() == constant.Int {
					if k, ok := constant.Int64Val(c); ok {
						fo.env.ints[v] = k
					}
				}
			}
		}
		for _, i := range b.Instrs {
			if fo.steps++; fo.steps > 3000 {
				fo.why = "too long"
				return nil
			}
			if visit != nil {
				visit(i)
			}
			switch t := i.(type) {
			case *ssa.UnOp:
				if t.Op == token.MUL && fo.cell != nil && fo.cell(t.X) {
					fo.bits[t] = fo.cur
				}
			case *ssa.Store:
				if fo.cell != nil && fo.cell(t.Addr) {
					fo.cur = fo.env.eval(t.Val).width(8)
					if !fo.cur.known {
						fo.why = "the value stored is not understood"
						return nil
					}
				}
			case *ssa.BinOp:
				// values inside loops change from one round to the next
				if bitWidth(t.Type()) > 0 {
					delete(fo.bits, t)
					delete(fo.env.ints, t)
					if x := fo.env.eval(t); x.known {
						fo.bits[t] = x
					}
				}
			case *ssa.Return:
				return t
			case *ssa.Jump:
				fo.prev, b = b, b.Succs[0]
			case *ssa.If:
				c, ok := fo.cond(t.Cond)
				if !ok {
					fo.why = "branch not decided"
					return nil
				}
				fo.prev = b
				if c {
					b = b.Succs[0]
				} else {
					b = b.Succs[1]
				}
			case *ssa.Panic:
				fo.why = "panics"
				return nil
			}
		}
	}
}

package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Bits is the provenance of the bits of an integer value: each bit is a constant or bit n of one source atom.
type Bits struct {
	b     []bit // least significant first
	known bool
}

type bit struct {
	src string // "" for a constant
	n   int
	one bool
}

func bitWidth(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Uint8, types.Int8:
		return 8
	case types.Uint16, types.Int16:
		return 16
	case types.Uint32, types.Int32, types.Float32:
		return 32
	case types.Uint64, types.Int64, types.Uint, types.Int, types.Uintptr, types.Float64, types.UntypedInt:
		return 64
	}
	return 0
}

func (x Bits) width(w int) Bits {
	out := make([]bit, w)
	copy(out, x.b)
	return Bits{out, x.known}
}

// bitEnv evaluates bit provenance; atom names the sources, ints gives concrete values of loop indices.
type bitEnv struct {
	p    *Prog
	atom func(v ssa.Value) (Bits, bool)
	ints map[ssa.Value]int64
	d    int
}

func srcBits(name string, w int) Bits {
	out := make([]bit, w)
	for i := range out {
		out[i] = bit{src: name, n: i}
	}
	return Bits{out, true}
}

// constOf folds an integer expression to a constant given loop indices.
func (e *bitEnv) constOf(v ssa.Value) (int64, bool) {
	if k, ok := e.ints[v]; ok {
		return k, true
	}
	switch t := v.(type) {
	case *ssa.Const:
		if t.Value != nil && t.Value.Kind() == constant.Int {
			if k, ok := constant.Int64Val(t.Value); ok {
				return k, true
			}
			if k, ok := constant.Uint64Val(t.Value); ok {
				return int64(k), true
			}
		}
	case *ssa.Convert:
		return e.constOf(t.X)
	case *ssa.UnOp:
		if t.Op == token.XOR {
			x, ok := e.constOf(t.X)
			return ^x, ok
		}
	case *ssa.BinOp:
		x, ok1 := e.constOf(t.X)
		y, ok2 := e.constOf(t.Y)
		if !ok1 || !ok2 {
			return 0, false
		}
		return foldInt(t.Op, x, y)
	}
	return 0, false
}

func foldInt(op token.Token, x, y int64) (int64, bool) {
	switch op {
	case token.ADD:
		return x + y, true
	case token.SUB:
		return x - y, true
	case token.MUL:
		return x * y, true
	case token.QUO:
		if y != 0 {
			return x / y, true
		}
	case token.REM:
		if y != 0 {
			return x % y, true
		}
	case token.SHL:
		if y >= 0 && y < 64 {
			return x << uint(y), true
		}
	case token.SHR:
		if y >= 0 && y < 64 {
			return int64(uint64(x) >> uint(y)), true
		}
	case token.AND:
		return x & y, true
	case token.OR:
		return x | y, true
	case token.XOR:
		return x ^ y, true
	case token.AND_NOT:
		return x &^ y, true
	}
	return 0, false
}

func (e *bitEnv) eval(v ssa.Value) Bits {
	if e.d > 60 {
		return Bits{}
	}
	e.d++
	defer func() { e.d-- }()
	if e.atom != nil {
		if b, ok := e.atom(v); ok {
			return b
		}
	}
	w := bitWidth(v.Type())
	if w == 0 {
		return Bits{}
	}
	if k, ok := e.constOf(v); ok {
		out := make([]bit, w)
		for i := range out {
			out[i].one = uint64(k)>>uint(i)&1 == 1
		}
		return Bits{out, true}
	}
	switch t := v.(type) {
	case *ssa.Convert:
		x := e.eval(t.X)
		if !x.known {
			return Bits{}
		}
		return x.width(w)
	case *ssa.ChangeType:
		return e.eval(t.X)
	case *ssa.Call:
		if o := calleeObj(t); o != nil && o.Pkg() != nil && o.Pkg().Path() == "math" {
			switch o.Name() {
			case "Float64bits", "Float64frombits":
				return e.eval(t.Call.Args[0])
			}
		}
		// a one-block helper
		if g := t.Common().StaticCallee(); g != nil && e.p.IsLibFunc(g) && len(g.Blocks) == 1 && len(g.Params) == len(t.Call.Args) {
			if rs := returns(g); len(rs) == 1 && len(rs[0].Results) == 1 {
				in := &bitEnv{p: e.p, d: e.d, ints: map[ssa.Value]int64{}}
				args := map[ssa.Value]Bits{}
				for k, q := range g.Params {
					if bitWidth(q.Type()) > 0 {
						if n, ok := e.constOf(t.Call.Args[k]); ok {
							in.ints[q] = n
						} else {
							args[q] = e.eval(t.Call.Args[k])
						}
					}
				}
				in.atom = func(v ssa.Value) (Bits, bool) {
					b, ok := args[v]
					return b, ok && b.known
				}
				return in.eval(rs[0].Results[0])
			}
		}
	case *ssa.BinOp:
		switch t.Op {
		case token.SHL, token.SHR:
			k, ok := e.constOf(t.Y)
			x := e.eval(t.X)
			if !ok || !x.known {
				return Bits{}
			}
			out := make([]bit, w)
			for i := range out {
				j := int64(i) - k
				if t.Op == token.SHR {
					j = int64(i) + k
				}
				if j >= 0 && j < int64(len(x.b)) {
					out[i] = x.b[j]
				}
			}
			return Bits{out, true}
		case token.AND, token.OR, token.XOR, token.ADD, token.AND_NOT:
			x, y := e.eval(t.X), e.eval(t.Y)
			if !x.known || !y.known {
				return Bits{}
			}
			x, y = x.width(w), y.width(w)
			out := make([]bit, w)
			for i := range out {
				a, b := x.b[i], y.b[i]
				if a.src != "" && b.src == "" {
					a, b = b, a
					if t.Op == token.AND_NOT {
						// src &^ const
						if a.one {
							out[i] = bit{}
						} else {
							out[i] = b
						}
						continue
					}
				}
				// a is constant, or both are sources
				switch {
				case a.src == "" && t.Op == token.AND:
					if a.one {
						out[i] = b
					}
				case a.src == "" && !a.one && (t.Op == token.OR || t.Op == token.XOR || t.Op == token.ADD):
					out[i] = b
				case a.src == "" && a.one && t.Op == token.OR:
					out[i] = a
				case a == b && (t.Op == token.AND || t.Op == token.OR):
					out[i] = a
				case a.src == "" && a.one && t.Op == token.XOR:
					out[i] = bit{src: "~" + b.src, n: b.n, one: b.src == "" && !b.one}
					if b.src == "" {
						out[i].src = ""
					}
				default:
					return Bits{}
				}
			}
			return Bits{out, true}
		}
	case *ssa.UnOp:
		if t.Op == token.XOR {
			x := e.eval(t.X)
			if !x.known {
				return Bits{}
			}
			x = x.width(w)
			for i, b := range x.b {
				if b.src == "" {
					x.b[i].one = !b.one
				} else {
					x.b[i].src = "~" + b.src
				}
			}
			return x
		}
	}
	return Bits{}
}

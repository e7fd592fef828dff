package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// CountLoop is a loop controlled by an integer induction variable.
type CountLoop struct {
	Header     *ssa.BasicBlock
	Body       map[*ssa.BasicBlock]bool
	Phi        *ssa.Phi  // induction variable at the loop head
	Cur        ssa.Value // the value used as index in the body (phi, or phi+1 for range loops)
	Init       ssa.Value
	Step       int64 // 0: unknown or data dependent
	Op         token.Token
	Bound      ssa.Value
	If         *ssa.If
	Range      bool // a compiler-generated range loop
	ExitOnTrue bool
}

func countingLoops(f *ssa.Function) []*CountLoop {
	var out []*CountLoop
	for _, b := range f.Blocks {
		body := naturalLoop(b)
		if body == nil {
			continue
		}
		// the controlling If: in the header, or (rotated loops) in any block of the body leaving the loop
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		in0, in1 := body[b.Succs[0]], body[b.Succs[1]]
		if in0 == in1 {
			continue
		}
		for _, ins := range b.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			var cur ssa.Value = ph
			x, y, op := cmp.X, cmp.Y, cmp.Op
			match := func(v ssa.Value) bool {
				if v == ph {
					return true
				}
				if bo, ok := v.(*ssa.BinOp); ok && bo.Op == token.ADD && bo.X == ph && bo.Block() == b {
					if k, ok := constInt(bo.Y); ok && k == 1 {
						cur = bo
						return true
					}
				}
				return false
			}
			var bound ssa.Value
			if match(x) {
				bound = y
			} else if match(y) {
				bound = x
				op = flip(op)
			} else {
				continue
			}
			l := &CountLoop{Header: b, Body: body, Phi: ph, Cur: cur, Op: op, Bound: bound, If: iff, ExitOnTrue: in1}
			if l.ExitOnTrue {
				l.Op = negate(l.Op)
			}
			l.Range = ph.Comment == "rangeindex" || ph.Comment == "rangeint.iter"
			step := int64(0)
			same := true
			for i, e := range ph.Edges {
				if !body[b.Preds[i]] {
					l.Init = e
					continue
				}
				s := stepOf(e, ph)
				if step == 0 {
					step = s
				} else if s != step {
					same = false
				}
				if s == 0 {
					same = false
				}
			}
			if same {
				l.Step = step
			}
			out = append(out, l)
			break
		}
	}
	return out
}

func stepOf(e ssa.Value, ph *ssa.Phi) int64 {
	bo, ok := e.(*ssa.BinOp)
	if !ok {
		return 0
	}
	if bo.X == ph {
		if k, ok := constInt(bo.Y); ok {
			if bo.Op == token.ADD {
				return k
			}
			if bo.Op == token.SUB {
				return -k
			}
		}
	}
	return 0
}

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func negate(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return op
}

package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- which calls can fail ----------

type failCache struct {
	m    map[*ssa.Function]bool
	busy map[*ssa.Function]bool
}

var failMemo = map[*Prog]*failCache{}

// canFail: some return of f may carry a non-nil error.
func (p *Prog) canFail(f *ssa.Function) bool {
	fc := failMemo[p]
	if fc == nil {
		fc = &failCache{map[*ssa.Function]bool{}, map[*ssa.Function]bool{}}
		failMemo[p] = fc
	}
	if r, ok := fc.m[f]; ok {
		return r
	}
	if fc.busy[f] {
		return false
	}
	fc.busy[f] = true
	r := false
	if isErrorResult(f) {
		for _, ret := range returns(f) {
			if p.mayBeError(ret.Results[len(ret.Results)-1]) {
				r = true
			}
		}
	}
	delete(fc.busy, f)
	fc.m[f] = r
	return r
}

// mayBeError: value v may be a non-nil error.
func (p *Prog) mayBeError(v ssa.Value) bool {
	for _, l := range p.Trace(v, TraceOpt{NoCalls: true}) {
		if isNilConst(l) {
			continue
		}
		switch t := l.(type) {
		case *ssa.Call:
			if p.callCanFail(t) {
				return true
			}
			continue
		case *ssa.Extract:
			if cl, ok := t.Tuple.(*ssa.Call); ok {
				if p.callCanFail(cl) {
					return true
				}
				continue
			}
		}
		return true
	}
	return false
}

// callCanFail: the call's error result may be non-nil.
func (p *Prog) callCanFail(c ssa.CallInstruction) bool {
	o := calleeObj(c)
	if o != nil && o.Pkg() != nil {
		if neverFails(o) {
			return false
		}
		// a traversal whose callback never reports an error: only the grid itself could fail, and none of the
		// repository's storage grids does
		if o.Name() == "MapOverRows" {
			a := argsOf(c)
			if len(a) == 2 {
				fs := p.funcValues(a[1], map[ssa.Value]bool{})
				if len(fs) > 0 {
					any := false
					for _, g := range fs {
						if p.canFail(g) {
							any = true
						}
					}
					return any
				}
			}
		}
	}
	cs := p.Callees(c)
	if len(cs) == 0 {
		return true
	}
	for _, g := range cs {
		if !p.IsLibFunc(g) {
			return true
		}
		if p.canFail(g) {
			return true
		}
	}
	return false
}

// neverFails: library functions whose error result is documented to be always nil, or concerns terminal output only.
func neverFails(o *types.Func) bool {
	pk := o.Pkg().Path()
	sig := o.Type().(*types.Signature)
	if sig.Recv() != nil {
		n := namedOf(sig.Recv().Type())
		if n != nil {
			q := pk + "." + n.Obj().Name()
			switch q {
			case "bytes.Buffer":
				return strings.HasPrefix(o.Name(), "Write")
			case "strings.Builder":
				return true
			}
		}
		return false
	}
	return pk == "fmt" && (strings.HasPrefix(o.Name(), "Print"))
}

// isPrinter: a call that only prints its arguments.
func isPrinter(c ssa.CallInstruction) bool {
	o := calleeObj(c)
	if o == nil || o.Pkg() == nil {
		return false
	}
	pk, n := o.Pkg().Path(), o.Name()
	if pk == "fmt" && (strings.HasPrefix(n, "Print") || strings.HasPrefix(n, "Fprint")) {
		return true
	}
	if pk == "log" && strings.HasPrefix(n, "Print") {
		return true
	}
	return false
}

// errorFate: what becomes of the error result of call in f when it is non-nil. "" means it is reported (returned,
// wrapped, stored for the caller, sent, passed on, or turned into a panic).
func (p *Prog) errorFate(f *ssa.Function, call *ssa.Call) string {
	n := call.Common().Signature().Results().Len()
	e := resultExtract(call, n-1)
	if e == nil || e.Referrers() == nil || len(*e.Referrers()) == 0 {
		return "the error is discarded"
	}
	hasErr := isErrorResult(f)
	msg := ""
	base := assumeNil(e, false)
	tested := false
	dec := func(c ssa.Value, pp *pathPoint) (bool, bool) {
		if v, known := base(c, pp); known {
			tested = true
			pp.flags["tested"] = true
			return v, known
		}
		// comparison with a sentinel: assume it is another error
		if bo, ok := c.(*ssa.BinOp); ok && isErrorType(bo.X.Type()) {
			if (pp.Resolve(bo.X) == e && isEOF(bo.Y)) || (pp.Resolve(bo.Y) == e && isEOF(bo.X)) {
				return bo.Op.String() == "!=", true
			}
		}
		return false, false
	}
	ex := &Explorer{P: p, Decide: dec, Visit: func(i ssa.Instruction, pp *pathPoint) bool {
		switch t := i.(type) {
		case *ssa.Return:
			if !hasErr {
				if !pp.flags["tested"] {
					msg = "the error is never examined on a path to " + p.InstrPos(t)
				} else if f.Signature.Results().Len() == 0 {
					msg = "when it fails, the function returns without reporting it (" + p.InstrPos(t) + ")"
				}
				return true
			}
			v := pp.Resolve(t.Results[len(t.Results)-1])
			if isNil, known := pp.nils[v]; known && !isNil {
				return true
			}
			if v != e && p.mayBeNilError(v, t.Block(), 0) {
				msg = "when it fails, the function can still return a nil error (" + p.InstrPos(t) + ")"
			}
			return true
		case *ssa.Store:
			if p.unwrapErr(pp, t.Val) != e {
				return false
			}
			if a := p.cellOf(t.Addr); a != nil {
				if a.Parent() != f {
					return true // a variable of the enclosing function
				}
				if _, isA := t.Addr.(*ssa.Alloc); isA {
					return false
				}
			}
			if ia, ok := t.Addr.(*ssa.IndexAddr); ok {
				if al, ok := ia.X.(*ssa.Alloc); ok {
					for _, r := range *al.Referrers() {
						if sl, ok := r.(*ssa.Slice); ok {
							for _, rr := range *sl.Referrers() {
								if cl, ok := rr.(ssa.CallInstruction); ok && isPrinter(cl) {
									return false
								}
							}
						}
					}
				}
			}
			return true
		case *ssa.Send:
			return p.unwrapErr(pp, t.X) == e
		case *ssa.MapUpdate:
			return p.unwrapErr(pp, t.Value) == e
		case ssa.CallInstruction:
			if i == ssa.Instruction(call) {
				// retried: the error of this round was not reported
				if !pp.flags["tested"] {
					msg = "the error of one round is overwritten by the next"
				}
				return true
			}
			if isPrinter(t) {
				return false
			}
			for _, a := range t.Common().Args {
				if p.unwrapErr(pp, a) == e {
					return true
				}
			}
		}
		return false
	}}
	ex.Run(call)
	_ = tested
	return msg
}

// mayBeNilError: the error value v, returned from block b, may be nil: the nil constant, or the unexamined result of
// another operation that can succeed.
func (p *Prog) mayBeNilError(v ssa.Value, b *ssa.BasicBlock, d int) bool {
	if isNilConst(v) {
		return true
	}
	if d > 6 {
		return false
	}
	var call *ssa.Call
	idx := 0
	switch t := v.(type) {
	case *ssa.Call:
		call = t
	case *ssa.Extract:
		cl, ok := t.Tuple.(*ssa.Call)
		if !ok {
			return false
		}
		call, idx = cl, t.Index
	default:
		return false
	}
	if b != nil {
		for _, g := range guardsOf(b) {
			if x, eq, ok := nilTest(g.Cond); ok && x == v && eq != g.Pol {
				return false
			}
		}
	}
	o := calleeObj(call)
	if o != nil && o.Pkg() != nil {
		switch o.Pkg().Path() + "." + o.Name() {
		case "errors.New", "fmt.Errorf", "errors.Join":
			return false
		}
	}
	cs := p.Callees(call)
	if len(cs) == 0 {
		return true
	}
	for _, g := range cs {
		if !p.IsLibFunc(g) {
			return true
		}
		for _, r := range returns(g) {
			if idx < len(r.Results) && p.mayBeNilError(r.Results[idx], r.Block(), d+1) {
				return true
			}
		}
	}
	return false
}

func (p *Prog) unwrapErr(pp *pathPoint, v ssa.Value) ssa.Value {
	for k := 0; k < 8; k++ {
		v = pp.Resolve(v)
		switch t := v.(type) {
		case *ssa.MakeInterface:
			v = t.X
		case *ssa.ChangeInterface:
			v = t.X
		case *ssa.TypeAssert:
			v = t.X
		default:
			return v
		}
	}
	return v
}

// isEOF: v is io.EOF, which announces the regular end of the input.
func isEOF(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	return ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "io" && g.Name() == "EOF"
}

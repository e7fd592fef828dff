package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C16", Rule: "every call that opens a file or archive (os.Open/Create/OpenFile/TempFile and library functions returning a closable object) is followed along every path on which it succeeded: before each return the handle is closed (directly, by a registered defer, or by a helper that closes it on all its paths) or is handed to the caller inside the result.", Run: runC16})
	register(&Rule{ID: "C14", Rule: "every file or archive opened for writing and every gzip/tar/csv/buffered writer layer is finalised on each path that can report success, and the finaliser's error is reported; inner layers are finalised before outer ones; writing opens create and truncate; a model that writes into its caller's archive (SaveWithPrefix) never closes it.", Run: runC14})
}

// closable: *os.File or a library type with a Close method.
func (p *Prog) closable(t types.Type) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	if n.Obj().Pkg().Path() == "os" && n.Obj().Name() == "File" {
		return true
	}
	if sp := p.SSA.ImportedPackage(n.Obj().Pkg().Path()); sp != nil && p.isLib[sp] {
		return p.Method(n, "Close") != nil
	}
	return false
}

// openCalls: calls returning (closable, error).
func (p *Prog) openCalls(f *ssa.Function) []*ssa.Call {
	var out []*ssa.Call
	for _, ci := range calls(f) {
		call, ok := ci.(*ssa.Call)
		if !ok {
			continue
		}
		rs := call.Common().Signature().Results()
		if rs.Len() != 2 || !isErrorType(rs.At(1).Type()) || !p.closable(rs.At(0).Type()) {
			continue
		}
		if _, ok := rs.At(0).Type().Underlying().(*types.Pointer); !ok {
			continue
		}
		out = append(out, call)
	}
	return out
}

// isValue: v denotes handle h on this path (through phis, cells and interface conversions).
func (p *Prog) isHandle(pp *pathPoint, v, h ssa.Value) bool {
	return p.unwrapErr(pp, v) == h
}

// closureCloses: the closure closes captured variable holding h on all its paths.
func (p *Prog) closureCloses(g *ssa.Function, holds func(v ssa.Value) bool, name string) bool {
	ok, _ := mustPass(g, nil, func(i ssa.Instruction) bool {
		c, isC := i.(ssa.CallInstruction)
		return isC && methodNamed(c, name) && holds(recvOf(c))
	}, nil)
	return ok
}

// closesParam: library function g finalises its parameter idx on every path.
func (p *Prog) closesParam(g *ssa.Function, idx int, names map[string]bool, depth int) bool {
	if depth == 0 || !p.IsLibFunc(g) || idx >= len(g.Params) {
		return false
	}
	prm := g.Params[idx]
	is := func(v ssa.Value) bool {
		for _, l := range p.Trace(v, TraceOpt{NoParams: true, NoCalls: true}) {
			if l == ssa.Value(prm) {
				return true
			}
		}
		return false
	}
	ok, _ := mustPass(g, nil, func(i ssa.Instruction) bool {
		c, isC := i.(ssa.CallInstruction)
		if !isC {
			return false
		}
		if o := calleeObj(c); o != nil && names[o.Name()] && recvOf(c) != nil && is(recvOf(c)) {
			return true
		}
		return p.callCloses(c, is, names, depth-1)
	}, nil)
	return ok
}

// callCloses: the call (or deferred call) finalises a value satisfying is, through a closure or helper.
func (p *Prog) callCloses(c ssa.CallInstruction, is func(ssa.Value) bool, names map[string]bool, depth int) bool {
	if depth == 0 {
		return false
	}
	for _, g := range p.Callees(c) {
		if !p.IsLibFunc(g) {
			continue
		}
		for i := range g.Params {
			a := argFor(c, g, i)
			if a != nil && is(a) && p.closesParam(g, i, names, depth-1) {
				return true
			}
		}
		if len(g.FreeVars) > 0 {
			for nm := range names {
				if p.closureCloses(g, is, nm) {
					return true
				}
			}
		}
	}
	return false
}

var closeName = map[string]bool{"Close": true}

func (p *Prog) traceHolds(h ssa.Value) func(ssa.Value) bool {
	return func(v ssa.Value) bool {
		if v == nil {
			return false
		}
		for _, l := range p.Trace(v, TraceOpt{NoParams: true, NoCalls: true}) {
			if l == h {
				return true
			}
		}
		return false
	}
}

// leakPath: assuming the open succeeded, a return reached without closing or handing over the handle.
func (p *Prog) leakPath(f *ssa.Function, call *ssa.Call) string {
	h, e := resultExtract(call, 0), resultExtract(call, 1)
	if h == nil {
		return "the handle is discarded"
	}
	holds := p.traceHolds(h)
	msg := ""
	var dec func(ssa.Value, *pathPoint) (bool, bool)
	if e != nil {
		dec = assumeNil(e, true)
	}
	(&Explorer{P: p, Decide: dec, Visit: func(i ssa.Instruction, pp *pathPoint) bool {
		switch t := i.(type) {
		case ssa.CallInstruction:
			if i == ssa.Instruction(call) {
				msg = "the handle of one round is overwritten by the next"
				return true
			}
			if methodNamed(t, "Close") && (p.isHandle(pp, recvOf(t), h) || holds(recvOf(t))) {
				return true
			}
			if p.callCloses(t, holds, closeName, 4) {
				return true
			}
			if o := calleeObj(t); o != nil && o.Pkg() != nil && o.Pkg().Path() == "log" {
				for _, a := range t.Common().Args {
					if holds(a) {
						return true // the logger's destination for the life of the process
					}
				}
			}
		case *ssa.Store:
			// kept in an object that outlives the call (a field of a parameter or receiver)
			if holds(t.Val) {
				if fa, ok := t.Addr.(*ssa.FieldAddr); ok && p.cellOf(fa.X) == nil {
					return true
				}
				if _, ok := t.Addr.(*ssa.Global); ok {
					return true
				}
			}
		case *ssa.Return:
			for _, r := range t.Results {
				if p.carries(pp.Resolve(r), h, holds) {
					return true
				}
			}
			msg = "not closed on the path to the return at " + p.InstrPos(t)
			return true
		}
		return false
	}}).Run(call)
	return msg
}

// carries: result value v is the handle or a fresh object one of whose fields holds it.
func (p *Prog) carries(v, h ssa.Value, holds func(ssa.Value) bool) bool {
	if isErrorType(v.Type()) {
		return false
	}
	if holds(v) {
		return true
	}
	seen := map[*ssa.Alloc]bool{}
	var inAlloc func(al *ssa.Alloc) bool
	var inVal func(v ssa.Value) bool
	inVal = func(v ssa.Value) bool {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if a := p.cellOf(u.X); a != nil && inAlloc(a) {
				return true
			}
		}
		for _, l := range p.Trace(v, TraceOpt{NoParams: true, NoCalls: true}) {
			if al, ok := l.(*ssa.Alloc); ok && inAlloc(al) {
				return true
			}
		}
		return false
	}
	inAlloc = func(al *ssa.Alloc) bool {
		if seen[al] {
			return false
		}
		seen[al] = true
		for _, s := range p.cellStores(al) {
			if holds(s.Val) || inVal(s.Val) {
				return true
			}
		}
		for _, av := range p.aliasesOfCell(al) {
			for _, r := range *av.Referrers() {
				if fa, ok := r.(*ssa.FieldAddr); ok {
					for _, rr := range *fa.Referrers() {
						if s, ok := rr.(*ssa.Store); ok && s.Addr == fa && (holds(s.Val) || inVal(s.Val)) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	if inVal(v) {
		return true
	}
	if cl, ok := v.(*ssa.Call); ok { // constructor taking the handle
		for _, a := range cl.Call.Args {
			if holds(a) {
				return true
			}
		}
	}
	return false
}

func runC16(c *Ctx) {
	p := c.P
	n := 0
	for _, f := range p.Funcs {
		if f.Name() == "init" || (f.Parent() == nil && len(f.Name()) > 5 && f.Name()[:5] == "init#") {
			continue
		}
		for k, call := range p.openCalls(f) {
			n++
			o := calleeObj(call)
			nm := "?"
			if o != nil {
				nm = o.Name()
			}
			msg := p.leakPath(f, call)
			c.Check(msg == "", fmt.Sprintf("open:%s>%s#%d", p.Name(f), nm, k+1), p.InstrPos(call), "closed or handed over on every path", nm+": "+msg)
		}
	}
	c.Floor("open calls", n, 25)
	// objects that keep an opened file: their Close closes it, whatever else goes wrong
	nh := 0
	for _, t := range p.NamedTypes() {
		st, ok := t.Underlying().(*types.Struct)
		m := p.Method(t, "Close")
		if !ok || m == nil || !p.IsLibFunc(m) {
			continue
		}
		files := map[ssa.Value][]*types.Var{}
		var order []ssa.Value
		for i := 0; i < st.NumFields(); i++ {
			fv := st.Field(i)
			for _, s := range p.fieldStores[fv] {
				for _, l := range p.Trace(s.Val, TraceOpt{NoCalls: true}) {
					e, ok := l.(*ssa.Extract)
					if !ok || e.Index != 0 {
						continue
					}
					call, ok := e.Tuple.(*ssa.Call)
					if !ok {
						continue
					}
					if n := namedOf(deref(e.Type())); n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "os" || n.Obj().Name() != "File" {
						continue
					}
					if files[call] == nil {
						order = append(order, call)
					}
					files[call] = append(files[call], fv)
				}
			}
		}
		for k, call := range order {
			nh++
			ok, bad := mustPass(m, nil, func(i ssa.Instruction) bool {
				ci, isC := i.(ssa.CallInstruction)
				if !isC {
					return false
				}
				if _, isGo := i.(*ssa.Go); isGo {
					return false
				}
				for _, fv := range files[call] {
					if p.closesField(ci, fv, 3) {
						return true
					}
				}
				if d, isD := i.(*ssa.Defer); isD {
					for _, g := range p.Callees(d) {
						if !p.IsLibFunc(g) {
							continue
						}
						for _, gc := range calls(g) {
							for _, fv := range files[call] {
								if p.closesField(gc, fv, 3) {
									return true
								}
							}
						}
					}
				}
				return false
			}, nil)
			key := fmt.Sprintf("holder:%s#%d", typeName(t), k+1)
			at := p.Pos(m.Pos())
			if bad != nil {
				at = p.InstrPos(bad)
			}
			c.Check(ok, key, at, "closing the object closes the file it was given", "this object keeps the file opened at "+p.InstrPos(call.(ssa.Instruction))+", and its Close can return without closing that file")
		}
	}
	c.Floor("objects holding a file", nh, 1)
}

// ---------- writers ----------

type writerKind struct {
	names map[string]bool // finalisers
	label string
}

// writerSource: the call creates something that must be finalised for its output to be complete.
func (p *Prog) writerSource(call *ssa.Call) (*writerKind, ssa.Value, ssa.Value) {
	o := calleeObj(call)
	if o == nil || o.Pkg() == nil {
		return nil, nil, nil
	}
	pk, nm := o.Pkg().Path(), o.Name()
	switch {
	case pk == "compress/gzip" && nm == "NewWriter":
		return &writerKind{closeName, "gzip writer"}, call, nil
	case pk == "compress/gzip" && nm == "NewWriterLevel":
		return &writerKind{closeName, "gzip writer"}, resultExtract(call, 0), resultExtract(call, 1)
	case pk == "archive/tar" && nm == "NewWriter":
		return &writerKind{closeName, "tar writer"}, call, nil
	case pk == "encoding/csv" && nm == "NewWriter":
		return &writerKind{map[string]bool{"Error": true}, "CSV writer"}, call, nil
	case pk == "bufio" && (nm == "NewWriter" || nm == "NewWriterSize"):
		return &writerKind{map[string]bool{"Flush": true}, "buffered writer"}, call, nil
	case pk == "os" && nm == "Create":
		return &writerKind{closeName, "output file"}, resultExtract(call, 0), resultExtract(call, 1)
	case pk == "os" && nm == "OpenFile":
		if fl, ok := constInt(call.Call.Args[1]); ok && fl&3 == 0 {
			return nil, nil, nil // read-only
		}
		return &writerKind{closeName, "output file"}, resultExtract(call, 0), resultExtract(call, 1)
	}
	rs := call.Common().Signature().Results()
	if rs.Len() == 2 && isErrorType(rs.At(1).Type()) && p.closable(rs.At(0).Type()) {
		if n := namedOf(rs.At(0).Type()); n != nil && n.Obj().Pkg().Path() != "os" {
			if m := p.Method(n, "Close"); m != nil && isErrorResult(m) {
				return &writerKind{closeName, n.Obj().Name()}, resultExtract(call, 0), resultExtract(call, 1)
			}
		}
	}
	return nil, nil, nil
}

// unfinalised: a return that can report success without the writer finalised and its error reported.
func (p *Prog) unfinalised(f *ssa.Function, call *ssa.Call, k *writerKind, h, e ssa.Value) string {
	if h == nil {
		return "the writer is discarded"
	}
	holds := p.traceHolds(h)
	msg := ""
	var dec func(ssa.Value, *pathPoint) (bool, bool)
	if e != nil {
		dec = assumeNil(e, true)
	}
	fate := map[*ssa.Call]string{}
	(&Explorer{P: p, Decide: dec, Visit: func(i ssa.Instruction, pp *pathPoint) bool {
		switch t := i.(type) {
		case ssa.CallInstruction:
			if i == ssa.Instruction(call) {
				return true
			}
			o := calleeObj(t)
			if o != nil && k.names[o.Name()] && recvOf(t) != nil && holds(recvOf(t)) {
				if cl, ok := t.(*ssa.Call); ok {
					if _, done := fate[cl]; !done {
						fate[cl] = p.errorFate(f, cl)
					}
					if fate[cl] == "" {
						return true
					}
					pp.flags["unchecked"] = true
					return false
				}
				if _, isD := t.(*ssa.Defer); isD {
					pp.flags["unchecked"] = true
				}
				return false
			}
			// helper or closure that finalises and reports
			for _, g := range p.Callees(t) {
				if !p.IsLibFunc(g) {
					continue
				}
				if p.finalises(g, t, holds, k.names, 3) {
					return true
				}
			}
		case *ssa.Store:
			if holds(t.Val) {
				if fa, ok := t.Addr.(*ssa.FieldAddr); ok && p.cellOf(fa.X) == nil {
					return true
				}
			}
		case *ssa.Return:
			for _, r := range t.Results {
				if p.carries(pp.Resolve(r), h, holds) {
					return true // the caller's responsibility
				}
			}
			if !isErrorResult(f) {
				msg = "not finalised before the return at " + p.InstrPos(t)
				return true
			}
			v := pp.Resolve(t.Results[len(t.Results)-1])
			if isNilConst(v) || p.maybeNilHere(pp, v) {
				if pp.flags["unchecked"] {
					msg = "the error of finalising it is lost on the path to the return at " + p.InstrPos(t)
				} else {
					msg = "not finalised on the path to the successful return at " + p.InstrPos(t)
				}
			}
			return true
		}
		return false
	}}).Run(call)
	return msg
}

// maybeNilHere: the returned error v has not been found non-nil on this path.
func (p *Prog) maybeNilHere(pp *pathPoint, v ssa.Value) bool {
	switch t := v.(type) {
	case *ssa.Call:
		// a constructor of errors
		o := calleeObj(t)
		if o != nil && o.Pkg() != nil && (o.Pkg().Path() == "fmt" || o.Pkg().Path() == "errors") {
			return false
		}
		for _, g := range p.Callees(t) {
			if p.IsLibFunc(g) && p.alwaysErr(g) {
				return false
			}
		}
	case *ssa.MakeInterface:
		return false
	}
	for _, g := range guardsOf(pp.b) {
		if o, eq, ok := nilTest(g.Cond); ok && pp.Resolve(o) == v && eq != g.Pol {
			return false
		}
	}
	return true
}

// alwaysErr: every return of g carries a freshly made error (WrapError, DescribeError, FormatError …).
func (p *Prog) alwaysErr(g *ssa.Function) bool {
	rs := returns(g)
	if len(rs) == 0 || g.Signature.Results().Len() != 1 {
		return false
	}
	for _, r := range rs {
		if isNilConst(r.Results[0]) {
			// returns nil only for a nil argument: callers pass an error they have found non-nil
			if !nilArgGuard(r) {
				return false
			}
			continue
		}
		for _, l := range p.Trace(r.Results[0], TraceOpt{NoParams: true, Stop: func(x ssa.Value) bool {
			_, ok := x.(*ssa.MakeInterface)
			return ok
		}}) {
			switch t := l.(type) {
			case *ssa.MakeInterface:
			case *ssa.Call:
				o := calleeObj(t)
				if o == nil || o.Pkg() == nil || (o.Pkg().Path() != "fmt" && o.Pkg().Path() != "errors") {
					return false
				}
			case *ssa.Const:
			case *ssa.Parameter:
			default:
				return false
			}
		}
	}
	return true
}

func nilArgGuard(r *ssa.Return) bool {
	for _, g := range guardsOf(r.Block()) {
		if o, eq, ok := nilTest(g.Cond); ok && eq == g.Pol {
			if _, isP := o.(*ssa.Parameter); isP {
				return true
			}
		}
	}
	return false
}

// finalises: g, called by t, finalises the writer on every path that reports success and reports its error.
func (p *Prog) finalises(g *ssa.Function, t ssa.CallInstruction, holds func(ssa.Value) bool, names map[string]bool, depth int) bool {
	if depth == 0 {
		return false
	}
	inner := holds
	any := len(g.FreeVars) > 0
	for i := range g.Params {
		if a := argFor(t, g, i); a != nil && holds(a) {
			any = true
			prm := g.Params[i]
			prev := inner
			inner = func(v ssa.Value) bool {
				if prev(v) {
					return true
				}
				for _, l := range p.Trace(v, TraceOpt{NoParams: true, NoCalls: true}) {
					if l == ssa.Value(prm) {
						return true
					}
				}
				return false
			}
		}
	}
	if !any {
		return false
	}
	// every return that may report success is preceded by a reported finaliser
	okAll, _ := mustPass(g, nil, func(i ssa.Instruction) bool {
		c, ok := i.(*ssa.Call)
		if !ok {
			return false
		}
		if o := calleeObj(c); o != nil && names[o.Name()] && recvOf(c) != nil && inner(recvOf(c)) {
			return p.errorFate(g, c) == ""
		}
		for _, gg := range p.Callees(c) {
			if p.IsLibFunc(gg) && gg != g && p.finalises(gg, c, inner, names, depth-1) {
				return true
			}
		}
		return false
	}, func(r *ssa.Return) bool {
		if len(r.Results) == 0 || !isErrorResult(g) {
			return true
		}
		return p.successReturn(r)
	})
	if !okAll {
		return false
	}
	// the helper's own error is reported by the caller
	if cl, ok := t.(*ssa.Call); ok && isErrorResult(g) {
		return p.errorFate(cl.Parent(), cl) == ""
	}
	// error goes into a captured variable
	return true
}

func runC14(c *Ctx) {
	p := c.P
	n := 0
	for _, f := range p.Funcs {
		k := 0
		for _, ci := range calls(f) {
			call, ok := ci.(*ssa.Call)
			if !ok {
				continue
			}
			wk, h, e := p.writerSource(call)
			if wk == nil {
				continue
			}
			n++
			k++
			msg := p.unfinalised(f, call, wk, h, e)
			c.Check(msg == "", fmt.Sprintf("finalise:%s#%d", p.Name(f), k), p.InstrPos(call), wk.label+" is finalised and its error reported", wk.label+": "+msg)
			if isCallTo(call, "os", "", "OpenFile") {
				fl, isC := constInt(call.Call.Args[1])
				c.Check(isC && flagSet(p, fl), fmt.Sprintf("flags:%s#%d", p.Name(f), k), p.InstrPos(call), "creates and truncates",
					"the output file is opened without O_CREATE and O_TRUNC: writing to a new path fails or leaves the old file's tail behind")
			}
		}
	}
	c.Floor("writers created", n, 12)
	// finaliser methods: every writer layer held in a field is finalised, inner before outer
	nf := 0
	for _, t := range p.NamedTypes() {
		st, ok := t.Underlying().(*types.Struct)
		m := p.Method(t, "Close")
		if !ok || m == nil || !isErrorResult(m) {
			continue
		}
		var layers []*types.Var
		for i := 0; i < st.NumFields(); i++ {
			if fn := namedOf(st.Field(i).Type()); fn != nil && fn.Obj().Pkg() != nil {
				switch fn.Obj().Pkg().Path() + "." + fn.Obj().Name() {
				case "archive/tar.Writer", "compress/gzip.Writer", "bufio.Writer", "os.File":
					if len(p.fieldStores[st.Field(i)]) > 0 {
						layers = append(layers, st.Field(i))
					}
				}
			}
		}
		for _, l := range layers {
			nf++
			l := l
			fate := map[*ssa.Call]string{}
			fateOf := func(g *ssa.Function, cl *ssa.Call) string {
				if _, done := fate[cl]; !done {
					fate[cl] = p.errorFate(g, cl)
				}
				return fate[cl]
			}
			var last string
			closes := func(good bool) func(i ssa.Instruction) bool {
				return func(i ssa.Instruction) bool {
					cl, isC := i.(*ssa.Call)
					if isC && p.closesField(cl, l, 3) {
						fo := fateOf(m, cl)
						if good {
							return fo == ""
						}
						last = fo
						return true
					}
					if d, isD := i.(*ssa.Defer); isD {
						for _, g := range p.Callees(d) {
							if p.IsLibFunc(g) {
								for _, gc := range calls(g) {
									if gcl, ok := gc.(*ssa.Call); ok && p.closesField(gcl, l, 3) {
										fo := fateOf(g, gcl)
										if good {
											return fo == ""
										}
										last = fo
										return true
									}
								}
							}
						}
					}
					return false
				}
			}
			success := func(r *ssa.Return) bool { return p.successReturn(r) }
			key := "layer:" + typeName(t) + "." + kindOf(l)
			if ok, _ := mustPass(m, nil, closes(true), success); ok {
				c.Ok(key, p.Pos(m.Pos()), "closed on every successful path, its error reported")
			} else if ok, bad := mustPass(m, nil, closes(false), success); !ok {
				c.Bad(key, p.InstrPos(bad), "Close can report success without closing its "+kindOf(l))
			} else {
				c.Bad(key, p.Pos(m.Pos()), "Close: error of closing the "+kindOf(l)+": "+last)
			}
		}
		// order
		checkLayerOrder(c, m, layers)
	}
	c.Floor("writer layers held in fields", nf, 3)
	for _, f := range p.Funcs {
		checkLocalLayerOrder(c, f)
	}
	// SaveWithPrefix leaves the caller's archive open
	ns := 0
	for _, f := range p.Funcs {
		if f.Name() == "SaveWithPrefix" {
			ns++
		}
		for _, ci := range calls(f) {
			if !methodNamed(ci, "Close") {
				continue
			}
			rv := recvOf(ci)
			if n := namedOf(rv.Type()); n == nil || typeName(n) != "base.ClassifierSerializer" {
				continue
			}
			bad := false
			for _, l := range p.Trace(rv, TraceOpt{Stop: func(x ssa.Value) bool {
				pr, ok := x.(*ssa.Parameter)
				return ok && owner(pr.Parent()).Name() == "SaveWithPrefix"
			}}) {
				if pr, ok := l.(*ssa.Parameter); ok && owner(pr.Parent()).Name() == "SaveWithPrefix" {
					bad = true
				}
			}
			if bad {
				c.Bad("caller-archive:"+p.Name(owner(f)), p.InstrPos(ci), "an archive received from the caller is closed: whatever the caller writes next is lost")
			}
		}
	}
	c.Count("SaveWithPrefix methods", ns)
	c.Floor("SaveWithPrefix", ns, 8)
	c.Ok("caller-archive", "-", fmt.Sprintf("%d SaveWithPrefix methods examined", ns))
}

func kindOf(v *types.Var) string {
	n := namedOf(v.Type())
	return n.Obj().Pkg().Name() + "." + n.Obj().Name()
}

// successReturn: the return may report success (its error result is not known to be non-nil there).
func (p *Prog) successReturn(r *ssa.Return) bool {
	if len(r.Results) == 0 {
		return true
	}
	v := p.retVal(r, len(r.Results)-1)
	if !isErrorType(v.Type()) || isNilConst(v) {
		return true
	}
	return !p.definitelyErr(v, r.Block(), 4)
}

// retVal: the k-th returned value; in functions with deferred calls results go through local cells, which are
// followed back to the store that precedes the return.
func (p *Prog) retVal(r *ssa.Return, k int) ssa.Value {
	v := r.Results[k]
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return v
	}
	a := p.cellOf(u.X)
	if a == nil {
		return v
	}
	b, i := u.Block(), idxIn(u)-1
	for n := 0; n < 8; n++ {
		for ; i >= 0; i-- {
			if s, ok := b.Instrs[i].(*ssa.Store); ok && p.cellOf(s.Addr) == a {
				return s.Val
			}
		}
		if len(b.Preds) != 1 {
			break
		}
		b = b.Preds[0]
		i = len(b.Instrs) - 1
	}
	return v
}

// definitelyErr: v is non-nil at block b: freshly made, wrapped by an error constructor, or tested non-nil.
func (p *Prog) definitelyErr(v ssa.Value, b *ssa.BasicBlock, depth int) bool {
	if depth == 0 {
		return false
	}
	for _, g := range guardsOf(b) {
		if o, eq, ok := nilTest(g.Cond); ok && eq != g.Pol && p.sameValue(o, v) {
			return true
		}
	}
	switch t := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.ChangeInterface:
		return p.definitelyErr(t.X, b, depth-1)
	case *ssa.Call:
		o := calleeObj(t)
		if o != nil && o.Pkg() != nil && (o.Pkg().Path() == "fmt" || o.Pkg().Path() == "errors") {
			return true
		}
		cs := p.Callees(t)
		for _, g := range cs {
			if !p.IsLibFunc(g) || !p.alwaysErr(g) {
				return false
			}
		}
		return len(cs) > 0
	case *ssa.Phi:
		for i, e := range t.Edges {
			if !p.definitelyErr(e, t.Block().Preds[i], depth-1) {
				return false
			}
		}
		return true
	}
	return false
}

// sameValue: identical, or loads of the same memory location with no store possible in between being ignored.
func (p *Prog) sameValue(a, b ssa.Value) bool {
	if valuesEqual(a, b) {
		return true
	}
	ua, ok1 := a.(*ssa.UnOp)
	ub, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && ua.Op == token.MUL && ub.Op == token.MUL {
		ca, cb := p.cellOf(ua.X), p.cellOf(ub.X)
		return ca != nil && ca == cb
	}
	return false
}

// closesField: a Close call on the value of struct field l (directly or through a helper given that value).
func (p *Prog) closesField(cl ssa.CallInstruction, l *types.Var, depth int) bool {
	isF := func(v ssa.Value) bool {
		for _, x := range p.Trace(v, TraceOpt{NoCalls: true}) {
			if lf, _ := fieldLoad(x); lf == l {
				return true
			}
		}
		return false
	}
	if methodNamed(cl, "Close") && isF(recvOf(cl)) {
		return true
	}
	if depth == 0 {
		return false
	}
	for _, g := range p.Callees(cl) {
		if !p.IsLibFunc(g) {
			continue
		}
		ok, _ := mustPass(g, nil, func(i ssa.Instruction) bool {
			c2, isC := i.(*ssa.Call)
			return isC && p.closesField(c2, l, depth-1)
		}, func(r *ssa.Return) bool { return p.successReturn(r) })
		if ok && len(returns(g)) > 0 {
			return true
		}
	}
	return false
}

var layerRank = map[string]int{"bufio.Writer": 0, "tar.Writer": 1, "gzip.Writer": 2, "os.File": 3}

func checkLayerOrder(c *Ctx, m *ssa.Function, layers []*types.Var) {
	p := c.P
	pos := map[*types.Var][]ssa.Instruction{}
	for _, ci := range calls(m) {
		if cl, ok := ci.(*ssa.Call); ok {
			for _, l := range layers {
				if p.closesField(cl, l, 3) {
					pos[l] = append(pos[l], cl)
				}
			}
		}
	}
	for _, a := range layers {
		for _, b := range layers {
			if layerRank[kindOf(a)] >= layerRank[kindOf(b)] {
				continue
			}
			for _, ib := range pos[b] {
				// on success paths, a's close precedes b's
				bad := false
				for _, ia := range pos[a] {
					if ia != ib && before(ib, ia) {
						bad = true
					}
				}
				c.Check(!bad, "order:"+p.Name(m)+":"+kindOf(a)+"<"+kindOf(b), p.InstrPos(ib), "inner layer closed first",
					"the "+kindOf(b)+" is closed before the "+kindOf(a)+" that writes into it")
			}
		}
	}
}

// checkLocalLayerOrder: tar.NewWriter(gzipWriter): the tar writer is closed before the gzip writer.
func checkLocalLayerOrder(c *Ctx, f *ssa.Function) {
	p := c.P
	for _, ci := range calls(f) {
		call, ok := ci.(*ssa.Call)
		if !ok || len(call.Call.Args) == 0 {
			continue
		}
		wk, inner, _ := p.writerSource(call)
		if wk == nil || inner == nil || call.Call.IsInvoke() {
			continue
		}
		for _, l := range p.Trace(call.Call.Args[0], TraceOpt{NoParams: true, NoCalls: true}) {
			oc, ok := l.(*ssa.Call)
			if !ok {
				if ex, okx := l.(*ssa.Extract); okx {
					oc, ok = ex.Tuple.(*ssa.Call)
				}
			}
			if !ok || oc == nil {
				continue
			}
			owk, outer, _ := p.writerSource(oc)
			if owk == nil || outer == nil {
				continue
			}
			hi, ho := p.traceHolds(inner), p.traceHolds(outer)
			bad := false
			at := ssa.Instruction(call)
			for _, a := range calls(f) {
				if !methodNamed(a, "Close") || !hi(recvOf(a)) {
					continue
				}
				for _, b := range calls(f) {
					if methodNamed(b, "Close") && ho(recvOf(b)) && before(b.(ssa.Instruction), a.(ssa.Instruction)) {
						bad = true
						at = b.(ssa.Instruction)
					}
				}
			}
			c.Check(!bad, "order:"+p.Name(f)+":"+wk.label, p.InstrPos(at), "inner layer closed first", "the "+owk.label+" is closed before the "+wk.label+" that writes into it")
		}
	}
}

func flagSet(p *Prog, fl int64) bool {
	osp := p.SSA.ImportedPackage("os")
	get := func(n string) int64 {
		if osp == nil {
			return 0
		}
		if k, ok := osp.Pkg.Scope().Lookup(n).(*types.Const); ok {
			v, _ := constant.Int64Val(constant.ToInt(k.Val()))
			return v
		}
		return 0
	}
	if fl&get("O_CREATE") == 0 {
		return false
	}
	return (fl&get("O_TRUNC") != 0 || fl&get("O_EXCL") != 0) && fl&get("O_APPEND") == 0
}

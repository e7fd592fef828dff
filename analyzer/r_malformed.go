package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C33", Rule: "what is read from files (csv records, scanned lines, archive members, decoded JSON) is followed forwards through the functions that read (value flow with per-function summaries). (a) A dynamically typed decoded value is only asserted to a type in the comma-ok form. (b) A read string or list is indexed or cut at a constant place only after a test of its length (or a property of its origin) that makes it long enough, and the last element of a list is taken only if it is known not to be empty; a requirement of a callee is passed on to its callers. (c) A list of another length is indexed by the place of a value in the input only after their lengths were compared. (d) Memory is allocated for a number read from the input only after it was tested from below and above. (e) A deferred recovery hands on every panic it does not turn into an error unchanged, and asserts nothing about the recovered value. (f) A panic brought about by the input is recovered before it leaves an exported function that reports errors.",
		Trust: []string{"csv readers deliver at least one value per record, and as many as in the first", "fields found by strings.Fields are not empty", "json.Marshal does not fail on a decoded JSON value"}, Run: runC33})
}

// Labels: bit 63: read from the input; bit 62: a list as long as something in the input; bits 0–30: from the
// parameter; bits 31–61: a list whose length comes from the parameter.
const (
	srcBit  = uint64(1) << 63
	srcLen  = uint64(1) << 62
	content = srcBit | (1<<31 - 1)
)

// toLen: the label of a list whose length has the label m.
func toLen(m uint64) uint64 {
	r := (m & (1<<31 - 1)) << 31
	if m&srcBit != 0 {
		r |= srcLen
	}
	return r | m&^content
}

// fromLen: the label of the length of a list labelled m.
func fromLen(m uint64) uint64 {
	r := m&content | (m>>31)&(1<<31-1)
	if m&srcLen != 0 {
		r |= srcBit
	}
	return r
}

type input struct {
	p       *Prog
	lab     map[ssa.Value]uint64
	sum     map[*ssa.Function][]uint64 // labels of the results
	out     map[*ssa.Function]uint64   // parameters whose memory is filled from the input
	param   map[*ssa.Parameter]bool    // called with input
	paramL  map[*ssa.Parameter]bool    // called with a list as long as something in the input
	decoded map[*types.Named]bool
	reads   map[*ssa.Function]bool
	dirty   bool
}

// readerCall: the result of the external call is input.
func readerCall(o *types.Func) bool {
	if o == nil || o.Pkg() == nil {
		return false
	}
	n := o.Name()
	switch o.Pkg().Path() {
	case "bufio", "encoding/csv", "archive/tar", "io", "io/ioutil", "os", "compress/gzip":
		for _, s := range []string{"Read", "Text", "Bytes", "Next", "Err", "Open", "Seek", "NewReader"} {
			if strings.HasPrefix(n, s) {
				return true
			}
		}
	}
	return false
}

// passes: the results of the external function say something about its arguments.
func passes(o *types.Func) bool {
	if o == nil || o.Pkg() == nil {
		return false
	}
	switch o.Pkg().Path() {
	case "strings", "strconv", "bytes", "regexp", "fmt", "errors", "unicode", "encoding/binary", "math", "reflect":
		return true
	}
	return false
}

func unmarshals(o *types.Func) (data, target int, ok bool) {
	if o != nil && o.Pkg() != nil && o.Pkg().Path() == "encoding/json" {
		switch o.Name() {
		case "Unmarshal":
			return 0, 1, true
		}
	}
	return 0, 0, false
}

func (x *input) set(v ssa.Value, m uint64) {
	if v == nil || m == 0 || x.lab[v]|m == x.lab[v] {
		return
	}
	// objects of the program's own making, whatever is in them
	if it, ok := v.Type().Underlying().(*types.Interface); ok && it.NumMethods() > 0 && !isErrorType(v.Type()) {
		return
	}
	x.lab[v] |= m
	x.dirty = true
}

func (x *input) get(v ssa.Value) uint64 {
	if v == nil {
		return 0
	}
	if fv, ok := v.(*ssa.FreeVar); ok {
		m := x.lab[v]
		for _, b := range x.p.freeVarBindings(fv) {
			c, l := x.taint(b)
			if c {
				m |= srcBit
			}
			if l {
				m |= srcLen
			}
		}
		return m
	}
	return x.lab[v]
}

// root labels the container behind an address or slice, so that later reads of it are labelled too.
func (x *input) root(v ssa.Value, m uint64, d int) {
	if v == nil || m == 0 || d > 10 {
		return
	}
	switch t := v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function:
		return
	case *ssa.FreeVar:
		if m&srcBit != 0 {
			if x.lab[v]&srcBit == 0 {
				x.set(v, srcBit)
				for _, b := range x.p.freeVarBindings(t) {
					x.root(b, srcBit, d+1)
				}
			}
		}
		return
	}
	if x.lab[v]|m == x.lab[v] && d > 0 {
		return
	}
	x.set(v, m)
	switch t := v.(type) {
	case *ssa.IndexAddr:
		x.root(t.X, m, d+1)
	case *ssa.Slice:
		x.root(t.X, m, d+1)
	case *ssa.FieldAddr:
		if a := x.p.cellOf(t.X); a != nil {
			x.root(t.X, m, d+1)
		}
	case *ssa.MakeInterface:
		x.root(t.X, m, d+1)
	case *ssa.ChangeType:
		x.root(t.X, m, d+1)
	case *ssa.ChangeInterface:
		x.root(t.X, m, d+1)
	case *ssa.UnOp:
		if t.Op == token.MUL {
			if a := x.p.cellOf(t.X); a != nil {
				x.set(a, m)
			}
		}
	}
}

func (x *input) function(f *ssa.Function) {
	p := x.p
	for k, q := range f.Params {
		if k < 31 {
			x.lab[q] |= 1 << uint(k)
		}
		if f.Name() == "UnmarshalJSON" && k == 1 {
			x.set(q, srcBit)
		}
	}
	for _, i := range instrs(f) {
		switch t := i.(type) {
		case *ssa.Store:
			if m := x.get(t.Val); m != 0 {
				if _, ok := t.Addr.(*ssa.IndexAddr); ok || p.cellOf(t.Addr) != nil {
					x.root(t.Addr, m, 0)
				}
			}
		case *ssa.MapUpdate:
			x.root(t.Map, x.get(t.Value), 0)
		case *ssa.Return:
			s := x.sum[f]
			for len(s) < len(t.Results) {
				s = append(s, 0)
			}
			for k, r := range t.Results {
				if m := x.get(r); s[k]|m != s[k] {
					s[k] |= m
					x.dirty = true
				}
			}
			x.sum[f] = s
		}
		v, ok := i.(ssa.Value)
		if !ok {
			continue
		}
		var m uint64
		switch t := v.(type) {
		case *ssa.Phi:
			for _, e := range t.Edges {
				m |= x.get(e)
			}
		case *ssa.UnOp:
			m = x.get(t.X)
			if t.Op == token.MUL {
				if a := p.cellOf(t.X); a != nil {
					m |= x.get(a)
					for _, s := range p.cellStores(a) {
						if s.Parent() == f {
							m |= x.get(s.Val)
						} else if x.tainted(s.Val) {
							m |= srcBit
						}
					}
				}
				if fa, ok := t.X.(*ssa.FieldAddr); ok {
					if n := namedOf(fa.X.Type()); n != nil && x.decoded[n] && dynamic(t.Type()) {
						m |= srcBit
					}
				}
			}
		case *ssa.Slice:
			m = x.get(t.X) | x.get(t.Low) | x.get(t.High)
		case *ssa.Index:
			m = x.get(t.X) & content
		case *ssa.IndexAddr:
			m = x.get(t.X) & content
		case *ssa.FieldAddr:
			if a := p.cellOf(t.X); a != nil {
				m = x.get(a)
			} else if _, isParam := t.X.(*ssa.Parameter); !isParam {
				m = x.get(t.X)
			}
		case *ssa.Field:
			m = x.get(t.X)
			if n := namedOf(t.X.Type()); n != nil && x.decoded[n] && dynamic(t.Type()) {
				m |= srcBit
			}
		case *ssa.Convert:
			m = x.get(t.X)
		case *ssa.ChangeType:
			m = x.get(t.X)
		case *ssa.ChangeInterface:
			m = x.get(t.X)
		case *ssa.MakeInterface:
			m = x.get(t.X)
		case *ssa.TypeAssert:
			m = x.get(t.X)
		case *ssa.BinOp:
			m = x.get(t.X) | x.get(t.Y)
		case *ssa.Lookup:
			m = x.get(t.X) & content
		case *ssa.Range:
			m = x.get(t.X) & content
		case *ssa.Next:
			m = x.get(t.Iter)
		case *ssa.MakeSlice:
			m = toLen(x.get(t.Len))
		case *ssa.Extract:
			if cl, ok := t.Tuple.(*ssa.Call); ok {
				m = x.result(cl, t.Index)
			} else {
				m = x.get(t.Tuple)
			}
		case *ssa.Call:
			if b, ok := t.Call.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "append", "min", "max", "copy":
					for _, a := range t.Call.Args {
						m |= x.get(a)
					}
				case "len", "cap":
					m = fromLen(x.get(t.Call.Args[0]))
				}
			} else if _, isT := t.Type().(*types.Tuple); !isT {
				m = x.result(t, 0)
			}
		}
		x.set(v, m)
		if c, ok := i.(ssa.CallInstruction); ok {
			x.call(f, c)
		}
	}
}

// dynamic: values of the type say themselves what they are.
func dynamic(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return u.NumMethods() == 0
	case *types.Map:
		return dynamic(u.Elem())
	case *types.Slice:
		return dynamic(u.Elem())
	}
	return false
}

// call: what a call fills from the input.
func (x *input) call(f *ssa.Function, c ssa.CallInstruction) {
	p := x.p
	o := calleeObj(c)
	if d, t, ok := unmarshals(o); ok && len(c.Common().Args) == 2 {
		if m := x.get(c.Common().Args[d]); m != 0 {
			x.fill(f, c.Common().Args[t], m)
		}
	}
	for _, g := range p.Callees(c) {
		if !p.IsLibFunc(g) {
			continue
		}
		if om := x.out[g]; om != 0 {
			for k := range g.Params {
				if om&(1<<uint(k)) != 0 {
					if a := argFor(c, g, k); a != nil {
						x.fill(f, a, srcBit)
					}
				}
			}
		}
	}
}

// fill: the memory v points to holds decoded input.
func (x *input) fill(f *ssa.Function, v ssa.Value, m uint64) {
	for {
		switch t := v.(type) {
		case *ssa.MakeInterface:
			v = t.X
			continue
		case *ssa.ChangeInterface:
			v = t.X
			continue
		case *ssa.ChangeType:
			v = t.X
			continue
		}
		break
	}
	if q, ok := v.(*ssa.Parameter); ok {
		for k, r := range f.Params {
			if r == q && m&srcBit != 0 && x.out[f]&(1<<uint(k)) == 0 {
				x.out[f] |= 1 << uint(k)
				x.dirty = true
			}
		}
		return
	}
	if n := namedOf(v.Type()); n != nil {
		if _, ok := n.Underlying().(*types.Struct); ok && !x.decoded[n] {
			x.decoded[n] = true
			x.dirty = true
		}
	}
	if p := x.p.cellOf(v); p != nil {
		x.set(p, m)
	}
	x.root(v, m, 0)
}

func (x *input) result(c *ssa.Call, k int) uint64 {
	p := x.p
	o := calleeObj(c)
	if readerCall(o) {
		return srcBit
	}
	var m uint64
	cs := p.Callees(c)
	lib := false
	for _, g := range cs {
		if !p.IsLibFunc(g) {
			continue
		}
		lib = true
		s := x.sum[g]
		if k >= len(s) {
			continue
		}
		m |= s[k] & (srcBit | srcLen)
		for j := range g.Params {
			if j < 31 && s[k]&(1<<uint(j)|1<<uint(j+31)) != 0 {
				if a := argFor(c, g, j); a != nil {
					if s[k]&(1<<uint(j)) != 0 {
						m |= x.get(a)
					} else {
						m |= toLen(fromLen(x.get(a)))
					}
				}
			}
		}
	}
	if !lib && passes(o) {
		for _, a := range allArgs(c) {
			m |= x.get(a)
		}
	}
	return m
}

// tainted: the value is, or depends on, what was read.
func (x *input) tainted(v ssa.Value) bool {
	c, _ := x.taint(v)
	return c
}

// sized: the length of the list (or string) is that of something read.
func (x *input) sized(v ssa.Value) bool {
	c, l := x.taint(v)
	return c || l
}

func (x *input) taint(v ssa.Value) (inContent, inLength bool) {
	if v == nil {
		return false, false
	}
	m := x.lab[v]
	if _, ok := v.(*ssa.FreeVar); ok {
		m = x.get(v)
	}
	c, l := m&srcBit != 0, m&srcLen != 0
	if f := v.Parent(); f != nil {
		for k, q := range f.Params {
			if k >= 31 {
				break
			}
			if m&(1<<uint(k)) != 0 {
				c = c || x.param[q]
				l = l || x.paramL[q]
			}
			if m&(1<<uint(k+31)) != 0 {
				l = l || x.param[q] || x.paramL[q]
			}
		}
	}
	return c, l
}

func newInput(p *Prog) *input {
	x := &input{p: p, lab: map[ssa.Value]uint64{}, sum: map[*ssa.Function][]uint64{}, out: map[*ssa.Function]uint64{},
		param: map[*ssa.Parameter]bool{}, paramL: map[*ssa.Parameter]bool{}, decoded: map[*types.Named]bool{}, reads: map[*ssa.Function]bool{}}
	for round := 0; round < 40; round++ {
		x.dirty = false
		for _, f := range p.Funcs {
			x.function(f)
		}
		for _, f := range p.Funcs {
			for _, c := range calls(f) {
				for _, g := range p.Callees(c) {
					if !p.IsLibFunc(g) {
						continue
					}
					for k, q := range g.Params {
						if !x.param[q] || !x.paramL[q] {
							if a := argFor(c, g, k); a != nil {
								ct, ln := x.taint(a)
								if ct && !x.param[q] {
									x.param[q] = true
									x.dirty = true
								}
								if ln && !x.paramL[q] {
									x.paramL[q] = true
									x.dirty = true
								}
							}
						}
					}
				}
			}
		}
		if !x.dirty {
			break
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range p.Funcs {
			if x.reads[f] {
				continue
			}
			for _, c := range calls(f) {
				r := readerCall(calleeObj(c))
				for _, g := range p.Callees(c) {
					r = r || x.reads[g]
				}
				if r {
					x.reads[f] = true
					ch = true
				}
			}
		}
	}
	return x
}

// ---------- lengths ----------

// minLen: a lower bound of the length of v that follows from where it comes from.
func (x *input) minLen(v ssa.Value, d int) int64 {
	if d > 8 || v == nil {
		return 0
	}
	p := x.p
	switch t := v.(type) {
	case *ssa.Const:
		if s, ok := constStr(t); ok {
			return int64(len(s))
		}
	case *ssa.ChangeType:
		return x.minLen(t.X, d+1)
	case *ssa.Convert:
		if bytesOrString(t.X.Type()) {
			return x.minLen(t.X, d+1)
		}
	case *ssa.MakeSlice:
		if k, ok := constInt(t.Len); ok {
			return k
		}
		return x.lenOf(t.Len, d+1)
	case *ssa.Slice:
		if t.Low == nil && t.High == nil {
			if pt, ok := t.X.Type().Underlying().(*types.Pointer); ok {
				if at, ok := pt.Elem().Underlying().(*types.Array); ok {
					return at.Len()
				}
			}
			return x.minLen(t.X, d+1)
		}
		lo := int64(0)
		if t.Low != nil {
			k, ok := constInt(t.Low)
			if !ok {
				return 0
			}
			lo = k
		}
		if t.High != nil && !isLenOf(t.High, t.X) {
			if k, ok := constInt(t.High); ok {
				return k - lo
			}
			return 0
		}
		if n := x.known(t.X, t.Block()) - lo; n > 0 {
			return n
		}
	case *ssa.UnOp:
		if t.Op == token.MUL {
			if a := p.cellOf(t.X); a != nil {
				m := int64(-1)
				for _, s := range p.cellStores(a) {
					if isNilConst(s.Val) {
						return 0
					}
					if k := x.minLen(s.Val, d+1); m < 0 || k < m {
						m = k
					}
				}
				if m > 0 {
					return m
				}
				return 0
			}
			if ia, ok := t.X.(*ssa.IndexAddr); ok {
				return x.elemLen(ia.X, d+1)
			}
		}
	case *ssa.Phi:
		if n := x.grown(t, d+1); n > 0 {
			return n
		}
		m := int64(-1)
		for _, e := range t.Edges {
			if e == t {
				continue
			}
			if k := x.minLen(e, d+1); m < 0 || k < m {
				m = k
			}
		}
		if m > 0 {
			return m
		}
	case *ssa.Extract:
		if cl, ok := t.Tuple.(*ssa.Call); ok {
			o := calleeObj(cl)
			if o != nil && o.Pkg() != nil && o.Pkg().Path() == "encoding/csv" && o.Name() == "Read" {
				return 1
			}
			return x.callLen(cl, t.Index, d+1)
		}
	case *ssa.Call:
		if b, ok := t.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" {
				n := x.minLen(t.Call.Args[0], d+1)
				if len(t.Call.Args) > 1 {
					n += x.minLen(t.Call.Args[1], d+1)
				}
				return n
			}
			return 0
		}
		o := calleeObj(t)
		if o != nil && o.Pkg() != nil && o.Pkg().Path() == "strings" {
			switch o.Name() {
			case "Split", "SplitAfter":
				if s, ok := constStr(t.Call.Args[1]); ok && s != "" {
					return 1
				}
			case "ToLower", "ToUpper":
				return min(x.minLen(t.Call.Args[0], d+1), 1)
			}
			return 0
		}
		return x.callLen(t, 0, d+1)
	}
	return 0
}

func bytesOrString(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	}
	return false
}

// lenOf: a lower bound of an integer that is a length.
func (x *input) lenOf(v ssa.Value, d int) int64 {
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return x.minLen(c.Call.Args[0], d)
		}
	}
	return 0
}

func (x *input) callLen(c *ssa.Call, k, d int) int64 {
	m := int64(-1)
	cs := x.p.Callees(c)
	for _, g := range cs {
		if !x.p.IsLibFunc(g) {
			return 0
		}
		for _, r := range returns(g) {
			if k >= len(r.Results) {
				return 0
			}
			// a result accompanied by an error is not used
			if n := len(r.Results); n > 1 && isErrorType(r.Results[n-1].Type()) && !isNilConst(r.Results[n-1]) && isNilConst(r.Results[k]) {
				continue
			}
			if l := x.minLen(r.Results[k], d); m < 0 || l < m {
				m = l
			}
		}
	}
	if m < 0 {
		return 0
	}
	return m
}

// elemLen: a lower bound of the length of the elements of a list.
func (x *input) elemLen(v ssa.Value, d int) int64 {
	ls := x.p.Trace(v, TraceOpt{NoParams: true})
	for _, l := range ls {
		c, ok := l.(*ssa.Call)
		if !ok {
			if s, ok := l.(*ssa.Slice); ok {
				if x.elemLen(s.X, d+1) > 0 && d < 8 {
					continue
				}
			}
			return 0
		}
		o := calleeObj(c)
		if o == nil || o.Pkg() == nil || o.Pkg().Path() != "strings" || o.Name() != "Fields" {
			return 0
		}
	}
	if len(ls) == 0 {
		return 0
	}
	return 1
}

// grown: the list at the head of a loop over another list, to which every round adds an element.
func (x *input) grown(ph *ssa.Phi, d int) int64 {
	f := ph.Parent()
	for _, l := range countingLoops(f) {
		if l.Header != ph.Block() || !l.Range {
			continue
		}
		for b := range l.Body {
			if b == l.Header {
				continue
			}
			for _, s := range b.Succs {
				if !l.Body[s] && len(s.Succs) > 0 && s != l.Header {
					return 0
				}
			}
		}
		for k, e := range ph.Edges {
			if !l.Body[ph.Block().Preds[k]] {
				continue
			}
			if !x.appends(e, ph, map[ssa.Value]bool{}) {
				return 0
			}
		}
		return x.lenOf(l.Bound, d)
	}
	return 0
}

func (x *input) appends(v ssa.Value, to *ssa.Phi, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if ph, ok := v.(*ssa.Phi); ok && ph != to {
		for _, e := range ph.Edges {
			if !x.appends(e, to, seen) {
				return false
			}
		}
		return true
	}
	if c, ok := isAppend(v); ok {
		return len(c.Call.Args) > 1 && x.minLen(c.Call.Args[1], 0) > 0
	}
	return false
}

// known: a lower bound of the length of v at block b.
func (x *input) known(v ssa.Value, b *ssa.BasicBlock) int64 {
	best := x.minLen(v, 0)
	same := func(a ssa.Value) bool { return a == v || valuesEqual(a, v) || sameElem(a, v) }
	isLen := func(a ssa.Value) bool {
		c, ok := a.(*ssa.Call)
		if !ok {
			return false
		}
		bi, ok := c.Call.Value.(*ssa.Builtin)
		return ok && bi.Name() == "len" && same(c.Call.Args[0])
	}
	for _, g := range x.predicates(guardsOf(b)) {
		same := func(a ssa.Value) bool { return same(g.sub(a)) }
		isLen := func(a ssa.Value) bool {
			if c, ok := a.(*ssa.Call); ok && g.args != nil {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					return same(c.Call.Args[0])
				}
				return false
			}
			return isLen(a)
		}
		switch t := g.Cond.(type) {
		case *ssa.BinOp:
			op, l, r := t.Op, t.X, t.Y
			if isLen(r) {
				l, r, op = r, l, flip(op)
			}
			if isLen(l) {
				k, ok := constInt(r)
				if !ok {
					continue
				}
				if !g.Pol {
					op = negate(op)
				}
				switch op {
				case token.GEQ, token.EQL:
					best = max(best, k)
				case token.GTR:
					best = max(best, k+1)
				case token.NEQ:
					if k == 0 {
						best = max(best, 1)
					}
				}
				continue
			}
			if op == token.EQL || op == token.NEQ {
				if s, ok := constStr(r); ok && same(l) {
					if (op == token.EQL) == g.Pol {
						best = max(best, int64(len(s)))
					} else if s == "" {
						best = max(best, 1)
					}
				}
			}
		case *ssa.Call:
			o := calleeObj(t)
			if o != nil && o.Pkg() != nil && g.Pol && len(t.Call.Args) == 2 && same(t.Call.Args[0]) {
				switch o.Name() {
				case "HasPrefix", "HasSuffix", "Contains":
					if s, ok := constStr(t.Call.Args[1]); ok {
						best = max(best, int64(len(s)))
					}
				}
			}
		}
	}
	return best
}

// A predicate is a condition known to hold or fail; args maps the parameters of the function it was found in.
type predicate struct {
	Guard
	args map[ssa.Value]ssa.Value
}

func (p predicate) sub(v ssa.Value) ssa.Value {
	if w, ok := p.args[v]; ok {
		return w
	}
	return v
}

// predicates adds to guards that are calls of small functions what these compute.
func (x *input) predicates(gs []Guard) []predicate {
	var out []predicate
	for _, g := range gs {
		out = append(out, predicate{g, nil})
		c, ok := g.Cond.(*ssa.Call)
		if !ok {
			continue
		}
		cs := x.p.Callees(c)
		if len(cs) != 1 || !x.p.IsLibFunc(cs[0]) {
			continue
		}
		rs := returns(cs[0])
		if len(rs) != 1 || len(rs[0].Results) != 1 {
			continue
		}
		args := map[ssa.Value]ssa.Value{}
		for k, q := range cs[0].Params {
			if a := argFor(c, cs[0], k); a != nil {
				args[q] = a
			}
		}
		for _, e := range expandGuard(nil, Guard{rs[0].Results[0], g.Pol, g.If}, 0) {
			out = append(out, predicate{e, args})
		}
	}
	return out
}

func isLenOf(v, of ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && (c.Call.Args[0] == of || valuesEqual(c.Call.Args[0], of))
}

// sameElem: two reads of the same element of one list.
func sameElem(a, b ssa.Value) bool {
	ua, ok1 := a.(*ssa.UnOp)
	ub, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 || ua.Op != token.MUL || ub.Op != token.MUL {
		return false
	}
	ia, ok1 := ua.X.(*ssa.IndexAddr)
	ib, ok2 := ub.X.(*ssa.IndexAddr)
	if !ok1 || !ok2 || ia.X != ib.X {
		return false
	}
	if ia.Index == ib.Index {
		return true
	}
	ka, ok1 := constInt(ia.Index)
	kb, ok2 := constInt(ib.Index)
	return ok1 && ok2 && ka == kb
}

// ---------- the rule ----------

type malformed struct {
	*input
	c    *Ctx
	bad  map[string]string // key -> note
	pos  map[string]string
	good map[string]string
}

func (x *malformed) fail(kind string, i ssa.Instruction, note string) {
	k := kind + ":" + x.p.Name(owner(i.Parent()))
	if x.bad[k] == "" {
		x.bad[k] = note
		x.pos[k] = x.p.InstrPos(i)
	}
}

func (x *malformed) pass(kind string, i ssa.Instruction, note string) {
	k := kind + ":" + x.p.Name(owner(i.Parent()))
	if x.good[k] == "" {
		x.good[k] = note
		if x.pos[k] == "" {
			x.pos[k] = x.p.InstrPos(i)
		}
	}
}

func runC33(c *Ctx) {
	p := c.P
	x := &malformed{input: newInput(p), c: c, bad: map[string]string{}, pos: map[string]string{}, good: map[string]string{}}
	n := map[string]int{}
	for _, f := range p.Funcs {
		for _, i := range instrs(f) {
			switch t := i.(type) {
			case *ssa.TypeAssert:
				if u, ok := t.X.Type().Underlying().(*types.Interface); !ok || u.NumMethods() > 0 || !x.tainted(t.X) {
					continue
				}
				n["decoded values asserted"]++
				if t.CommaOk {
					x.pass("assert", i, "in the comma-ok form")
				} else if !x.switched(t) {
					x.fail("assert", i, fmt.Sprintf("a decoded value is asserted to be a %s, which panics when the file holds something else", types.TypeString(t.AssertedType, types.RelativeTo(f.Package().Pkg))))
				}
			case *ssa.IndexAddr:
				x.index(i, t.X, t.Index, n)
			case *ssa.Index:
				x.index(i, t.X, t.Index, n)
			case *ssa.Lookup:
				if _, ok := t.X.Type().Underlying().(*types.Map); !ok {
					x.index(i, t.X, t.Index, n)
				}
			case *ssa.Slice:
				if !x.tainted(t.X) || isArrayPtr(t.X) {
					continue
				}
				need := int64(0)
				for _, e := range []ssa.Value{t.Low, t.High} {
					if e == nil {
						continue
					}
					if k, ok := constInt(e); ok {
						need = max(need, k)
					} else if y, k := lastOf(e); y != nil && (y == t.X || valuesEqual(y, t.X) || sameElem(y, t.X)) {
						need = max(need, k)
					}
				}
				if need > 0 {
					n["places in the input"]++
					x.need(i, t.X, need, i, map[ssa.Value]bool{})
				}
			case *ssa.MakeSlice:
				x.alloc(i, t.Len, n)
			}
		}
	}
	x.handlers(n)
	x.escapes(n)
	keys := map[string]bool{}
	for k := range x.bad {
		keys[k] = true
	}
	for k := range x.good {
		keys[k] = true
	}
	for _, k := range sortedKeys(keys) {
		if note := x.bad[k]; note != "" {
			c.Bad(k, x.pos[k], note)
		} else {
			c.Ok(k, x.pos[k], x.good[k])
		}
	}
	for _, k := range sortedKeys(n) {
		c.Count(k, n[k])
	}
	c.Floor("decoded values asserted", n["decoded values asserted"], 4)
	c.Floor("places in the input", n["places in the input"], 6)
	c.Floor("functions that read", len(x.reads), 20)
}

func isArrayPtr(v ssa.Value) bool {
	pt, ok := v.Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = pt.Elem().Underlying().(*types.Array)
	return ok
}

// switched: the assertion was already decided by a type switch or comma-ok test of the same value.
func (x *malformed) switched(t *ssa.TypeAssert) bool {
	for _, g := range guardsOf(t.Block()) {
		if e, ok := g.Cond.(*ssa.Extract); ok && e.Index == 1 && g.Pol {
			if ta, ok := e.Tuple.(*ssa.TypeAssert); ok && ta.X == t.X && types.Identical(ta.AssertedType, t.AssertedType) {
				return true
			}
		}
	}
	return false
}

// lastOf: the value is len(y) - k.
func lastOf(v ssa.Value) (ssa.Value, int64) {
	bo, ok := v.(*ssa.BinOp)
	if !ok || bo.Op != token.SUB {
		return nil, 0
	}
	k, ok := constInt(bo.Y)
	if !ok || k < 1 {
		return nil, 0
	}
	c, ok := bo.X.(*ssa.Call)
	if !ok {
		return nil, 0
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "len" {
		return nil, 0
	}
	return c.Call.Args[0], k
}

func (x *malformed) index(i ssa.Instruction, base, idx ssa.Value, n map[string]int) {
	if isArrayPtr(base) {
		return
	}
	if _, ok := base.Type().Underlying().(*types.Array); ok {
		return
	}
	f := i.Parent()
	if k, ok := constInt(idx); ok {
		if x.tainted(base) {
			n["places in the input"]++
			x.need(i, base, k+1, i, map[ssa.Value]bool{})
		}
		return
	}
	if y, k := lastOf(idx); y != nil && (y == base || valuesEqual(y, base)) {
		if x.tainted(base) || x.reads[f] {
			n["places in the input"]++
			x.need(i, base, k, i, map[ssa.Value]bool{})
		}
		return
	}
	// the place of a value of the input, in another list
	ys := x.ranged(idx, 0)
	for _, y := range ys {
		if !x.sized(y) || y == base || valuesEqual(y, base) {
			continue
		}
		n["lists indexed by the place of an input value"]++
		if x.related(i, base, y, 0) {
			x.pass("place", i, "after the lengths were compared")
		} else {
			x.fail("place", i, "a list is indexed by the place of a value in the input without a comparison of their lengths: a file with more values than expected panics")
		}
	}
}

// ranged: the lists whose indices the value runs over (possibly moved by something).
func (x *malformed) ranged(idx ssa.Value, d int) []ssa.Value {
	if d > 3 {
		return nil
	}
	if l := loopCur(idx); l != nil && l.Bound != nil {
		if c, ok := l.Bound.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return []ssa.Value{c.Call.Args[0]}
			}
		}
	}
	if bo, ok := idx.(*ssa.BinOp); ok && bo.Op == token.ADD {
		return append(x.ranged(bo.X, d+1), x.ranged(bo.Y, d+1)...)
	}
	return nil
}

// related: the length of base has to do with that of y, by construction or by a test on the way; or base is of a kind
// whose length is not known here.
func (x *malformed) related(i ssa.Instruction, base, y ssa.Value, d int) bool {
	p := x.p
	lenOfBase := map[ssa.Value]bool{}
	ok := false
	for _, l := range p.Trace(base, TraceOpt{NoParams: true, NoCalls: true}) {
		switch t := l.(type) {
		case *ssa.MakeSlice:
			s := p.backSlice(t.Len)
			for v := range s {
				if c, isC := v.(*ssa.Call); isC {
					if b, isB := c.Call.Value.(*ssa.Builtin); isB && b.Name() == "len" && (c.Call.Args[0] == y || valuesEqual(c.Call.Args[0], y)) {
						ok = true
					}
				}
			}
			lenOfBase[t.Len] = true
		case *ssa.Call, *ssa.Extract, *ssa.Parameter:
		default:
			return true
		}
	}
	if ok {
		return true
	}
	isLen := func(s map[ssa.Value]bool, of ssa.Value) bool {
		for v := range s {
			if c, isC := v.(*ssa.Call); isC {
				if b, isB := c.Call.Value.(*ssa.Builtin); isB && b.Name() == "len" && (c.Call.Args[0] == of || valuesEqual(c.Call.Args[0], of) || p.sameLoad(c.Call.Args[0], of)) {
					return true
				}
			}
		}
		return false
	}
	for _, cut := range x.cuts(i.Block()) {
		if c, isC := unwrapNilTest(cut.If.Cond).(*ssa.Call); isC && len(p.Callees(c)) > 0 {
			// a function that compares the two
			hb, hy := false, false
			for _, a := range allArgs(c) {
				s := p.backSlice(a)
				hb = hb || a == base || valuesEqual(a, base) || p.sameLoad(a, base) || isLen(s, base)
				hy = hy || a == y || valuesEqual(a, y) || p.sameLoad(a, y) || isLen(s, y)
			}
			if hb && hy {
				return true
			}
		}
		bo, isB := cut.If.Cond.(*ssa.BinOp)
		if !isB {
			continue
		}
		s := p.backSlice(bo)
		b := isLen(s, base)
		for l := range lenOfBase {
			if s[l] {
				b = true
			}
			for v := range s {
				if valuesEqual(v, l) {
					b = true
				}
			}
		}
		if b && isLen(s, y) {
			// a plain comparison has to keep y from being longer
			sl, kl, ok1 := offset(bo.X)
			sr, kr, ok2 := offset(bo.Y)
			lens := func(v, of ssa.Value) bool {
				return isLenOf(v, of) || isLen(map[ssa.Value]bool{v: true}, of)
			}
			if ok1 && ok2 {
				op := bo.Op
				if !cut.Pol {
					op = negate(op)
				}
				if lens(sr, y) && lens(sl, base) {
					sl, sr, kl, kr, op = sr, sl, kr, kl, flip(op)
				}
				if lens(sl, y) && lens(sr, base) {
					// len(y)+kl op len(base)+kr
					switch op {
					case token.LEQ, token.EQL:
						if kr-kl > 0 {
							continue
						}
					case token.LSS:
						if kr-kl > 1 {
							continue
						}
					default:
						continue
					}
				}
			}
			return true
		}
	}
	// both handed over by the caller
	pb, ok1 := base.(*ssa.Parameter)
	py, ok2 := y.(*ssa.Parameter)
	if ok1 && ok2 && d < 4 {
		f := i.Parent()
		n, good := 0, true
		for _, g := range p.Funcs {
			for _, c := range calls(g) {
				for _, h := range p.Callees(c) {
					if h != f {
						continue
					}
					ab, ay := argFor(c, f, paramIndex(pb)), argFor(c, f, paramIndex(py))
					if ab == nil || ay == nil || !x.sized(ay) {
						continue
					}
					n++
					if !x.related(c.(ssa.Instruction), ab, ay, d+1) {
						good = false
					}
				}
			}
		}
		return n > 0 && good
	}
	return false
}

func paramIndex(q *ssa.Parameter) int {
	for j, r := range q.Parent().Params {
		if r == q {
			return j
		}
	}
	return -1
}

// offset: v is the value plus a constant.
func offset(v ssa.Value) (ssa.Value, int64, bool) {
	bo, ok := v.(*ssa.BinOp)
	if !ok {
		return v, 0, true
	}
	if k, ok := constInt(bo.Y); ok && bo.Op == token.ADD {
		return bo.X, k, true
	}
	if k, ok := constInt(bo.X); ok && bo.Op == token.ADD {
		return bo.Y, k, true
	}
	if k, ok := constInt(bo.Y); ok && bo.Op == token.SUB {
		return bo.X, -k, true
	}
	return nil, 0, false
}

// unwrapNilTest: what is compared with nil, or negated.
func unwrapNilTest(v ssa.Value) ssa.Value {
	for n := 0; n < 4; n++ {
		switch t := v.(type) {
		case *ssa.UnOp:
			if t.Op != token.NOT {
				return v
			}
			v = t.X
		case *ssa.BinOp:
			if !isNilConst(t.Y) {
				return v
			}
			v = t.X
		case *ssa.Extract:
			v = t.Tuple
		default:
			return v
		}
	}
	return v
}

// sameLoad: two loads of the same local cell.
func (p *Prog) sameLoad(a, b ssa.Value) bool {
	ua, ok1 := a.(*ssa.UnOp)
	ub, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 || ua.Op != token.MUL || ub.Op != token.MUL {
		return false
	}
	ca := p.cellOf(ua.X)
	return ca != nil && ca == p.cellOf(ub.X)
}

// cuts: the tests on the way to b one of whose outcomes does not lead there (any more in the same round).
func (x *malformed) cuts(b *ssa.BasicBlock) []Guard {
	var out []Guard
	f := b.Parent()
	for _, d := range f.Blocks {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || d == b {
			continue
		}
		r0 := d.Succs[0] == b || reachNot(d.Succs[0], map[*ssa.BasicBlock]bool{d: true})[b]
		r1 := d.Succs[1] == b || reachNot(d.Succs[1], map[*ssa.BasicBlock]bool{d: true})[b]
		if r0 != r1 {
			out = append(out, Guard{iff.Cond, r0, iff})
		}
	}
	return out
}

// need: the list or string has at least k elements at instruction at.
func (x *malformed) need(site ssa.Instruction, v ssa.Value, k int64, at ssa.Instruction, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	if x.known(v, at.Block()) >= k {
		x.pass("place", site, "known to be there")
		return
	}
	if q, ok := v.(*ssa.Parameter); ok {
		f := q.Parent()
		pos := -1
		for j, r := range f.Params {
			if r == q {
				pos = j
			}
		}
		for _, g := range x.p.Funcs {
			for _, c := range calls(g) {
				for _, h := range x.p.Callees(c) {
					if h != f {
						continue
					}
					a := argFor(c, f, pos)
					if a == nil || !x.tainted(a) {
						continue
					}
					x.need(c.(ssa.Instruction), a, k, c.(ssa.Instruction), seen)
				}
			}
		}
		return
	}
	// only what is known to be read from the input as it is
	if !x.plain(v) {
		return
	}
	x.fail("place", at, fmt.Sprintf("element %d of something read from the input is used without a test that it is there: a malformed file panics", k-1))
}

// plain: the length of v is as the input has it.
func (x *malformed) plain(v ssa.Value) bool {
	for _, l := range x.p.Trace(v, TraceOpt{NoParams: true, NoCalls: true}) {
		switch t := l.(type) {
		case *ssa.Call:
			return true
		case *ssa.Extract:
			if _, ok := t.Tuple.(*ssa.Call); ok {
				return true
			}
		case *ssa.Const:
			if t.Value == nil {
				return true
			}
		case *ssa.Slice:
			if x.tainted(t) && !isArrayPtr(t.X) {
				return true
			}
		}
	}
	return false
}

// alloc: a size that depends on a number in the input.
func (x *malformed) alloc(i ssa.Instruction, size ssa.Value, n map[string]int) {
	if !x.tainted(size) {
		return
	}
	// the numbers the size is made of: neither lengths of lists nor constants
	for _, v := range x.numbers(size, 0) {
		if !x.tainted(v) {
			continue
		}
		n["sizes read from the input"]++
		x.bounded(i, v, i, map[ssa.Value]bool{})
	}
}

func (x *malformed) numbers(v ssa.Value, d int) []ssa.Value {
	if d > 6 {
		return nil
	}
	switch t := v.(type) {
	case *ssa.Const:
		return nil
	case *ssa.BinOp:
		return append(x.numbers(t.X, d+1), x.numbers(t.Y, d+1)...)
	case *ssa.Convert:
		if bytesOrString(t.X.Type()) {
			return nil
		}
		return []ssa.Value{t}
	case *ssa.Call:
		if _, ok := t.Call.Value.(*ssa.Builtin); ok {
			return nil
		}
		if t.Type().Underlying() == types.Typ[types.Int] || isNumber(t.Type()) {
			return []ssa.Value{t}
		}
		return nil
	case *ssa.Phi:
		return nil // a count kept by the program
	}
	return []ssa.Value{v}
}

// bounded: the number was tested from below and above on the way.
func (x *malformed) bounded(site ssa.Instruction, v ssa.Value, at ssa.Instruction, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	if q, ok := v.(*ssa.Parameter); ok {
		f := q.Parent()
		pos := -1
		for j, r := range f.Params {
			if r == q {
				pos = j
			}
		}
		for _, g := range x.p.Funcs {
			for _, c := range calls(g) {
				for _, h := range x.p.Callees(c) {
					if h != f {
						continue
					}
					if a := argFor(c, f, pos); a != nil && x.tainted(a) {
						for _, w := range x.numbers(a, 0) {
							if x.tainted(w) {
								x.bounded(c.(ssa.Instruction), w, c.(ssa.Instruction), seen)
							}
						}
					}
				}
			}
		}
		return
	}
	forms := map[ssa.Value]bool{v: true}
	for w := v; ; {
		if cv, ok := w.(*ssa.Convert); ok {
			w = cv.X
			forms[w] = true
			continue
		}
		break
	}
	// other conversions of the same number
	for w := range forms {
		if w.Referrers() != nil {
			for _, r := range *w.Referrers() {
				if cv, ok := r.(*ssa.Convert); ok {
					forms[cv] = true
				}
			}
		}
	}
	unsigned := false
	if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
		unsigned = true
	}
	lower, upper := unsigned, false
	for _, iff := range x.cuts(at.Block()) {
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		sx, sy := bo.X, bo.Y
		op := bo.Op
		if forms[sy] {
			sx, sy, op = sy, sx, flip(op)
		}
		if !forms[sx] {
			continue
		}
		switch op {
		case token.EQL, token.NEQ:
			lower, upper = true, true
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if !iff.Pol {
				op = negate(op)
			}
			if op == token.LSS || op == token.LEQ {
				upper = true
			} else if k, ok := constInt(sy); ok && (k >= 0 || k == -1 && op == token.GTR) {
				lower = true
			}
		}
	}
	// a test of one of two ways to the place still shows that the other way was considered
	if !upper {
		for _, b := range at.Parent().Blocks {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || !reach(b)[at.Block()] {
				continue
			}
			if bo, ok := iff.Cond.(*ssa.BinOp); ok && isCompare(bo.Op) && (forms[bo.X] || forms[bo.Y]) {
				o := bo.Y
				if forms[bo.Y] {
					o = bo.X
				}
				if _, isC := constInt(o); !isC {
					upper = true
				}
			}
		}
	}
	switch {
	case !lower && !upper:
		x.fail("size", at, "memory is allocated for a number read from the input that was never tested: a malformed file panics")
	case !lower:
		x.fail("size", at, "memory is allocated for a number read from the input that may be negative: a malformed file panics")
	case !upper:
		x.fail("size", at, "memory is allocated for a number read from the input that may be far too large: a malformed file panics")
	default:
		x.pass("size", at, "tested from below and above")
	}
}

// ---------- recovery ----------

// recovers: the function calls recover, and is deferred somewhere.
func (x *malformed) recoverCall(f *ssa.Function) *ssa.Call {
	for _, c := range calls(f) {
		if cl, ok := c.(*ssa.Call); ok {
			if b, ok := cl.Call.Value.(*ssa.Builtin); ok && b.Name() == "recover" {
				return cl
			}
		}
	}
	return nil
}

func (x *malformed) handlers(n map[string]int) {
	for _, f := range x.p.Funcs {
		rc := x.recoverCall(f)
		if rc == nil {
			continue
		}
		n["recovery handlers"]++
		for _, i := range instrs(f) {
			switch t := i.(type) {
			case *ssa.TypeAssert:
				if t.X == ssa.Value(rc) && !t.CommaOk && !x.switched(t) {
					x.fail("recover", i, "the recovered value is asserted to have a type that nothing ensures: recovering from another panic panics again")
				}
			case *ssa.Panic:
				if v := stripIface(t.X); v != ssa.Value(rc) && !x.mentions(v, rc) {
					x.fail("recover", i, "the handler panics with something other than what it recovered: the reason is lost")
				}
			}
		}
		// the panic becomes an error
		ex := &Explorer{P: x.p, Decide: assumeNil(rc, false)}
		lost := ""
		ex.Visit = func(i ssa.Instruction, pp *pathPoint) bool {
			switch t := i.(type) {
			case *ssa.Store:
				if isErrorType(deref(t.Addr.Type())) && !isNilConst(t.Val) {
					pp.flags["set"] = true
				}
			case *ssa.Return:
				if !pp.flags["set"] {
					lost = x.p.InstrPos(t)
				}
				return true
			}
			return false
		}
		ex.Run(rc)
		hasErr := false
		for _, i := range instrs(f) {
			if s, ok := i.(*ssa.Store); ok && isErrorType(deref(s.Addr.Type())) {
				hasErr = true
			}
		}
		if lost != "" && (hasErr || x.readerOf(f)) {
			x.fail("recover", rc, "a recovered panic is not turned into an error on the path to "+lost)
		}
		x.pass("recover", rc, "hands every panic on or turns it into an error")
	}
}

// readerOf: the handler belongs to a function that reads.
func (x *malformed) readerOf(f *ssa.Function) bool {
	if f.Parent() != nil {
		return x.reads[f.Parent()]
	}
	for _, c := range x.p.callers[f] {
		if x.reads[c.Parent()] {
			return true
		}
	}
	return false
}

func stripIface(v ssa.Value) ssa.Value {
	for {
		switch t := v.(type) {
		case *ssa.MakeInterface:
			v = t.X
		case *ssa.ChangeInterface:
			v = t.X
		default:
			return v
		}
	}
}

func (x *malformed) mentions(v ssa.Value, rc *ssa.Call) bool {
	for _, l := range x.p.Trace(v, TraceOpt{Elems: true, Derive: true, ExternArgs: true, NoParams: true}) {
		if l == ssa.Value(rc) {
			return true
		}
	}
	return x.p.backSlice(v)[rc]
}

// guarded: the function defers a recovery before anything that could panic.
func (x *malformed) guardedBy(f *ssa.Function) *ssa.Defer {
	for _, c := range calls(f) {
		d, ok := c.(*ssa.Defer)
		if !ok {
			continue
		}
		for _, g := range x.p.Callees(d) {
			if x.recoverCall(g) != nil {
				return d
			}
		}
	}
	return nil
}

// escapes: panics brought about by the input, followed up to the exported functions that report errors.
func (x *malformed) escapes(n map[string]int) {
	p := x.p
	// functions with a panic that depends on the input
	own := map[*ssa.Function]ssa.Instruction{}
	for _, f := range p.Funcs {
		if x.recoverCall(f) != nil {
			continue
		}
		for _, i := range instrs(f) {
			pa, ok := i.(*ssa.Panic)
			if !ok {
				continue
			}
			if x.inputPanic(pa) {
				own[f] = i
				n["panics brought about by the input"]++
			}
		}
	}
	// up through the calls that hand on input (or read themselves)
	at := map[*ssa.Function]ssa.Instruction{}
	var work []*ssa.Function
	var fs []*ssa.Function
	for f := range own {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(a, b int) bool { return p.Name(fs[a]) < p.Name(fs[b]) })
	covered := func(f *ssa.Function, i ssa.Instruction) bool {
		d := x.guardedBy(f)
		return d != nil && before(d, i)
	}
	for _, f := range fs {
		if !covered(f, own[f]) {
			at[f] = own[f]
			work = append(work, f)
		}
	}
	via := map[*ssa.Function]*ssa.Function{}
	for len(work) > 0 {
		g := work[0]
		work = work[1:]
		for _, f := range p.Funcs {
			if at[f] != nil {
				continue
			}
			for _, c := range calls(f) {
				hit := false
				for _, h := range p.Callees(c) {
					if h == g {
						hit = true
					}
				}
				if !hit {
					continue
				}
				in := x.readsItself(g)
				for _, a := range allArgs(c) {
					if bytesOrString(a.Type()) && x.tainted(a) {
						in = true
					}
				}
				for _, a := range c.Common().Args {
					if x.tainted(a) {
						in = true
					}
				}
				ci := c.(ssa.Instruction)
				if !in || covered(f, ci) {
					continue
				}
				at[f] = ci
				via[f] = g
				work = append(work, f)
				break
			}
		}
	}
	for _, f := range p.Funcs {
		if !isExported(f) || f.Parent() != nil || !x.reads[f] || !isErrorResult(f) {
			continue
		}
		n["exported readers that report errors"]++
		if i := at[f]; i != nil {
			path := []string{p.Name(f)}
			g := f
			for via[g] != nil {
				g = via[g]
				path = append(path, p.Name(g))
			}
			k := "escape:" + p.Name(f)
			x.bad[k] = "a panic brought about by the input leaves the function instead of an error (" + strings.Join(path, " → ") + ", raised at " + p.InstrPos(own[g]) + ")"
			x.pos[k] = p.InstrPos(i)
		} else {
			k := "escape:" + p.Name(f)
			x.good[k] = "no panic brought about by the input leaves it"
			x.pos[k] = p.Pos(f.Pos())
		}
	}
}

func (x *malformed) readsItself(f *ssa.Function) bool { return x.reads[f] }

// inputPanic: the panic's value, or a condition it depends on, comes from the input.
func (x *malformed) inputPanic(pa *ssa.Panic) bool {
	dep := func(v ssa.Value) bool {
		if !x.tainted(v) {
			return false
		}
		// encoding a decoded value again does not fail
		for _, l := range x.p.Trace(v, TraceOpt{NoParams: true, NoCalls: true}) {
			var c *ssa.Call
			switch t := l.(type) {
			case *ssa.Call:
				c = t
			case *ssa.Extract:
				c, _ = t.Tuple.(*ssa.Call)
			}
			if c != nil {
				if o := calleeObj(c); o != nil && o.Pkg() != nil && o.Pkg().Path() == "encoding/json" && strings.HasPrefix(o.Name(), "Marshal") {
					return false
				}
			}
		}
		return true
	}
	if dep(pa.X) {
		return true
	}
	for _, g := range guardsOf(pa.Block()) {
		if x.tainted(g.Cond) {
			// the nearest condition only
			if g.If != nil && len(pa.Block().Preds) == 1 && pa.Block().Preds[0] == g.If.Block() {
				return dep(g.Cond)
			}
		}
	}
	return false
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C12", Rule: "for the CSV and ARFF readers: on every acyclic way round the loop that counts records the count grows by one per record read (for ARFF: per data line that is neither empty nor a comment) and by nothing otherwise, from zero; what is passed to Extend is that count, less one exactly under the header flag; the header flag is handed on unchanged to every reader; on every way round the loop that stores records the row number grows by exactly one after the record has been stored at it, except for the one record passed over under the header flag; every field of a record is stored (unless it is empty) at the column of its own index with that column's conversion; names and types are taken for every column from its own index, the types after exactly as many records as there are headers; a column is of numbers exactly when its entry matches the pattern of numbers, which as a constant accepts and refuses fixed lists of words; fields are trimmed; Attributes given for a column, by index, equality or name, are used for that column; the class is the last column or comes from what the caller says (the template's classes, the table of classes); declared values are split at commas and all added, in order.",
		Trust: []string{"encoding/csv and bufio.Scanner deliver the records and lines of their input", "the attributes a caller passes to ParseCSVBuildInstancesFromReader are those of the columns, in order (the library's own callers are checked)"}, Run: runC12})
}

type records struct {
	c *Ctx
	p *Prog
}

func runC12(c *Ctx) {
	r := &records{c, c.P}
	r.counts("base.ParseCSVGetRowsFromReader")
	r.arffCount("base.ParseARFFGetRows")
	r.allocated()
	r.flags()
	r.stored("base.ParseCSVBuildInstancesFromReader")
	r.stored("base.ParseDenseARFFBuildInstancesFromReader")
	r.columns()
	r.lastColumn()
	r.declared("base.ParseARFFGetAttributes")
	c.Floor("obligations about records and columns", c.Counts["record obligations"], 12)
}

func (r *records) check(ok bool, key, pos, good, bad string) {
	r.c.Count("record obligations", 1)
	r.c.Check(ok, key, pos, good, bad)
}

func (r *records) undecided(what string) { r.c.Count("undecided: "+what, 1) }

// reads: a call that takes the next record or line.
func recordRead(i ssa.Instruction) bool {
	call, ok := i.(*ssa.Call)
	if !ok {
		return false
	}
	o := calleeObj(call)
	return o != nil && (o.FullName() == "(*encoding/csv.Reader).Read" || o.FullName() == "(*bufio.Scanner).Scan")
}

func csvRead(i ssa.Instruction) bool {
	call, ok := i.(*ssa.Call)
	if !ok {
		return false
	}
	o := calleeObj(call)
	return o != nil && o.FullName() == "(*encoding/csv.Reader).Read"
}

// grown: how much an integer loop value has grown on a path (0 if unchanged), if that is known.
func grown(t *turnPath, ph *ssa.Phi) (int64, bool) {
	v := t.next(ph)
	n := int64(0)
	for k := 0; k < 20; k++ {
		if v == ssa.Value(ph) {
			return n, true
		}
		b, ok := v.(*ssa.BinOp)
		if !ok {
			return 0, false
		}
		if d, ok := constInt(b.Y); ok && b.Op == token.ADD {
			n += d
			v = t.resolve(b.X)
		} else if ok && b.Op == token.SUB {
			n -= d
			v = t.resolve(b.X)
		} else if d, ok := constInt(b.X); ok && b.Op == token.ADD {
			n += d
			v = t.resolve(b.Y)
		} else {
			return 0, false
		}
	}
	return 0, false
}

// countPhi: the loop value a function returns as its first result when it succeeds.
func countPhi(f *ssa.Function) (*ssa.Phi, string) {
	var out *ssa.Phi
	for _, ret := range returns(f) {
		if len(ret.Results) == 2 {
			if k, ok := resultAt(ret, 1).(*ssa.Const); !ok || !k.IsNil() {
				continue // an error
			}
		}
		v := resultAt(ret, 0)
		if ph, ok := v.(*ssa.Phi); ok && naturalLoop(ph.Block()) != nil {
			out = ph
			continue
		}
		if b, ok := v.(*ssa.BinOp); ok {
			if ph, ok := b.X.(*ssa.Phi); ok && naturalLoop(ph.Block()) != nil {
				if _, isC := constInt(b.Y); isC {
					return ph, "what is returned is not the number counted"
				}
			}
		}
	}
	return out, ""
}

// resultAt: what a return hands back (through the variable it is kept in while deferred calls run).
func resultAt(ret *ssa.Return, k int) ssa.Value {
	v := ret.Results[k]
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return v
	}
	a, ok := u.X.(*ssa.Alloc)
	if !ok {
		return v
	}
	for _, i := range ret.Block().Instrs {
		if st, ok := i.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
			v = st.Val
		}
	}
	return v
}

func startsAtZero(ph *ssa.Phi, loop map[*ssa.BasicBlock]bool) bool {
	for k, e := range ph.Edges {
		if !loop[ph.Block().Preds[k]] {
			if n, ok := constInt(e); ok && n != 0 {
				return false
			}
		}
	}
	return true
}

func (r *records) counts(name string) {
	f := r.p.Func(name)
	if f == nil {
		r.undecided("count of records")
		return
	}
	key := "count:" + name
	ph, bad := countPhi(f)
	if ph == nil {
		r.undecided("count of records")
		return
	}
	loop := naturalLoop(ph.Block())
	paths, full := turnPaths(ph.Block(), loop, 500)
	if !full || len(paths) == 0 {
		r.undecided("count of records")
		return
	}
	if bad == "" && !startsAtZero(ph, loop) {
		bad = "the count does not start at zero"
	}
	for _, t := range paths {
		if !t.feasible() {
			continue
		}
		n, ok := grown(t, ph)
		reads := int64(0)
		for _, b := range t.blocks[:len(t.blocks)-1] {
			for _, i := range b.Instrs {
				if recordRead(i) {
					reads++
				}
			}
		}
		if !ok {
			r.undecided("count of records")
			return
		}
		if n != reads && bad == "" {
			bad = fmt.Sprintf("a turn that reads %d record(s) adds %d to the count", reads, n)
		}
	}
	r.check(bad == "", key, r.p.Pos(f.Pos()), "counts every record once", bad)
}

// lineTest: what a condition says about a scanned line: it is empty, it is a comment, or it is the start of the data.
func lineTest(t *turnPath, v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Call:
		o := calleeObj(x)
		if o == nil {
			return ""
		}
		if k, ok := constStr(lastArg(x)); ok && k == "%" {
			switch o.FullName() {
			case "strings.HasPrefix":
				return "comment"
			}
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ && x.Op != token.GTR && x.Op != token.LSS {
			return ""
		}
		neg := ""
		if x.Op == token.NEQ || x.Op == token.GTR {
			neg = "not "
		}
		if k, ok := constInt(x.Y); ok {
			if k == '%' {
				if lk, ok := t.resolve(x.X).(*ssa.Lookup); ok {
					if i, ok := constInt(lk.Index); ok && i == 0 {
						return neg + "comment"
					}
				}
				if ix, ok := t.resolve(x.X).(*ssa.Index); ok {
					if i, ok := constInt(ix.Index); ok && i == 0 {
						return neg + "comment"
					}
				}
			}
			if c, ok := t.resolve(x.X).(*ssa.Call); ok && (k == 0 && x.Op != token.LSS || k == 1 && x.Op == token.LSS) {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					return neg + "empty"
				}
			}
		}
		if k, ok := constStr(x.Y); ok {
			if k == "" {
				return neg + "empty"
			}
			if strings.EqualFold(k, "@data") {
				return neg + "data"
			}
		}
	}
	return ""
}

func lastArg(c *ssa.Call) ssa.Value {
	as := argsOf(c)
	if len(as) == 0 {
		return nil
	}
	return as[len(as)-1]
}

// lineFacts: what a path says about its line; flag: 1 the flag holds, -1 it does not, 0 not asked.
func (r *records) lineFacts(t *turnPath, flag *ssa.Phi) (say map[string]bool, on int, other bool) {
	say = map[string]bool{}
	for _, fc := range t.facts() {
		if fc.cond == ssa.Value(flag) {
			on = 1
			if !fc.pol {
				on = -1
			}
			continue
		}
		if c, ok := fc.cond.(*ssa.Call); ok && recordRead(c) {
			continue
		}
		s := lineTest(t, fc.cond)
		if s == "" {
			other = true
			continue
		}
		pol := fc.pol
		if strings.HasPrefix(s, "not ") {
			s, pol = s[4:], !pol
		}
		say[s] = pol
		if !pol {
			say["not "+s] = true
		}
	}
	return
}

func flagPhi(h *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, i := range h.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		if basicInfo(ph.Type())&types.IsBoolean != 0 {
			out = append(out, ph)
		}
	}
	return out
}

// started: the flag that tells whether the data have begun is raised by the line @data and never lowered.
func (r *records) started(t *turnPath, flag *ssa.Phi, say map[string]bool, on int) string {
	nx := t.next(flag)
	if nx == ssa.Value(flag) {
		if say["data"] && on <= 0 {
			return "the line @data does not start the data"
		}
		return ""
	}
	if k, ok := constBool(nx); ok {
		if k && !say["data"] && on != 1 {
			return "the data start at a line other than @data"
		}
		if !k && on >= 0 {
			return "the data end before the file does"
		}
	}
	return ""
}

func (r *records) arffCount(name string) {
	f := r.p.Func(name)
	if f == nil {
		r.undecided("count of records")
		return
	}
	ph, bad := countPhi(f)
	if ph == nil {
		r.undecided("count of records")
		return
	}
	loop := naturalLoop(ph.Block())
	flags := flagPhi(ph.Block())
	paths, full := turnPaths(ph.Block(), loop, 2000)
	if !full || len(flags) != 1 || len(paths) == 0 {
		r.undecided("count of records")
		return
	}
	if !startsAtZero(ph, loop) {
		bad = "the count does not start at zero"
	}
	for _, t := range paths {
		if !t.feasible() || bad != "" {
			continue
		}
		n, ok := grown(t, ph)
		say, on, other := r.lineFacts(t, flags[0])
		if !ok {
			r.undecided("count of records")
			return
		}
		switch {
		case on == 1 && (say["empty"] || say["comment"]):
			if n != 0 {
				bad = "an empty line or a comment is counted as a record"
			}
		case on == 1 && n == 0 && other:
			bad = "some lines of data are not counted"
		case on == 1 && n != 1:
			bad = fmt.Sprintf("a line of data adds %d to the count", n)
		case on == 1 && !say["not comment"]:
			bad = "comments are counted as records"
		case on != 1 && n != 0:
			bad = "a line before the data is counted"
		}
		if bad == "" {
			bad = r.started(t, flags[0], say, on)
		}
	}
	r.check(bad == "", "count:"+name, r.p.Pos(f.Pos()), "counts every line of data once", bad)
}

// headerFlag: the one boolean a reader takes.
func headerFlag(f *ssa.Function) *ssa.Parameter {
	var out *ssa.Parameter
	for _, q := range f.Params {
		if basicInfo(q.Type())&types.IsBoolean != 0 {
			if out != nil {
				return nil
			}
			out = q
		}
	}
	return out
}

// assuming: the blocks reached when a parameter has a value.
func assuming(f *ssa.Function, flag *ssa.Parameter, val bool) map[*ssa.BasicBlock]bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{f.Blocks[0]}
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && flag != nil {
			c, pol := iff.Cond, true
			for {
				u, ok := c.(*ssa.UnOp)
				if !ok || u.Op != token.NOT {
					break
				}
				c, pol = u.X, !pol
			}
			if isParam(c, flag) {
				k := 0
				if val != pol {
					k = 1
				}
				st = append(st, b.Succs[k])
				continue
			}
		}
		st = append(st, b.Succs...)
	}
	return seen
}

// isParam: a parameter, or a load of the cell it was put into (and nothing else was).
func isParam(v ssa.Value, q *ssa.Parameter) bool {
	if v == ssa.Value(q) {
		return true
	}
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	a, ok := u.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	n := 0
	for _, rf := range *a.Referrers() {
		if st, ok := rf.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
			n++
			if st.Val != ssa.Value(q) {
				return false
			}
		}
	}
	return n > 0
}

// offset: a value as the number of records counted plus a constant, when the flag has a value.
func (r *records) offset(v ssa.Value, f *ssa.Function, flag *ssa.Parameter, val bool, counters map[*ssa.Function]bool, at map[*ssa.Parameter]ssa.Value, depth int) (int64, bool) {
	if depth > 12 {
		return 0, false
	}
	switch x := v.(type) {
	case *ssa.Extract:
		call, ok := x.Tuple.(*ssa.Call)
		if !ok || x.Index != 0 {
			return 0, false
		}
		return r.offsetCall(call, f, flag, val, counters, at, depth)
	case *ssa.Call:
		return r.offsetCall(x, f, flag, val, counters, at, depth)
	case *ssa.BinOp:
		if k, ok := constInt(x.Y); ok && (x.Op == token.ADD || x.Op == token.SUB) {
			n, ok := r.offset(x.X, f, flag, val, counters, at, depth+1)
			if x.Op == token.SUB {
				k = -k
			}
			return n + k, ok
		}
	case *ssa.Phi:
		live := assuming(f, flag, val)
		out, got := int64(0), false
		for k, e := range x.Edges {
			pr := x.Block().Preds[k]
			if !live[pr] || !edgeLive(pr, x.Block(), flag, val) {
				continue
			}
			n, ok := r.offset(e, f, flag, val, counters, at, depth+1)
			if !ok || got && n != out {
				return 0, false
			}
			out, got = n, true
		}
		return out, got
	case *ssa.UnOp:
		if a := r.p.cellOf(x.X); x.Op == token.MUL && a != nil {
			// a cell: the store that reaches, block by block
			return r.offsetCell(a, x, f, flag, val, counters, at, depth)
		}
	case *ssa.Parameter:
		if o, ok := at[x]; ok && x.Parent() != f {
			return 0, o != nil
		}
		if o, ok := at[x]; ok {
			_ = o
			return 0, true
		}
	}
	return 0, false
}

func edgeLive(pr, to *ssa.BasicBlock, flag *ssa.Parameter, val bool) bool {
	iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
	if !ok || flag == nil || pr.Succs[0] == pr.Succs[1] {
		return true
	}
	c, pol := iff.Cond, true
	for {
		u, ok := c.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		c, pol = u.X, !pol
	}
	if !isParam(c, flag) {
		return true
	}
	return (pr.Succs[0] == to) == (val == pol)
}

func (r *records) offsetCell(a *ssa.Alloc, load *ssa.UnOp, f *ssa.Function, flag *ssa.Parameter, val bool, counters map[*ssa.Function]bool, at map[*ssa.Parameter]ssa.Value, depth int) (int64, bool) {
	live := assuming(f, flag, val)
	var last *ssa.Store
	for _, st := range r.p.cellStores(a) {
		if st.Parent() != f {
			return 0, false
		}
		if !live[st.Block()] || !instrBefore(st, load) {
			continue
		}
		if last == nil || instrBefore(last, st) {
			last = st
		}
	}
	if last == nil {
		return 0, false
	}
	return r.offset(last.Val, f, flag, val, counters, at, depth+1)
}

// instrBefore: a comes before b on every way that passes both (no loops considered).
func instrBefore(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, i := range a.Block().Instrs {
			if i == a {
				return true
			}
			if i == b {
				return false
			}
		}
	}
	return reach(a.Block())[b.Block()]
}

func (r *records) offsetCall(call *ssa.Call, f *ssa.Function, flag *ssa.Parameter, val bool, counters map[*ssa.Function]bool, at map[*ssa.Parameter]ssa.Value, depth int) (int64, bool) {
	g := call.Call.StaticCallee()
	if g == nil || len(g.Blocks) == 0 {
		return 0, false
	}
	if counters[g] {
		return 0, true
	}
	gflag := headerFlag(g)
	if gflag != nil {
		passed := false
		for k, q := range g.Params {
			if q == gflag && flag != nil && isParam(call.Call.Args[k], flag) {
				passed = true
			}
		}
		if !passed {
			return 0, false
		}
	}
	in := map[*ssa.Parameter]ssa.Value{}
	base := int64(0)
	for k, q := range g.Params {
		if basicInfo(q.Type())&types.IsInteger != 0 {
			n, ok := r.offset(call.Call.Args[k], f, flag, val, counters, at, depth+1)
			if ok {
				in[q] = call.Call.Args[k]
				base = n
			}
		}
	}
	live := assuming(g, gflag, val)
	out, got := int64(0), false
	for _, ret := range returns(g) {
		if !live[ret.Block()] || len(ret.Results) == 0 {
			continue
		}
		if len(ret.Results) == 2 {
			if k, ok := resultAt(ret, 1).(*ssa.Const); !ok || !k.IsNil() {
				if _, isC := resultAt(ret, 0).(*ssa.Const); isC {
					continue
				}
			}
		}
		n, ok := r.offset(resultAt(ret, 0), g, gflag, val, counters, in, depth+1)
		if !ok || got && n != out {
			return 0, false
		}
		out, got = n, true
	}
	return out + base, got
}

func (r *records) counterSet() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, n := range []string{"base.ParseCSVGetRowsFromReader", "base.ParseCSVGetRows", "base.ParseARFFGetRows"} {
		if f := r.p.Func(n); f != nil {
			out[f] = true
		}
	}
	return out
}

// allocated: the rows made for a file are as many as its records.
func (r *records) allocated() {
	counters := r.counterSet()
	for _, f := range r.p.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Name() != "base" || len(f.Blocks) == 0 {
			continue
		}
		uses := false
		for g := range r.p.staticReach(f) {
			if counters[g] {
				uses = true
			}
		}
		if !uses {
			continue
		}
		flag := headerFlag(f)
		for _, i := range instrs(f) {
			call, ok := i.(*ssa.Call)
			if !ok {
				continue
			}
			o := calleeObj(call)
			if o == nil || o.Name() != "Extend" || len(argsOf(call)) != 1 {
				continue
			}
			v := argsOf(call)[0]
			key := "rows:" + r.p.Name(f)
			vals := []bool{true, false}
			if flag == nil {
				vals = vals[1:]
			}
			bad, known := "", true
			for _, val := range vals {
				n, ok := r.offset(v, f, flag, val, counters, nil, 0)
				if !ok {
					known = false
					continue
				}
				want := int64(0)
				if val {
					want = -1
				}
				if n != want {
					how := ""
					if flag != nil {
						how = " without a header"
						if val {
							how = " with a header"
						}
					}
					bad = fmt.Sprintf("the rows allocated for a file%s are its records %+d, not %+d", how, n, want)
				}
			}
			if bad == "" && !known {
				r.undecided("rows allocated")
				continue
			}
			r.check(bad == "", key, r.p.InstrPos(call), "one row per record", bad)
		}
	}
}

// flags: whether there is a header is passed on as it was given.
func (r *records) flags() {
	takes := map[*ssa.Function]bool{}
	for _, f := range r.p.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Name() != "base" || len(f.Blocks) == 0 || f.Parent() != nil || headerFlag(f) == nil {
			continue
		}
		for g := range r.p.staticReach(f) {
			for _, i := range instrs(g) {
				if csvRead(i) {
					takes[f] = true
				}
			}
		}
	}
	for _, f := range r.p.Funcs {
		if !takes[f] {
			continue
		}
		flag := headerFlag(f)
		bad, n := "", 0
		at := r.p.Pos(f.Pos())
		for _, i := range instrs(f) {
			call, ok := i.(*ssa.Call)
			if !ok {
				continue
			}
			g := call.Call.StaticCallee()
			if g == nil || !takes[g] {
				continue
			}
			for k, q := range g.Params {
				if q != headerFlag(g) {
					continue
				}
				n++
				a := call.Call.Args[k]
				if isParam(a, flag) {
					continue
				}
				if kv, ok := constBool(a); ok {
					// a constant under the very case
					if live := assuming(f, flag, !kv); !live[call.Block()] {
						continue
					}
				} else if u, ok := a.(*ssa.UnOp); !ok || u.Op != token.NOT {
					r.undecided("header flag")
					continue
				}
				bad = fmt.Sprintf("%s is not told whether there is a header as this reader was", r.p.Name(g))
				at = r.p.InstrPos(call)
			}
		}
		if n > 0 {
			r.check(bad == "", "header:"+r.p.Name(f), at, "passes the header flag on", bad)
		}
	}
}

// ---- storing ----

type fieldSite struct {
	set *ssa.Call
	fn  *ssa.Function
	via *ssa.Call // the call of the helper it is in, or nil
}

func (s *fieldSite) block() *ssa.BasicBlock {
	if s.via != nil {
		return s.via.Block()
	}
	return s.set.Block()
}

func (s *fieldSite) site() ssa.Instruction {
	if s.via != nil {
		return s.via
	}
	return s.set
}

func setCall(i ssa.Instruction) *ssa.Call {
	call, ok := i.(*ssa.Call)
	if !ok {
		return nil
	}
	o := calleeObj(call)
	if o == nil || o.Name() != "Set" || len(argsOf(call)) != 3 {
		return nil
	}
	if n, ok := argsOf(call)[0].Type().(*types.Named); !ok || n.Obj().Name() != "AttributeSpec" {
		return nil
	}
	return call
}

func (r *records) stored(name string) {
	f := r.p.Func(name)
	if f == nil {
		r.undecided("records stored")
		return
	}
	key := "records:" + name
	var sites []*fieldSite
	for _, i := range instrs(f) {
		if s := setCall(i); s != nil {
			sites = append(sites, &fieldSite{s, f, nil})
		}
		call, ok := i.(*ssa.Call)
		if !ok {
			continue
		}
		if g := call.Call.StaticCallee(); g != nil && len(g.Blocks) > 0 && g.Pkg == f.Pkg {
			for _, j := range instrs(g) {
				if s := setCall(j); s != nil {
					sites = append(sites, &fieldSite{s, g, call})
				}
			}
		}
	}
	var rd *ssa.Call
	var outside []*ssa.Call
	for _, i := range instrs(f) {
		if csvRead(i) {
			if h, _ := innermostLoop(i.Block()); h != nil {
				if rd != nil {
					r.undecided("records stored")
					return
				}
				rd = i.(*ssa.Call)
			} else {
				outside = append(outside, i.(*ssa.Call))
			}
		}
	}
	if len(sites) == 0 || rd == nil {
		r.undecided("records stored")
		return
	}
	head, loop := innermostLoop(rd.Block())
	for _, s := range sites {
		if !loop[s.block()] {
			r.undecided("records stored")
			return
		}
	}
	// the row number
	row := argsOf(sites[0].set)[1]
	if q, ok := row.(*ssa.Parameter); ok && sites[0].via != nil {
		for k, x := range sites[0].fn.Params {
			if x == q {
				row = sites[0].via.Call.Args[k]
			}
		}
	}
	ctr := r.counterOf(row, head)
	if ctr == nil {
		r.undecided("records stored")
		return
	}
	bad := ""
	if k, ok := ctr.start(r.p, head, loop); ok {
		if off, ok2 := ctr.rowOffset(row); ok2 && k+off != 0 {
			bad = fmt.Sprintf("the first record is stored in row %d", k+off)
		}
	}
	if bad == "" {
		bad = ctr.elsewhere(r.p, loop, head)
	}
	flag := headerFlag(f)
	var hdr *ssa.Phi
	if flag != nil {
		for _, ph := range flagPhi(head) {
			for k, e := range ph.Edges {
				if !loop[head.Preds[k]] && isParam(e, flag) {
					hdr = ph
				}
			}
		}
	}
	paths, full := turnPaths(head, loop, 4000)
	if !full {
		r.undecided("records stored")
		return
	}
	skipped := false
	for _, t := range paths {
		if !t.feasible() || bad != "" {
			continue
		}
		_, hasRead := t.pos[rd.Block()]
		if !hasRead {
			continue
		}
		stores := false
		for _, s := range sites {
			if _, on := t.pos[s.block()]; on {
				stores = true
			}
			if h, l := innermostLoop(s.block()); h != nil && h != head && !l[head] {
				// the loop over the fields: outermost inside the record loop
				for o := h; o != nil && o != head; o = o.Idom() {
					if ll := naturalLoop(o); ll != nil && ll[s.block()] {
						if _, on := t.pos[o]; on {
							stores = true
						}
					}
				}
			}
		}
		n, ok := ctr.grown(t)
		if !ok {
			r.undecided("records stored")
			return
		}
		isHdr, first := 0, 0
		for _, fc := range t.facts() {
			if hdr != nil && fc.cond == ssa.Value(hdr) {
				isHdr = -1
				if fc.pol {
					isHdr = 1
				}
			}
			if b, ok := fc.cond.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
				if k, isC := constInt(b.Y); isC && k == 0 && ctr.is(t.resolve(b.X)) {
					first = -1
					if fc.pol == (b.Op == token.EQL) {
						first = 1
					}
				}
			}
		}
		switch {
		case isHdr == 1 && first != -1:
			if stores {
				bad = "the header is stored as a record"
			} else if n != 0 {
				bad = "the header takes up a row"
			} else if k, ok := constBool(t.next(hdr)); !ok || k {
				bad = "every record is passed over, not only the header"
			}
			skipped = true
		case n == 0 && !stores:
			bad = "a record is passed over"
		case !stores:
			bad = "a record is not stored"
		case n != 1:
			bad = fmt.Sprintf("the row number grows by %d after a record", n)
		}
	}
	if bad == "" && flag != nil && hdr == nil {
		ok := false
		for _, o := range outside {
			if live := assuming(f, flag, false); !live[o.Block()] {
				ok = true
			}
		}
		if !ok {
			if len(*flag.Referrers()) == 0 {
				bad = "the header is stored as a record"
			} else {
				r.undecided("header")
				return
			}
		}
	}
	if bad == "" && hdr != nil && !skipped {
		bad = "the header is stored as a record"
	}
	r.check(bad == "", key, r.p.InstrPos(rd), "every record goes to the next row", bad)

	// lines that are passed over before they get to the record reader (ARFF)
	if oh, ol := loopAround(head); oh != nil && bad == "" {
		r.lines(name, f, oh, ol, head)
	}
	for n, s := range sites {
		r.field(fmt.Sprintf("field:%s#%d", name, n), s, rd)
	}
}

func loopAround(h *ssa.BasicBlock) (*ssa.BasicBlock, map[*ssa.BasicBlock]bool) {
	for o := h.Idom(); o != nil; o = o.Idom() {
		if l := naturalLoop(o); l != nil && l[h] {
			return o, l
		}
	}
	return nil, nil
}

// lines: every line of data that is not a comment gets to the record reader.
func (r *records) lines(name string, f *ssa.Function, h *ssa.BasicBlock, loop map[*ssa.BasicBlock]bool, records *ssa.BasicBlock) {
	flags := flagPhi(h)
	paths, full := turnPaths(h, loop, 4000)
	if len(flags) != 1 || !full {
		r.undecided("lines read")
		return
	}
	bad := ""
	for _, t := range paths {
		if !t.feasible() || bad != "" {
			continue
		}
		_, gets := t.pos[records]
		say, on, _ := r.lineFacts(t, flags[0])
		switch {
		case gets && on != 1:
			bad = "a line before the data is stored"
		case gets && !say["not comment"]:
			bad = "a comment is stored"
		case !gets && on != -1 && !say["comment"] && !say["empty"]:
			bad = "a line of data that is no comment is passed over"
		}
		if bad == "" {
			bad = r.started(t, flags[0], say, on)
		}
	}
	r.check(bad == "", "lines:"+name, r.p.Pos(f.Pos()), "every line of data is read", bad)
}

// ---- the row counter: a loop value or a variable kept in memory ----

type rowCounter struct {
	phi  *ssa.Phi
	cell *ssa.Alloc
	p    *Prog
}

func (r *records) counterOf(v ssa.Value, head *ssa.BasicBlock) *rowCounter {
	for n := 0; n < 6; n++ {
		switch x := v.(type) {
		case *ssa.BinOp:
			if _, ok := constInt(x.Y); ok {
				v = x.X
				continue
			}
			return nil
		case *ssa.UnOp:
			if a := r.p.cellOf(x.X); x.Op == token.MUL && a != nil {
				return &rowCounter{cell: a, p: r.p}
			}
			return nil
		case *ssa.Phi:
			if x.Block() == head {
				return &rowCounter{phi: x, p: r.p}
			}
			if naturalLoop(x.Block()) != nil || len(x.Edges) == 0 {
				return nil
			}
			v = x.Edges[0]
			continue
		}
		return nil
	}
	return nil
}

func (c *rowCounter) is(v ssa.Value) bool {
	if c.phi != nil {
		return v == ssa.Value(c.phi)
	}
	u, ok := v.(*ssa.UnOp)
	return ok && u.Op == token.MUL && c.p.cellOf(u.X) == c.cell
}

func (c *rowCounter) rowOffset(v ssa.Value) (int64, bool) {
	if b, ok := v.(*ssa.BinOp); ok {
		k, isC := constInt(b.Y)
		if !isC || !c.is(b.X) {
			return 0, false
		}
		if b.Op == token.SUB {
			return -k, true
		}
		return k, b.Op == token.ADD
	}
	return 0, c.is(v)
}

func (c *rowCounter) start(p *Prog, head *ssa.BasicBlock, loop map[*ssa.BasicBlock]bool) (int64, bool) {
	if c.phi != nil {
		for k, e := range c.phi.Edges {
			if !loop[head.Preds[k]] {
				return constInt(e)
			}
		}
		return 0, false
	}
	n := int64(0)
	for _, st := range p.cellStores(c.cell) {
		if loop[st.Block()] || st.Parent() != head.Parent() {
			continue
		}
		k, ok := constInt(st.Val)
		if !ok {
			return 0, false
		}
		n = k
	}
	return n, true
}

// elsewhere: changes of the row number outside the loop over the records, or in an inner loop.
func (c *rowCounter) elsewhere(p *Prog, loop map[*ssa.BasicBlock]bool, head *ssa.BasicBlock) string {
	if c.cell == nil {
		if h, l := loopAround(head); h != nil {
			_ = l
			for k, e := range c.phi.Edges {
				if loop[head.Preds[k]] {
					continue
				}
				if ph, ok := e.(*ssa.Phi); ok && ph.Block() == h {
					for j, x := range ph.Edges {
						if l[h.Preds[j]] && x != ssa.Value(c.phi) && x != ssa.Value(ph) {
							if _, isPhi := x.(*ssa.Phi); !isPhi {
								return "the row number changes between the records of one line and the next"
							}
						}
					}
				}
			}
		}
		return ""
	}
	for _, st := range p.cellStores(c.cell) {
		if st.Parent() != head.Parent() {
			return "the row number is changed by another function"
		}
		if _, ok := constInt(st.Val); ok && !loop[st.Block()] {
			if h, _ := innermostLoop(st.Block()); h == nil {
				continue
			}
			return "the row number starts again within a file"
		}
		if !loop[st.Block()] {
			return "the row number changes other than with a record"
		}
		if h, _ := innermostLoop(st.Block()); h != head {
			return "the row number changes for every field of a record"
		}
	}
	return ""
}

func (c *rowCounter) grown(t *turnPath) (int64, bool) {
	if c.phi != nil {
		return grown(t, c.phi)
	}
	n := int64(0)
	for _, b := range t.blocks[:len(t.blocks)-1] {
		for _, i := range b.Instrs {
			st, ok := i.(*ssa.Store)
			if !ok || c.p.cellOf(st.Addr) != c.cell {
				continue
			}
			k, ok := c.rowOffset(st.Val)
			if !ok {
				return 0, false
			}
			n += k
		}
	}
	return n, true
}

// ---- fields ----

// elemOf: the list and index an element is read from.
func (p *Prog) elemOf(v ssa.Value) (ssa.Value, ssa.Value, bool) {
	for n := 0; n < 8; n++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil, nil, false
			}
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				return ia.X, ia.Index, true
			}
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				// a field of an element
				if ia, ok := fa.X.(*ssa.IndexAddr); ok {
					return ia.X, ia.Index, true
				}
				if a, ok := fa.X.(*ssa.Alloc); ok {
					if ss := p.cellStores(a); len(ss) == 1 {
						v = ss[0].Val
						continue
					}
				}
				return nil, nil, false
			}
			if a := p.cellOf(x.X); a != nil {
				if ss := p.cellStores(a); len(ss) == 1 {
					v = ss[0].Val
					continue
				}
			}
			return nil, nil, false
		case *ssa.Field:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.Extract:
			if ta, ok := x.Tuple.(*ssa.TypeAssert); ok {
				v = ta.X
				continue
			}
			return nil, nil, false
		case *ssa.Call:
			o := calleeObj(x)
			if o == nil {
				return nil, nil, false
			}
			if o.Pkg() != nil && o.Pkg().Path() == "strings" && len(x.Call.Args) > 0 {
				v = x.Call.Args[0]
				continue
			}
			if o.Name() == "GetAttribute" && len(argsOf(x)) == 0 {
				v = recvOf(x)
				if v == nil {
					return nil, nil, false
				}
				continue
			}
			return nil, nil, false
		default:
			return nil, nil, false
		}
	}
	return nil, nil, false
}

func (r *records) field(key string, s *fieldSite, rd *ssa.Call) {
	as := argsOf(s.set)
	_, i, ok := r.p.elemOf(as[0])
	if !ok {
		r.undecided("field stored")
		return
	}
	bad := ""
	val := as[2]
	call, isCall := val.(*ssa.Call)
	if !isCall || calleeObj(call) == nil || calleeObj(call).Name() != "GetSysValFromString" || len(argsOf(call)) != 1 {
		r.undecided("field stored")
		return
	}
	if _, j, ok := r.p.elemOf(recvOf(call)); ok && !r.p.sameRead(i, j) {
		bad = "a value is converted by the Attribute of another column than it is stored in"
	}
	list, k, ok := r.p.elemOf(argsOf(call)[0])
	if ok && !r.p.sameRead(i, k) {
		bad = "a value is stored in another column than it stands in"
	}
	if ok && !r.trimmed(argsOf(call)[0]) && !r.trimmed(list) {
		bad = "the blanks around a field are taken for part of its value"
	}
	// the loop over the fields
	h, loop := innermostLoop(s.set.Block())
	if !ok || h == nil || loop[rd.Block()] && s.via == nil {
		if bad != "" {
			r.check(false, key, r.p.InstrPos(s.set), "", bad)
		} else {
			r.undecided("field stored")
		}
		return
	}
	paths, full := turnPaths(h, loop, 500)
	if !full {
		r.undecided("field stored")
		return
	}
	for _, t := range paths {
		if _, on := t.pos[s.set.Block()]; on || !t.feasible() || bad != "" {
			continue
		}
		empty := false
		for _, fc := range t.facts() {
			if w := lineTest(t, fc.cond); w == "empty" && fc.pol || w == "not empty" && !fc.pol {
				empty = true
			}
		}
		if !empty {
			bad = "a field that is not empty is passed over"
		}
	}
	// ways out of the loop other than at its end
	if bad == "" {
		for b := range loop {
			if b == h {
				continue
			}
			for _, x := range b.Succs {
				if loop[x] {
					continue
				}
				back := reach(x)
				if s.via != nil {
					// out of the helper: fine only with a failure
					for _, ret := range returns(s.fn) {
						if (back[ret.Block()] || ret.Block() == x) && len(ret.Results) == 0 {
							bad = "the fields behind some field are passed over"
						}
					}
				} else if back[rd.Block()] {
					bad = "the fields behind some field are passed over"
				}
			}
		}
	}
	// the loop runs over the whole record
	if bad == "" {
		for _, l := range countingLoops(s.fn) {
			if l.Header != h || l.Step != 1 {
				continue
			}
			if n, ok := constInt(l.Init); ok && !l.Range && n != 0 {
				bad = fmt.Sprintf("the first %d field(s) of a record are passed over", n)
			}
			if b, ok := l.Bound.(*ssa.BinOp); ok && b.Op == token.SUB {
				bad = "the last fields of a record are passed over"
			}
		}
	}
	_ = list
	r.check(bad == "", key, r.p.InstrPos(s.set), "each field is stored in its own column", bad)
}

// ---- columns ----

func (r *records) columns() {
	for _, f := range r.p.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Name() != "base" || len(f.Blocks) == 0 {
			continue
		}
		reads := false
		for g := range r.p.staticReach(f) {
			for _, i := range instrs(g) {
				if csvRead(i) {
					reads = true
				}
			}
		}
		if !reads {
			continue
		}
		r.asGiven(f)
		for _, i := range instrs(f) {
			call, ok := i.(*ssa.Call)
			if !ok || calleeObj(call) == nil || calleeObj(call).Name() != "SetName" || len(argsOf(call)) != 1 {
				continue
			}
			_, a, ok1 := r.p.elemOf(recvOf(call))
			_, b, ok2 := r.p.elemOf(argsOf(call)[0])
			if !ok1 || !ok2 {
				r.undecided("column names")
				continue
			}
			r.check(r.p.sameRead(a, b), "name:"+r.p.Name(f), r.p.InstrPos(call), "a column gets its own name", "a column gets the name of another one")
		}
	}
	r.sniffNames("base.ParseCSVSniffAttributeNamesFromReader")
	r.sniffTypes("base.ParseCSVSniffAttributeTypesFromReader")
	if f := r.p.Func("base.ParseCSVSniffAttributeTypesFromReader"); f != nil {
		r.numbers(f)
	}
	r.matched("base.ParseMatchAttributes")
}

// readsBefore: how many records are read on the ways to a block when the flag has a value.
func (r *records) readsBefore(f *ssa.Function, to *ssa.BasicBlock, flag *ssa.Parameter, val bool) (map[int]bool, bool) {
	ways, full := waysTo(f, to, 2000)
	if !full {
		return nil, false
	}
	out := map[int]bool{}
	for _, w := range ways {
		n, ok := 0, true
		for k, b := range w {
			if k+1 < len(w) && !edgeLive(b, w[k+1], flag, val) {
				ok = false
			}
			if k+1 == len(w) {
				continue
			}
			for _, i := range b.Instrs {
				if csvRead(i) {
					n++
				}
			}
		}
		if ok {
			out[n] = true
		}
	}
	return out, true
}

func (r *records) sniffTypes(name string) {
	f := r.p.Func(name)
	if f == nil {
		r.undecided("column types")
		return
	}
	flag := headerFlag(f)
	// the loop that makes an Attribute per column
	for _, i := range instrs(f) {
		ph, ok := i.(*ssa.Phi)
		if !ok || flag == nil {
			continue
		}
		loop := naturalLoop(ph.Block())
		sl, isS := ph.Type().Underlying().(*types.Slice)
		if loop == nil || !isS || types.TypeString(sl.Elem(), func(*types.Package) string { return "" }) != "Attribute" {
			continue
		}
		bad := ""
		for _, val := range []bool{true, false} {
			got, ok := r.readsBefore(f, ph.Block(), flag, val)
			want := 1
			if val {
				want = 2
			}
			if ok && (len(got) != 1 || !got[want]) && len(got) > 0 {
				bad = fmt.Sprintf("with header=%v the column types are those of record %v of the file, not record %d", val, sortedInts(got), want)
			}
		}
		paths, full := turnPaths(ph.Block(), loop, 500)
		if !full {
			r.undecided("column types")
			return
		}
		for _, t := range paths {
			if !t.feasible() || bad != "" {
				continue
			}
			nx := t.next(ph)
			if call, ok := isAppend(nx); ok {
				if t.resolve(call.Call.Args[0]) != ssa.Value(ph) {
					bad = "a column gets more than one Attribute"
				}
			} else if nx == ssa.Value(ph) {
				bad = "a column gets no Attribute"
			}
		}
		r.check(bad == "", "types:"+name, r.p.Pos(f.Pos()), "one Attribute per column, from the first row of data", bad)
		return
	}
	r.undecided("column types")
}

func sortedInts(m map[int]bool) []int {
	var out []int
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

// madeFrom: a value is computed from another one, the arguments of calls included.
func madeFrom(v, from ssa.Value, seen map[ssa.Value]bool) bool {
	if v == from {
		return true
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	if a, ok := v.(*ssa.Alloc); ok {
		for _, rf := range *a.Referrers() {
			if st, ok := rf.(*ssa.Store); ok && madeFrom(st.Val, from, seen) {
				return true
			}
			if ia, ok := rf.(*ssa.IndexAddr); ok && ia.Referrers() != nil {
				for _, q := range *ia.Referrers() {
					if st, ok := q.(*ssa.Store); ok && madeFrom(st.Val, from, seen) {
						return true
					}
				}
			}
		}
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, o := range in.Operands(nil) {
		if *o != nil && madeFrom(*o, from, seen) {
			return true
		}
	}
	return false
}

// reckoned: an integer on the way from one value to another that was made of it is the result of arithmetic.
func reckoned(v, from ssa.Value, seen map[ssa.Value]bool) bool {
	if v == from || seen[v] {
		return false
	}
	seen[v] = true
	if b, ok := v.(*ssa.BinOp); ok && isIntType(b.Type()) && madeFrom(b, from, map[ssa.Value]bool{}) {
		return true
	}
	if a, ok := v.(*ssa.Alloc); ok {
		for _, rf := range *a.Referrers() {
			if st, ok := rf.(*ssa.Store); ok && reckoned(st.Val, from, seen) {
				return true
			}
			if ia, ok := rf.(*ssa.IndexAddr); ok && ia.Referrers() != nil {
				for _, q := range *ia.Referrers() {
					if st, ok := q.(*ssa.Store); ok && reckoned(st.Val, from, seen) {
						return true
					}
				}
			}
		}
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, o := range in.Operands(nil) {
		if *o != nil && madeFrom(*o, from, map[ssa.Value]bool{}) && reckoned(*o, from, seen) {
			return true
		}
	}
	return false
}

// backwards: an index that goes down as its loop goes on.
func backwards(idx ssa.Value) bool {
	switch x := idx.(type) {
	case *ssa.BinOp:
		if x.Op == token.SUB {
			_, isC := constInt(x.Y)
			if !isC {
				return true
			}
			return backwards(x.X)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if b, ok := e.(*ssa.BinOp); ok && b.X == ssa.Value(x) {
				k, isC := constInt(b.Y)
				if isC && (b.Op == token.SUB && k > 0 || b.Op == token.ADD && k < 0) {
					return true
				}
			}
		}
	}
	return false
}

func (r *records) sniffNames(name string) {
	f := r.p.Func(name)
	if f == nil {
		r.undecided("column names")
		return
	}
	flag := headerFlag(f)
	if flag == nil {
		r.undecided("column names")
		return
	}
	n, bad := 0, ""
	for _, i := range instrs(f) {
		st, ok := i.(*ssa.Store)
		if !ok || basicInfo(st.Val.Type())&types.IsString == 0 {
			continue
		}
		ia, ok := st.Addr.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		if _, isArr := deref(ia.X.Type()).Underlying().(*types.Array); isArr {
			continue // arguments of a call
		}
		n++
		from := ""
		if _, k, ok := r.p.elemOf(st.Val); ok {
			from = "header"
			if !r.p.sameRead(k, ia.Index) {
				bad = "a column gets the name of another one"
			}
		} else if madeFrom(st.Val, ia.Index, map[ssa.Value]bool{}) {
			from = "number"
			if reckoned(st.Val, ia.Index, map[ssa.Value]bool{}) {
				bad = "the number a column is named by is not its own"
			}
		} else {
			bad = "the name made up for a column does not depend on the column"
		}
		withHdr, without := assuming(f, flag, true)[st.Block()], assuming(f, flag, false)[st.Block()]
		if bad == "" && (from == "header" && without && !withHdr || from == "number" && withHdr) {
			bad = "the columns are named by the header when there is none, or not when there is one"
		}
	}
	if n == 0 {
		r.undecided("column names")
		return
	}
	for _, val := range []bool{true, false} {
		for _, ret := range returns(f) {
			got, ok := r.readsBefore(f, ret.Block(), flag, val)
			if ok && bad == "" && len(got) > 0 && !got[1] && !got[0] {
				bad = "the names are not those of the first record"
			}
		}
	}
	r.check(bad == "", "names:"+name, r.p.Pos(f.Pos()), "columns are named by the header, or by their number", bad)
}

// saidClass: whether the caller of f says what the class is, by a data set to take after or by a table
// of classes, and if so whether the Attribute made a class is one of those.
func (r *records) saidClass(f *ssa.Function, call *ssa.Call) (said bool, bad string) {
	arg := argsOf(call)[0]
	for _, q := range f.Params {
		if r.hasClasses(q.Type()) {
			if f.Signature.Recv() != nil && len(f.Params) > 0 && f.Params[0] == q || recvOf(call) == ssa.Value(q) {
				continue
			}
			for v := range r.p.backSlice(arg) {
				c, ok := v.(*ssa.Call)
				if ok && calleeObj(c) != nil && calleeObj(c).Name() == "AllClassAttributes" && recvOf(c) != nil && r.p.backSlice(recvOf(c))[q] {
					return true, ""
				}
			}
			// the list may be made by a helper that is given the template
			for v := range r.p.backSlice(arg) {
				if c, ok := v.(*ssa.Call); ok && calleeObj(c) != nil && r.callsClasses(c) {
					return true, ""
				}
			}
			return true, "the class is not one of the class Attributes of the data set taken after"
		}
	}
	// a table of the classes, from their names
	var table *ssa.Parameter
	for _, q := range f.Params {
		m, ok := q.Type().Underlying().(*types.Map)
		if ok && basicInfo(m.Key())&types.IsString != 0 && strings.Contains(strings.ToLower(q.Name()), "class") {
			table = q
		}
	}
	if table == nil {
		return false, ""
	}
	for _, g := range guardsOf(call.Block()) {
		ex, ok := g.Cond.(*ssa.Extract)
		if !ok || ex.Index != 1 {
			continue
		}
		lk, ok := ex.Tuple.(*ssa.Lookup)
		if !ok {
			continue
		}
		m, ok := lk.X.(*ssa.Parameter)
		if !ok || !types.Identical(m.Type(), table.Type()) {
			continue
		}
		if m != table {
			return true, "whether a column is a class is looked up in another table than that of the classes"
		}
		if !g.Pol {
			return true, "a column is made a class when it is not in the table of classes"
		}
		return true, ""
	}
	return false, ""
}

// callsClasses: a call of a function of the library that reads class Attributes.
func (r *records) callsClasses(c *ssa.Call) bool {
	for _, g := range r.p.Callees(c) {
		for h := range r.p.staticReach(g) {
			for _, i := range instrs(h) {
				if cc, ok := i.(ssa.CallInstruction); ok && calleeObj(cc) != nil && calleeObj(cc).Name() == "AllClassAttributes" {
					return true
				}
			}
		}
	}
	return false
}

// hasClasses: a type of data set.
func (r *records) hasClasses(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for k := 0; k < ms.Len(); k++ {
		if ms.At(k).Obj().Name() == "AllClassAttributes" {
			return true
		}
	}
	return false
}

// lastColumn: the class, where the caller does not say, is the last column.
func (r *records) lastColumn() {
	counters := r.counterSet()
	for _, f := range r.p.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Name() != "base" || len(f.Blocks) == 0 {
			continue
		}
		uses := false
		for g := range r.p.staticReach(f) {
			uses = uses || counters[g]
		}
		if !uses {
			continue
		}
		for _, i := range instrs(f) {
			call, ok := i.(*ssa.Call)
			if !ok || calleeObj(call) == nil || calleeObj(call).Name() != "AddClassAttribute" || len(argsOf(call)) != 1 {
				continue
			}
			key := "class:" + r.p.Name(f)
			list, ix, ok := r.p.elemOf(argsOf(call)[0])
			if said, bad := r.saidClass(f, call); said {
				r.check(bad == "", key, r.p.InstrPos(call), "the class is what the caller says", bad)
				continue
			}
			if !ok {
				continue
			}
			if _, isC := constInt(ix); isC {
				r.check(false, key, r.p.InstrPos(call), "", "the class is not the last column")
				continue
			}
			b, ok := ix.(*ssa.BinOp)
			if !ok || b.Op != token.SUB {
				continue
			}
			k, isC := constInt(b.Y)
			ln, isL := b.X.(*ssa.Call)
			if !isC || !isL {
				continue
			}
			if bi, ok := ln.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
				continue
			}
			r.check(k == 1 && r.p.sameRead(ln.Call.Args[0], list), key, r.p.InstrPos(call), "the class is the last column", "the class is not the last column")
		}
	}
}

// declared: name and values of a declared column.
func (r *records) declared(name string) {
	f := r.p.Func(name)
	if f == nil {
		r.undecided("declared columns")
		return
	}
	for _, g := range r.p.within(f) {
		for _, i := range instrs(g) {
			call, ok := i.(*ssa.Call)
			if !ok || calleeObj(call) == nil || len(argsOf(call)) != 1 {
				continue
			}
			switch calleeObj(call).Name() {
			case "SetName":
				list, ix, ok := r.p.elemOf(argsOf(call)[0])
				if !ok {
					r.undecided("declared columns")
					continue
				}
				k, isC := constInt(ix)
				if !isC || !fromCall(r.p, list, "strings.Fields") {
					r.undecided("declared columns")
					continue
				}
				r.check(k == 1, "declared-name:"+name, r.p.InstrPos(call), "the word after @attribute", "the name of a declared Attribute is not the word after @attribute")
			case "GetSysValFromString":
				r.declaredValues(name, g, call)
			}
		}
	}
}

func fromCall(p *Prog, v ssa.Value, full string) bool {
	for w := range p.backSlice(v) {
		if c, ok := w.(*ssa.Call); ok {
			if o := calleeObj(c); o != nil && o.FullName() == full {
				return true
			}
		}
	}
	return false
}

func (r *records) declaredValues(name string, f *ssa.Function, call *ssa.Call) {
	list, ix, ok := r.p.elemOf(argsOf(call)[0])
	if !ok {
		r.undecided("declared values")
		return
	}
	key := "declared-values:" + name
	bad := ""
	if backwards(ix) {
		bad = "the declared values are added last one first"
	}
	// every way the list is made goes through a split at commas
	var walk func(v ssa.Value, depth int)
	split, seen := 0, map[ssa.Value]bool{}
	walk = func(v ssa.Value, depth int) {
		if seen[v] || depth > 20 {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e, depth+1)
			}
		case *ssa.Slice:
			if x.Low != nil || x.High != nil {
				if k, ok := constInt(x.Low); x.High != nil || !ok || k != 0 {
					if !fromFields(r.p, x.X) {
						bad = "some of the declared values are left out"
					}
				}
			}
			walk(x.X, depth+1)
		case *ssa.UnOp:
			if a := r.p.cellOf(x.X); a != nil {
				for _, st := range r.p.cellStores(a) {
					walk(st.Val, depth+1)
				}
			}
		case *ssa.Call:
			o := calleeObj(x)
			if o == nil {
				return
			}
			switch o.FullName() {
			case "strings.Split", "strings.SplitN":
				split++
				if k, ok := constStr(x.Call.Args[1]); ok && k != "," {
					bad = "declared values are not split at commas"
				}
			case "strings.Fields":
				bad = "declared values are split at blanks, not at commas: values with blanks in them fall apart, and values with no blank between them stay together"
			}
		}
	}
	walk(list, 0)
	if h, loop := innermostLoop(call.Block()); h != nil && bad == "" {
		if paths, full := turnPaths(h, loop, 300); full {
			for _, t := range paths {
				if _, on := t.pos[call.Block()]; on || !t.feasible() {
					continue
				}
				empty := false
				for _, fc := range t.facts() {
					if w := lineTest(t, fc.cond); w == "empty" && fc.pol || w == "not empty" && !fc.pol {
						empty = true
					}
				}
				if !empty {
					bad = "some of the declared values are left out"
				}
			}
		}
	}
	if split == 0 && bad == "" {
		r.undecided("declared values")
		return
	}
	r.check(bad == "", key, r.p.InstrPos(call), "all values, split at commas", bad)
}

func fromFields(p *Prog, v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	o := calleeObj(c)
	return o != nil && o.FullName() == "strings.Fields"
}

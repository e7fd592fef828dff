package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C30", Rule: "provenance of settings (what exported constructors are given, exported basic fields of models and parameter sets): every constructor parameter reaches the field or argument of its own name and none is ignored; a setting handed on goes to the parameter or field of its name, unadjusted; every setting is consulted outside display and storage, and fitting or predicting never overwrites one; loops that build as many things as a setting says run exactly that often and are not left early, collections stop at exactly the number, slices take the first so many, and recursions limited by a setting build as many levels (linear normal forms of induction variables and guards).", Run: runC30})
}

type settings struct {
	p      *Prog
	fields map[*types.Var]string // setting -> owner.field
}

func normName(s string) string {
	return strings.ToLower(strings.ReplaceAll(s, "_", ""))
}

func nameMatch(a, b string) bool {
	a, b = normName(a), normName(b)
	if a == b {
		return true
	}
	if len(a) < 3 || len(b) < 3 {
		return false
	}
	return strings.Contains(a, b) || strings.Contains(b, a)
}

// settingOf: the settings v may be the unchanged value of.
func (x *settings) settingOf(v ssa.Value) []string {
	var out []string
	for _, l := range x.p.Trace(v, TraceOpt{}) {
		if fv, _ := fieldLoad(l); fv != nil && x.fields[fv] != "" {
			out = append(out, x.fields[fv])
		}
		if f, ok := l.(*ssa.Field); ok {
			if fv := fieldVar(f.X.Type(), f.Field); fv != nil && x.fields[fv] != "" {
				out = append(out, x.fields[fv])
			}
		}
	}
	sort.Strings(out)
	return out
}

func runC30(c *Ctx) {
	p := c.P
	x := &settings{p, map[*types.Var]string{}}
	ownerOf := map[*types.Var]*types.Named{}
	for _, n := range p.NamedTypes() {
		if st, ok := n.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				ownerOf[st.Field(i)] = n
			}
		}
	}
	// fields each constructor parameter reaches
	var fvs []*types.Var
	for fv := range p.fieldStores {
		if n := ownerOf[fv]; n != nil {
			fvs = append(fvs, fv)
		}
	}
	sort.Slice(fvs, func(i, j int) bool {
		a, b := typeName(ownerOf[fvs[i]])+"."+fvs[i].Name(), typeName(ownerOf[fvs[j]])+"."+fvs[j].Name()
		return a < b
	})
	type flow struct {
		fv  *types.Var
		pos string
	}
	flows := map[*ssa.Parameter][]flow{}
	for _, fv := range fvs {
		for _, s := range p.fieldStores[fv] {
			for _, l := range p.Trace(s.Val, TraceOpt{ExternArgs: true}) {
				prm, ok := l.(*ssa.Parameter)
				if !ok {
					continue
				}
				f := prm.Parent()
				if f.Parent() != nil || !isExported(f) || !strings.HasPrefix(f.Name(), "New") || !p.IsLibFunc(f) {
					continue
				}
				flows[prm] = append(flows[prm], flow{fv, p.InstrPos(s)})
				x.fields[fv] = typeName(ownerOf[fv]) + "." + fv.Name()
			}
		}
	}
	// every constructor parameter gets to the setting it names
	np := 0
	for _, f := range p.Funcs {
		if f.Parent() != nil || !isExported(f) || !strings.HasPrefix(f.Name(), "New") || !p.IsLibFunc(f) || recvNamed(f) != nil {
			continue
		}
		for _, prm := range f.Params {
			np++
			key := "param:" + p.Name(f) + "#" + prm.Name()
			if prm.Name() != "_" && !x.used(prm, map[ssa.Value]bool{}) {
				c.Bad(key, p.Pos(prm.Pos()), "the parameter has no effect")
				continue
			}
			bad := false
			for _, fl := range flows[prm] {
				if nameMatch(prm.Name(), fl.fv.Name()) {
					continue
				}
				for _, q := range f.Params {
					if q != prm && types.Identical(q.Type(), prm.Type()) && nameMatch(q.Name(), fl.fv.Name()) {
						c.Bad(key, fl.pos, fmt.Sprintf("%s is kept as %s, which is what %s is for", prm.Name(), x.fields[fl.fv], q.Name()))
						bad = true
					}
				}
			}
			if !bad {
				c.Ok(key, p.Pos(prm.Pos()), "kept or used")
			}
		}
	}
	c.Floor("constructor parameters", np, 40)

	// exported settings without a constructor parameter
	for _, n := range p.NamedTypes() {
		st, ok := n.Underlying().(*types.Struct)
		if !ok || !n.Obj().Exported() || !x.model(n) {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			fv := st.Field(i)
			if fv.Exported() && !fv.Embedded() && basicInfo(fv.Type()) != 0 && x.fields[fv] == "" {
				x.fields[fv] = typeName(n) + "." + fv.Name()
			}
		}
	}
	var set []*types.Var
	for fv := range x.fields {
		if ownerOf[fv] != nil {
			set = append(set, fv)
		}
	}
	sort.Slice(set, func(i, j int) bool { return x.fields[set[i]] < x.fields[set[j]] })
	// every setting is read by something other than display and storage
	read := map[*types.Var]string{}
	for _, f := range p.Funcs {
		if quietName(owner(f).Name()) {
			continue
		}
		for _, i := range instrs(f) {
			switch t := i.(type) {
			case *ssa.FieldAddr:
				fv := fieldVar(t.X.Type(), t.Field)
				if x.fields[fv] == "" || read[fv] != "" {
					continue
				}
				for _, r := range *t.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(t) {
						continue
					}
					if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL && x.checkOnly(u, map[ssa.Value]bool{}) {
						continue
					}
					read[fv] = p.InstrPos(i)
				}
			case *ssa.Field:
				fv := fieldVar(t.X.Type(), t.Field)
				if x.fields[fv] != "" && read[fv] == "" && !x.checkOnly(t, map[ssa.Value]bool{}) {
					read[fv] = p.InstrPos(i)
				}
			}
		}
	}
	for _, fv := range set {
		if strings.Contains(x.fields[fv], "_Ctype_") {
			continue // read by liblinear
		}
		at := read[fv]
		if at == "" {
			at = p.Pos(fv.Pos())
		}
		c.Check(read[fv] != "", "read:"+x.fields[fv], at, "consulted", "the setting is never consulted")
	}
	c.Floor("settings", len(set), 30)

	// handing settings on: to the parameter or field of that name
	x.handed(c, ownerOf)
	// what a setting counts is done that often
	x.counted(c)
	x.depth(c)
	x.kept(c)
}

func quietName(n string) bool {
	for _, pre := range []string{"String", "Save", "Load", "GetMetadata", "GetClassifierMetadata", "Marshal", "Unmarshal", "GoString", "Copy"} {
		if strings.HasPrefix(n, pre) {
			return true
		}
	}
	return false
}

// model: n is fitted, trained or handed to something that is.
func (x *settings) model(n *types.Named) bool {
	for _, m := range []string{"Fit", "Train", "GenerateSplitRule"} {
		if x.p.Method(n, m) != nil {
			return true
		}
	}
	return strings.Contains(n.Obj().Name(), "Param")
}

// checkOnly: v only decides whether an error is reported, or is part of its text.
func (x *settings) checkOnly(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return true
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		if x.errorOnly(r.Block(), map[*ssa.BasicBlock]bool{}) {
			continue
		}
		switch t := r.(type) {
		case *ssa.BinOp:
			if !x.checkOnly(t, seen) {
				return false
			}
		case *ssa.Convert:
			if !x.checkOnly(t, seen) {
				return false
			}
		case *ssa.If:
			ok := false
			for _, s := range t.Block().Succs {
				ok = ok || x.errorOnly(s, map[*ssa.BasicBlock]bool{})
			}
			if !ok {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// used: v reaches something other than comparisons.
func (x *settings) used(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch t := r.(type) {
		case *ssa.DebugRef, *ssa.If:
		case *ssa.BinOp:
			switch t.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			default:
				if x.used(t, seen) {
					return true
				}
			}
		case *ssa.Phi:
			if x.used(t, seen) {
				return true
			}
		case *ssa.Convert:
			if x.used(t, seen) {
				return true
			}
		case *ssa.Store:
			if t.Val != v {
				return true
			}
			// a local that is never read again does not count
			if a, ok := t.Addr.(*ssa.Alloc); ok {
				for _, rr := range *a.Referrers() {
					if _, isS := rr.(*ssa.Store); !isS {
						return true
					}
				}
				continue
			}
			return true
		default:
			return true
		}
	}
	return false
}

// handed: a setting passed to a library function, or copied to another object, goes to the place of its name when
// there is one.
func (x *settings) handed(c *Ctx, ownerOf map[*types.Var]*types.Named) {
	p := x.p
	n := 0
	short := func(s string) string { return s[strings.LastIndex(s, ".")+1:] }
	for _, f := range p.Funcs {
		if !p.IsLibFunc(owner(f)) {
			continue
		}
		for _, ci := range calls(f) {
			g := ci.Common().StaticCallee()
			if o := calleeObj(ci); o != nil {
				for _, a := range ci.Common().Args {
					b, ok := a.(*ssa.BinOp)
					if !ok || b.Op != token.ADD && b.Op != token.SUB || basicInfo(b.Type())&types.IsInteger == 0 {
						continue
					}
					fv, _ := fieldLoad(b.X)
					if k, isK := constInt(b.Y); isK && k != 0 && fv != nil && x.fields[fv] != "" {
						s := x.fields[fv]
						c.Bad("handed:"+p.Name(owner(f))+">"+o.Name()+"#"+s, p.InstrPos(ci.(ssa.Instruction)), fmt.Sprintf("%s is passed on as %s %v %d", s, short(s), b.Op, k))
					}
				}
			}
			if g == nil || !p.IsLibFunc(g) {
				continue
			}
			for i, prm := range g.Params {
				a := argFor(ci, g, i)
				if a == nil || i == 0 && g.Signature.Recv() != nil {
					continue
				}
				s := x.direct(a)
				if s == "" {
					continue
				}
				n++
				key := "handed:" + p.Name(owner(f)) + ">" + g.Name() + "#" + prm.Name()
				if nameMatch(short(s), prm.Name()) {
					c.Ok(key, p.InstrPos(ci.(ssa.Instruction)), s+" is passed as "+prm.Name())
					continue
				}
				bad := ""
				for j, q := range g.Params {
					if j != i && types.Identical(q.Type(), prm.Type()) && nameMatch(short(s), q.Name()) {
						if aj := argFor(ci, g, j); aj != nil && x.direct(aj) == s {
							continue
						}
						bad = q.Name()
					}
				}
				// what another setting of the same model is for
				for fv, t := range x.fields {
					if t != s && t[:len(t)-len(short(t))] == s[:len(s)-len(short(s))] && normName(short(t)) == normName(prm.Name()) && types.Identical(fv.Type(), prm.Type()) && fv.Exported() == unicode.IsUpper(rune(short(s)[0])) {
						bad = "that of " + t
					}
				}
				c.Check(bad == "", key, p.InstrPos(ci.(ssa.Instruction)), s+" is passed as "+prm.Name(), s+" is passed as "+prm.Name()+", not as "+bad)
			}
		}
		for _, i := range instrs(f) {
			st, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			s := x.direct(st.Val)
			if s == "" {
				continue
			}
			fv := fieldVar(fa.X.Type(), fa.Field)
			own := ownerOf[fv]
			if own == nil || nameMatch(short(s), fv.Name()) {
				continue
			}
			n++
			us := own.Underlying().(*types.Struct)
			bad := ""
			for k := 0; k < us.NumFields(); k++ {
				g := us.Field(k)
				if g != fv && types.Identical(g.Type(), fv.Type()) && nameMatch(short(s), g.Name()) {
					bad = g.Name()
				}
			}
			c.Check(bad == "", "handed:"+p.Name(owner(f))+">"+typeName(own)+"."+fv.Name(), p.InstrPos(i), s+" is kept as "+fv.Name(), s+" is kept as "+fv.Name()+", not as "+bad)
		}
	}
	c.Count("settings handed on", n)
}

// direct: v is read from one setting.
func (x *settings) direct(v ssa.Value) string {
	s := x.settingOf(v)
	if len(s) == 0 {
		return ""
	}
	for _, t := range s {
		if t != s[0] {
			return ""
		}
	}
	return s[0]
}

// plus: v is setting + k.
func (x *settings) plus(v ssa.Value) (string, int64) {
	for {
		if cv, ok := v.(*ssa.Convert); ok {
			v = cv.X
			continue
		}
		break
	}
	if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
		if k, ok := constInt(b.Y); ok {
			s, j := x.plus(b.X)
			if b.Op == token.SUB {
				k = -k
			}
			return s, j + k
		}
		if k, ok := constInt(b.X); ok && b.Op == token.ADD {
			s, j := x.plus(b.Y)
			return s, j + k
		}
		return "", 0
	}
	return x.direct(v), 0
}

// firstRead: what the loop reads from its second element on was read at its first before it.
func firstRead(f *ssa.Function, cl *CountLoop) bool {
	same := func(a, b ssa.Value) bool { return a == b || valuesEqual(a, b) }
	for _, r := range *cl.Cur.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok || ia.Index != cl.Cur || !cl.Body[ia.Block()] {
			continue
		}
		for _, i := range instrs(f) {
			o, ok := i.(*ssa.IndexAddr)
			if !ok || !same(o.X, ia.X) || !o.Block().Dominates(cl.Header) || o.Referrers() == nil {
				continue
			}
			if k, isK := constInt(o.Index); !isK || k != 0 {
				continue
			}
			for _, u := range *o.Referrers() {
				if x, isU := u.(*ssa.UnOp); isU && x.Op == token.MUL {
					return true
				}
			}
		}
	}
	return false
}

func (x *settings) counted(c *Ctx) {
	p := x.p
	n := 0
	for _, f := range p.Funcs {
		if !p.IsLibFunc(owner(f)) || quietName(owner(f).Name()) {
			continue
		}
		for _, cl := range countingLoops(f) {
			if cl.Bound == nil || basicInfo(cl.Bound.Type())&types.IsInteger == 0 {
				continue
			}
			var s string
			var times int64 // runs setting+times times
			ok := false
			init, isK := constInt(cl.Init)
			if b, k := x.plus(cl.Bound); b != "" && isK && cl.Step == 1 {
				switch cl.Op {
				case token.LSS, token.NEQ:
					s, times, ok = b, k-init, true
				case token.LEQ:
					s, times, ok = b, k+1-init, true
				}
			}
			if b, k := x.plus(cl.Init); b != "" && cl.Step == -1 {
				if e, isE := constInt(cl.Bound); isE {
					switch cl.Op {
					case token.GTR, token.NEQ:
						s, times, ok = b, k-e, true
					case token.GEQ:
						s, times, ok = b, k+1-e, true
					}
				}
			}
			if !ok || strings.HasSuffix(s, ".bins") {
				// the highest value has a bin of its own: there is one label more than bins
				continue
			}
			n++
			key := "times:" + p.Name(owner(f)) + "#" + s
			pos := p.InstrPos(cl.If)
			if times == -1 && init == 1 && firstRead(f, cl) {
				c.Ok(key, pos, "the first is looked at before the loop")
				continue
			}
			if times != 0 {
				c.Bad(key, pos, fmt.Sprintf("runs %+d times more than %s", times, s))
				continue
			}
			// left early only to report an error
			early := ""
			for b := range cl.Body {
				for _, sc := range b.Succs {
					if !cl.Body[sc] && b != cl.If.Block() && !x.errorOnly(sc, map[*ssa.BasicBlock]bool{}) {
						early = p.InstrPos(b.Instrs[len(b.Instrs)-1])
					}
				}
			}
			if strings.HasPrefix(normName(s[strings.LastIndex(s, ".")+1:]), "max") {
				early = "" // an upper limit
			}
			c.Check(early == "", key, pos, "runs exactly "+s+" times", "is left before "+s+" rounds are done, at "+early)
		}
		// collecting until there are enough
		for _, b := range f.Blocks {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			cmp, ok := iff.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			l, r, op := cmp.X, cmp.Y, cmp.Op
			s, k := x.plus(r)
			if s == "" {
				l, r, op = r, l, flip(op)
				s, k = x.plus(r)
			}
			ln, isC := l.(*ssa.Call)
			if s == "" || !isC {
				continue
			}
			if bi, ok := ln.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
				continue
			}
			_, lp := innermostLoop(b)
			if lp == nil {
				continue
			}
			in0, in1 := lp[b.Succs[0]], lp[b.Succs[1]]
			if in0 == in1 {
				continue
			}
			grows := false
			for _, leaf := range p.Trace(ln.Call.Args[0], TraceOpt{Elems: false, NoParams: true, NoCalls: true}) {
				if cl, ok := isAppend(leaf); ok && lp[cl.Block()] {
					grows = true
				}
			}
			if !grows {
				continue
			}
			if in1 {
				op = negate(op) // goes on when false
			}
			n++
			key := "until:" + p.Name(owner(f)) + "#" + s
			good := op == token.LSS && k == 0 || op == token.LEQ && k == -1 || op == token.NEQ && k == 0
			c.Check(good, key, p.InstrPos(iff), "collects exactly "+s, fmt.Sprintf("goes on while there are %v %s%+d, instead of fewer than %s", op, s, k, s))
		}
		// the first so many
		for _, i := range instrs(f) {
			sl, ok := i.(*ssa.Slice)
			if !ok || sl.High == nil {
				continue
			}
			s, k := x.plus(sl.High)
			if s == "" {
				continue
			}
			lo := int64(0)
			if sl.Low != nil {
				l, isK := constInt(sl.Low)
				if !isK {
					continue
				}
				lo = l
			}
			n++
			c.Check(k == 0 && lo == 0, "first:"+p.Name(owner(f))+"#"+s, p.InstrPos(i), "the first "+s, fmt.Sprintf("takes elements %d to %s%+d, not the first %s", lo, s, k, s))
		}
	}
	c.Floor("things done a set number of times", n, 6)
}

// errorOnly: every way on from b ends in an error return or a panic.
func (x *settings) errorOnly(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if seen[b] {
		return true
	}
	seen[b] = true
	switch t := b.Instrs[len(b.Instrs)-1].(type) {
	case *ssa.Panic:
		return true
	case *ssa.Return:
		return !x.p.successReturn(t)
	}
	for _, s := range b.Succs {
		if !x.errorOnly(s, seen) {
			return false
		}
	}
	return true
}

// depth: a recursion limited by a setting builds as many levels as it says.
func (x *settings) depth(c *Ctx) {
	p := x.p
	for _, f := range p.Funcs {
		if !p.IsLibFunc(f) || f.Parent() != nil {
			continue
		}
		var rec []*ssa.Call
		for _, ci := range calls(f) {
			if cl, ok := ci.(*ssa.Call); ok && cl.Call.StaticCallee() == f {
				rec = append(rec, cl)
			}
		}
		if len(rec) == 0 {
			continue
		}
		// param + k
		var lin func(v ssa.Value) (*ssa.Parameter, int64)
		lin = func(v ssa.Value) (*ssa.Parameter, int64) {
			switch t := v.(type) {
			case *ssa.Parameter:
				return t, 0
			case *ssa.Convert:
				return lin(t.X)
			case *ssa.BinOp:
				if k, ok := constInt(t.Y); ok && (t.Op == token.ADD || t.Op == token.SUB) {
					q, j := lin(t.X)
					if t.Op == token.SUB {
						k = -k
					}
					return q, j + k
				}
				if k, ok := constInt(t.X); ok && t.Op == token.ADD {
					q, j := lin(t.Y)
					return q, j + k
				}
			}
			return nil, 0
		}
		idx := func(q *ssa.Parameter) int {
			for i, r := range f.Params {
				if r == q {
					return i
				}
			}
			return -1
		}
		for _, b := range f.Blocks {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			cmp, ok := iff.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			d, a := lin(cmp.X)
			m, o := lin(cmp.Y)
			op := cmp.Op
			if d == nil || m == nil || d == m {
				continue
			}
			if x.direct(d) != "" {
				d, a, m, o, op = m, o, d, a, flip(op)
			}
			s := x.direct(m)
			if s == "" || x.direct(d) != "" {
				continue
			}
			// the recursion: limit unchanged, depth one more
			step, n := int64(0), 0
			ok = true
			for _, cl := range rec {
				q, k := lin(cl.Call.Args[idx(d)])
				r, j := lin(cl.Call.Args[idx(m)])
				if q != d || r != m {
					ok = false
					continue
				}
				if n > 0 && k != step || j != 0 {
					c.Bad("depth:"+p.Name(f)+"#"+s, p.InstrPos(cl), "the branches do not count their depth alike")
				}
				step = k
				n++
			}
			if !ok {
				continue
			}
			key := "depth:" + p.Name(f) + "#" + s
			pos := p.InstrPos(iff)
			if step <= 0 {
				c.Bad(key, pos, "the depth is not counted, so "+s+" is no limit")
				continue
			}
			// which side of the test goes deeper
			deeper := func(holds bool) bool {
				hit := false
				e := &Explorer{P: p}
				e.Decide = func(v ssa.Value, pp *pathPoint) (bool, bool) {
					b, ok := v.(*ssa.BinOp)
					if !ok {
						return false, false
					}
					if b == cmp {
						return holds, true
					}
					// the limit is not one of the values that stand for "no limit"
					q, _ := lin(b.X)
					if _, isK := constInt(b.Y); isK && q == m && (b.Op == token.EQL || b.Op == token.NEQ) {
						return b.Op == token.NEQ, true
					}
					return false, false
				}
				e.Visit = func(i ssa.Instruction, pp *pathPoint) bool {
					for _, cl := range rec {
						if i == ssa.Instruction(cl) {
							hit = true
						}
					}
					return hit
				}
				e.RunEntry(f)
				return hit
			}
			t0, t1 := deeper(true), deeper(false)
			if t0 == t1 {
				continue
			}
			if t0 {
				op = negate(op)
			}
			// stops when d+a op m+o
			var lim int64
			switch op {
			case token.GTR:
				lim = 0
			case token.GEQ, token.EQL:
				lim = -1
			default:
				c.Bad(key, pos, fmt.Sprintf("goes deeper only beyond the limit (stops when depth %v limit)", op))
				continue
			}
			starts := map[int64]bool{}
			for _, ci := range p.callers[f] {
				if ci.Parent() == f {
					continue
				}
				if k, ok := constInt(argFor(ci, f, idx(d))); ok {
					starts[k] = true
				}
			}
			for k := range starts {
				levels := (o + lim - a - k)
				c.Check(step == 1 && levels == -1, key, pos, "as many levels as "+s, fmt.Sprintf("builds %+d levels more than %s", levels+1, s))
			}
			c.Count("depth limits", len(starts))
		}
	}
}

// kept: fitting and predicting leave the settings alone.
func (x *settings) kept(c *Ctx) {
	p := x.p
	roots := []*ssa.Function{}
	for _, f := range p.Funcs {
		if recvNamed(f) != nil && f.Parent() == nil && (strings.HasPrefix(f.Name(), "Fit") || strings.HasPrefix(f.Name(), "Predict") || f.Name() == "Train") {
			roots = append(roots, f)
		}
	}
	n := 0
	for _, f := range sortedFuncs(p, p.staticReach(roots...)) {
		if !p.IsLibFunc(owner(f)) || strings.HasPrefix(owner(f).Name(), "New") || quietName(owner(f).Name()) {
			continue
		}
		n++
		for _, i := range instrs(f) {
			st, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			fv := fieldVar(fa.X.Type(), fa.Field)
			s := x.fields[fv]
			if s == "" || p.cellOf(fa.X) != nil || basicInfo(fv.Type()) == 0 || !x.receiver(fa.X) {
				continue
			}
			c.Check(x.direct(st.Val) == s && x.only(st.Val, s), "kept:"+p.Name(owner(f))+"#"+s, p.InstrPos(i), "the same value", "the setting "+s+" is overwritten while fitting or predicting")
		}
	}
	c.Count("functions of fitting and predicting", n)
	c.Ok("kept", "-", "no setting is overwritten")
}

// only: v is nothing but the setting.
func (x *settings) only(v ssa.Value, s string) bool {
	for _, l := range x.p.Trace(v, TraceOpt{}) {
		if x.direct(l) != s {
			return false
		}
	}
	return true
}

// receiver: the object is what a method was called on.
func (x *settings) receiver(v ssa.Value) bool {
	for _, l := range x.p.Trace(v, TraceOpt{}) {
		if q, ok := l.(*ssa.Parameter); ok && q.Parent().Signature.Recv() != nil && q.Parent().Params[0] == q {
			return true
		}
	}
	return false
}

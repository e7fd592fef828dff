package main

import (
	"go/token"
	"go/types"
	"regexp"

	"golang.org/x/tools/go/ssa"
)

// attrList: a list of Attributes.
func attrList(t types.Type) bool {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	sl, ok := t.Underlying().(*types.Slice)
	return ok && types.TypeString(sl.Elem(), func(*types.Package) string { return "" }) == "Attribute"
}

// attrAt: the list and index an Attribute was taken from.
func (p *Prog) listOf(v ssa.Value) ssa.Value {
	if l, _, ok := p.elemOf(v); ok {
		return l
	}
	return nil
}

// matched: the Attributes of one list are replaced by those of another that are equal or of the same name, and by no other.
func (r *records) matched(name string) {
	f := r.p.Func(name)
	if f == nil || len(f.Params) != 2 {
		r.undecided("columns matched")
		return
	}
	own, other := ssa.Value(f.Params[0]), ssa.Value(f.Params[1])
	var stores []*ssa.Store
	for _, i := range instrs(f) {
		if st, ok := i.(*ssa.Store); ok {
			if ia, ok := st.Addr.(*ssa.IndexAddr); ok && attrList(ia.X.Type()) {
				stores = append(stores, st)
			}
		}
	}
	if len(stores) == 0 {
		r.undecided("columns matched")
		return
	}
	bad := ""
	for _, st := range stores {
		ia := st.Addr.(*ssa.IndexAddr)
		if ia.X != own || r.p.listOf(st.Val) != other {
			bad = "what is written is not an Attribute of the second list into the first"
		}
	}
	h, loop := innermostLoop(stores[0].Block())
	if bad == "" && h != nil {
		paths, full := turnPaths(h, loop, 500)
		if !full {
			r.undecided("columns matched")
			return
		}
		for _, t := range paths {
			if !t.feasible() || bad != "" {
				continue
			}
			same, known := false, false
			var at ssa.Value // where the Attribute compared stands in the first list
			for _, fc := range t.facts() {
				a, b, pol, ok := attrsCompared(t.resolve(fc.cond), fc.pol)
				if !ok {
					continue
				}
				la, lb := r.p.listOf(a), r.p.listOf(b)
				if !(la == own && lb == other || la == other && lb == own) {
					continue
				}
				known = true
				if pol {
					same = true
				}
				for _, v := range []ssa.Value{a, b} {
					if l, ix, ok := r.p.elemOf(v); ok && l == own {
						at = ix
					}
				}
			}
			stored := false
			for _, st := range stores {
				if _, on := t.pos[st.Block()]; on {
					stored = true
					if at != nil && same && !r.p.sameRead(st.Addr.(*ssa.IndexAddr).Index, at) {
						bad = "an Attribute is put in the place of another one than that it was compared with"
					}
				}
			}
			if stored && known && !same {
				bad = "an Attribute is replaced by one that is neither equal nor of the same name"
			}
			if same && !stored {
				bad = "an Attribute is not replaced although one that matches it has been found"
			}
		}
	}
	r.check(bad == "", "match:"+name, r.p.Pos(f.Pos()), "columns are matched by equality or name", bad)
}

// attrsCompared: the Attributes a test compares, and whether it has found them the same.
func attrsCompared(c ssa.Value, pol bool) (a, b ssa.Value, same, ok bool) {
	if n, is := c.(*ssa.UnOp); is && n.Op == token.NOT {
		return attrsCompared(n.X, !pol)
	}
	if call, is := c.(*ssa.Call); is && calleeObj(call) != nil && calleeObj(call).Name() == "Equals" && len(argsOf(call)) == 1 && recvOf(call) != nil {
		return recvOf(call), argsOf(call)[0], pol, true
	}
	if x, is := c.(*ssa.BinOp); is && (x.Op == token.EQL || x.Op == token.NEQ) {
		l, ok1 := x.X.(*ssa.Call)
		m, ok2 := x.Y.(*ssa.Call)
		if ok1 && ok2 && calleeObj(l) != nil && calleeObj(m) != nil && calleeObj(l).Name() == "GetName" && calleeObj(m).Name() == "GetName" {
			return recvOf(l), recvOf(m), (x.Op == token.EQL) == pol, true
		}
	}
	return nil, nil, false, false
}

// asGiven: tables the caller gives (of overriding Attributes, of groups) are applied to the columns they name.
func (r *records) asGiven(f *ssa.Function) {
	name := r.p.Name(f)
	for _, i := range instrs(f) {
		switch x := i.(type) {
		case *ssa.Store:
			ia, ok := x.Addr.(*ssa.IndexAddr)
			if !ok || !attrList(ia.X.Type()) {
				continue
			}
			v := x.Val
			if ex, ok := v.(*ssa.Extract); ok {
				v = ex.Tuple
			}
			lk, ok := v.(*ssa.Lookup)
			if !ok {
				continue
			}
			if m, ok := lk.X.Type().Underlying().(*types.Map); !ok || !isIntType(m.Key()) {
				continue
			}
			r.check(r.p.sameRead(lk.Index, ia.Index), "override:"+name, r.p.InstrPos(x), "an Attribute given for a column is used for that column", "an Attribute given for one column is used for another")
		case *ssa.MapUpdate:
			lk, ok := x.Value.(*ssa.Lookup)
			if !ok || lk.CommaOk || !types.Identical(lk.X.Type(), x.Map.Type()) || !r.p.sameRead(lk.Index, x.Key) {
				continue
			}
			for _, l := range mapLoops(r.p, f) {
				key, ok := lk.Index.(*ssa.Extract)
				if !ok || key.Tuple != ssa.Value(l.next) || key.Index != 1 || !l.body[x.Block()] {
					continue
				}
				r.check(l.m == lk.X, "groups:"+name, r.p.InstrPos(x), "an entry is taken over with its own value", "an entry of one table is taken over with the value it has in another")
			}
		case *ssa.Call:
			o := calleeObj(x)
			if o == nil || o.Name() != "AddAttribute" && o.Name() != "AddAttributeToAttributeGroup" || len(argsOf(x)) == 0 {
				continue
			}
			_, ix, ok := r.p.elemOf(argsOf(x)[0])
			if _, loop := innermostLoop(x.Block()); !ok || loop == nil {
				continue
			}
			_, isC := constInt(ix)
			r.check(!isC && !backwards(ix), "columns:"+name, r.p.InstrPos(x), "each column is added in its turn", "the columns are not added one by one in the order of the file")
		}
	}
}

// trimmed: the blanks around a field are not part of it.
func (r *records) trimmed(v ssa.Value) bool {
	for w := range r.p.backSlice(v) {
		if c, ok := w.(*ssa.Call); ok && calleeObj(c) != nil {
			switch calleeObj(c).FullName() {
			case "strings.TrimSpace", "strings.Trim", "strings.TrimFunc", "strings.Fields":
				return true
			}
		}
	}
	return false
}

// numbers: a column is taken to be of numbers exactly when its entry is matched as a number.
func (r *records) numbers(f *ssa.Function) {
	for _, g := range r.p.within(f) {
		for _, i := range instrs(g) {
			call, ok := i.(*ssa.Call)
			if !ok || calleeObj(call) == nil {
				continue
			}
			var pat ssa.Value
			switch calleeObj(call).FullName() {
			case "regexp.MatchString":
				pat = call.Call.Args[0]
			case "(*regexp.Regexp).MatchString":
				pat = r.patternOf(recvOf(call))
			}
			if pat == nil {
				continue
			}
			s, ok := constStr(pat)
			if !ok {
				continue
			}
			re, err := regexp.Compile(s)
			if err != nil {
				continue
			}
			bad := ""
			for _, w := range []string{"1", "-1", "+1", "10", "1.5", "-0.25", ".5", "1e5", "1.5E-3", "2e+07"} {
				if !re.MatchString(w) {
					bad = "the pattern of numbers does not accept " + w
				}
			}
			for _, w := range []string{"", "a", "a1", "1a", "1.2.3", "1-2", "1 2", "--1", "1e", "e5", "2019-01-02", "."} {
				if re.MatchString(w) {
					bad = "the pattern of numbers accepts \"" + w + "\""
				}
			}
			r.check(bad == "", "number:"+r.p.Name(f), r.p.InstrPos(call), "columns of numbers are told from others", bad)
			// which Attribute is made of it
			for _, j := range instrs(g) {
				made := ""
				switch y := j.(type) {
				case *ssa.Call:
					if o := calleeObj(y); o != nil && (o.Name() == "NewFloatAttribute" || o.Name() == "NewCategoricalAttribute") {
						made = o.Name()[3:]
					}
				case *ssa.Alloc:
					if n, ok := deref(y.Type()).(*types.Named); ok && (n.Obj().Name() == "FloatAttribute" || n.Obj().Name() == "CategoricalAttribute") {
						made = n.Obj().Name()
					}
				}
				if made == "" {
					continue
				}
				for _, gd := range guardsOf(j.Block()) {
					ex, ok := gd.Cond.(*ssa.Extract)
					if !(ok && ex.Tuple == ssa.Value(call) && ex.Index == 0) && gd.Cond != ssa.Value(call) {
						continue
					}
					r.check(gd.Pol == (made == "FloatAttribute"), "type:"+r.p.Name(f)+":"+made, r.p.InstrPos(j), "numbers make a column of numbers", "a column of numbers is taken for one of words, or the other way round")
				}
			}
		}
	}
}

// patternOf: what a regular expression was compiled from.
func (r *records) patternOf(v ssa.Value) ssa.Value {
	for w := range r.p.backSlice(v) {
		if c, ok := w.(*ssa.Call); ok && calleeObj(c) != nil {
			switch calleeObj(c).FullName() {
			case "regexp.MustCompile", "regexp.Compile":
				return c.Call.Args[0]
			}
		}
	}
	if u, ok := v.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok {
			for _, i := range instrs(g.Pkg.Func("init")) {
				if st, ok := i.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
					return r.patternOf(st.Val)
				}
			}
		}
	}
	return nil
}

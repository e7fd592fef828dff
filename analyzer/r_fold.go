package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C45", Rule: "cross-validation: rows are dealt to any of as many folds as are run, each appended to the list it came from; in every round, over all folds from the first, the part predicted is the view of that round's own fold, the part fitted is the view of the rows collected over all folds from the first, leaving out none but the one that is tested, and starting anew each round; predictions made for the test part, and no other, are compared with it as the reference; and the result is kept, on every way through the round that goes on, at the round's own place.",
		Trust: []string{"views show the rows they are given"}, Run: runC45})
}

type folds struct {
	c *Ctx
	p *Prog
}

func (r *folds) check(ok bool, key, pos, good, bad string) {
	r.c.Count("cross-validation obligations", 1)
	r.c.Check(ok, key, pos, good, bad)
}

func (r *folds) undecided(what string) { r.c.Count("undecided: "+what, 1) }

// one: the only value something can be, through parameters and local variables.
func (r *folds) one(v ssa.Value) ssa.Value {
	for n := 0; n < 4; n++ {
		q, ok := v.(*ssa.Parameter)
		if !ok {
			break
		}
		var args []ssa.Value
		for _, f := range r.p.Funcs {
			if f.Pkg != q.Parent().Pkg {
				continue
			}
			for _, i := range instrs(f) {
				if c, ok := i.(*ssa.Call); ok && c.Call.StaticCallee() == q.Parent() {
					for k, a := range c.Call.Args {
						if k < len(q.Parent().Params) && q.Parent().Params[k] == q {
							args = append(args, a)
						}
					}
				}
			}
		}
		if len(args) != 1 {
			return v
		}
		v = args[0]
	}
	if _, ok := v.(*ssa.Phi); ok {
		return v
	}
	ls := r.p.Trace(v, TraceOpt{NoCalls: true})
	if len(ls) == 1 {
		return ls[0]
	}
	return v
}

func viewCall(v ssa.Value) *ssa.Call {
	for n := 0; n < 4; n++ {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.Call:
			if isCallTo(x, "base", "", "NewInstancesViewFromVisible") && len(x.Call.Args) == 3 {
				return x
			}
		}
		break
	}
	return nil
}

// foldOf: the fold a list of rows is, and where folds are kept.
func foldOf(p *Prog, v ssa.Value) (folds, key ssa.Value, ok bool) {
	switch x := v.(type) {
	case *ssa.Lookup:
		return x.X, x.Index, true
	case *ssa.Extract:
		switch q := x.Tuple.(type) {
		case *ssa.Next:
			for _, rf := range *q.Referrers() {
				if e, isE := rf.(*ssa.Extract); isE && e.Index == 1 {
					if rg, isR := q.Iter.(*ssa.Range); isR {
						return rg.X, e, true
					}
				}
			}
		case *ssa.Lookup:
			return q.X, q.Index, true
		}
	case *ssa.UnOp:
		if l, ix, is := p.elemOf(v); is {
			return l, ix, true
		}
	}
	return nil, nil, false
}

func runC45(c *Ctx) {
	r := &folds{c, c.P}
	defer func() {
		c.Floor("obligations about cross-validation", c.Counts["cross-validation obligations"], 1)
	}()
	top := c.P.Func("evaluation.GenerateCrossFoldValidationConfusionMatrices")
	if top == nil {
		r.undecided("cross-validation")
		return
	}
	var fs []*ssa.Function
	for _, f := range c.P.within(top) {
		if f.Pkg == top.Pkg {
			fs = append(fs, f)
		}
	}
	name := c.P.Name(top)
	count := ssa.Value(top.Params[len(top.Params)-1])
	var pred, fit *ssa.Call
	var conf *ssa.Call
	for _, f := range fs {
		for _, i := range instrs(f) {
			x, ok := i.(*ssa.Call)
			if !ok {
				continue
			}
			switch {
			case methodNamed(x, "Predict") && len(argsOf(x)) == 1:
				pred = x
			case methodNamed(x, "Fit") && len(argsOf(x)) == 1:
				fit = x
			case isCallTo(x, "evaluation", "", "GetConfusionMatrix"):
				conf = x
			case isCallTo(x, "math/rand", "", "Intn") && len(x.Call.Args) == 1:
				if a := r.one(x.Call.Args[0]); isIntType(a.Type()) {
					same := a == count
					if b, isB := a.(*ssa.BinOp); isB || same {
						_ = b
						r.check(same, "dealt:"+name, c.P.InstrPos(x), "rows are dealt to all folds", "rows are not dealt to as many folds as are run")
					}
				}
			}
			// lists a row is appended to
			if ap, isAp := isAppend(x); isAp {
				lists, from, ok := foldOf(c.P, ap.Call.Args[0])
				if !ok || lists == nil {
					continue
				}
				for _, rf := range *x.Referrers() {
					if up, isU := rf.(*ssa.MapUpdate); isU && c.P.sameRead(up.Map, lists) {
						r.check(c.P.sameRead(up.Key, from), "kept:"+name, c.P.InstrPos(up), "a fold keeps its rows", "a fold's rows are replaced by another's")
					}
					if st, isS := rf.(*ssa.Store); isS {
						if ia, isI := st.Addr.(*ssa.IndexAddr); isI && c.P.sameRead(ia.X, lists) {
							r.check(c.P.sameRead(ia.Index, from), "kept:"+name, c.P.InstrPos(st), "a fold keeps its rows", "a fold's rows are replaced by another's")
						}
					}
				}
			}
		}
	}
	if pred == nil || fit == nil || conf == nil {
		r.undecided("what is fitted, predicted and compared")
		return
	}
	// what is compared
	tested := r.one(argsOf(pred)[0])
	if len(conf.Call.Args) == 2 {
		bad := ""
		isPred := func(v ssa.Value) bool {
			ex, ok := r.one(v).(*ssa.Extract)
			return ok && ex.Tuple == ssa.Value(pred) && ex.Index == 0
		}
		ref, got := conf.Call.Args[0], conf.Call.Args[1]
		switch {
		case isPred(ref) && !isPred(got):
			bad = "predictions and reference are the wrong way round"
		case !isPred(got):
			if viewCall(r.one(got)) != nil {
				bad = "the predictions are not what is compared"
			}
		case r.one(ref) != tested:
			if _, isP := r.one(ref).(*ssa.Parameter); isP || viewCall(r.one(ref)) != nil {
				bad = "predictions are compared with other rows than they were made for"
			}
		}
		r.check(bad == "", "compared:"+name, c.P.InstrPos(conf), "predictions are compared with the rows they are made for", bad)
	}
	// the round
	tv, fv := viewCall(tested), viewCall(r.one(argsOf(fit)[0]))
	if tv == nil {
		r.undecided("which rows are tested")
		return
	}
	_, key, ok := foldOf(c.P, r.one(tv.Call.Args[1]))
	if !ok {
		r.undecided("which rows are tested")
		return
	}
	key = r.one(key)
	var round *CountLoop
	for _, f := range fs {
		for _, l := range countingLoops(f) {
			if l.Cur == key {
				round = l
			}
		}
	}
	if round == nil {
		bad := ""
		if _, isC := constInt(key); isC {
			bad = "every round tests the same fold"
		}
		if bad != "" {
			r.check(false, "round:"+name, c.P.InstrPos(tv), "", bad)
		} else {
			r.undecided("which fold a round is about")
		}
		return
	}
	bad := ""
	if !fromZero(round) {
		bad = "some folds are never tested"
	} else if !round.Range && r.one(round.Bound) != count {
		if _, isB := r.one(round.Bound).(*ssa.BinOp); isB {
			bad = "some folds are never tested"
		}
	}
	r.check(bad == "", "round:"+name, c.P.InstrPos(tv), "every fold is tested", bad)
	r.result(name, conf, round)
	if fv == nil {
		r.undecided("which rows are fitted")
		return
	}
	r.training(name, fs, fv, key, round, count)
}

// result: where a round's result is kept.
func (r *folds) result(name string, conf *ssa.Call, round *CountLoop) {
	f := round.Header.Parent()
	for _, i := range instrs(f) {
		st, ok := i.(*ssa.Store)
		if !ok || !round.Body[st.Block()] {
			continue
		}
		ia, ok := st.Addr.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		n, ok := st.Val.Type().(*types.Named)
		if !ok || n.Obj().Name() != "ConfusionMatrix" {
			continue
		}
		if al, isA := ia.X.(*ssa.Alloc); isA && al.Comment == "varargs" {
			continue // appended
		}
		bad := ""
		if ia.Index != round.Cur && !r.p.sameRead(ia.Index, round.Cur) {
			bad = "a round's result is not kept at its own place"
		} else if ts := (&convert{r.c, r.p}).turnsWithout(round.Header, round.Body, st); len(ts) > 0 {
			bad = "some rounds' results are not kept"
		}
		r.check(bad == "", "result:"+name, r.p.InstrPos(st), "every round's result is kept", bad)
	}
}

// training: the rows fitted are those of every other fold.
func (r *folds) training(name string, fs []*ssa.Function, fv *ssa.Call, key ssa.Value, round *CountLoop, count ssa.Value) {
	list := r.one(fv.Call.Args[1])
	if _, k, ok := foldOf(r.p, list); ok {
		if r.one(k) == key {
			r.check(false, "training:"+name, r.p.InstrPos(fv), "", "the rows fitted are those tested")
		} else {
			r.check(false, "training:"+name, r.p.InstrPos(fv), "", "the rows fitted are those of one fold only")
		}
		return
	}
	done := false
	for _, f := range fs {
		for _, i := range instrs(f) {
			x, ok := i.(*ssa.Call)
			if !ok {
				continue
			}
			ap, ok := isAppend(x)
			if !ok || len(ap.Call.Args) != 2 {
				continue
			}
			_, k, ok := foldOf(r.p, ap.Call.Args[1])
			if !ok {
				continue
			}
			var over *CountLoop
			for _, l := range countingLoops(f) {
				if l.Cur == k && l.Body[x.Block()] {
					over = l
				}
			}
			if over == nil {
				r.undecided("which folds are fitted")
				continue
			}
			done = true
			bad := ""
			asks := func(b *ssa.BinOp) bool {
				return b.X == k && r.one(b.Y) == key || b.Y == k && r.one(b.X) == key
			}
			if ts, full := turnPaths(over.Header, over.Body, 1000); full {
				for _, t := range ts {
					if !t.feasible() {
						continue
					}
					_, on := t.pos[x.Block()]
					is, not, other := false, false, false
					for _, fc := range t.facts() {
						if fc.iff == over.If {
							continue
						}
						b, ok := fc.cond.(*ssa.BinOp)
						if !ok || !asks(b) || b.Op != token.EQL && b.Op != token.NEQ {
							if !ok {
								other = true // may be the same question, asked elsewhere
							} else if _, isLen := lenOf(b.X); isLen && isZeroNum(b.Y) {
								other = true // an empty fold
							}
							continue
						}
						if (b.Op == token.EQL) == fc.pol {
							is = true
						} else {
							not = true
						}
					}
					switch {
					case on && is:
						bad = "the fold tested is among those fitted"
					case on && !not:
						// unless something not followed excludes it
						if !other || r.constAsked(t, k) {
							bad = "the fold tested is among those fitted"
						}
					case !on && !is:
						if !other || r.constAsked(t, k) {
							bad = "a fold that is not tested is left out of those fitted"
						}
					}
				}
			}
			if bad == "" && (!fromZero(over) || leavesEarly(over)) {
				bad = "some folds are left out of those fitted"
			}
			if bad == "" && !over.Range {
				if b, isB := r.one(over.Bound).(*ssa.BinOp); isB && r.one(b.X) == count {
					bad = "some folds are left out of those fitted"
				}
			}
			// starting anew each round
			if ph, isPh := ap.Call.Args[0].(*ssa.Phi); isPh && bad == "" && round.Header.Parent() == f {
				for n, e := range ph.Edges {
					if ph.Block() == over.Header && !over.Body[ph.Block().Preds[n]] {
						if p2, again := e.(*ssa.Phi); again && p2.Block() == round.Header {
							bad = "rows fitted in one round stay in the next"
						}
					}
				}
			}
			r.check(bad == "", "training:"+name, r.p.InstrPos(x), "all folds but the one tested are fitted", bad)
		}
	}
	if !done {
		r.undecided("which folds are fitted")
	}
}

// constAsked: the turn compares the fold with a fixed number.
func (r *folds) constAsked(t *turnPath, k ssa.Value) bool {
	for _, fc := range t.facts() {
		b, ok := fc.cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		_, c1 := constInt(b.X)
		_, c2 := constInt(b.Y)
		if b.X == k && c2 || b.Y == k && c1 {
			return true
		}
	}
	return false
}

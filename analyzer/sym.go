package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Sym is a rational function over atoms: the algebraic normal form of a straight-line arithmetic expression.
type Sym struct{ num, den poly }

type poly map[string]*big.Rat // monomial (sorted atoms joined by '·') -> coefficient

func constPoly(r *big.Rat) poly {
	if r.Sign() == 0 {
		return poly{}
	}
	return poly{"": r}
}

func symConst(r *big.Rat) Sym { return Sym{constPoly(r), constPoly(big.NewRat(1, 1))} }
func symInt(k int64) Sym      { return symConst(big.NewRat(k, 1)) }
func symAtom(a string) Sym {
	return Sym{poly{a: big.NewRat(1, 1)}, constPoly(big.NewRat(1, 1))}
}

func (a poly) add(b poly, sign int64) poly {
	out := poly{}
	for m, c := range a {
		out[m] = new(big.Rat).Set(c)
	}
	for m, c := range b {
		t := new(big.Rat).Mul(c, big.NewRat(sign, 1))
		if o, ok := out[m]; ok {
			t.Add(t, o)
		}
		if t.Sign() == 0 {
			delete(out, m)
		} else {
			out[m] = t
		}
	}
	return out
}

func mulMono(a, b string) string {
	var xs []string
	if a != "" {
		xs = append(xs, strings.Split(a, "·")...)
	}
	if b != "" {
		xs = append(xs, strings.Split(b, "·")...)
	}
	sort.Strings(xs)
	return strings.Join(xs, "·")
}

func (a poly) mul(b poly) poly {
	out := poly{}
	for m1, c1 := range a {
		for m2, c2 := range b {
			m := mulMono(m1, m2)
			t := new(big.Rat).Mul(c1, c2)
			if o, ok := out[m]; ok {
				t.Add(t, o)
			}
			if t.Sign() == 0 {
				delete(out, m)
			} else {
				out[m] = t
			}
		}
	}
	return out
}

func (a poly) eq(b poly) bool { return len(a.add(b, -1)) == 0 }

func (a poly) String() string {
	var ms []string
	for m := range a {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	var ps []string
	for _, m := range ms {
		c := a[m].RatString()
		switch {
		case m == "":
			ps = append(ps, c)
		case c == "1":
			ps = append(ps, strings.ReplaceAll(m, "·", "*"))
		default:
			ps = append(ps, c+"*"+strings.ReplaceAll(m, "·", "*"))
		}
	}
	if len(ps) == 0 {
		return "0"
	}
	return strings.Join(ps, " + ")
}

func (s Sym) Add(t Sym) Sym { return Sym{s.num.mul(t.den).add(t.num.mul(s.den), 1), s.den.mul(t.den)} }
func (s Sym) Sub(t Sym) Sym { return Sym{s.num.mul(t.den).add(t.num.mul(s.den), -1), s.den.mul(t.den)} }
func (s Sym) Mul(t Sym) Sym { return Sym{s.num.mul(t.num), s.den.mul(t.den)} }
func (s Sym) Div(t Sym) Sym { return Sym{s.num.mul(t.den), s.den.mul(t.num)} }
func (s Sym) Eq(t Sym) bool { return s.num.mul(t.den).eq(t.num.mul(s.den)) }
func (s Sym) IsConst() (*big.Rat, bool) {
	if len(s.num) == 0 {
		return new(big.Rat), true
	}
	n, okn := s.num[""]
	d, okd := s.den[""]
	if okn && okd && len(s.num) == 1 && len(s.den) == 1 {
		return new(big.Rat).Quo(n, d), true
	}
	return nil, false
}
func (s Sym) String() string {
	if d, ok := s.den[""]; ok && len(s.den) == 1 {
		if d.Cmp(big.NewRat(1, 1)) == 0 {
			return s.num.String()
		}
		q := poly{}
		for m, c := range s.num {
			q[m] = new(big.Rat).Quo(c, d)
		}
		return q.String()
	}
	return "(" + s.num.String() + ")/(" + s.den.String() + ")"
}

// Canon: a canonical text (equal expressions with trivial denominators get equal texts).
func (s Sym) Canon() string { return s.String() }

// SymEnv evaluates expressions symbolically.
type SymEnv struct {
	P *Prog
	// Atom names a value (parameter, field, call ...); ok=false to use the default.
	Atom  func(v ssa.Value) (Sym, bool)
	bind  map[ssa.Value]Sym
	busy  map[ssa.Value]bool
	depth int
	// Path, when set, selects phi edges (values resolved along one path).
	Path *pathPoint
}

func (p *Prog) sym(v ssa.Value) Sym {
	return (&SymEnv{P: p}).Eval(v)
}

func (e *SymEnv) Eval(v ssa.Value) Sym {
	if s, ok := e.bind[v]; ok {
		return s
	}
	if e.Atom != nil {
		if s, ok := e.Atom(v); ok {
			return s
		}
	}
	if e.busy[v] {
		return symAtom(fmt.Sprintf("%s@%s", v.Name(), parentName(v)))
	}
	if e.busy == nil {
		e.busy = map[ssa.Value]bool{}
	}
	e.busy[v] = true
	defer delete(e.busy, v)
	if e.Path != nil {
		if w := e.Path.Resolve(v); w != v {
			v = w
			if s, ok := e.bind[v]; ok {
				return s
			}
			if e.Atom != nil {
				if s, ok := e.Atom(v); ok {
					return s
				}
			}
		}
	}
	switch t := v.(type) {
	case *ssa.Const:
		if t.Value == nil {
			return symAtom("nil")
		}
		switch t.Value.Kind() {
		case constant.Int, constant.Float:
			r, ok := new(big.Rat).SetString(t.Value.ExactString())
			if ok {
				return symConst(r)
			}
		}
		return symAtom("const:" + t.Value.ExactString())
	case *ssa.Convert:
		return e.Eval(t.X)
	case *ssa.ChangeType:
		return e.Eval(t.X)
	case *ssa.Parameter:
		return symAtom("param:" + t.Name())
	case *ssa.UnOp:
		switch t.Op {
		case token.SUB:
			return symInt(0).Sub(e.Eval(t.X))
		case token.XOR:
			return symAtom("not(" + e.Eval(t.X).String() + ")")
		case token.NOT:
			return symAtom("!(" + e.Eval(t.X).String() + ")")
		case token.MUL:
			if a := e.P.cellOf(t.X); a != nil {
				ss := e.P.cellStores(a)
				if len(ss) == 1 {
					return e.Eval(ss[0].Val)
				}
			}
			if fa, ok := t.X.(*ssa.FieldAddr); ok {
				return symAtom("." + fieldVar(fa.X.Type(), fa.Field).Name())
			}
			if ia, ok := t.X.(*ssa.IndexAddr); ok {
				return symAtom(e.Eval(ia.X).String() + "[" + e.Eval(ia.Index).String() + "]")
			}
			if g, ok := t.X.(*ssa.Global); ok {
				return symAtom("global:" + g.Name())
			}
		}
	case *ssa.Field:
		return symAtom("." + t.X.Type().Underlying().(*types.Struct).Field(t.Field).Name())
	case *ssa.Lookup:
		if !t.CommaOk {
			return symAtom(e.Eval(t.X).String() + "[" + e.Eval(t.Index).String() + "]")
		}
	case *ssa.BinOp:
		x, y := e.Eval(t.X), e.Eval(t.Y)
		isInt := isIntType(t.Type())
		switch t.Op {
		case token.ADD:
			return x.Add(y)
		case token.SUB:
			return x.Sub(y)
		case token.MUL:
			return x.Mul(y)
		case token.QUO:
			if !isInt {
				return x.Div(y)
			}
			return symAtom("idiv(" + x.String() + "," + y.String() + ")")
		case token.REM:
			return symAtom("mod(" + x.String() + "," + y.String() + ")")
		case token.SHL:
			if k, ok := y.IsConst(); ok && k.IsInt() && k.Num().IsInt64() && k.Num().Int64() < 62 {
				return x.Mul(symInt(1 << uint(k.Num().Int64())))
			}
			return symAtom("shl(" + x.String() + "," + y.String() + ")")
		case token.SHR:
			if k, ok := y.IsConst(); ok && k.IsInt() && k.Num().IsInt64() && k.Num().Int64() < 62 {
				return symAtom("idiv(" + x.String() + "," + fmt.Sprint(int64(1)<<uint(k.Num().Int64())) + ")")
			}
		case token.AND:
			if k, ok := y.IsConst(); ok && k.IsInt() && k.Num().IsInt64() {
				n := k.Num().Int64() + 1
				if n > 0 && n&(n-1) == 0 {
					return symAtom("mod(" + x.String() + "," + fmt.Sprint(n) + ")")
				}
			}
		}
		return symAtom("(" + x.String() + t.Op.String() + y.String() + ")")
	case *ssa.Call:
		if b, ok := t.Call.Value.(*ssa.Builtin); ok {
			var as []string
			for _, a := range t.Call.Args {
				as = append(as, e.Eval(a).String())
			}
			return symAtom(b.Name() + "(" + strings.Join(as, ",") + ")")
		}
		if e.depth < 6 {
			if g := t.Call.StaticCallee(); g != nil && e.P.IsLibFunc(g) {
				if rs := returns(g); len(rs) == 1 && len(rs[0].Results) == 1 && len(g.Blocks) == 1 {
					in := &SymEnv{P: e.P, Atom: e.Atom, bind: map[ssa.Value]Sym{}, depth: e.depth + 1}
					for i, q := range g.Params {
						in.bind[q] = e.Eval(t.Call.Args[i])
					}
					return in.Eval(rs[0].Results[0])
				}
			}
		}
		name := "?"
		if o := calleeObj(t); o != nil {
			name = o.Name()
			if o.Pkg() != nil && !strings.HasPrefix(o.Pkg().Path(), modPath) {
				name = o.Pkg().Name() + "." + name
			}
		}
		var as []string
		for _, a := range argsOf(t) {
			as = append(as, e.Eval(a).String())
		}
		return symAtom(name + "(" + strings.Join(as, ",") + ")")
	case *ssa.Extract:
		if c, ok := t.Tuple.(*ssa.Call); ok {
			return symAtom(e.Eval(c).String() + fmt.Sprintf("#%d", t.Index))
		}
	}
	return symAtom(fmt.Sprintf("%s@%s", v.Name(), parentName(v)))
}

func parentName(v ssa.Value) string {
	if p := v.Parent(); p != nil {
		return p.Name()
	}
	return ""
}

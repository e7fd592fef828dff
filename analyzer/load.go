package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/sjwhitworth/golearn"

// Prog is the type-checked, SSA-built program under analysis.
type Prog struct {
	Repo string
	Fset *token.FileSet
	Pkgs []*packages.Package
	SSA  *ssa.Program
	// Library packages of the repository (examples and main packages left out).
	Lib map[string]*ssa.Package // keyed by path relative to module
	// Funcs: every source function of the library packages, closures included.
	Funcs   []*ssa.Function
	isLib   map[*ssa.Package]bool
	byName  map[string]*ssa.Function // "base.(*T).M" or "base.F"
	callers map[*ssa.Function][]ssa.CallInstruction
	// closures created from function f
	makeClosures map[*ssa.Function][]*ssa.MakeClosure
	// field stores: T.f -> stores
	fieldStores map[*types.Var][]*ssa.Store
	implCache   map[string][]*ssa.Function
	decls       map[*types.Func]*ast.FuncDecl
}

func loadProgram(repo string) (*Prog, error) {
	scratch, err := os.MkdirTemp("", "golearnverif")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(scratch)
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	sum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		return nil, err
	}
	lines := map[string]bool{}
	add := func(b []byte) {
		for _, l := range strings.Split(string(b), "\n") {
			if len(strings.Fields(l)) == 3 {
				lines[l] = true
			}
		}
	}
	add(sum)
	add([]byte(extraSum))
	var ls []string
	for l := range lines {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	if err := os.WriteFile(filepath.Join(scratch, "golearn.mod"), mod, 0644); err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(scratch, "golearn.sum"), []byte(strings.Join(ls, "\n")+"\n"), 0644); err != nil {
		return nil, err
	}
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GO111MODULE=") || strings.HasPrefix(e, "CGO_ENABLED=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=-modfile="+filepath.Join(scratch, "golearn.mod")+" -mod=mod", "GOPROXY=off", "GO111MODULE=on", "CGO_ENABLED=1", "GOTOOLCHAIN=local", "GOWORK=off")
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir:  repo,
		Env:  env,
		Fset: fset,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages loaded")
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{Repo: repo, Fset: fset, Pkgs: pkgs, SSA: prog, Lib: map[string]*ssa.Package{}, isLib: map[*ssa.Package]bool{},
		byName: map[string]*ssa.Function{}, callers: map[*ssa.Function][]ssa.CallInstruction{}, makeClosures: map[*ssa.Function][]*ssa.MakeClosure{},
		fieldStores: map[*types.Var][]*ssa.Store{}, implCache: map[string][]*ssa.Function{}, decls: map[*types.Func]*ast.FuncDecl{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		path := pkgs[i].PkgPath
		if sp.Pkg.Name() == "main" {
			continue
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
		p.Lib[rel] = sp
		p.isLib[sp] = true
		for _, f := range pkgs[i].Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					if o, ok := pkgs[i].TypesInfo.Defs[fd.Name].(*types.Func); ok {
						p.decls[o] = fd
					}
				}
			}
		}
	}
	all := ssautil.AllFunctions(prog)
	for f := range all {
		if f.Pkg == nil || !p.isLib[f.Pkg] || len(f.Blocks) == 0 {
			continue
		}
		if f.Synthetic != "" && f.Name() != "init" {
			continue
		}
		fn := p.Fset.Position(f.Pos()).Filename
		if strings.Contains(filepath.Base(fn), "_cgo_") {
			continue
		}
		p.Funcs = append(p.Funcs, f)
	}
	sort.Slice(p.Funcs, func(i, j int) bool { return p.Name(p.Funcs[i]) < p.Name(p.Funcs[j]) })
	for _, f := range p.Funcs {
		p.byName[p.Name(f)] = f
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch t := ins.(type) {
				case ssa.CallInstruction:
					for _, c := range p.Callees(t) {
						p.callers[c] = append(p.callers[c], t)
					}
				case *ssa.MakeClosure:
					g := t.Fn.(*ssa.Function)
					p.makeClosures[g] = append(p.makeClosures[g], t)
				case *ssa.Store:
					if fa, ok := t.Addr.(*ssa.FieldAddr); ok {
						v := fieldVar(fa.X.Type(), fa.Field)
						p.fieldStores[v] = append(p.fieldStores[v], t)
					}
				}
			}
		}
	}
	return p, nil
}

// Name is a short stable name: "base.(*DenseInstances).Get", closures "…$1".
func (p *Prog) Name(f *ssa.Function) string {
	if f == nil {
		return "<nil>"
	}
	s := f.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath, "golearn")
	return s
}

func (p *Prog) Func(name string) *ssa.Function { return p.byName[name] }

func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Repo, q.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = filepath.Base(q.Filename)
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

func (p *Prog) InstrPos(i ssa.Instruction) string {
	if i.Pos().IsValid() {
		return p.Pos(i.Pos())
	}
	// nearest instruction with a position in the block
	b := i.Block()
	if b != nil {
		for _, x := range b.Instrs {
			if x.Pos().IsValid() {
				return p.Pos(x.Pos())
			}
		}
	}
	return p.Pos(i.Parent().Pos())
}

// Lookup of a named type in a library package.
func (p *Prog) Type(pkg, name string) *types.Named {
	sp := p.Lib[pkg]
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

func fieldVar(t types.Type, i int) *types.Var {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	st := t.Underlying().(*types.Struct)
	return st.Field(i)
}

func deref(t types.Type) types.Type {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return t
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(deref(types.Unalias(t)))
	n, _ := t.(*types.Named)
	return n
}

// Callees resolves a call to library functions: static calls, immediately
// known closures, and (CHA over the repository's types) interface calls.
func (p *Prog) Callees(c ssa.CallInstruction) []*ssa.Function {
	cc := c.Common()
	if cc.IsInvoke() {
		return p.impls(cc.Value.Type(), cc.Method)
	}
	if f := cc.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if fs := p.funcValues(cc.Value, map[ssa.Value]bool{}); fs != nil {
		return fs
	}
	return nil
}

// funcValues resolves a function-typed value to the functions it may be, when local dataflow determines it.
func (p *Prog) funcValues(v ssa.Value, seen map[ssa.Value]bool) []*ssa.Function {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch t := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{t}
	case *ssa.MakeClosure:
		return []*ssa.Function{t.Fn.(*ssa.Function)}
	case *ssa.ChangeType:
		return p.funcValues(t.X, seen)
	case *ssa.MakeInterface:
		return p.funcValues(t.X, seen)
	case *ssa.Phi:
		var r []*ssa.Function
		for _, e := range t.Edges {
			r = append(r, p.funcValues(e, seen)...)
		}
		return r
	case *ssa.UnOp:
		if t.Op != token.MUL {
			return nil
		}
		switch a := t.X.(type) {
		case *ssa.Alloc:
			return p.storedFuncs(a, seen)
		case *ssa.FreeVar:
			var r []*ssa.Function
			for _, b := range p.freeVarBindings(a) {
				if al, ok := b.(*ssa.Alloc); ok {
					r = append(r, p.storedFuncs(al, seen)...)
				}
			}
			return r
		}
	case *ssa.FreeVar:
		var r []*ssa.Function
		for _, b := range p.freeVarBindings(t) {
			r = append(r, p.funcValues(b, seen)...)
		}
		return r
	}
	return nil
}

func (p *Prog) storedFuncs(a *ssa.Alloc, seen map[ssa.Value]bool) []*ssa.Function {
	var r []*ssa.Function
	for _, ref := range *a.Referrers() {
		if s, ok := ref.(*ssa.Store); ok && s.Addr == a {
			r = append(r, p.funcValues(s.Val, seen)...)
		}
	}
	return r
}

// freeVarBindings: the values bound to a free variable at closure creation.
func (p *Prog) freeVarBindings(fv *ssa.FreeVar) []ssa.Value {
	f := fv.Parent()
	idx := -1
	for i, x := range f.FreeVars {
		if x == fv {
			idx = i
		}
	}
	var out []ssa.Value
	if par := f.Parent(); par != nil {
		for _, b := range par.Blocks {
			for _, ins := range b.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == f {
					out = append(out, mc.Bindings[idx])
				}
			}
		}
	}
	return out
}

// impls: the repository's concrete methods that an interface call may reach.
func (p *Prog) impls(it types.Type, m *types.Func) []*ssa.Function {
	key := types.TypeString(it, nil) + "|" + m.Id()
	if r, ok := p.implCache[key]; ok {
		return r
	}
	var out []*ssa.Function
	iface, ok := it.Underlying().(*types.Interface)
	if ok {
		for _, n := range p.NamedTypes() {
			if _, isI := n.Underlying().(*types.Interface); isI {
				continue
			}
			var recv types.Type = n
			if !types.Implements(n, iface) {
				recv = types.NewPointer(n)
				if !types.Implements(recv, iface) {
					continue
				}
			}
			sel := types.NewMethodSet(recv).Lookup(m.Pkg(), m.Name())
			if sel == nil {
				continue
			}
			if fo, ok := sel.Obj().(*types.Func); ok {
				if f := p.SSA.FuncValue(fo); f != nil && len(f.Blocks) > 0 {
					out = append(out, f)
				}
			}
		}
	}
	p.implCache[key] = out
	return out
}

// NamedTypes lists all named types of the library, in a stable order.
func (p *Prog) NamedTypes() []*types.Named {
	var out []*types.Named
	var keys []string
	for k := range p.Lib {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		sc := p.Lib[k].Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nn, ok := tn.Type().(*types.Named); ok && nn.TypeParams().Len() == 0 {
					out = append(out, nn)
				}
			}
		}
	}
	return out
}

func typeName(n *types.Named) string {
	if n == nil {
		return "<nil>"
	}
	if n.Obj().Pkg() == nil {
		return n.Obj().Name()
	}
	return strings.TrimPrefix(strings.TrimPrefix(n.Obj().Pkg().Path(), modPath), "/") + "." + n.Obj().Name()
}

// Method finds a method (pointer or value receiver) of a named type, declared by that type.
func (p *Prog) Method(n *types.Named, name string) *ssa.Function {
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return p.SSA.FuncValue(n.Method(i))
		}
	}
	return nil
}

// IsLibFunc: function with a body in the analysed library.
func (p *Prog) IsLibFunc(f *ssa.Function) bool {
	return f != nil && f.Pkg != nil && p.isLib[f.Pkg] && len(f.Blocks) > 0
}

// Reachable: functions reachable through the call graph from roots (closures created on the way are included).
func (p *Prog) Reachable(roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !p.IsLibFunc(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					visit(mc.Fn.(*ssa.Function))
				}
				if c, ok := ins.(ssa.CallInstruction); ok {
					for _, g := range p.Callees(c) {
						visit(g)
					}
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
			}
		}
	}
	for _, r := range roots {
		visit(r)
	}
	return seen
}

func sortedFuncs(p *Prog, m map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for f := range m {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return p.Name(out[i]) < p.Name(out[j]) })
	return out
}

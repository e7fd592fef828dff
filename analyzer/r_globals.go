package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C28", Rule: "forward may-alias analysis from every package-level variable of the library: no function other than package initialisers stores to one, updates or deletes from a map reached through one, or writes an element of a slice reached through one (the logger, whose setter is its purpose, excepted).", Run: runC28})
}

func runC28(c *Ctx) {
	p := c.P
	var roots []*ssa.Function
	for _, f := range p.Funcs {
		roots = append(roots, f)
	}
	t := newTaint(p, roots...)
	n := 0
	var gs []*ssa.Global
	seen := map[*ssa.Global]bool{}
	for _, f := range p.Funcs {
		if f.Pkg == nil {
			continue
		}
		for _, m := range f.Pkg.Members {
			if g, ok := m.(*ssa.Global); ok && !seen[g] && !strings.HasPrefix(g.Name(), "_") && !strings.HasPrefix(g.Name(), "init$") {
				seen[g] = true
				gs = append(gs, g)
			}
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for _, g := range gs {
		t.Seed(g)
		n++
	}
	t.Run()
	for i, w := range t.writes {
		f := i.Parent()
		if f.Name() == "init" && f.Signature.Recv() == nil || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		if st, ok := i.(*ssa.Store); ok {
			// replacing the log destination is what its setters are for
			if g, ok := st.Addr.(*ssa.Global); ok && g.Type().String() == "**log.Logger" {
				continue
			}
		}
		c.Bad("global:"+p.Name(owner(f)), p.InstrPos(i), "package-level state is modified ("+w+")")
	}
	for _, g := range gs {
		c.Ok("global:"+g.Pkg.Pkg.Name()+"."+g.Name(), p.Pos(g.Pos()), "never modified after initialisation")
	}
	c.Floor("package-level variables", n, 3)
}

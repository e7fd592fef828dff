package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Rule decides one property.
type Rule struct {
	ID    string
	Rule  string // one-paragraph description of the rule applied
	Trust []string
	Run   func(c *Ctx)
}

var rules = map[string]*Rule{}

func register(r *Rule) { rules[r.ID] = r }

type Ob struct {
	Key  string `json:"key"`
	Pos  string `json:"pos"`
	OK   bool   `json:"ok"`
	Note string `json:"note,omitempty"`
}

type Ctx struct {
	P      *Prog
	ID     string
	Obs    []Ob
	Counts map[string]int
	seen   map[string]int
}

// Ok records a discharged obligation, Bad a violated (or undecided) one. Keys name rule and construct, not lines.
func (c *Ctx) Ok(key, pos, note string)  { c.Obs = append(c.Obs, Ob{key, pos, true, note}) }
func (c *Ctx) Bad(key, pos, note string) { c.Obs = append(c.Obs, Ob{key, pos, false, note}) }
func (c *Ctx) Check(ok bool, key, pos, good, bad string) {
	if ok {
		c.Ok(key, pos, good)
	} else {
		c.Bad(key, pos, bad)
	}
}

// Floor fails the check when fewer instances were found than confirmed by hand.
func (c *Ctx) Floor(what string, got, min int) {
	c.Counts[what] = got
	if got < min {
		c.Bad("floor:"+what, "-", fmt.Sprintf("only %d instance(s) of %s found, at least %d expected: the rule no longer sees its subject", got, what, min))
	}
}
func (c *Ctx) Count(what string, n int) { c.Counts[what] += n }

func main() {
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	prop := flag.String("prop", "", "property id, comma list or all")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "")
	dump := flag.String("dump", "", "dump SSA of the functions whose name contains this")
	verbose := flag.Bool("v", false, "")
	flag.BoolVar(&verboseForms, "forms", false, "show formulas that could not be decided")
	noev := flag.Bool("noev", false, "do not write evidence")
	flag.Parse()
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *tier == "thorough" {
		exploreFactor = 8
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	start := time.Now()
	var ids []string
	if *prop == "all" {
		for id := range rules {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*prop, ",")
	}
	p, err := loadProgram(*repo)
	if *dump != "" && err == nil {
		for _, f := range p.Funcs {
			if strings.Contains(p.Name(f), *dump) {
				fmt.Println("=====", p.Name(f))
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	known := loadKnown(filepath.Join(*verif, "known_findings.txt"))
	exit := 0
	for _, id := range ids {
		r := rules[id]
		if r == nil {
			fmt.Println("unknown property", id)
			exit = 1
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, "none")
			continue
		}
		c := &Ctx{P: p, ID: id, Counts: map[string]int{}, seen: map[string]int{}}
		t0 := time.Now()
		if len(ids) == 1 {
			t0 = start
		}
		if err != nil {
			c.Bad("load", "-", "the current tree could not be loaded and type-checked: "+err.Error())
		} else {
			func() {
				defer func() {
					if x := recover(); x != nil {
						c.Bad("internal", "-", fmt.Sprintf("analysis failed (treated as undecided): %v\n%s", x, debug.Stack()))
					}
				}()
				r.Run(c)
			}()
		}
		var bad, knownBad []Ob
		okN := 0
		usedKnown := map[string]bool{}
		for _, o := range c.Obs {
			if o.OK {
				okN++
				continue
			}
			if d, isK := known[id+"|"+o.Key]; isK {
				if !usedKnown[o.Key] {
					fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, o.Key, d)
				}
				usedKnown[o.Key] = true
				knownBad = append(knownBad, o)
				continue
			}
			bad = append(bad, o)
		}
		if *verbose {
			for _, o := range c.Obs {
				s := "ok "
				if !o.OK {
					s = "BAD"
				}
				fmt.Printf("  %s [%s] %s — %s\n", s, o.Key, o.Pos, o.Note)
			}
		}
		evPath := filepath.Join(*verif, "evidence", id+".json")
		repPath := filepath.Join(*verif, "evidence", id+".report.txt")
		if !*noev {
			os.MkdirAll(filepath.Dir(evPath), 0755)
			writeEvidence(evPath, r, c, *tier, seed, okN, len(bad), len(knownBad), time.Since(t0))
			var sb strings.Builder
			fmt.Fprintf(&sb, "property %s\nrule: %s\n", id, r.Rule)
			for _, o := range bad {
				fmt.Fprintf(&sb, "VIOLATION [%s] %s — %s\n", o.Key, o.Pos, o.Note)
			}
			for _, o := range knownBad {
				fmt.Fprintf(&sb, "known [%s] %s — %s\n", o.Key, o.Pos, o.Note)
			}
			os.WriteFile(repPath, []byte(sb.String()), 0644)
		}
		fmt.Printf("%s: %d obligations, %d discharged, %d known finding(s), %d violation(s), counts %v\n", id, len(c.Obs), okN, len(knownBad), len(bad), c.Counts)
		if len(bad) > 0 {
			for _, o := range bad {
				fmt.Printf("  [%s] %s — %s\n", o.Key, o.Pos, o.Note)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, repPath)
			exit = 1
		}
	}
	os.Exit(exit)
}

func loadKnown(path string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property=")
		id, rest, ok := strings.Cut(rest, " key=")
		if !ok {
			continue
		}
		key, desc, _ := strings.Cut(rest, " -- ")
		out[id+"|"+strings.TrimSpace(key)] = strings.TrimSpace(desc)
	}
	return out
}

func writeEvidence(path string, r *Rule, c *Ctx, tier string, seed, okN, bad, known int, d time.Duration) {
	nf, nc := 0, 0
	if c.P != nil {
		nf = len(c.P.Funcs)
		for _, f := range c.P.Funcs {
			nc += len(calls(f))
		}
	}
	var samples []Ob
	for i, o := range c.Obs {
		if i < 40 || !o.OK {
			samples = append(samples, o)
		}
	}
	ev := map[string]any{
		"property": c.ID, "tier": tier, "seed": seed, "level": "other", "wall_s": d.Seconds(), "violations": bad,
		"coverage": map[string]any{
			"explanation":         "Static analysis of the type-checked SSA form of every non-main package of /repo, rebuilt on this run. Rule: " + r.Rule,
			"rule":                r.Rule,
			"obligations":         len(c.Obs),
			"discharged":          okN,
			"known_findings":      known,
			"functions_analysed":  nf,
			"call_sites_in_scope": nc,
			"instances":           c.Counts,
			"samples":             samples,
		},
		"assumptions": append([]string{"go/types, go/ssa (x/tools v0.52.0) represent the program faithfully", "calls through interfaces reach only implementations in this repository", "no reflection or unsafe writes bypass the analysed stores"}, r.Trust...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(path, append(b, '\n'), 0644)
}

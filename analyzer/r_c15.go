package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C15", Rule: "every call whose error result may come from an input/output or decoding operation (os, io, bufio, tar, gzip, csv, json, binary — directly or through library functions) is followed along every path on which that error is non-nil: the path must return a non-nil error, panic, or hand the error over; it may not end in a nil-error return, overwrite it, discard it or only print it. Scanner loops must consult Err.",
		Trust: []string{"writes to bytes.Buffer, strings.Builder and tabwriter over them cannot fail", "gzip.Reader.Reset keeps its error and reports it on the next Read", "Close results are decided by C14/C16"}, Run: runC15})
	register(&Rule{ID: "C22", Rule: "every call of a library function that may return an error not stemming from input/output (training, prediction, attribute resolution, evaluation, traversal callbacks, parameter checks) is followed along every path on which the error is non-nil: the path must return a non-nil error, panic, or hand the error to the caller's variable, channel or collection; it may not end in a nil-error return, overwrite it, discard it or only print it.",
		Trust: []string{"AddClassAttribute/CreateAttributeGroup on a grid the same function has just built cannot fail"}, Run: runC22})
}

var ioPkgs = map[string]bool{"os": true, "io": true, "io/ioutil": true, "bufio": true, "archive/tar": true, "compress/gzip": true,
	"encoding/csv": true, "encoding/json": true, "encoding/binary": true, "encoding/gob": true}

type ioMemoKey struct {
	p *Prog
	f *ssa.Function
}

var ioMemo = map[ioMemoKey]int{}

// ioFunc: f's error may stem from an I/O or decoding operation.
func (p *Prog) ioFunc(f *ssa.Function) bool {
	k := ioMemoKey{p, f}
	if v := ioMemo[k]; v != 0 {
		return v == 2
	}
	ioMemo[k] = 1 // in progress: no
	r := false
	for _, g := range withClosures(f) {
		for _, c := range calls(g) {
			if p.ioCall(c) {
				r = true
			}
		}
	}
	if r {
		ioMemo[k] = 2
	}
	return r
}

func (p *Prog) ioCall(c ssa.CallInstruction) bool {
	rs := c.Common().Signature().Results()
	if rs.Len() == 0 || !isErrorType(rs.At(rs.Len()-1).Type()) {
		return false
	}
	o := calleeObj(c)
	if o != nil && o.Pkg() != nil {
		if neverFails(o) {
			return false
		}
		if ioPkgs[o.Pkg().Path()] {
			return true
		}
		if o.Pkg().Path() == "fmt" && strings.HasPrefix(o.Name(), "Fprint") {
			return true
		}
	}
	for _, g := range p.Callees(c) {
		if p.IsLibFunc(g) && p.ioFunc(g) {
			return true
		}
	}
	return false
}

// inMemorySink: the writer/reader operand is a memory buffer (or a tabwriter).
func (p *Prog) inMemorySink(c ssa.CallInstruction) bool {
	for _, a := range c.Common().Args {
		for _, l := range p.Trace(a, TraceOpt{NoCalls: true}) {
			if n := namedOf(l.Type()); n != nil && n.Obj().Pkg() != nil {
				switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
				case "bytes.Buffer", "strings.Builder", "text/tabwriter.Writer", "bytes.Reader":
					return true
				}
			}
		}
	}
	return false
}

func errorSites(p *Prog, want func(f *ssa.Function, c ssa.CallInstruction) bool, each func(f *ssa.Function, c ssa.CallInstruction, name, key string)) {
	for _, f := range p.Funcs {
		k := map[string]int{}
		for _, ci := range calls(f) {
			rs := ci.Common().Signature().Results()
			if rs.Len() == 0 || !isErrorType(rs.At(rs.Len()-1).Type()) {
				continue
			}
			o := calleeObj(ci)
			if o != nil {
				switch o.Name() {
				case "Close", "Remove", "RemoveAll":
					continue
				case "AddClassAttribute", "RemoveClassAttribute", "CreateAttributeGroup":
					if _, isCall := ci.(*ssa.Call); isCall && resultUnused(ci.(*ssa.Call)) {
						continue
					}
				}
			}
			if !p.callCanFail(ci) || !want(f, ci) || p.inMemorySink(ci) {
				continue
			}
			cn := "?"
			if o != nil {
				cn = o.Name()
			}
			k[cn]++
			each(f, ci, cn, fmt.Sprintf("error:%s>%s#%d", p.Name(f), cn, k[cn]))
		}
	}
}

func resultUnused(c *ssa.Call) bool {
	n := c.Common().Signature().Results().Len()
	e := resultExtract(c, n-1)
	return e == nil || e.Referrers() == nil || len(*e.Referrers()) == 0
}

// stickyReset: (*gzip.Reader).Reset, or a Seek after which such a Reset always follows: the error comes back on the next Read.
func stickyReset(f *ssa.Function, ci ssa.CallInstruction) bool {
	if isCallTo(ci, "compress/gzip", "Reader", "Reset") {
		return true
	}
	o := calleeObj(ci)
	if o == nil || o.Name() != "Seek" {
		return false
	}
	ok, _ := mustPass(f, ci.(ssa.Instruction), func(i ssa.Instruction) bool {
		c, ok := i.(ssa.CallInstruction)
		return ok && isCallTo(c, "compress/gzip", "Reader", "Reset")
	}, nil)
	return ok
}

func runErrRule(c *Ctx, io bool) int {
	p := c.P
	n := 0
	errorSites(p, func(f *ssa.Function, ci ssa.CallInstruction) bool { return p.ioCall(ci) == io },
		func(f *ssa.Function, ci ssa.CallInstruction, cn, key string) {
			if stickyReset(f, ci) {
				return
			}
			n++
			call, ok := ci.(*ssa.Call)
			if !ok {
				c.Bad(key, p.InstrPos(ci), "the error of the deferred or concurrent call of "+cn+" is lost")
				return
			}
			msg := p.errorFate(f, call)
			c.Check(msg == "", key, p.InstrPos(call), "reported", "error of "+cn+": "+msg)
		})
	return n
}

func runC15(c *Ctx) {
	p := c.P
	n := runErrRule(c, true)
	c.Floor("fallible I/O call sites", n, 200)
	// scanners
	ns := 0
	for _, f := range p.Funcs {
		for _, ci := range calls(f) {
			if !isCallTo(ci, "bufio", "Scanner", "Scan") {
				continue
			}
			ns++
			call, ok := ci.(*ssa.Call)
			if !ok {
				continue
			}
			// once Scan says false, every path to a return consults Err
			msg := ""
			(&Explorer{P: p, Decide: func(v ssa.Value, pp *pathPoint) (bool, bool) {
				if v == ssa.Value(call) {
					return false, true
				}
				return false, false
			}, Visit: func(i ssa.Instruction, pp *pathPoint) bool {
				if i == ssa.Instruction(call) {
					return true
				}
				if cc, ok := i.(ssa.CallInstruction); ok && isCallTo(cc, "bufio", "Scanner", "Err") {
					return true
				}
				if _, ok := i.(*ssa.Return); ok {
					msg = "the scanner's error is not consulted after the last line (" + p.InstrPos(i) + ")"
					return true
				}
				return false
			}}).Run(call)
			c.Check(msg == "", "scanner:"+p.Name(f), p.InstrPos(call), "Err is consulted when the input ends", msg)
		}
	}
	c.Floor("scanner loops", ns, 3)
}

func runC22(c *Ctx) {
	n := runErrRule(c, false)
	c.Floor("fallible library call sites", n, 60)
}

package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C27", Rule: "who the library calls outside itself: no function reaches a call that ends or reconfigures the process (exit, fatal logging, signals, environment, working directory, processor and collector settings), runs programs, opens connections, reads the clock or seeds or replaces the random generator; every path opened for writing, created or removed comes from a parameter of an exported operation or names a temporary file of the same call, operations that read (by name: Parse, Load, Read, Deserialize …) never open the caller's file for writing, and every temporary file is removed on every path that leaves the function that made it (path analysis).", Run: runC27})
}

// hostCall: calling this function acts on the process instead of on the arguments.
func hostCall(o types.Object) string {
	if o == nil || o.Pkg() == nil {
		return ""
	}
	pkg, name := o.Pkg().Path(), o.Name()
	recv := ""
	if sig, ok := o.Type().(*types.Signature); ok && sig.Recv() != nil {
		if n := namedOf(deref(sig.Recv().Type())); n != nil {
			recv = n.Obj().Name()
		}
	}
	switch pkg {
	case "os":
		switch name {
		case "Exit":
			return "ends the process"
		case "Chdir", "Setenv", "Unsetenv", "Clearenv":
			return "changes the process's surroundings"
		case "StartProcess", "FindProcess":
			return "starts or finds other processes"
		case "Chmod", "Chown", "Lchown", "Chtimes", "Symlink", "Link":
			return "changes other files"
		}
		if recv == "Process" {
			return "acts on a process"
		}
	case "log":
		if strings.HasPrefix(name, "Fatal") {
			return "ends the process"
		}
		if recv == "" && strings.HasPrefix(name, "Set") {
			return "reconfigures the process's logger"
		}
	case "runtime":
		switch name {
		case "Goexit":
			return "ends the caller's goroutine"
		case "GOMAXPROCS", "LockOSThread", "SetFinalizer", "SetCPUProfileRate", "SetBlockProfileRate", "SetMutexProfileFraction":
			return "reconfigures the runtime"
		}
	case "runtime/debug":
		if strings.HasPrefix(name, "Set") {
			return "reconfigures the runtime"
		}
	case "os/signal":
		return "takes over the process's signals"
	case "os/exec", "plugin":
		return "runs other programs"
	case "syscall", "golang.org/x/sys/unix":
		if recv == "" && name != "Getpagesize" {
			return "calls the system directly"
		}
	case "net", "net/http", "net/rpc", "net/smtp":
		return "opens connections"
	case "flag":
		return "uses the process's command line"
	case "time":
		switch name {
		case "Now", "Since", "Until":
			return "makes the result depend on the clock"
		}
	case "crypto/rand":
		return "draws randomness the caller cannot seed"
	case "math/rand", "math/rand/v2":
		if recv == "" {
			switch name {
			case "Seed":
				return "reseeds the generator the caller seeds"
			case "New", "NewSource", "NewPCG", "NewChaCha8":
				return "draws from a generator of its own, which the caller cannot seed"
			}
		}
	}
	return ""
}

// callerSeeded: a generator made with a seed the caller gave.
func (p *Prog) callerSeeded(i ssa.Instruction, fn *ssa.Function) bool {
	ci, ok := i.(ssa.CallInstruction)
	if !ok || fn.Object().Pkg().Path() != "math/rand" || fn.Name() == "Seed" || ci.Common().StaticCallee() != fn || len(ci.Common().Args) != 1 {
		return false
	}
	leaves := p.Trace(ci.Common().Args[0], TraceOpt{Derive: true, ExternArgs: true})
	for _, l := range leaves {
		_, prm := l.(*ssa.Parameter)
		fv, _ := fieldLoad(l)
		if !prm && fv == nil {
			return false
		}
	}
	return len(leaves) > 0
}

// fileOp: a call that writes, creates or removes files; idx is its path argument.
func (p *Prog) fileOp(c ssa.CallInstruction) (op string, idx int) {
	o := calleeObj(c)
	if o == nil || o.Pkg() == nil {
		return "", 0
	}
	if sig, ok := o.Type().(*types.Signature); !ok || sig.Recv() != nil {
		return "", 0
	}
	switch o.Pkg().Path() {
	case "os":
		switch o.Name() {
		case "Create", "WriteFile", "Truncate":
			return "write", 0
		case "Mkdir", "MkdirAll":
			return "write", 0
		case "Remove", "RemoveAll", "Rename":
			return "remove", 0
		case "OpenFile":
			if fl, ok := constInt(argsOf(c)[1]); ok && fl&3 == 0 && fl&(0x40|0x200|0x400) == 0 {
				return "", 0
			}
			return "write", 0
		}
	case "io/ioutil":
		if o.Name() == "WriteFile" {
			return "write", 0
		}
	}
	return "", 0
}

func isTempMaker(c ssa.CallInstruction) bool {
	return isCallTo(c, "io/ioutil", "", "TempFile") || isCallTo(c, "io/ioutil", "", "TempDir") ||
		isCallTo(c, "os", "", "CreateTemp") || isCallTo(c, "os", "", "MkdirTemp")
}

// tempName: v is the name of a temporary file made by this library.
func (p *Prog) tempName(v ssa.Value) bool {
	leaves := p.Trace(v, TraceOpt{})
	if len(leaves) == 0 {
		return false
	}
	for _, l := range leaves {
		ok := false
		if cl, isC := l.(*ssa.Call); isC && isCallTo(cl, "os", "File", "Name") {
			fl := p.Trace(recvOf(cl), TraceOpt{Fields: true})
			ok = len(fl) > 0
			for _, h := range fl {
				e, isE := h.(*ssa.Extract)
				if !isE {
					if isNilConst(h) {
						continue
					}
					ok = false
					continue
				}
				t, isT := e.Tuple.(*ssa.Call)
				ok = ok && isT && isTempMaker(t)
			}
		}
		if e, isE := l.(*ssa.Extract); isE && e.Index == 0 {
			t, isT := e.Tuple.(*ssa.Call)
			ok = isT && isTempMaker(t) // TempDir returns the name
		}
		if !ok {
			return false
		}
	}
	return true
}

// fromCaller: the path is built from a parameter of an exported operation (or a field the caller set).
func (p *Prog) fromCaller(v ssa.Value) (bool, string) {
	some := false
	for _, l := range p.Trace(v, TraceOpt{ExternArgs: true, Derive: true, Elems: true}) {
		switch t := l.(type) {
		case *ssa.Const:
			// a part of the name (a suffix, a format): fine together with a parameter
		case *ssa.Parameter, *ssa.FreeVar:
			some = true
		case *ssa.Call:
			if o := calleeObj(t); o != nil && o.Pkg() != nil && o.Pkg().Path() == "os" && o.Name() != "Name" {
				return false, "a path made from " + o.Name()
			}
		default:
			_ = t
			some = true
		}
	}
	if !some {
		return false, "a fixed path"
	}
	return true, ""
}

// removesTemp: the call removes the file (or directory) whose handle or name `is` recognises, directly, deferred,
// in a closure or in a helper.
func (p *Prog) removesTemp(c ssa.CallInstruction, is func(ssa.Value) bool, depth int) bool {
	if depth == 0 {
		return false
	}
	if isCallTo(c, "os", "", "Remove") || isCallTo(c, "os", "", "RemoveAll") {
		a := c.Common().Args[0]
		if is(a) {
			return true
		}
		for _, l := range p.Trace(a, TraceOpt{NoParams: true, NoCalls: true}) {
			if cl, ok := l.(*ssa.Call); ok && isCallTo(cl, "os", "File", "Name") && is(recvOf(cl)) {
				return true
			}
		}
		return false
	}
	if _, isGo := c.(*ssa.Go); isGo {
		return false
	}
	for _, g := range p.Callees(c) {
		if !p.IsLibFunc(g) {
			continue
		}
		in := func(v ssa.Value) bool {
			if is(v) {
				return true
			}
			for _, l := range p.Trace(v, TraceOpt{NoParams: true, NoCalls: true}) {
				if q, ok := l.(*ssa.Parameter); ok && q.Parent() == g {
					for i, prm := range g.Params {
						if prm == q {
							if a := argFor(c, g, i); a != nil && is(a) {
								return true
							}
							// a name handed over instead of the file
							if a := argFor(c, g, i); a != nil {
								for _, al := range p.Trace(a, TraceOpt{NoParams: true, NoCalls: true}) {
									if cl, ok := al.(*ssa.Call); ok && isCallTo(cl, "os", "File", "Name") && is(recvOf(cl)) {
										return true
									}
								}
							}
						}
					}
				}
			}
			return false
		}
		if len(g.Blocks) == 0 {
			continue
		}
		ok, _ := mustPass(g, nil, func(i ssa.Instruction) bool {
			ci, isC := i.(ssa.CallInstruction)
			return isC && p.removesTemp(ci, in, depth-1)
		}, nil)
		if ok {
			return true
		}
	}
	return false
}

// tempLeft: a return reached, after the temporary file was made, without removing or handing it over.
func (p *Prog) tempLeft(call *ssa.Call, handed map[*ssa.Function]bool) string {
	f := call.Parent()
	h, e := resultExtract(call, 0), resultExtract(call, 1)
	if h == nil {
		return "the temporary file is discarded without being removed"
	}
	holds := p.traceHolds(h)
	msg := ""
	var dec func(ssa.Value, *pathPoint) (bool, bool)
	if e != nil {
		dec = assumeNil(e, true)
	}
	(&Explorer{P: p, Decide: dec, Visit: func(i ssa.Instruction, pp *pathPoint) bool {
		switch t := i.(type) {
		case ssa.CallInstruction:
			if i == ssa.Instruction(call) {
				msg = "the temporary file of one round is forgotten in the next"
				return true
			}
			if p.removesTemp(t, holds, 5) {
				return true
			}
		case *ssa.Return:
			for _, r := range t.Results {
				v := pp.Resolve(r)
				if p.carries(v, h, holds) {
					handed[f] = true
					return true
				}
				if mc, ok := v.(*ssa.MakeClosure); ok {
					if ok, _ := mustPass(mc.Fn.(*ssa.Function), nil, func(i ssa.Instruction) bool {
						ci, isC := i.(ssa.CallInstruction)
						return isC && p.removesTemp(ci, holds, 4)
					}, nil); ok {
						return true
					}
				}
			}
			msg = "not removed on the path to the return at " + p.InstrPos(t)
			return true
		}
		return false
	}}).Run(call)
	return msg
}

var readerPrefixes = []string{"Parse", "Load", "Read", "Deserialize", "Unserialize", "Get", "Predict", "Fit", "Sniff", "Reload"}

func runC27(c *Ctx) {
	p := c.P
	nf, nc := 0, 0
	for _, f := range p.Funcs {
		if !p.IsLibFunc(owner(f)) {
			continue
		}
		nf++
		k := 0
		for _, i := range instrs(f) {
			if st, ok := i.(*ssa.Store); ok {
				if g, ok := st.Addr.(*ssa.Global); ok && g.Pkg != nil && !p.isLib[g.Pkg] {
					c.Bad("host:"+p.Name(owner(f))+"#"+g.Name(), p.InstrPos(i), "a variable of package "+g.Pkg.Pkg.Path()+" is replaced for the whole process")
				}
			}
			var rands [16]*ssa.Value
			for _, op := range i.Operands(rands[:0]) {
				// functions outside the library used here, called or handed on
				fn, ok := (*op).(*ssa.Function)
				if !ok || fn.Object() == nil {
					continue
				}
				if p.IsLibFunc(fn) {
					continue
				}
				nc++
				if why := hostCall(fn.Object()); why != "" && !p.callerSeeded(i, fn) {
					k++
					c.Bad(fmt.Sprintf("host:%s>%s", p.Name(owner(f)), fn.Name()), p.InstrPos(i), fn.RelString(nil)+" "+why)
				}
			}
			ci, ok := i.(ssa.CallInstruction)
			if !ok || ci.Common().StaticCallee() != nil && p.IsLibFunc(ci.Common().StaticCallee()) {
				continue
			}
			if ci.Common().IsInvoke() {
				nc++
			}
		}
	}
	c.Count("functions", nf)
	c.Floor("uses of functions outside the library", nc, 300)
	c.Ok("host:calls", "-", "no use of a function that acts on the process")

	// files written and removed
	nw := 0
	reads := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if !isExported(f) || f.Parent() != nil {
			continue
		}
		for _, pre := range readerPrefixes {
			if strings.HasPrefix(f.Name(), pre) {
				reads[f] = true
			}
		}
	}
	readReach := map[*ssa.Function]*ssa.Function{}
	for _, f := range sortedFuncs(p, reads) {
		for g := range p.staticReach(f) {
			if readReach[g] == nil {
				readReach[g] = f
			}
		}
	}
	temps := map[*ssa.Call]bool{}
	for _, f := range p.Funcs {
		if !p.IsLibFunc(owner(f)) {
			continue
		}
		k := 0
		for _, ci := range calls(f) {
			if isTempMaker(ci) {
				if cl, ok := ci.(*ssa.Call); ok {
					temps[cl] = true
				}
				continue
			}
			op, idx := p.fileOp(ci)
			if op == "" {
				continue
			}
			k++
			nw++
			key := fmt.Sprintf("file:%s>%s#%d", p.Name(owner(f)), calleeObj(ci).Name(), k)
			pos := p.InstrPos(ci.(ssa.Instruction))
			path := ci.Common().Args[idx]
			if p.tempName(path) {
				c.Ok(key, pos, "a temporary file of its own")
				continue
			}
			if op == "remove" {
				// a helper that is only given temporary files
				c.Bad(key, pos, "removes or renames a file that is not a temporary file of its own")
				continue
			}
			if ok, why := p.fromCaller(path); !ok {
				c.Bad(key, pos, "writes to "+why+", which the caller did not name")
				continue
			}
			if r := readReach[f]; r != nil && owner(f).Parent() == nil {
				c.Bad(key, pos, p.Name(r)+", which reads, opens the caller's file for writing")
				continue
			}
			c.Ok(key, pos, "a file the caller named")
		}
	}
	c.Floor("files written or removed", nw, 6)
	// temporary files
	nt := 0
	done := map[*ssa.Call]bool{}
	handed := map[*ssa.Function]bool{}
	for len(done) < len(temps) {
		for _, f := range p.Funcs {
			k := 0
			for _, ci := range calls(f) {
				cl, ok := ci.(*ssa.Call)
				if !ok || !temps[cl] {
					continue
				}
				k++
				if done[cl] {
					continue
				}
				done[cl] = true
				nt++
				msg := p.tempLeft(cl, handed)
				c.Check(msg == "", fmt.Sprintf("temp:%s#%d", p.Name(owner(f)), k), p.InstrPos(cl), "removed before the call returns", msg)
			}
		}
		for g := range handed {
			for _, ci := range p.callers[g] {
				if cl, ok := ci.(*ssa.Call); ok && !isExported(g) {
					temps[cl] = true
				}
			}
		}
	}
	c.Count("temporary files", nt)
}

package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C12", "path-sensitive abstract interpretation of the entry points (event order and option implication on every path)", checkC12)
	register("C13", "typestate (open/close) by path-sensitive abstract interpretation, and effect analysis over all instructions", checkC13)
	register("C19", "path-sensitive abstract interpretation of every hooked operation (effects before and after a failing hook)", checkC19)
	register("C18", "effect analysis of package-level variables and copy-on-write analysis of hook lists by abstract interpretation", checkC18)
}

// errCases splits outcomes whose error result may or may not be nil; panics are dropped.
func errCases(outs []Outcome) []Outcome {
	var r []Outcome
	for _, o := range outs {
		if o.Panic != "" {
			continue
		}
		e := o.lastErr()
		if e.T != nil && !isErrorType(e.T) && !isStacktracePtr(e.T) && e.K != KNil {
			r = append(r, o)
			continue
		}
		if o.St.nilness(e) != unknown {
			r = append(r, o)
			continue
		}
		a := o
		a.St = o.St.clone()
		if a.St.assumeNil(e, true) {
			a.Ret = append(append([]*Val(nil), o.Ret[:len(o.Ret)-1]...), vNil)
			r = append(r, a)
		}
		b := o
		b.St = o.St.clone()
		if b.St.assumeNil(e, false) {
			r = append(r, b)
		}
	}
	return r
}

func (o *Outcome) success() bool { return o.St.nilness(o.lastErr()) == yes }

// eventsNamed lists the events whose callee has one of the names.
func (o *Outcome) eventsNamed(names ...string) []*Event {
	var r []*Event
	for _, e := range o.St.events {
		for _, n := range names {
			if shortEvent(e) == n {
				r = append(r, e)
			}
		}
	}
	return r
}

// checkStages verifies that errors of events end the operation and are kept.
func (c *Ctx) checkStages(rule, construct string, o Outcome, stages []*Event) {
	for i, e := range stages {
		er := e.errRes()
		if er == nil {
			continue
		}
		switch o.St.nilness(er) {
		case yes:
			c.ok(rule, construct+" after "+shortEvent(e))
		case no:
			if o.success() {
				c.fail(rule, construct, "succeeds although "+shortEvent(e)+" failed", o.Where)
			} else if !causesOf(o.lastErr())[er] {
				c.fail(rule, construct, "the error of "+shortEvent(e)+" is lost", o.Where)
			} else if i != len(stages)-1 {
				c.fail(rule, construct, "goes on with "+shortEvent(stages[i+1])+" after "+shortEvent(e)+" failed", o.Where)
			} else {
				c.ok(rule, construct+" failing in "+shortEvent(e))
			}
		default:
			if o.success() || i != len(stages)-1 || !causesOf(o.lastErr())[er] {
				c.fail(rule, construct, "does not look at the error of "+shortEvent(e), o.Where)
			}
		}
	}
}

func optField(c *Ctx, maker string) string {
	fn := c.function(maker)
	if fn == nil {
		return ""
	}
	for _, o := range c.explore(fn, runOpt{}) {
		if len(o.Ret) != 1 {
			continue
		}
		v := o.Ret[0]
		if v.K != KIface {
			continue
		}
		ap := c.P.Method(v.T, "Apply")
		if ap == nil {
			continue
		}
		// Apply of the value
		outs := c.explore(ap, runOpt{args: []*Val{v.A[0], vSym("opt", ap.Signature.Params().At(0).Type())}})
		field := ""
		for _, ao := range outs {
			if ao.Panic != "" {
				continue
			}
			if len(ao.St.muts) != 1 || ao.St.muts[0].Obj != "opt" || ao.St.muts[0].Val != vTrue {
				c.fail("option", maker, "does not set exactly its own option", ao.Where)
				return ""
			}
			field = ao.St.muts[0].Path
		}
		c.holds(field != "", "option", maker, "sets no option")
		return field
	}
	c.fail("option", maker, "does not yield an option")
	return ""
}

func checkC12(c *Ctx) {
	pf := c.method("RAML", "parseFragment")
	if pf == nil {
		return
	}
	unw, val := optField(c, "OptWithUnwrap"), optField(c, "OptWithValidate")
	if unw == "" || val == "" {
		return
	}
	c.holds(unw != val, "option", "OptWithUnwrap/OptWithValidate", "both set the same option")
	decoders := map[string]string{"decodeLibrary": "#%RAML 1.0 Library", "decodeDataType": "#%RAML 1.0 DataType", "decodeNamedExample": "#%RAML 1.0 NamedExample"}
	stageNames := []string{"decodeLibrary", "decodeDataType", "decodeNamedExample", "resolveShapes", "resolveDomainExtensions", "UnwrapShapes", "ValidateShapes"}
	for _, s := range stageNames {
		if c.method("RAML", s) == nil {
			return
		}
	}
	outs := errCases(c.explore(pf, runOpt{boundary: bounds(stageNames...)}))
	name := "RAML.parseFragment"
	entryType := map[string]string{"decodeLibrary": "Library", "decodeDataType": "DataType", "decodeNamedExample": "NamedExample"}
	for _, o := range outs {
		stages := o.eventsNamed(stageNames...)
		c.checkStages("stage error", name, o, stages)
		optv := func(f string) int {
			return o.St.query(vSym("p3"+f, types.Typ[types.Bool]))
		}
		var seq []string
		for _, e := range stages {
			seq = append(seq, shortEvent(e))
		}
		text := strings.Join(seq, ",")
		if len(seq) > 0 {
			if head, ok := decoders[seq[0]]; ok {
				n := 0
				for _, v := range o.St.f.E {
					if s, ok := v.strConst(); ok && strings.HasPrefix(s, "#%RAML") {
						n++
						c.holds(s == head, "header", name+" "+seq[0], "a fragment with header "+s+" is decoded by "+seq[0])
					}
				}
				c.holds(n == 1, "header", name+" "+seq[0], "the decoder is chosen without looking at the header")
			} else {
				c.fail("order", name, "starts with "+seq[0], o.Where)
			}
		}
		full := []string{"resolveShapes", "resolveDomainExtensions", "UnwrapShapes", "ValidateShapes"}
		// positions must be in order, without repetition
		last := -1
		for i, s := range seq {
			if i == 0 {
				continue
			}
			pos := -1
			for k, f := range full {
				if f == s {
					pos = k
				}
			}
			c.holds(pos > last, "order", name+" "+s, "stages run in the order "+text, o.Where)
			for k := last + 1; k < pos; k++ {
				// a skipped stage must be one that was not asked for
				switch full[k] {
				case "UnwrapShapes":
					c.holds(optv(unw) == no, "order", name+" "+s, "runs without UnwrapShapes although unwrapping was requested", o.Where)
				default:
					c.fail("order", name+" "+s, "runs without "+full[k], o.Where)
				}
			}
			last = pos
			switch s {
			case "UnwrapShapes":
				c.holds(optv(unw) == yes, "requested", name+" "+s, "unwraps without being asked", o.Where)
			case "ValidateShapes":
				c.holds(optv(val) == yes, "requested", name+" "+s, "validates without being asked", o.Where)
			}
		}
		if !o.success() {
			continue
		}
		if len(seq) < 3 {
			c.fail("complete", name, "succeeds after only: "+text, o.Where)
			continue
		}
		has := func(s string) bool {
			for _, x := range seq {
				if x == s {
					return true
				}
			}
			return false
		}
		c.holds(has("resolveShapes"), "complete", name+" resolveShapes", "is skipped", o.Where)
		c.holds(has("resolveDomainExtensions"), "complete", name+" resolveDomainExtensions", "is skipped", o.Where)
		c.holds(optv(unw) != unknown && has("UnwrapShapes") == (optv(unw) == yes), "complete", name+" UnwrapShapes", "does not follow the option", o.Where)
		c.holds(optv(val) != unknown && has("ValidateShapes") == (optv(val) == yes), "complete", name+" ValidateShapes", "does not follow the option", o.Where)
		// entry point
		good := false
		for _, m := range o.St.muts {
			if m.Obj == "t" && m.Val.K == KIface && strings.HasSuffix(typeShort(m.Val.T), entryType[seq[0]]) && m.Val.A[0] == stages[0].Res[0] {
				good = strings.HasSuffix(strings.ToLower(m.Path), "entrypoint")
			}
		}
		c.holds(good, "entry point", name+" "+seq[0], "the decoded fragment does not become the entry point", o.Where)
	}
	c.floor("complete", 12)

	// entry points: options are applied and errors passed on
	var entries []*ssa.Function
	isEntry := map[*ssa.Function]bool{}
	for _, fn := range c.P.Funcs {
		ps := fn.Signature.Params()
		if fn.Parent() == nil && fn.Synthetic == "" && fn.Signature.Variadic() && ps.Len() > 0 && typeShort(ps.At(ps.Len()-1).Type()) == "[]ParseOpt" {
			entries = append(entries, fn)
			isEntry[fn] = true
		}
	}
	for _, fn := range entries {
		nm := FuncName(fn)
		opts := vSym(fmt.Sprintf("p%d", len(fn.Params)-1), fn.Params[len(fn.Params)-1].Type())
		outs := errCases(c.explore(fn, runOpt{boundary: func(k *Call) bool {
			return k.Callee != nil && (k.Callee == pf || isEntry[k.Callee])
		}}))
		for _, o := range outs {
			var runs []*Event
			applied := false
			var optObj *Val
			for _, e := range o.St.events {
				if strings.HasSuffix(e.Name, "ParseOpt.Apply") && strings.HasPrefix(e.Args[0].key, opts.key+"[w") {
					applied = true
					optObj = e.Args[1]
				}
				if e.Name == FuncName(pf) {
					runs = append(runs, e)
					switch {
					case o.St.interval(vApp("len", opts)).hi == 0 || o.St.nilness(opts) == yes:
						c.ok("options applied", nm)
					default:
						c.holds(applied && optObj == e.Args[len(e.Args)-1], "options applied", nm, "parses without applying every option", o.Where)
					}
				}
				for k := range isEntry {
					if e.Name == FuncName(k) {
						runs = append(runs, e)
						c.holds(e.Args[len(e.Args)-1] == opts, "options applied", nm, "does not pass the options on", o.Where)
					}
				}
			}
			if o.success() {
				c.holds(len(runs) == 1, "parses", nm, fmt.Sprintf("succeeds after %d runs of the parser", len(runs)), o.Where)
			}
			c.checkStages("stage error", nm, o, runs)
		}
	}
	c.floor("options applied", 5)
}

// ---- C13 ----

func hasCloser(t types.Type) bool {
	if t == nil {
		return false
	}
	if isErrorType(t) {
		return false
	}
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == "Close" {
			return true
		}
	}
	return false
}

var osAllowed = map[string]bool{"Open": true, "OpenFile": true, "Stat": true, "Lstat": true, "ReadFile": true, "ReadDir": true, "Getwd": true,
	"Getenv": true, "LookupEnv": true, "Environ": true, "IsNotExist": true, "IsExist": true, "IsPermission": true, "SameFile": true, "DirFS": true,
	"Close": true, "Read": true, "ReadAt": true, "Seek": true, "Name": true, "Fd": true, "Readdir": true, "Readdirnames": true, "ReadFrom": false,
	"Error": true, "Unwrap": true, "Mode": true, "Size": true, "IsDir": true, "ModTime": true, "String": true, "TempDir": true, "Getpagesize": true}

var pkgBanned = map[string]bool{"os/exec": true, "net": true, "net/http": true, "syscall": true, "plugin": true, "os/signal": true, "net/url": false,
	"net/rpc": true, "net/smtp": true, "unsafe": true, "golang.org/x/sys/unix": true, "runtime/debug": true}

func calledPkg(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	return ""
}

func forbiddenEffect(fn *ssa.Function) string {
	p := calledPkg(fn)
	if pkgBanned[p] {
		return "uses " + p
	}
	switch p {
	case "os":
		if !osAllowed[fn.Name()] {
			return "calls os." + fn.Name()
		}
	case "io/ioutil":
		if fn.Name() != "ReadFile" && fn.Name() != "ReadAll" && fn.Name() != "ReadDir" && fn.Name() != "NopCloser" {
			return "calls ioutil." + fn.Name()
		}
	case "log":
		if strings.HasPrefix(fn.Name(), "Fatal") || strings.HasPrefix(fn.Name(), "Panic") {
			return "calls log." + fn.Name()
		}
	case "runtime":
		if fn.Name() == "Goexit" {
			return "calls runtime.Goexit"
		}
	}
	return ""
}

func checkC13(c *Ctx) {
	p := c.P
	nop := 0
	calls := map[*ssa.Function]map[*ssa.Function]bool{}
	openers := map[*ssa.Function]bool{} // functions that open files directly
	for _, fn := range p.Funcs {
		calls[fn] = map[*ssa.Function]bool{}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					f, ok := (*op).(*ssa.Function)
					if !ok {
						if mc, ok := (*op).(*ssa.MakeClosure); ok {
							f = mc.Fn.(*ssa.Function)
						}
					}
					if f == nil {
						continue
					}
					nop++
					calls[fn][f] = true
					if why := forbiddenEffect(f); why != "" && fn.Synthetic != "package initializer" {
						c.fail("read only", FuncName(fn)+": "+why, "the library must not do that", p.where(i, fn))
					} else if !p.InModule(f) {
						c.ok("read only", "")
					}
				}
				if call, ok := i.(ssa.CallInstruction); ok {
					if f := call.Common().StaticCallee(); f != nil && calledPkg(f) == "os" && (f.Name() == "OpenFile" || f.Name() == "Open") {
						openers[fn] = true
						if f.Name() == "OpenFile" {
							k, ok := call.Common().Args[1].(*ssa.Const)
							ro := false
							if ok {
								if n, exact := constant.Int64Val(k.Value); exact && n&3 == 0 && n&(0o100|0o1000|0o2000) == 0 {
									ro = true
								}
							}
							c.holds(ro, "opens read-only", FuncName(fn), "opens a file with flags that are not read-only", p.where(i, fn))
						} else {
							c.ok("opens read-only", FuncName(fn))
						}
					} else if call.Common().IsInvoke() && call.Common().Method.Name() == "Write" {
						c.fail("read only", FuncName(fn)+": Write", "writes through an interface", p.where(i, fn))
					}
				}
			}
		}
	}
	c.floor("read only", 300)
	c.floor("opens read-only", 1)
	// functions that hand out an open file
	givers := map[*ssa.Function]bool{}
	returnsCloser := func(fn *ssa.Function) bool {
		r := fn.Signature.Results()
		for i := 0; i < r.Len(); i++ {
			if hasCloser(r.At(i).Type()) {
				return true
			}
		}
		return false
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range p.Funcs {
			if givers[fn] || !returnsCloser(fn) {
				continue
			}
			g := openers[fn]
			for k := range calls[fn] {
				g = g || givers[k]
			}
			if g {
				givers[fn] = true
				changed = true
			}
		}
	}
	takesCloser := func(fn *ssa.Function) bool {
		ps := fn.Signature.Params()
		for i := 0; i < ps.Len(); i++ {
			if hasCloser(ps.At(i).Type()) {
				return true
			}
		}
		return fn.Parent() != nil
	}
	// nobody gets at Close through a reader
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if ta, ok := i.(*ssa.TypeAssert); ok && hasCloser(ta.AssertedType) && !hasCloser(ta.X.Type()) {
					c.fail("no hidden close", FuncName(fn), "turns a reader into a closer", p.where(i, fn))
				}
			}
		}
	}
	var subjects []*ssa.Function
	for _, fn := range p.Funcs {
		s := openers[fn] || givers[fn]
		for k := range calls[fn] {
			if givers[k] {
				s = true
			}
		}
		if s && fn.Parent() == nil {
			subjects = append(subjects, fn)
		}
	}
	for _, fn := range subjects {
		nm := FuncName(fn)
		outs := c.explore(fn, runOpt{boundary: func(k *Call) bool {
			if k.Callee == nil || !p.InModule(k.Callee) || isErrHelper(k.Callee) {
				return false
			}
			return !givers[k.Callee] && !takesCloser(k.Callee)
		}})
		for _, o := range outs {
			if o.Panic != "" {
				continue
			}
			for _, e := range o.St.events {
				if e.Name != "os.OpenFile" && e.Name != "os.Open" {
					continue
				}
				if o.St.nilness(e.Res[1]) == no {
					c.ok("closed", nm+" when opening fails")
					continue
				}
				f := e.Res[0]
				closes := 0
				for _, x := range o.St.events {
					if strings.HasSuffix(x.Name, ".Close") && len(x.Args) > 0 && (x.Args[0] == f || x.Args[0].K == KIface && x.Args[0].A[0] == f) {
						closes++
						if strings.HasSuffix(x.key, "'") {
							closes++
						}
					}
				}
				returned := false
				for _, r := range o.Ret {
					if r == f || r.K == KIface && r.A[0] == f {
						returned = true
					}
				}
				kept := false
				for _, m := range o.St.muts {
					if strings.Contains(m.Val.key, f.key) {
						kept = true
					}
				}
				switch {
				case returned && closes == 0 && o.St.nilness(o.lastErr()) == yes:
					c.ok("closed", nm+" hands the file to its caller")
				case returned && closes > 0:
					c.fail("closed", nm, "returns a closed file", o.Where)
				case kept:
					c.fail("closed", nm, "keeps the open file", o.Where)
				case closes == 1:
					c.ok("closed", nm)
				case closes == 0:
					c.fail("closed", nm, "leaves the file open when it returns at "+o.Where+" with "+o.lastErr().key, o.Where)
				default:
					c.fail("closed", nm, "closes the file more than once", o.Where)
				}
			}
		}
	}
	c.floor("closed", 15)
	sort.Slice(subjects, func(i, j int) bool { return subjects[i].String() < subjects[j].String() })
}

func (p *Program) where(i ssa.Instruction, fn *ssa.Function) string {
	pos := p.Prog.Fset.Position(i.Pos())
	if !pos.IsValid() {
		pos = p.Prog.Fset.Position(fn.Pos())
	}
	return fmt.Sprintf("%s:%d (%s)", baseName(pos.Filename), pos.Line, FuncName(fn))
}

// ---- C19 ----

// hookForwarders finds callHooks and the functions that pass their own key on to it.
func hookForwarders(p *Program, root *ssa.Function) map[*ssa.Function]bool {
	fw := map[*ssa.Function]bool{root: true}
	for changed := true; changed; {
		changed = false
		for _, fn := range p.Funcs {
			if fw[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					call, ok := i.(ssa.CallInstruction)
					if !ok {
						continue
					}
					f := call.Common().StaticCallee()
					if f == nil || !fw[f] {
						continue
					}
					for _, a := range call.Common().Args {
						if pa, ok := a.(*ssa.Parameter); ok && typeShort(pa.Type()) == "HookKey" && pa.Parent() == fn {
							fw[fn] = true
							changed = true
						}
					}
				}
			}
		}
	}
	return fw
}

func checkC19(c *Ctx) {
	p := c.P
	root := c.method("RAML", "callHooks")
	if root == nil {
		return
	}
	fw := hookForwarders(p, root)
	// hook constants and their operations
	scope := p.Root.Types.Scope()
	values := map[string]string{}
	for _, n := range scope.Names() {
		k, ok := scope.Lookup(n).(*types.Const)
		if !ok || !strings.HasPrefix(n, "HookBefore") {
			continue
		}
		v := constant.StringVal(k.Val())
		if old, dup := values[v]; dup {
			c.fail("own key", n, "has the same value as "+old)
		} else {
			c.ok("own key", n)
		}
		values[v] = n
	}
	// direct users of each key
	users := map[string]map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				call, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := call.Common().StaticCallee()
				if f == nil || !fw[f] {
					continue
				}
				for _, a := range call.Common().Args {
					if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && typeShort(k.Type()) == "HookKey" {
						v := constant.StringVal(k.Value)
						if users[v] == nil {
							users[v] = map[*ssa.Function]bool{}
						}
						users[v][fn] = true
						c.holds(values[v] != "", "own key", FuncName(fn), "calls hooks with an undocumented key "+v)
					}
				}
			}
		}
	}
	for v, n := range values {
		want := strings.ToLower(strings.TrimPrefix(n, "HookBefore"))
		var op *ssa.Function
		for _, fn := range p.Funcs {
			if fn.Parent() != nil || fn.Synthetic != "" {
				continue
			}
			l := strings.ToLower(fn.Name())
			full := l
			if r := fn.Signature.Recv(); r != nil {
				full = strings.ToLower(strings.TrimPrefix(typeShort(r.Type()), "*")) + l
			}
			if full == want || l == want {
				// two operations may differ in case only: the one that uses the key
				if op == nil || users[v][fn] {
					op = fn
				}
			}
		}
		if op == nil {
			c.fail("operation", n, "no operation belongs to this key")
			continue
		}
		nm := FuncName(op)
		outs := c.explore(op, runOpt{boundary: func(k *Call) bool {
			if k.Callee == nil || !p.InModule(k.Callee) || isErrHelper(k.Callee) || k.Callee.Parent() != nil {
				return false
			}
			return !fw[k.Callee] && !users[v][k.Callee] && k.Callee.Name() != "GetLocation" && k.Callee.Name() != "Base"
		}, setup: func(in *Interp, st *State, args []*Val) {
			// an operation without an instance has no hooks
			if len(args) > 0 {
				st.assumeNil(vSym(args[0].key+".raml", nil), false)
			}
		}, model: func(in *Interp, st *State, k *Call) ([]callOut, bool) {
			if k.Callee != root {
				return nil, false
			}
			o := in.event(st, k)
			bad := o.st.clone()
			bad.assumeNil(o.ret[0], false)
			good := o.st
			good.assumeNil(o.ret[0], true)
			// what happens after the hooks have succeeded is not the concern of this rule
			return []callOut{{st: bad, ret: o.ret}, {st: good, pan: "hooks done"}}, true
		}})
		if len(outs) == 0 {
			c.fail("undecided", nm, "no outcome")
		}
		failing := false
		for _, o := range outs {
			ev := o.St.events
			isHook := func(e *Event) bool { return e.Name == FuncName(root) }
			if len(ev) == 0 || !isHook(ev[0]) {
				if o.Panic != "" {
					c.fail("hooks first", nm, "may panic before it calls its hooks", o.Where)
					continue
				}
				what := "returns"
				if len(ev) > 0 {
					what = "calls " + ev[0].Name
				}
				c.fail("hooks first", nm, what+" before it calls its hooks", o.Where)
				continue
			}
			h := ev[0]
			key, _ := h.Args[1].strConst()
			c.holds(key == v, "own key", nm, "calls the hooks of "+key)
			if strings.HasPrefix(o.Panic, "hooks done") {
				c.ok("hooks first", nm)
			}
			// the objects passed
			var objs []*Val
			l := h.Args[2]
			if l.K == KSlice {
				for _, part := range l.A {
					x := part.A[0]
					if x.K == KIface {
						x = x.A[0]
					}
					objs = append(objs, x)
				}
			}
			want := 0
			for i, pa := range op.Params {
				if i == 0 && typeShort(pa.Type()) == "*RAML" {
					continue
				}
				want++
			}
			pos := -1
			inOrder := true
			syms := symArgs(op)
			for _, x := range objs {
				found := -1
				for i := range syms {
					if syms[i] == x {
						found = i
					}
				}
				if found <= pos {
					inOrder = false
				}
				pos = found
			}
			c.holds(inOrder && (want == 0 || len(objs) > 0), "objects", nm, "does not pass the objects it works on to the hooks: "+l.key, o.Where)
			err := h.errRes()
			if o.St.nilness(err) == no {
				failing = true
				c.holds(len(ev) == 1, "hook stops", nm, "goes on after a failing hook: "+ev[len(ev)-1].key, o.Where)
				c.holds(len(o.St.muts) == 0, "hook stops", nm, fmt.Sprint("changes ", mutText(o.St.muts), " although the hook fails"), o.Where)
				c.holds(o.Panic == "" && o.St.nilness(o.lastErr()) == no && causesOf(o.lastErr())[err], "hook stops", nm, "does not return the error of the hook: "+o.lastErr().key+o.Panic, o.Where)
			} else if len(o.St.muts) > 0 {
				c.fail("hooks first", nm, "changes "+mutText(o.St.muts)+" before its hooks", o.Where)
			}
		}
		c.holds(failing, "hook stops", nm, "has no path for a failing hook")
	}
	for v, us := range users {
		c.holds(len(us) == 1, "own key", values[v], fmt.Sprintf("is used in %d places", len(us)))
	}
	c.floor("hooks first", 15)
	c.floor("hook stops", 30)
	// dispatch: in order, the first failure ends it
	outs := c.explore(root, runOpt{})
	sawErr, sawOK, order := false, false, true
	for _, o := range errCases(outs) {
		var hooks []*Event
		for _, e := range o.St.events {
			if strings.HasPrefix(e.Name, "dyn:") {
				hooks = append(hooks, e)
			}
		}
		if o.St.nilness(vSym("t", nil)) == yes {
			continue
		}
		if o.success() {
			for _, e := range hooks {
				if o.St.nilness(e.errRes()) != yes {
					c.fail("dispatch", "RAML.callHooks", "ignores the error of a hook", o.Where)
				}
			}
			sawOK = true
			// every hook is called: on the path with a distinguished hook that is not nil, it was called
			for _, e := range o.St.f.lines() {
				_ = e
			}
			c.ok("dispatch", "RAML.callHooks success")
		} else {
			sawErr = true
			if len(hooks) == 0 {
				c.fail("dispatch", "RAML.callHooks", "fails without a failing hook", o.Where)
				continue
			}
			lastHook := hooks[len(hooks)-1]
			c.holds(causesOf(o.lastErr())[lastHook.errRes()], "dispatch", "RAML.callHooks failing", "does not return the error of the hook that failed", o.Where)
		}
		if len(hooks) > 0 && strings.Contains(hooks[0].Name, "[r") {
			order = false
		}
	}
	// a hook that is present is called
	called := map[bool]int{}
	for _, o := range outs {
		for k, t := range o.St.f.B {
			if k.isApp("nil") && !t && strings.HasSuffix(k.A[0].key, "[w]") {
				hit := false
				for _, e := range o.St.events {
					if e.Name == "dyn:"+k.A[0].key {
						hit = true
					}
				}
				called[hit]++
				if !hit {
					c.fail("dispatch", "RAML.callHooks", "skips the hook "+k.A[0].key, o.Where)
				}
			}
		}
	}
	c.holds(order, "dispatch", "RAML.callHooks order", "calls hooks from last to first")
	c.holds(sawErr && sawOK && called[true] > 0, "dispatch", "RAML.callHooks", "the calls of the hooks cannot be seen")
}

func mutText(ms []Mut) string {
	var s []string
	for _, m := range ms {
		s = append(s, m.Obj+m.Path)
	}
	sort.Strings(s)
	return strings.Join(s, ", ")
}

// ---- C18 ----

func checkC18(c *Ctx) {
	p := c.P
	// no package-level variable is written or handed out for writing after initialisation
	nGlob := 0
	for _, fn := range p.Funcs {
		init := fn.Synthetic == "package initializer" || (fn.Name() == "init" && fn.Signature.Recv() == nil) || strings.HasPrefix(fn.Name(), "init#")
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg != p.Pkg {
						continue
					}
					if init {
						continue
					}
					nGlob++
					if u, ok := i.(*ssa.UnOp); ok && u.X == ssa.Value(g) {
						if why := writesThrough(u, map[ssa.Value]bool{}); why != "" {
							c.fail("package state", FuncName(fn)+" "+g.Name(), "a package-level variable is modified: "+why, p.where(i, fn))
						} else {
							c.ok("package state", FuncName(fn)+" reads "+g.Name())
						}
						continue
					}
					c.fail("package state", FuncName(fn)+" "+g.Name(), "a package-level variable is written or its address is taken after initialisation", p.where(i, fn))
				}
			}
		}
	}
	c.floor("package state", 4)
	// a new instance starts empty
	if nw := c.function("New"); nw != nil {
		for _, o := range c.explore(nw, runOpt{}) {
			if o.Panic != "" || len(o.Ret) != 1 || o.Ret[0].K != KPtr {
				c.fail("new instance", "New", "does not return a new instance", o.Where)
				continue
			}
			obj := o.Ret[0].S
			c.holds(o.St.isFresh(obj), "new instance", "New", "returns an existing instance", o.Where)
			st := structOf(p.Named("RAML"))
			for i := 0; i < st.NumFields(); i++ {
				fd := st.Field(i)
				v := o.St.load(obj, "."+fd.Name(), fd.Type())
				switch fd.Type().Underlying().(type) {
				case *types.Map:
					good := v.K == KPtr && o.St.isFresh(v.S) && o.St.heap[v.S]["$keys"] == nil
					c.holds(good, "new instance", "New "+fd.Name(), "a new instance shares or lacks this map", o.Where)
				case *types.Slice:
					c.holds(v.K == KNil || v.K == KSlice && len(v.A) == 0 && len(v.M) == 0, "new instance", "New "+fd.Name(), "a new instance does not start with an empty list", o.Where)
				}
			}
			for _, m := range o.St.muts {
				c.fail("new instance", "New", "modifies "+m.Obj+m.Path, o.Where)
			}
			seen := map[string]string{}
			for i := 0; i < st.NumFields(); i++ {
				v := o.St.load(obj, "."+st.Field(i).Name(), st.Field(i).Type())
				if v.K == KPtr {
					c.holds(seen[v.key] == "", "new instance", "New "+st.Field(i).Name(), "shares its map with "+seen[v.key], o.Where)
					seen[v.key] = st.Field(i).Name()
				}
			}
		}
		c.floor("new instance", 5)
	}
	// hook lists are replaced, never modified
	want := map[string]func(o Outcome, res *Val) string{
		"AppendHook":  func(o Outcome, l *Val) string { return listIs(l, "old", "p2") },
		"PrependHook": func(o Outcome, l *Val) string { return listIs(l, "p2", "old") },
		"RemoveHook": func(o Outcome, l *Val) string {
			found := false
			for k, t := range o.St.f.B {
				if k.isApp("==") && t && strings.Contains(k.key, "p2") {
					found = true
				}
			}
			same := listIs(l, "old") == ""
			switch {
			case !found && !same:
				return "removes a hook that is not the given one"
			case found && same:
				return "does not remove the given hook"
			}
			return ""
		},
		"ClearHooks": func(o Outcome, l *Val) string {
			if l.K == KNil || l.K == KSlice && len(l.A) == 0 {
				return ""
			}
			return "does not clear the list: " + l.key
		},
	}
	for _, n := range []string{"AppendHook", "PrependHook", "RemoveHook", "ClearHooks"} {
		fn := c.method("RAML", n)
		if fn == nil {
			continue
		}
		key := symArgs(fn)[1]
		sets := 0
		for _, o := range c.explore(fn, runOpt{}) {
			if o.Panic != "" {
				continue
			}
			for _, m := range o.St.muts {
				if m.Obj != "t" {
					c.fail("hook lists", "RAML."+n, "modifies a list that may be shared: "+m.Obj+m.Path, o.Where)
				}
			}
			var final *Val
			for _, m := range o.St.muts {
				if m.Obj == "t" && m.Val.isApp("context.WithValue") {
					final = m.Val
				}
			}
			if final == nil {
				c.fail("hook lists", "RAML."+n, "does not set the list", o.Where)
				continue
			}
			sets++
			k, l := final.A[1], final.A[2]
			if k.K == KIface {
				k = k.A[0]
			}
			if l.K == KIface {
				l = l.A[0]
			}
			c.holds(k == key, "hook lists", "RAML."+n+" key", "sets the list of another key", o.Where)
			if l.K == KSlice && (l.S == "shared" || len(l.M) > 0) {
				c.fail("hook lists", "RAML."+n, "the new list shares storage with the old one", o.Where)
			} else {
				c.ok("hook lists", "RAML."+n+" copies")
			}
			if why := want[n](o, l); why != "" {
				c.fail("hook lists", "RAML."+n, why, o.Where)
			} else {
				c.ok("hook lists", "RAML."+n+" content")
			}
		}
		c.holds(sets > 0, "hook lists", "RAML."+n, "never sets a list")
	}
}

// listIs compares a list with the parts expected; "old" stands for the previous list.
func listIs(l *Val, want ...string) string {
	if l.K == KNil {
		return "drops the list"
	}
	var parts []*Val
	var flat func(v *Val)
	flat = func(v *Val) {
		if v.K == KSlice {
			for _, p := range v.A {
				if p.S == "spread" && p.A[0].K == KSlice {
					flat(p.A[0])
					continue
				}
				parts = append(parts, p)
			}
			return
		}
		parts = append(parts, vPart("spread", v))
	}
	flat(l)
	var got []string
	for _, p := range parts {
		if p.S == "spread" {
			got = append(got, "old")
		} else {
			got = append(got, p.A[0].key)
		}
	}
	w := strings.Join(want, ",")
	g := strings.Join(got, ",")
	if g == w {
		return ""
	}
	// the old list may be known to be empty
	var short []string
	for _, x := range want {
		if x != "old" {
			short = append(short, x)
		}
	}
	if g == strings.Join(short, ",") {
		return ""
	}
	return "the new list is " + g + " instead of " + w
}

// writesThrough tells how a value read from a variable is used to modify what it refers to.
func writesThrough(v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] || v.Referrers() == nil {
		return ""
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.MapUpdate:
			if r.Map == v {
				return "map update"
			}
			return "stored in a map"
		case *ssa.Store:
			if r.Addr == v {
				return "store"
			}
			return "stored elsewhere"
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice, *ssa.Phi, *ssa.ChangeType:
			if w := writesThrough(r.(ssa.Value), seen); w != "" {
				return w
			}
		case *ssa.Call:
			if b, ok := r.Call.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "delete", "append", "copy", "clear":
					return b.Name()
				}
			}
		}
	}
	return ""
}

package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C11", "modular path-sensitive abstract interpretation of every function that can see a failure: an error result that may be set reaches the caller", checkC11)
}

func hasErrResult(s *types.Signature) bool {
	for i := 0; i < s.Results().Len(); i++ {
		if t := s.Results().At(i).Type(); isErrorType(t) || isStacktracePtr(t) {
			return true
		}
	}
	return false
}

// productFuncs lists the functions of the library that are analysed on their own.
func (c *Ctx) productFuncs() []*ssa.Function {
	var r []*ssa.Function
	for _, fn := range c.P.Funcs {
		if fn.Parent() != nil || fn.Synthetic != "" && fn.Origin() == nil {
			continue
		}
		if rv := fn.Signature.Recv(); rv != nil && strings.Contains(rv.Type().String(), "Mock") {
			continue
		}
		if fn.Name() == "init" {
			continue
		}
		r = append(r, fn)
	}
	return r
}

// notFailures are functions whose error result does not report that they failed.
var notFailures = map[string]bool{"errors.Unwrap": true, "errors.Join": true}

// checkC11 analyses every function on its own, calls of other functions being steps that may fail, and demands
// on every path that the error of every step that is not known to have succeeded is part of the error that is returned.
func checkC11(c *Ctx) {
	n, steps := 0, map[string]bool{}
	for _, fn := range c.productFuncs() {
		if !callsWithError(fn) {
			continue
		}
		n++
		outs := c.exploreWide(fn, runOpt{boundary: c.boundaryAll(), newErrs: true, model: syntaxErrors})
		for i := range outs {
			o := &outs[i]
			if o.Panic != "" {
				continue
			}
			s := o.St
			c.debugState = s
			ret, causes := c.reported(o, fn)
			c.syntaxListeners(o)
			for ei, e := range s.events {
				er := e.errRes()
				if er == nil || notFailures[e.Name] {
					continue
				}
				construct := FuncName(fn) + "/" + shortEvent(e)
				if e.Name == "new error" {
					construct = FuncName(fn) + "/new error"
				}
				steps[construct] = true
				if s.nilness(er) == yes || causes[er] {
					c.ok("failure-reported", construct)
					continue
				}
				switch {
				case c.recognised(s, er):
					c.ok("failure-recognised", construct)
				case e.Name == "new error" && (s.otherSucceeded(e) || s.stored(er)):
					c.ok("failure-kept", construct)
				case s.alternative(e) && (ret == no || s.otherSucceeded(e)):
					c.ok("alternative", construct)
				case ret == no && !laterStep(s.events[ei+1:], e, causes):
					// another error that answers this failure
					c.ok("failure-answered", construct)
				default:
					what := "no error is returned"
					if ret == no {
						what = "only the error of a later step is returned"
					}
					c.fail("failure-lost", construct, fmt.Sprintf("%s failed and %s", shortKey(e.key), what), o.Where)
				}
			}
		}
	}
	c.ok("functions", "")
	c.rule("functions").Obligations = n
	c.floor("functions", 100)
	c.ok("steps", "")
	c.rule("steps").Obligations = len(steps)
	c.floor("steps", 150)
	c.floor("failure-reported", 1000)
	c.floor("syntax-errors", 1)
}

func shortKey(k string) string {
	if len(k) > 160 {
		k = k[:160] + "…"
	}
	return k
}

// reported tells whether an error is reported and what it carries.
func (c *Ctx) reported(o *Outcome, fn *ssa.Function) (tri int, causes map[*Val]bool) {
	if hasErrResult(fn.Signature) {
		causes = map[*Val]bool{}
		tri = yes
		for _, r := range o.Ret {
			if r.T == nil && r.K != KErr && r != vNil {
				continue
			}
			if r.K == KErr || r.T != nil && (isErrorType(r.T) || isStacktracePtr(r.T)) {
				for v := range causesOf(r) {
					causes[v] = true
				}
			}
		}
		return o.St.nilness(o.lastErr()), causes
	}
	// the error may be reported through a parameter
	causes = map[*Val]bool{}
	tri = yes
	for i, p := range fn.Params {
		pt, ok := p.Type().Underlying().(*types.Pointer)
		if !ok || !isErrorType(pt.Elem()) {
			continue
		}
		in := NewInterp(c.P)
		v := in.loadPlace(o.St, "p"+fmt.Sprint(i), "", pt.Elem())
		if v == nil {
			continue
		}
		for x := range causesOf(v) {
			causes[x] = true
		}
		tri = o.St.nilness(v)
	}
	return tri, causes
}

// sentinels are failures that have a meaning of their own to the caller.
var sentinels = []string{"ErrValueKeyNotFound"}

// recognised tells that the error was found to be one that calls for another way of processing.
func (c *Ctx) recognised(s *State, er *Val) bool {
	for k, v := range s.f.B {
		if v && k.isApp("errors.Is") && k.A[0] == er {
			for _, n := range sentinels {
				if strings.Contains(k.A[1].key, n) {
					return true
				}
			}
		}
	}
	return false
}

// alternative tells that the step concerns one of several alternatives.
func (s *State) alternative(e *Event) bool {
	return strings.Contains(e.key, ".AnyOf[") || strings.Contains(e.key, ".PatternProperties[")
}

// otherSucceeded tells that another alternative was good.
func (s *State) otherSucceeded(e *Event) bool {
	for _, x := range s.events {
		if er := x.errRes(); x != e && er != nil && s.alternative(x) && s.nilness(er) == yes {
			return true
		}
	}
	about := func(v *Val) bool {
		return v.isApp("nil") && (strings.Contains(v.key, ".AnyOf[") || strings.Contains(v.key, ".PatternProperties["))
	}
	if s.some(about) == yes {
		return true
	}
	for v, d := range s.f.D {
		if d.exact != nil && strings.Contains(v.key, ".AnyOf[") && strings.HasSuffix(typeShort(d.exact), "AnyShape") {
			return true
		}
	}
	return false
}

// laterStep tells that processing went on after the step.
func laterStep(rest []*Event, e *Event, causes map[*Val]bool) bool {
	for _, x := range rest {
		if er := x.errRes(); er != nil && x.Name != "new error" && (x.Name == e.Name || causes[er]) {
			return true
		}
	}
	return false
}

// callsWithError tells whether a function, or a literal in it, calls something that can fail.
func callsWithError(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if k, ok := i.(ssa.CallInstruction); ok && hasErrResult(k.Common().Signature()) {
				return true
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		if callsWithError(a) {
			return true
		}
	}
	return false
}

// stored tells that the error was put into an object that outlives the call.
func (s *State) stored(er *Val) bool {
	for _, m := range s.muts {
		if causesOf(m.Val)[er] {
			return true
		}
	}
	return false
}

// syntaxErrors models the parser of type expressions: it may report an error to the listeners, which collect it.
func syntaxErrors(in *Interp, st *State, k *Call) ([]callOut, bool) {
	if k.Callee == nil || k.Callee.Name() != "Entrypoint" || k.Callee.Pkg == nil || k.Callee.Pkg.Pkg.Name() != "rdt" {
		return nil, false
	}
	et := types.Universe.Lookup("error").Type()
	v := vSym("err:syntax", et)
	e := &Event{Name: "syntax error", Args: k.Args, Res: []*Val{v}, key: "syntax error"}
	for _, x := range st.events {
		if !x.named("AddErrorListener") || len(x.Args) < 2 {
			continue
		}
		l := x.Args[1]
		if l.K == KIface && len(l.A) > 0 {
			l = l.A[0]
		}
		o, p, ok := objOf(l)
		if !ok || l.T == nil {
			continue
		}
		if s := structOf(deref(l.T)); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				if isStacktracePtr(s.Field(i).Type()) {
					st.wobj(o)[p+"."+s.Field(i).Name()] = v
				}
			}
		}
	}
	st.addEvent(e)
	return []callOut{in.event(st, k)}, true
}

// syntaxListeners demands that both the lexer and the parser of type expressions report their errors.
func (c *Ctx) syntaxListeners(o *Outcome) {
	for i, e := range o.St.events {
		if e.Name != "syntax error" {
			continue
		}
		on := map[*Val]bool{}
		for _, x := range o.St.events[:i] {
			if x.named("AddErrorListener") && len(x.Args) > 1 && x.Args[1] != vNil {
				on[x.Args[0]] = true
			}
		}
		c.holds(len(on) >= 2, "syntax-errors", "the lexer and the parser have an error listener", fmt.Sprintf("%d have", len(on)), o.Where)
	}
}

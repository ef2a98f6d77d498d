package main

import (
	"bytes"
	_ "embed"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Violation is a construct of the source that breaks a rule.
type Violation struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Detail    string `json:"detail"`
	Where     string `json:"where,omitempty"`
}

type ruleStat struct {
	Obligations int      `json:"obligations"`
	Failed      int      `json:"failed"`
	Samples     []string `json:"samples,omitempty"`
}

// Ctx collects what a property's check analysed and found.
type Ctx struct {
	newErrs bool // documents are analysed with every error that is made kept apart
	P       *Program
	Prop    string
	Tier    string
	rules   map[string]*ruleStat
	viol    []Violation
	funcs   map[string]bool
	paths   int
	steps   int
	notes   []string
	assume  []string

	debugState *State

	shard, shards int            // part of the documents that this process looks at
	seen          int            // documents so far
	loaded        int            // functions of the program
	floors        map[string]int // what the rules are expected to find
}

// mine tells whether this process has to look at the next document.
func (c *Ctx) mine() bool {
	c.seen++
	return c.shards <= 1 || c.seen%c.shards == c.shard
}

// first tells whether this process looks at what is not divided.
func (c *Ctx) first() bool { return c.shard == 0 }

type propCheck struct {
	id, technique string
	run           func(c *Ctx)
}

var checks = map[string]propCheck{}

func register(id, technique string, run func(c *Ctx)) {
	checks[id] = propCheck{id, technique, run}
}

// divide lets several processes share the documents of a check.
func divide(ids ...string) {
	for _, id := range ids {
		divided[id] = true
	}
}

var divided = map[string]bool{}

func (c *Ctx) rule(r string) *ruleStat {
	s := c.rules[r]
	if s == nil {
		s = &ruleStat{}
		c.rules[r] = s
	}
	return s
}

// ok records an obligation that holds.
func (c *Ctx) ok(rule, construct string) {
	s := c.rule(rule)
	s.Obligations++
	if len(s.Samples) < 4 && construct != "" {
		for _, x := range s.Samples {
			if x == construct {
				return
			}
		}
		s.Samples = append(s.Samples, construct)
	}
}

// fail records a violated obligation.
func (c *Ctx) fail(rule, construct, detail string, where ...string) {
	s := c.rule(rule)
	s.Obligations++
	s.Failed++
	for i, v := range c.viol {
		if v.Rule == rule && v.Construct == construct {
			if !strings.Contains(v.Detail, detail) && len(v.Detail) < 1200 {
				c.viol[i].Detail += "; " + detail
			}
			return
		}
	}
	w := ""
	if len(where) > 0 {
		w = where[0]
	}
	c.viol = append(c.viol, Violation{Rule: rule, Construct: construct, Detail: detail, Where: w})
}

// holds records an obligation.
func (c *Ctx) holds(cond bool, rule, construct, detail string, where ...string) bool {
	if cond {
		c.ok(rule, construct)
	} else {
		if c.debugState != nil && os.Getenv("DBGF") != "" {
			fmt.Println("FAIL", rule, construct, where)
			c.debugState.dump()
		}
		c.fail(rule, construct, detail, where...)
	}
	return cond
}

// floor demands that the rule found at least n constructs to decide.
func (c *Ctx) floor(rule string, n int) {
	if c.shards > 1 {
		c.floors[rule] = n // decided when the parts are put together
		return
	}
	if got := c.rule(rule).Obligations; got < n {
		c.fail("coverage", rule, fmt.Sprintf("only %d constructs found, at least %d expected: the rule cannot see the code any more", got, n))
	}
}

// method finds an anchor.
func (c *Ctx) method(typ, name string) *ssa.Function {
	fn := c.P.MethodOf(typ, name)
	if fn == nil || len(fn.Blocks) == 0 {
		c.fail("anchor", typ+"."+name, "the method does not exist any more")
		return nil
	}
	return fn
}

func (c *Ctx) function(name string) *ssa.Function {
	fn := c.P.Func(name)
	if fn == nil || len(fn.Blocks) == 0 {
		c.fail("anchor", name, "the function does not exist any more")
		return nil
	}
	return fn
}

// ---- running the path analysis ----

type runOpt struct {
	boundary func(*Call) bool
	inline   []string // used by boundaryAll: names that are looked into
	strict   func(*Val) bool
	setup    func(in *Interp, st *State, args []*Val)
	args     []*Val
	budget   int
	quiet    bool // undecided paths are handled by the caller
	model    func(in *Interp, st *State, c *Call) ([]callOut, bool)
	from     *State // state to start in
	onErr    func(st *State, c *Call, f *frame)
	depth    int
	newErrs  bool
	// widenHeap joins the writes of loop iterations
	widenHeap bool
	// recurse looks into recursive calls
	recurse bool
	exact   bool
}

// symArgs names the parameters; the receiver is t.
func symArgs(fn *ssa.Function) []*Val {
	var args []*Val
	for i, pa := range fn.Params {
		n := pa.Name()
		if i == 0 && fn.Signature.Recv() != nil {
			n = "t"
		} else {
			n = "p" + strconv.Itoa(i)
		}
		args = append(args, vSym(n, pa.Type()))
	}
	return args
}

// explore analyses all paths of a function.
func (c *Ctx) explore(fn *ssa.Function, o runOpt) []Outcome {
	outs, und := c.exploreRaw(fn, o)
	if len(und) > 0 && !o.quiet {
		c.fail("undecided", FuncName(fn), strings.Join(und, "; "))
	}
	return outs
}

// exploreWide joins the effects of loop iterations if the function cannot be decided otherwise.
func (c *Ctx) exploreWide(fn *ssa.Function, o runOpt) []Outcome {
	if o.budget == 0 {
		o.budget = 400000
	}
	outs, und := c.exploreRaw(fn, o)
	if len(und) > 0 {
		o.widenHeap = true
		outs, und = c.exploreRaw(fn, o)
		if len(und) > 0 {
			c.fail("undecided", FuncName(fn), strings.Join(und, "; "))
		}
	}
	return outs
}

func (c *Ctx) exploreRaw(fn *ssa.Function, o runOpt) ([]Outcome, []string) {
	in := NewInterp(c.P)
	in.boundary = o.boundary
	in.strictNil = o.strict
	in.model = o.model
	in.onErr = o.onErr
	in.widenHeap = o.widenHeap
	in.newErrs = o.newErrs
	in.recurse, in.exact = o.recurse, o.exact
	in.debug = os.Getenv("DBG") != ""
	if o.budget > 0 {
		in.budget = o.budget
	}
	if o.depth > 0 {
		in.maxDepth = o.depth
	}
	args := o.args
	if args == nil {
		args = symArgs(fn)
	}
	st := newState()
	if o.from != nil {
		st = o.from.clone()
	}
	if fn.Signature.Recv() != nil && o.args == nil {
		if _, isPtr := fn.Signature.Recv().Type().(*types.Pointer); isPtr {
			st.assumeNil(args[0], false)
		}
	}
	if o.setup != nil {
		o.setup(in, st, args)
	}
	outs := in.Run(fn, args, st)
	c.paths += len(outs)
	c.steps += in.steps
	for f := range in.funcsSeen {
		c.funcs[FuncName(f)] = true
	}
	if os.Getenv("DBGX") != "" {
		fmt.Println("explored", FuncName(fn), len(outs), "outcomes", in.steps, "steps", in.undecided)
	}
	return outs, in.undecided
}

// bounds makes calls of the named functions (of the module) events.
func bounds(names ...string) func(*Call) bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return func(c *Call) bool {
		if c.Callee == nil {
			return false
		}
		return m[c.Callee.Name()] || m[FuncName(c.Callee)]
	}
}

// boundaryAll makes calls of all module functions events, apart from the named ones and function literals.
func (c *Ctx) boundaryAll(inline ...string) func(*Call) bool {
	m := map[string]bool{}
	for _, n := range inline {
		m[n] = true
	}
	return func(k *Call) bool {
		if k.Callee == nil || !c.P.InModule(k.Callee) || k.Callee.Parent() != nil {
			return false
		}
		n := k.Callee.Name()
		if m[n] || m[FuncName(k.Callee)] || isErrHelper(k.Callee) || !knownFuncs[n] {
			return false
		}
		return true
	}
}

// functions.txt names the functions that are steps of their own in modular analyses; functions that were added
// since (extracted helpers, say) are looked into.
//
//go:embed functions.txt
var functionsTxt string

var knownFuncs = func() map[string]bool {
	m := map[string]bool{}
	for _, n := range strings.Fields(functionsTxt) {
		m[n] = true
	}
	return m
}()

// isErrHelper recognises the constructors of located errors.
func isErrHelper(fn *ssa.Function) bool {
	r := fn.Signature.Results()
	if fn.Signature.Recv() != nil || r.Len() != 1 || !isStacktracePtr(r.At(0).Type()) {
		return false
	}
	ps := fn.Signature.Params()
	// a message comes first
	return ps.Len() > 0 && isString(ps.At(0).Type())
}

// dump prints what is known in the state.
func (s *State) dump() {
	for _, l := range s.f.lines() {
		fmt.Println("   ", l)
	}
	for _, e := range s.events {
		fmt.Println("    event", e.key)
	}
	for _, j := range s.joints {
		fmt.Println("    joint", j.v.key)
	}
	for _, m := range s.muts {
		fmt.Println("    mut", m.Obj+m.Path, ":=", m.Val)
	}
}

// ---- looking at outcomes ----

func (o *Outcome) err(i int) *Val { return o.Ret[i] }

// lastErr is the error result of an outcome.
func (o *Outcome) lastErr() *Val {
	if len(o.Ret) == 0 {
		return vNil
	}
	return o.Ret[len(o.Ret)-1]
}

// causesOf lists the errors that an error value carries.
func causesOf(v *Val) map[*Val]bool {
	m := map[*Val]bool{}
	var walk func(v *Val)
	walk = func(v *Val) {
		if v == nil || m[v] {
			return
		}
		m[v] = true
		if v.K == KErr || v.K == KIface || v.K == KApp {
			for _, a := range v.A {
				walk(a)
			}
		}
		if v.O != nil {
			walk(v.O)
		}
	}
	walk(v)
	return m
}

// errRes is the error result of an event, or nil.
func (e *Event) errRes() *Val {
	for i := len(e.Res) - 1; i >= 0; i-- {
		if e.Res[i].T != nil && (isErrorType(e.Res[i].T) || isStacktracePtr(e.Res[i].T)) {
			return e.Res[i]
		}
	}
	return nil
}

func shortEvent(e *Event) string {
	n := e.Name
	if i := strings.LastIndexByte(n, '.'); i >= 0 {
		n = n[i+1:]
	}
	return n
}

// ---- results ----

type knownFinding struct{ rule, construct, what string }

// readKnown reads the findings that were recorded for the property.
func readKnown(verif, prop string) []knownFinding {
	var out []knownFinding
	b, err := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		parts := strings.SplitN(strings.TrimPrefix(l, "known: "), " | ", 4)
		if len(parts) != 4 || strings.TrimSpace(parts[0]) != "property="+prop {
			continue
		}
		out = append(out, knownFinding{strings.TrimSpace(parts[1]), strings.TrimSpace(parts[2]), strings.TrimSpace(parts[3])})
	}
	return out
}

// partial is what a process found in its part of the documents.
type partial struct {
	Rules        map[string]*ruleStat
	Viol         []Violation
	Funcs        []string
	Paths, Steps int
	Assume       []string
	Floors       map[string]int
	Loaded       int
}

func (c *Ctx) analyse(repo string, ck propCheck) {
	p, err := Load(repo)
	if err != nil {
		c.fail("load", repo, err.Error())
		return
	}
	c.P, c.loaded = p, len(p.Funcs)
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("DBGP") != "" {
				panic(r)
			}
			c.fail("analyser", c.Prop, fmt.Sprintf("the analysis failed: %v", r))
		}
	}()
	ck.run(c)
}

// together runs n processes and puts together what they found.
func (c *Ctx) together(n int, repo, verif string) {
	self, err := os.Executable()
	if err != nil {
		c.fail("analyser", c.Prop, err.Error())
		return
	}
	parts := make([]partial, n)
	errs := make([]string, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			cmd := exec.Command(self, "-repo", repo, "-verif", verif, "-property", c.Prop)
			cmd.Env = append(os.Environ(), fmt.Sprintf("RAML_CHECK_PART=%d/%d", i, n))
			var out, eout bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &eout
			err := cmd.Run()
			s := out.String()
			k := strings.LastIndex(s, "\nPART ")
			if os.Getenv("DBGX") != "" && k >= 0 {
				fmt.Print(s[:k])
			}
			switch {
			case k >= 0:
				if err := json.Unmarshal([]byte(strings.TrimSpace(s[k+6:])), &parts[i]); err != nil {
					errs[i] = err.Error()
				}
			default:
				e := eout.String()
				if len(e) > 400 {
					e = e[:400]
				}
				errs[i] = fmt.Sprintf("a part of the analysis ended early: %v %s", err, e)
			}
		}(i)
	}
	wg.Wait()
	floors := map[string]int{}
	assumed := map[string]bool{}
	for i, p := range parts {
		if errs[i] != "" {
			c.fail("analyser", c.Prop, errs[i])
			continue
		}
		for _, v := range p.Viol {
			c.fail(v.Rule, v.Construct, v.Detail, v.Where)
		}
		for r, s := range p.Rules {
			t := c.rule(r)
			// failures that were recorded twice count once
			t.Obligations += s.Obligations - s.Failed
			for _, x := range s.Samples {
				if len(t.Samples) < 4 {
					t.Samples = append(t.Samples, x)
				}
			}
		}
		for _, f := range p.Funcs {
			c.funcs[f] = true
		}
		c.paths += p.Paths
		c.steps += p.Steps
		for r, n := range p.Floors {
			floors[r] = n
		}
		for _, a := range p.Assume {
			if !assumed[a] {
				assumed[a] = true
				c.assume = append(c.assume, a)
			}
		}
		c.loaded = p.Loaded
	}
	for _, r := range sortedKeys(floors) {
		c.floor(r, floors[r])
	}
}

func runProperty(repo, verif, prop string) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	if tier == "thorough" {
		limitOne, limitAll = 10*limitOne, 10*limitAll
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ck, ok := checks[prop]
	c := &Ctx{Prop: prop, Tier: tier, rules: map[string]*ruleStat{}, funcs: map[string]bool{}}
	if !ok {
		fmt.Println("no such check:", prop)
		return 2
	}
	part := os.Getenv("RAML_CHECK_PART")
	if part != "" {
		fmt.Sscanf(part, "%d/%d", &c.shard, &c.shards)
		c.floors = map[string]int{}
		c.analyse(repo, ck)
		b, _ := json.Marshal(partial{Rules: c.rules, Viol: c.viol, Funcs: sortedKeys(c.funcs), Paths: c.paths, Steps: c.steps, Assume: c.assume, Floors: c.floors, Loaded: c.loaded})
		fmt.Printf("\nPART %s\n", b)
		return 0
	}
	if n := runtime.NumCPU(); divided[prop] && n > 1 && os.Getenv("DBGW") == "" {
		if n > 8 {
			n = 8
		}
		c.together(n, repo, verif)
	} else {
		c.analyse(repo, ck)
	}
	known := readKnown(verif, prop)
	var open []Violation
	seenKnown := map[int]bool{}
	for _, v := range c.viol {
		matched := false
		for i, k := range known {
			if k.rule == v.Rule && k.construct == v.Construct {
				matched = true
				if !seenKnown[i] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.what)
				}
				seenKnown[i] = true
			}
		}
		if !matched {
			open = append(open, v)
		}
	}
	sort.SliceStable(open, func(i, j int) bool { return open[i].Rule+open[i].Construct < open[j].Rule+open[j].Construct })
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "other", "wall_s": time.Since(start).Seconds(), "violations": len(open),
	}
	total, failed := 0, 0
	names := make([]string, 0, len(c.rules))
	var samples []any
	for r, s := range c.rules {
		total += s.Obligations
		failed += s.Failed
		names = append(names, r)
	}
	sort.Strings(names)
	for _, r := range names {
		for _, x := range c.rules[r].Samples {
			samples = append(samples, r+": "+x)
		}
	}
	fl := make([]string, 0, len(c.funcs))
	for f := range c.funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	cov := map[string]any{
		"explanation":        "Static analysis of the current source (" + ck.technique + "): obligations are the constructs to which the named rules were applied.",
		"obligations":        total,
		"discharged":         total - failed,
		"rules":              c.rules,
		"functions_analysed": fl,
		"function_count":     len(fl),
		"paths":              c.paths,
		"abstract_steps":     c.steps,
		"samples":            samples,
		"known_findings":     len(seenKnown),
	}
	cov["functions_loaded"] = c.loaded
	ev["coverage"] = cov
	ev["assumptions"] = append([]string{"the Go type checker and the SSA construction of golang.org/x/tools represent the source faithfully",
		"functions of other modules behave as modelled in checker/models.go"}, c.assume...)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0o644)
	vf := filepath.Join(verif, "evidence", prop+".violations.json")
	os.Remove(vf)
	if len(open) == 0 {
		fmt.Printf("property %s holds: %d obligations, %d functions, %d paths, %.1fs\n", prop, total, len(fl), c.paths, time.Since(start).Seconds())
		return 0
	}
	b, _ = json.MarshalIndent(open, "", " ")
	os.WriteFile(vf, b, 0o644)
	for i, v := range open {
		if i == 30 {
			fmt.Printf("  ... and %d more\n", len(open)-30)
			break
		}
		fmt.Printf("  [%s] %s: %s %s\n", v.Rule, v.Construct, v.Detail, v.Where)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, vf)
	return 1
}

package main

import (
	"crypto/sha256"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Outcome is one way in which a function can end.
type Outcome struct {
	St    *State
	Ret   []*Val
	Panic string // reason, when the function panics
	Where string
}

// Call describes a call whose treatment is decided by the policy.
type Call struct {
	Callee *ssa.Function // nil for calls through interfaces and function values
	Method *types.Func   // for calls through interfaces
	Name   string
	Args   []*Val
	Site   ssa.CallInstruction
	Sig    *types.Signature
	Depth  int
	Fn     *ssa.Function // caller
}

type callOut struct {
	st  *State
	ret []*Val
	pan string
}

// Interp is a path-sensitive abstract interpreter over SSA form.
type Interp struct {
	p *Program
	// boundary tells whether the call is an event instead of being looked into
	boundary func(c *Call) bool
	// model may give the outcomes of a call itself
	model func(in *Interp, st *State, c *Call) ([]callOut, bool)
	// strict: places that may be nil (by name of the initial value's type and path)
	strictNil func(v *Val) bool
	steps     int
	started   time.Time
	ticks     int
	budget    int
	undecided []string
	info      map[*ssa.Function]*fnInfo
	maxDepth  int
	funcsSeen map[*ssa.Function]bool
	pathCount int
	debug     bool
	// FixYamlError keeps errors and nil (verified separately)
	fixIdentity bool
	onErr       func(st *State, c *Call, f *frame)
	// newErrs records the errors that are made
	newErrs bool
	// widenHeap joins what loop iterations write to objects that exist already
	widenHeap bool
	// recurse looks into recursive calls, for functions that run on known worlds
	recurse bool
	// exact keeps objects apart that are made at the same place, for functions that run on known worlds
	exact bool
}

func NewInterp(p *Program) *Interp {
	return &Interp{p: p, started: time.Now(), budget: 6_000_000, fixIdentity: true, info: p.fnInfos, maxDepth: 40, funcsSeen: map[*ssa.Function]bool{}}
}

type loopT struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

type fnInfo struct {
	index map[ssa.Value]int
	vals  []ssa.Value
	loops map[*ssa.BasicBlock]*loopT
	live  map[*ssa.BasicBlock][]int // registers live at the start of headers
	induc map[*ssa.Phi]int64        // step of induction variables
}

func (in *Interp) fnInfo(fn *ssa.Function) *fnInfo {
	if fi, ok := in.info[fn]; ok {
		return fi
	}
	fi := &fnInfo{index: map[ssa.Value]int{}, loops: map[*ssa.BasicBlock]*loopT{}, live: map[*ssa.BasicBlock][]int{}, induc: map[*ssa.Phi]int64{}}
	add := func(v ssa.Value) {
		if _, ok := fi.index[v]; !ok {
			fi.index[v] = len(fi.vals)
			fi.vals = append(fi.vals, v)
		}
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// natural loops
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					l = &loopT{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				var stack []*ssa.BasicBlock
				if !l.body[b] {
					l.body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !l.body[p] {
							l.body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	// induction variables
	for h, l := range fi.loops {
		for _, i := range h.Instrs {
			phi, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			if !isInteger(phi.Type()) {
				continue
			}
			step := int64(0)
			good := true
			for k, e := range phi.Edges {
				if !l.body[h.Preds[k]] {
					continue
				}
				s, ok := stepOf(e, phi)
				if !ok || (step != 0 && s != step) {
					good = false
					break
				}
				step = s
			}
			if good && step != 0 {
				fi.induc[phi] = step
			}
		}
	}
	// liveness
	n := len(fn.Blocks)
	liveIn := make([]map[int]bool, n)
	for i := range liveIn {
		liveIn[i] = map[int]bool{}
	}
	for changed := true; changed; {
		changed = false
		for bi := n - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			cur := map[int]bool{}
			for _, s := range b.Succs {
				k := predIndex(s, b)
				for r := range liveIn[s.Index] {
					cur[r] = true
				}
				for _, i := range s.Instrs {
					phi, ok := i.(*ssa.Phi)
					if !ok {
						break
					}
					delete(cur, fi.index[phi])
				}
				for _, i := range s.Instrs {
					phi, ok := i.(*ssa.Phi)
					if !ok {
						break
					}
					if x, ok := fi.index[phi.Edges[k]]; ok {
						cur[x] = true
					}
				}
			}
			for ii := len(b.Instrs) - 1; ii >= 0; ii-- {
				i := b.Instrs[ii]
				if phi, ok := i.(*ssa.Phi); ok {
					cur[fi.index[phi]] = true // live at the start, defined on the edge
					continue
				}
				if v, ok := i.(ssa.Value); ok {
					delete(cur, fi.index[v])
				}
				for _, op := range i.Operands(nil) {
					if *op == nil {
						continue
					}
					if x, ok := fi.index[*op]; ok {
						cur[x] = true
					}
				}
			}
			// unused phis are not live
			for _, i := range b.Instrs {
				phi, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				if phi.Referrers() == nil || len(*phi.Referrers()) == 0 {
					delete(cur, fi.index[phi])
				}
			}
			for r := range cur {
				if !liveIn[bi][r] {
					liveIn[bi][r] = true
					changed = true
				}
			}
		}
	}
	for h := range fi.loops {
		var l []int
		for r := range liveIn[h.Index] {
			l = append(l, r)
		}
		sort.Ints(l)
		fi.live[h] = l
	}
	in.info[fn] = fi
	return fi
}

func predIndex(s, b *ssa.BasicBlock) int {
	for k, p := range s.Preds {
		if p == b {
			return k
		}
	}
	return -1
}

func stepOf(v ssa.Value, phi *ssa.Phi) (int64, bool) {
	b, ok := v.(*ssa.BinOp)
	if !ok || (b.Op != token.ADD && b.Op != token.SUB) {
		return 0, false
	}
	c, ok := b.Y.(*ssa.Const)
	x := b.X
	if !ok && b.Op == token.ADD {
		c, ok = b.X.(*ssa.Const)
		x = b.Y
	}
	if !ok || c.Value == nil {
		return 0, false
	}
	n, ok := constant.Int64Val(constant.ToInt(c.Value))
	if !ok {
		return 0, false
	}
	if b.Op == token.SUB {
		n = -n
	}
	if x == ssa.Value(phi) {
		return n, true
	}
	// i += 1 in several steps
	if m, ok := stepOf(x, phi); ok {
		return m + n, true
	}
	return 0, false
}

var debugLo, debugHi = 380, 384

// frame is one activation of a function.
type frame struct {
	in    *Interp
	fn    *ssa.Function
	fi    *fnInfo
	id    string
	depth int
	outs  []Outcome
	okeys map[string]bool
	memo  map[[32]byte]bool
	stack []*item
	heads map[*ssa.BasicBlock]int
	wrote map[*ssa.BasicBlock]map[[2]string]*Val
	given map[string]bool // objects of earlier runs of the same call (in a loop of the caller)
}

type deferred struct {
	call  *ssa.Defer
	fnv   *Val
	args  []*Val
	iface *Val
}

type item struct {
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	regs   []*Val
	st     *State
	defers []deferred
}

func (it *item) clone() *item {
	n := *it
	n.regs = append([]*Val(nil), it.regs...)
	n.st = it.st.clone()
	n.defers = it.defers[:len(it.defers):len(it.defers)]
	return &n
}

func (in *Interp) giveUp(format string, a ...any) {
	m := fmt.Sprintf(format, a...)
	for _, x := range in.undecided {
		if x == m {
			return
		}
	}
	in.undecided = append(in.undecided, m)
}

// Run analyses a function with the given arguments.
func (in *Interp) Run(fn *ssa.Function, args []*Val, st *State) []Outcome {
	return in.run(fn, args, nil, st, shortFn(fn), 0)
}

func shortFn(fn *ssa.Function) string { return FuncName(fn) }

func (in *Interp) run(fn *ssa.Function, args, bindings []*Val, st *State, id string, depth int) []Outcome {
	in.funcsSeen[fn] = true
	f := &frame{in: in, fn: fn, fi: in.fnInfo(fn), id: id, depth: depth, okeys: map[string]bool{}, memo: map[[32]byte]bool{}, heads: map[*ssa.BasicBlock]int{}}
	for o := range st.heap {
		if st.mine("new@"+id, o) {
			if f.given == nil {
				f.given = map[string]bool{}
			}
			f.given[o] = true
		}
	}
	it := &item{block: fn.Blocks[0], regs: make([]*Val, len(f.fi.vals)), st: st}
	for i, p := range fn.Params {
		if i < len(args) {
			it.regs[f.fi.index[p]] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(bindings) {
			it.regs[f.fi.index[p]] = bindings[i]
		}
	}
	f.stack = append(f.stack, it)
	for len(f.stack) > 0 {
		it := f.stack[len(f.stack)-1]
		f.stack = f.stack[:len(f.stack)-1]
		if in.outOfMemory() {
			in.giveUp("memory exhausted in %s", FuncName(fn))
			in.budget = 0
			return f.outs
		}
		if in.steps > in.budget {
			in.giveUp("budget of %d steps exceeded in %s", in.budget, FuncName(fn))
			return f.outs
		}
		f.exec(it)
	}
	return f.outs
}

// analysisStart is when the whole analysis started.
var analysisStart = time.Now()

// limits of the time of one exploration and of a whole check; they only serve to end an analysis that does not come to
// an end, which is reported as undecided.
var (
	limitOne = 100 * time.Second
	limitAll = 600 * time.Second
)

func (in *Interp) late() bool {
	return time.Since(in.started) > limitOne || time.Since(analysisStart) > limitAll
}

// outOfMemory tells, from time to time, whether the analysis uses too much memory.
func (in *Interp) outOfMemory() bool {
	in.ticks++
	if in.ticks%500 != 0 {
		return false
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc > 6<<30
}

func (f *frame) out(o Outcome) {
	f.in.pathCount++
	// loops of this frame are over
	for k := range o.St.loops {
		if strings.HasPrefix(k, f.id+"#") {
			delete(o.St.loops, k)
		}
	}
	if !f.in.exact || o.St.crowded() {
		o.St.collect("new@"+f.id, o.Ret, f.given)
		o.St.limit = len(o.St.heap)*3/2 + 50
	}
	// a single outcome needs no key
	if len(f.outs) == 1 && len(f.okeys) == 0 {
		f.okeys[f.outs[0].key()] = true
	}
	if len(f.outs) > 0 {
		k := o.key()
		if f.okeys[k] {
			return
		}
		f.okeys[k] = true
	}
	f.outs = append(f.outs, o)
}

// key identifies the outcome.
func (o *Outcome) key() string {
	var b strings.Builder
	for _, r := range o.Ret {
		b.WriteString(r.key)
		b.WriteByte(',')
	}
	b.WriteString(o.Panic)
	b.WriteString(o.Where)
	b.WriteString("|")
	b.WriteString(o.St.key())
	return b.String()
}

func (f *frame) panicOut(it *item, why string, instr ssa.Instruction) {
	f.out(Outcome{St: it.st, Panic: why, Where: f.in.where(instr, f.fn)})
}

func (in *Interp) where(i ssa.Instruction, fn *ssa.Function) string {
	pos := in.p.Prog.Fset.Position(i.Pos())
	if !pos.IsValid() {
		pos = in.p.Prog.Fset.Position(fn.Pos())
	}
	return fmt.Sprintf("%s:%d (%s)", baseName(pos.Filename), pos.Line, FuncName(fn))
}

func baseName(s string) string { return s[strings.LastIndexByte(s, '/')+1:] }

// loopID names a loop of this activation.
func (f *frame) loopID(h *ssa.BasicBlock) string { return f.id + "#" + strconv.Itoa(h.Index) }

func (f *frame) enter(it *item) bool {
	b := it.block
	// leave loops that do not contain this block
	for h, l := range f.fi.loops {
		if !l.body[b] {
			id := f.loopID(h)
			for k := range it.st.loops {
				if k == id || strings.HasPrefix(k, id+".") {
					delete(it.st.loops, k)
				}
			}
		}
	}
	// phis
	k := -1
	if it.prev != nil {
		k = predIndex(b, it.prev)
	}
	type pv struct {
		i int
		v *Val
	}
	var set []pv
	for _, i := range b.Instrs {
		phi, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		set = append(set, pv{f.fi.index[phi], f.val(it, phi.Edges[k])})
	}
	l := f.fi.loops[b]
	if l != nil {
		id := f.loopID(b)
		outside := it.prev == nil || !l.body[it.prev]
		if outside {
			delete(it.st.loops, id)
		}
		n := 0
		for _, i := range b.Instrs {
			phi, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			v := set[n].v
			if step, ok := f.fi.induc[phi]; ok {
				v = f.induction(it, phi, v, step, outside, id)
			} else if !outside {
				v = f.widen(it, phi, v, id)
			} else {
				v = f.widenStart(phi, v)
			}
			set[n].v = v
			n++
		}
	}
	if l != nil {
		effect := false
		if it.prev != nil && l.body[it.prev] {
			for _, s := range set {
				if old := it.regs[s.i]; old != nil && old != s.v && s.v.K != KIdx && s.v.K != KPair && s.v.K != KNil && s.v.K != KIter {
					effect = true
				}
			}
		}
		it.st.settle(effect)
		if f.in.widenHeap && it.prev != nil && l.body[it.prev] {
			f.joinHeap(it, b)
		}
	}
	for _, s := range set {
		it.regs[s.i] = s.v
	}
	if l != nil {
		id := f.loopID(b)
		// cursors into ordered collections
		for _, s := range set {
			if s.v.K == KPair {
				li := it.st.loops[id]
				li.class, li.coll = s.v.S, s.v.A[0].key
				coll := s.v.A[0]
				if coll.K == KPtr && it.st.isFresh(coll.S) && it.st.heap[coll.S]["$keys"] != nil {
					coll = it.st.heap[coll.S]["$keys"]
				}
				li.elem = elemText(coll, s.v.S2)
				it.st.loops[id] = li
			}
		}
		roots := make([]*Val, 0, 16)
		for _, r := range f.fi.live[b] {
			if it.regs[r] != nil {
				roots = append(roots, it.regs[r])
			}
		}
		for _, d := range it.defers {
			roots = append(append(roots, d.args...), d.fnv, d.iface)
		}
		if !f.in.exact || it.st.crowded() {
			it.st.collect("new@"+f.id, roots, f.given)
			it.st.limit = len(it.st.heap)*3/2 + 50
		}
		f.heads[b]++
		if f.in.debug && f.heads[b] > debugLo && f.heads[b] < debugHi {
			fmt.Println("== header", b.Index, FuncName(f.fn), f.id)
			for _, r := range f.fi.live[b] {
				if it.regs[r] != nil {
					fmt.Println("  reg", f.fi.vals[r].Name(), it.regs[r].key)
				}
			}
			for _, l := range it.st.f.lines() {
				fmt.Println("  ", l)
			}
			for _, e := range it.st.events {
				fmt.Println("   ev", e.key)
			}
			for o, m := range it.st.heap {
				fmt.Println("   heap", o, m)
			}
			fmt.Println("   loops", it.st.loops)
		}
		if f.heads[b] > 60000 {
			f.in.giveUp("no fixpoint at a loop of %s", FuncName(f.fn))
			return false
		}
		if f.in.exact && f.heads[b] < 200 {
			return true // every round is a state of its own
		}
		var kb strings.Builder
		kb.WriteString(strconv.Itoa(b.Index))
		kb.WriteByte('|')
		for _, r := range f.fi.live[b] {
			kb.WriteString(strconv.Itoa(r))
			kb.WriteByte('=')
			if it.regs[r] != nil {
				kb.WriteString(strconv.Itoa(it.regs[r].id))
			}
			kb.WriteByte(';')
		}
		for _, d := range it.defers {
			kb.WriteString(fmt.Sprintf("d%d", d.call.Pos()))
		}
		kb.WriteString(it.st.key())
		key := sha256.Sum256([]byte(kb.String()))
		if f.memo[key] {
			return false
		}
		f.memo[key] = true
	}
	return true
}

// joinHeap replaces what the iterations of a loop wrote to existing objects by unknown values.
func (f *frame) joinHeap(it *item, h *ssa.BasicBlock) {
	st := it.st
	if f.wrote == nil {
		f.wrote = map[*ssa.BasicBlock]map[[2]string]*Val{}
	}
	w := f.wrote[h]
	if w == nil {
		w = map[[2]string]*Val{}
		f.wrote[h] = w
	}
	for o, m := range st.heap {
		if st.isFresh(o) {
			continue
		}
		for p, v := range m {
			k := [2]string{o, p}
			if w[k] == nil && !strings.HasPrefix(p, "$") {
				n := "~~" + o + p
				if strings.Contains(o, "~~") || len(n) > 300 {
					n = "~~deep" + p
				}
				w[k] = vSym(n, v.T)
			}
		}
	}
	for k, v := range w {
		if st.heap[k[0]][k[1]] == v {
			continue
		}
		st.forgetHits(v.key, func(key string) bool { return strings.Contains(key, v.key) })
		st.wobj(k[0])[k[1]] = v
	}
	for o, m := range st.heap {
		if m["$keys"] != nil && !st.isFresh(o) {
			delete(st.wobj(o), "$keys")
		}
	}
	st.muts = nil
}

// induction gives the value of an induction variable at the loop's header.
func (f *frame) induction(it *item, phi *ssa.Phi, v *Val, step int64, outside bool, id string) *Val {
	pid := id + "." + phi.Name()
	if outside {
		delete(it.st.loops, pid)
		if n, ok := v.intConst(); ok {
			return mk(Val{K: KIdx, S: pid, S2: "s", N: n, A: []*Val{vNil}})
		}
		if v.isApp("-") && v.A[0].isApp("len") && v.A[1] == vInt(1) && step == -1 {
			// from the last element backwards
			return mk(Val{K: KIdx, S: pid, S2: "rs", N: 0, A: []*Val{v.A[0].A[0]}})
		}
		return v
	}
	if v.K != KIdx || v.S != pid {
		return vSym("~"+pid, phi.Type())
	}
	li := it.st.loops[pid]
	if v.S2 == "s" {
		if li.class != "const" {
			return vSym("~"+pid, phi.Type())
		}
		if v.N > 300 {
			f.in.giveUp("a counted loop of %s is too long", FuncName(f.fn))
		}
		return v
	}
	if v.N != li.n+step {
		if f.in.debug {
			fmt.Println("WIDEN", pid, v, li, step)
		}
		return vSym("~"+pid, phi.Type())
	}
	it.st.forgetOthers(append([]string{li.coll}, li.inner...))
	if v.A[0].K == KSlice {
		it.st.forgetPart(v.A[0], v.S2)
	}
	li.inner = nil
	it.st.loops[pid] = li
	return mk(Val{K: KIdx, S: pid, S2: v.S2 + ">", N: li.n, A: v.A})
}

// widen keeps loop-carried values from growing without bound.
func (f *frame) widen(it *item, phi *ssa.Phi, v *Val, id string) *Val {
	old := it.regs[f.fi.index[phi]]
	name := "~" + id + "." + phi.Name()
	wide := func() *Val {
		w := vSym(name, phi.Type())
		if v == w {
			return w
		}
		// what is known about an earlier value does not hold for this one
		n := it.st.nilness(v)
		it.st.forgetHits(name, func(key string) bool {
			// steps that concern a distinguished element happen once
			return strings.Contains(key, name) && !(mentionsClass(key, "w") && strings.Contains(key, "("+name))
		})
		if n != unknown && w.K == KSym {
			it.st.assumeNil(w, n == yes)
		}
		return w
	}
	if old != nil && strings.HasPrefix(old.key, "~") && old.K == KSym {
		return wide()
	}
	if len(v.key) > 4000 {
		return wide()
	}
	if old != nil && old != v && v.K == KSym && len(old.key) < len(v.key) && strings.Contains(v.key, "("+old.key) {
		// the result of a call that takes the result of the previous iteration
		return wide()
	}
	if _, ok := v.intConst(); ok && old != nil && old != v {
		// a counter: distinguish zero and more
		return wide()
	}
	if v.K == KApp && old != nil && old != v && (v.S == "+" || v.S == "-" || v.S == "|") {
		return wide()
	}
	if v.K == KSym && strings.Count(v.key, ".Parent") > 3 {
		return wide()
	}
	if old != nil && v.K == KSym && old.K == KSym && len(v.key) > len(old.key) && strings.HasPrefix(v.key, old.key) {
		// a chain of objects: the same step was taken before
		if step := v.key[len(old.key):]; strings.HasSuffix(old.key, step) {
			return wide()
		}
	}
	return v
}

func (f *frame) widenStart(phi *ssa.Phi, v *Val) *Val { return v }

// val evaluates an operand.
func (f *frame) val(it *item, v ssa.Value) *Val {
	switch v := v.(type) {
	case *ssa.Const:
		return constVal(v)
	case *ssa.Global:
		return vPtr("global:"+v.Name(), "", v.Type())
	case *ssa.Function:
		return mk(Val{K: KFunc, Fn: v})
	case *ssa.Builtin:
		return vSym("builtin:"+v.Name(), v.Type())
	}
	i, ok := f.fi.index[v]
	if !ok || it.regs[i] == nil {
		if !ok {
			f.in.giveUp("unknown operand %s in %s", v.Name(), FuncName(f.fn))
		}
		return vSym("undef:"+f.id+":"+v.Name(), v.Type())
	}
	return it.regs[i]
}

func constVal(c *ssa.Const) *Val {
	if c.Value == nil {
		if st := structOf(c.Type()); st != nil {
			return zeroVal(c.Type())
		}
		if _, ok := c.Type().Underlying().(*types.Basic); ok {
			if b := c.Type().Underlying().(*types.Basic); b.Kind() != types.UntypedNil && b.Kind() != types.UnsafePointer {
				return zeroVal(c.Type())
			}
		}
		return vNil
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return vBool(constant.BoolVal(c.Value))
	case constant.String:
		return vStr(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return vFloat(c.Value.ExactString())
		}
		return mk(Val{K: KConst, S: "n:" + c.Value.ExactString()})
	case constant.Float:
		if isInteger(c.Type()) {
			return mk(Val{K: KConst, S: "n:" + constant.ToInt(c.Value).ExactString()})
		}
		return vFloat(c.Value.ExactString())
	}
	return vSym("const:"+c.Value.String(), c.Type())
}

func (f *frame) push(it *item) { f.stack = append(f.stack, it) }

func (f *frame) jump(it *item, to *ssa.BasicBlock) {
	it.prev = it.block
	it.block = to
	it.idx = -1
	f.push(it)
}

// split continues the item in two states, one for each truth value of the condition, re-executing the current instruction.
func (f *frame) split(it *item, c *Val) {
	a := it.clone()
	if a.st.assume(c, true) {
		f.push(a)
	}
	if it.st.assume(c, false) {
		f.push(it)
	}
}

func (f *frame) exec(it *item) {
	if it.idx < 0 || (it.idx == 0 && it.prev == nil) {
		if it.prev != nil || it.idx < 0 {
			if !f.enter(it) {
				return
			}
		}
		it.idx = 0
		for it.idx < len(it.block.Instrs) {
			if _, ok := it.block.Instrs[it.idx].(*ssa.Phi); !ok {
				break
			}
			it.idx++
		}
	}
	for {
		f.in.steps++
		if f.in.steps&255 == 0 && f.in.late() {
			f.in.giveUp("time exceeded in %s", FuncName(f.fn))
			f.in.budget = 0
		}
		if f.in.steps > f.in.budget {
			f.push(it)
			return
		}
		instr := it.block.Instrs[it.idx]
		switch f.step(it, instr) {
		case contNext:
			it.idx++
		case contStop:
			return
		}
	}
}

type cont int

const (
	contNext cont = iota
	contStop
)

func (f *frame) set(it *item, v ssa.Value, x *Val) { it.regs[f.fi.index[v]] = x }

func (f *frame) step(it *item, instr ssa.Instruction) cont {
	switch i := instr.(type) {
	case *ssa.DebugRef:
		return contNext
	case *ssa.Alloc:
		name := f.freshName(it, i)
		it.st.markFresh(name)
		f.set(it, i, vPtr(name, "", i.Type()))
		return contNext
	case *ssa.UnOp:
		return f.unop(it, i)
	case *ssa.BinOp:
		return f.binop(it, i)
	case *ssa.Store:
		addr := f.val(it, i.Addr)
		if why := f.derefPanic(it, addr); why != "" {
			f.panicOut(it, why, i)
			return contStop
		}
		f.storeTo(it, addr, f.val(it, i.Val), i.Val.Type())
		return contNext
	case *ssa.FieldAddr:
		x := f.val(it, i.X)
		if c, stop := f.needNonNil(it, x, i); stop {
			return c
		}
		name := deref(i.X.Type()).Underlying().(*types.Struct).Field(i.Field).Name()
		f.set(it, i, fieldAddr(x, name, i.Field))
		return contNext
	case *ssa.Field:
		x := f.val(it, i.X)
		f.set(it, i, fieldOf(x, i.X.Type(), i.Field))
		return contNext
	case *ssa.IndexAddr:
		return f.indexAddr(it, i)
	case *ssa.Index:
		x, n := f.val(it, i.X), f.val(it, i.Index)
		if s, ok := x.strConst(); ok {
			if k, ok := n.intConst(); ok {
				if k < 0 || k >= int64(len(s)) {
					f.panicOut(it, fmt.Sprintf("index %d out of range of a text of %d", k, len(s)), i)
					return contStop
				}
				f.set(it, i, vInt(int64(s[k])))
				return contNext
			}
		}
		f.set(it, i, vAppT(i.Type(), "index", x, n))
		return contNext
	case *ssa.Lookup:
		return f.lookup(it, i)
	case *ssa.MapUpdate:
		m := f.val(it, i.Map)
		if it.st.nilness(m) == yes {
			f.panicOut(it, "write to a nil map", i)
			return contStop
		}
		if f.in.strictNil != nil && it.st.nilness(m) == unknown && f.in.strictNil(m) {
			f.split(it, vApp("nil", m))
			return contStop
		}
		f.in.mapSet(it.st, m, f.val(it, i.Key), f.val(it, i.Value), FuncName(f.fn))
		return contNext
	case *ssa.MakeMap:
		name := f.freshName(it, i)
		it.st.markFresh(name)
		f.set(it, i, vPtr(name, "", i.Type()))
		return contNext
	case *ssa.MakeSlice:
		n := f.val(it, i.Len)
		if c, ok := n.intConst(); ok && c == 0 {
			f.set(it, i, mk(Val{K: KSlice, T: i.Type()}))
			return contNext
		}
		name := f.freshName(it, i)
		it.st.markFresh(name)
		it.st.wobj(name)["$len"] = n
		f.set(it, i, vPtr(name, "", i.Type()))
		return contNext
	case *ssa.MakeInterface:
		x := f.val(it, i.X)
		if x.O != nil && x.K == KSym && strings.HasSuffix(x.key, "!"+typeShort(i.X.Type())) {
			f.set(it, i, x.O)
			return contNext
		}
		if x.K == KErr {
			f.set(it, i, x)
			return contNext
		}
		if isStacktracePtr(i.X.Type()) && x.K != KNil && x.K != KPtr {
			if it.st.nilness(x) == no {
				f.set(it, i, x)
				return contNext
			}
		}
		f.set(it, i, vIface(i.X.Type(), x))
		return contNext
	case *ssa.ChangeInterface:
		f.set(it, i, f.val(it, i.X))
		return contNext
	case *ssa.ChangeType:
		f.set(it, i, f.val(it, i.X))
		return contNext
	case *ssa.Convert:
		f.set(it, i, convert(f.val(it, i.X), i.X.Type(), i.Type()))
		return contNext
	case *ssa.MultiConvert:
		f.set(it, i, convert(f.val(it, i.X), i.X.Type(), i.Type()))
		return contNext
	case *ssa.TypeAssert:
		return f.typeAssert(it, i)
	case *ssa.MakeClosure:
		b := make([]*Val, len(i.Bindings))
		for k, x := range i.Bindings {
			b[k] = f.val(it, x)
		}
		f.set(it, i, mk(Val{K: KFunc, Fn: i.Fn.(*ssa.Function), A: b}))
		return contNext
	case *ssa.Extract:
		t := f.val(it, i.Tuple)
		if t.K == KTuple {
			f.set(it, i, t.A[i.Index])
		} else {
			f.set(it, i, vAppT(i.Type(), "#"+strconv.Itoa(i.Index), t))
		}
		return contNext
	case *ssa.Slice:
		return f.slice(it, i)
	case *ssa.SliceToArrayPointer:
		f.set(it, i, vAppT(i.Type(), "arrayptr", f.val(it, i.X)))
		return contNext
	case *ssa.Range:
		name := f.freshName(it, i)
		it.st.markFresh(name)
		it.st.wobj(name)["phase"] = vStr("s")
		f.set(it, i, mk(Val{K: KIter, S: name, S2: "", A: []*Val{f.val(it, i.X)}}))
		return contNext
	case *ssa.Next:
		return f.next(it, i)
	case *ssa.Call:
		return f.call(it, i, &i.Call)
	case *ssa.Defer:
		d := deferred{call: i}
		for _, a := range i.Call.Args {
			d.args = append(d.args, f.val(it, a))
		}
		if i.Call.IsInvoke() {
			d.iface = f.val(it, i.Call.Value)
		} else {
			d.fnv = f.val(it, i.Call.Value)
		}
		it.defers = append(it.defers[:len(it.defers):len(it.defers)], d)
		return contNext
	case *ssa.RunDefers:
		if len(it.defers) == 0 {
			return contNext
		}
		d := it.defers[len(it.defers)-1]
		it.defers = it.defers[: len(it.defers)-1 : len(it.defers)-1]
		outs := f.callCommon(it, d.call, &d.call.Call, d.fnv, d.iface, d.args)
		for _, o := range outs {
			n := it.clone()
			n.st = o.st
			if o.pan != "" {
				f.panicOut(n, o.pan, i)
				continue
			}
			f.push(n) // run the remaining ones
		}
		return contStop
	case *ssa.If:
		c := f.val(it, i.Cond)
		switch it.st.query(c) {
		case yes:
			f.jump(it, it.block.Succs[0])
		case no:
			f.jump(it, it.block.Succs[1])
		default:
			n := it.clone()
			if n.st.assume(c, true) {
				f.jump(n, n.block.Succs[0])
			}
			if it.st.assume(c, false) {
				f.jump(it, it.block.Succs[1])
			}
		}
		return contStop
	case *ssa.Jump:
		f.jump(it, it.block.Succs[0])
		return contStop
	case *ssa.Return:
		r := make([]*Val, len(i.Results))
		for k, x := range i.Results {
			r[k] = f.val(it, x)
		}
		f.out(Outcome{St: it.st, Ret: r, Where: f.in.where(i, f.fn)})
		return contStop
	case *ssa.Panic:
		f.panicOut(it, "panic("+f.val(it, i.X).key+")", i)
		return contStop
	}
	f.in.giveUp("%s: unsupported instruction %T", FuncName(f.fn), instr)
	if v, ok := instr.(ssa.Value); ok {
		f.set(it, v, vSym("opaque:"+f.id+":"+v.Name(), v.Type()))
		return contNext
	}
	return contStop
}

// freshName names an object created at this place in this context.
func (f *frame) freshName(it *item, v ssa.Value) string {
	var cs []string
	for id, l := range it.st.loops {
		if f.in.recurse {
			// the frames of the enclosing loops are told apart by the length of their names
			at := strings.LastIndexByte(id, '#')
			cs = append(cs, strconv.Itoa(at)+id[at:]+l.class+":"+strconv.FormatInt(l.n, 10))
			continue
		}
		if l.class == "const" {
			cs = append(cs, id+":"+strconv.FormatInt(l.n, 10))
			continue
		}
		c := l.class
		if c == "" {
			continue
		}
		cs = append(cs, id[strings.LastIndexByte(id, '#'):]+c)
	}
	sort.Strings(cs)
	n := "new@" + f.id + ":" + v.Name()
	if len(cs) > 0 {
		n += "<" + strings.Join(cs, ",") + ">"
	}
	if f.in.exact {
		// every object is one of its own
		for k := 1; it.st.heap[n] != nil; k++ {
			n = strings.TrimSuffix(n, "~"+strconv.Itoa(k-1)) + "~" + strconv.Itoa(k)
		}
	}
	return n
}

func fieldAddr(x *Val, name string, idx int) *Val {
	if x.isApp("elemaddr") {
		return vApp("elemaddr", fieldOf(x.A[0], nil, idx))
	}
	if x.K == KPair {
		obj, path, ok := objOf(x.A[0])
		if !ok {
			obj = x.A[0].key
		}
		if name == "Value" {
			return vPtr(obj+path, "["+x.S+"]", nil)
		}
		return vPtr(obj+path, "["+x.S+"]@"+name, nil)
	}
	obj, path, ok := objOf(x)
	if !ok {
		return vPtr(x.key, "."+name, nil)
	}
	return vPtr(obj, path+"."+name, nil)
}

func fieldOf(x *Val, t types.Type, i int) *Val {
	if x.K == KStruct && i < len(x.A) {
		return x.A[i]
	}
	if x.T != nil {
		t = x.T
	}
	st := structOf(t)
	if st == nil {
		return vApp("field"+strconv.Itoa(i), x)
	}
	return vAppT(st.Field(i).Type(), "field:"+st.Field(i).Name(), x)
}

// derefPanic tells why dereferencing the address panics.
func (f *frame) derefPanic(it *item, addr *Val) string {
	if addr.K == KNil || it.st.nilness(addr) == yes {
		return "nil dereference"
	}
	return ""
}

// needNonNil splits or ends the path when the pointer may be nil.
func (f *frame) needNonNil(it *item, x *Val, instr ssa.Instruction) (cont, bool) {
	switch it.st.nilness(x) {
	case yes:
		f.panicOut(it, "nil dereference of "+x.key, instr)
		return contStop, true
	case unknown:
		if f.in.strictNil != nil && f.in.strictNil(x) {
			f.split(it, vApp("nil", x))
			return contStop, true
		}
		it.st.assumeNil(x, false)
	}
	return contNext, false
}

func (f *frame) unop(it *item, i *ssa.UnOp) cont {
	x := f.val(it, i.X)
	switch i.Op {
	case token.MUL:
		if g, ok := i.X.(*ssa.Global); ok {
			if f.in.p.neverSet()[g] {
				f.set(it, i, zeroVal(i.Type()))
				return contNext
			}
			f.set(it, i, it.st.load(x.S, "", i.Type()).withGlobal(i.X.(*ssa.Global)))
			return contNext
		}
		if c, stop := f.needNonNil(it, x, i); stop {
			return c
		}
		f.set(it, i, f.loadFrom(it, x, i.Type()))
		return contNext
	case token.NOT:
		if b, ok := x.boolConst(); ok {
			f.set(it, i, vBool(!b))
		} else if x.isApp("not") {
			f.set(it, i, x.A[0])
		} else {
			f.set(it, i, vApp("not", x))
		}
		return contNext
	case token.SUB:
		if n, ok := x.intConst(); ok {
			f.set(it, i, vInt(-n))
		} else {
			f.set(it, i, vAppT(i.Type(), "neg", x))
		}
		return contNext
	}
	f.set(it, i, vAppT(i.Type(), i.Op.String(), x))
	return contNext
}

func (v *Val) withGlobal(g *ssa.Global) *Val {
	if v.K == KSym && strings.HasPrefix(v.S, "*global:") {
		return vSym(v.S[1:], deref(g.Type()))
	}
	return v
}

func (f *frame) loadFrom(it *item, x *Val, t types.Type) *Val {
	if x.isApp("elemaddr") {
		return x.A[0]
	}
	obj, path, ok := objOf(x)
	if !ok {
		return vAppT(t, "load", x)
	}
	return f.in.loadPlace(it.st, obj, path, t)
}

// loadPlace reads a place, looking through copied slices and cursors.
func (in *Interp) loadPlace(st *State, obj, path string, t types.Type) *Val {
	if v, ok := st.heap[obj][path]; ok {
		return v
	}
	if strings.HasPrefix(path, "[") {
		if base := st.heap[obj]["$base"]; base != nil {
			if bo, bp, ok := objOf(base); ok {
				return in.loadPlace(st, bo, bp+path, t)
			}
		}
		// cursor into an ordered map or list: names of key and value
		if j := strings.IndexByte(path, ']'); j > 0 {
			if st.isFresh(obj) && strings.HasPrefix(path, "[l") {
				if keys := st.heap[obj]["$keys"]; keys != nil {
					k, ok := in.listElem(keys, mk(Val{K: KIdx, S: "", S2: path[1:j], A: []*Val{keys}}))
					if ok {
						if path[j+1:] == "@Key" {
							return k
						}
						return in.loadPlace(st, obj, "{"+k.key+"}"+path[j+1:], t)
					}
				}
			}
			if path[j+1:] == "@Key" {
				return vSym(obj+".key"+path[:j+1], t)
			}
		}
	}
	return st.load(obj, path, t)
}

func (f *frame) storeTo(it *item, addr, v *Val, t types.Type) {
	obj, path, ok := objOf(addr)
	if !ok {
		f.in.giveUp("%s: store through %s", FuncName(f.fn), addr.key)
		return
	}
	f.in.storePlace(it.st, obj, path, v, t, FuncName(f.fn))
}

func (in *Interp) storePlace(st *State, obj, path string, v *Val, t types.Type, fn string) {
	if j := strings.IndexByte(path, ']'); j > 0 && st.isFresh(obj) && strings.HasPrefix(path, "[l") {
		if keys := st.heap[obj]["$keys"]; keys != nil {
			if k, ok := in.listElem(keys, mk(Val{K: KIdx, S: "", S2: path[1:j], A: []*Val{keys}})); ok {
				st.store(obj, "{"+k.key+"}"+path[j+1:], v, t)
				return
			}
		}
	}
	if !st.isFresh(obj) {
		st.addMut(Mut{Obj: obj, Path: path, Val: v, Fn: fn})
	}
	st.store(obj, path, v, t)
}

func convert(x *Val, from, to types.Type) *Val {
	if isInteger(from) && isInteger(to) {
		if _, ok := x.intConst(); ok {
			return x
		}
		if x.isApp("len") || x.isApp("runes") || x.K == KIdx {
			return x
		}
		fb, tb := from.Underlying().(*types.Basic), to.Underlying().(*types.Basic)
		if intSize(tb) >= intSize(fb) && (fb.Info()&types.IsUnsigned) == (tb.Info()&types.IsUnsigned) {
			return x
		}
		if fb.Info()&types.IsUnsigned != 0 && tb.Info()&types.IsUnsigned == 0 && intSize(tb) > intSize(fb) {
			return x
		}
		return vAppT(to, "conv:"+tb.Name(), x)
	}
	if isNumeric(from) && isNumeric(to) {
		if types.Identical(from.Underlying(), to.Underlying()) {
			return x
		}
		if n, ok := x.intConst(); ok && !isInteger(to) {
			return vFloat(strconv.FormatInt(n, 10))
		}
		return vAppT(to, "conv:"+to.Underlying().String(), x)
	}
	if isString(from) && isString(to) {
		return x
	}
	if isString(to) && x.isApp("bytes") {
		return x.A[0]
	}
	return vAppT(to, "conv:"+typeShort(to), x)
}

func intSize(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	}
	return 8
}

func (f *frame) binop(it *item, i *ssa.BinOp) cont {
	x, y := f.val(it, i.X), f.val(it, i.Y)
	switch i.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if x.K == KIdx || y.K == KIdx {
			if c, ok := f.idxCompare(it, i, x, y); ok {
				return c
			}
		}
		var c *Val
		switch i.Op {
		case token.EQL, token.NEQ:
			c = eqTerm(x, y)
		default:
			c = vApp(i.Op.String(), x, y)
		}
		switch it.st.query(c) {
		case yes:
			c = vTrue
		case no:
			c = vFalse
		}
		if i.Op == token.NEQ {
			if b, ok := c.boolConst(); ok {
				c = vBool(!b)
			} else {
				c = vApp("not", c)
			}
		}
		f.set(it, i, c)
		return contNext
	}
	f.set(it, i, arith(i.Op, x, y, i.Type()))
	return contNext
}

func eqTerm(x, y *Val) *Val {
	if x.K == KNil {
		return vApp("nil", y)
	}
	if y.K == KNil {
		return vApp("nil", x)
	}
	return eqAtom(x, y)
}

func arith(op token.Token, x, y *Val, t types.Type) *Val {
	a, aok := x.intConst()
	b, bok := y.intConst()
	switch op {
	case token.ADD:
		if isString(t) {
			s1, ok1 := x.strConst()
			s2, ok2 := y.strConst()
			if ok1 && ok2 {
				return vStr(s1 + s2)
			}
			return vAppT(t, "concat", x, y)
		}
		if aok && bok {
			return vInt(a + b)
		}
		if x.K == KIdx && bok {
			return mk(Val{K: KIdx, S: x.S, S2: x.S2, N: x.N + b, A: x.A})
		}
		if y.K == KIdx && aok {
			return mk(Val{K: KIdx, S: y.S, S2: y.S2, N: y.N + a, A: y.A})
		}
		if bok && b == 0 {
			return x
		}
	case token.SUB:
		if aok && bok {
			return vInt(a - b)
		}
		if x.K == KIdx && bok {
			return mk(Val{K: KIdx, S: x.S, S2: x.S2, N: x.N - b, A: x.A})
		}
		if bok && b == 0 {
			return x
		}
	case token.MUL:
		if aok && bok {
			return vInt(a * b)
		}
	}
	if aok && bok && isInteger(t) {
		switch {
		case op == token.QUO && b != 0:
			return vInt(a / b)
		case op == token.REM && b != 0:
			return vInt(a % b)
		case op == token.AND:
			return vInt(a & b)
		case op == token.OR:
			return vInt(a | b)
		case op == token.SHL && b >= 0 && b < 32 && a >= 0 && a < 1<<30:
			return vInt(a << uint(b))
		case op == token.SHR && b >= 0 && b < 64:
			return vInt(a >> uint(b))
		}
	}
	return vAppT(t, op.String(), x, y)
}

func (f *frame) typeAssert(it *item, i *ssa.TypeAssert) cont {
	x := f.val(it, i.X)
	q := it.st.queryIs(x, i.AssertedType)
	if q == unknown {
		if x.K == KErr {
			// errors made here are stack traces or plain errors; both are possible
			if i.CommaOk {
				q = no
			}
		} else {
			n := it.clone()
			if n.st.assumeIs(x, i.AssertedType, true) {
				f.push(n)
			}
			if it.st.assumeIs(x, i.AssertedType, false) {
				f.push(it)
			}
			return contStop
		}
	}
	var v *Val
	if q == yes {
		v = f.in.view(x, i.AssertedType)
	} else {
		v = zeroVal(i.AssertedType)
	}
	if i.CommaOk {
		f.set(it, i, vTuple(v, vBool(q == yes)))
		return contNext
	}
	if q == no {
		f.panicOut(it, "failed type assertion of "+x.key+" to "+typeShort(i.AssertedType), i)
		return contStop
	}
	f.set(it, i, v)
	return contNext
}

// view is the value of an interface seen as a concrete type.
func (in *Interp) view(x *Val, t types.Type) *Val {
	if types.IsInterface(t) {
		return x
	}
	if x.K == KIface {
		return x.A[0]
	}
	return mk(Val{K: KSym, S: x.key + "!" + typeShort(t), T: t, O: x})
}

func (f *frame) indexAddr(it *item, i *ssa.IndexAddr) cont {
	x, n := f.val(it, i.X), f.val(it, i.Index)
	if it.st.nilness(x) == yes {
		f.panicOut(it, "index of nil", i)
		return contStop
	}
	if x.K == KSlice {
		if v, ok := f.in.listElem(x, n); ok {
			f.set(it, i, vApp("elemaddr", v))
			return contNext
		}
		c, known := n.intConst()
		if n.K == KIdx && n.S2 == "s" {
			c, known = n.N, true
		}
		if known {
			if l, ok := f.in.lenOf(it.st, x).intConst(); ok && (c < 0 || c >= l) {
				f.panicOut(it, fmt.Sprintf("index %d out of range of a list of %d", c, l), i)
				return contStop
			}
		}
		f.set(it, i, vPtr("list:"+x.key, indexPath(n), i.Type()))
		return contNext
	}
	obj, path, ok := objOf(x)
	if !ok {
		obj = x.key
	}
	if c, isC := n.intConst(); isC || (n.K == KIdx && n.S2 == "s") {
		if !isC {
			c = n.N
			n = vInt(c)
		}
		// known to be in range, or possibly a panic
		if _, isArr := deref(i.X.Type()).(*types.Array); !isArr && f.in.strictNil != nil {
			lenv := f.in.lenOf(it.st, x)
			q := it.st.query(vApp("<", n, lenv))
			if q == no {
				f.panicOut(it, fmt.Sprintf("index %d out of range of %s", c, x.key), i)
				return contStop
			}
			if q == unknown {
				if _, isArrU := typeUnder(deref(i.X.Type())).(*types.Array); !isArrU {
					f.split(it, vApp("<", n, lenv))
					return contStop
				}
			}
		}
		it.st.assume(vApp("<", n, f.in.lenOf(it.st, x)), true)
		f.set(it, i, vPtr(obj, path+"["+strconv.FormatInt(c, 10)+"]", i.Type()))
		return contNext
	}
	f.set(it, i, vPtr(obj, path+indexPath(n), i.Type()))
	return contNext
}

func typeUnder(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

// indexPath writes the place of an element.
func indexPath(n *Val) string {
	if c, ok := n.intConst(); ok {
		return "[" + strconv.FormatInt(c, 10) + "]"
	}
	if n.K == KIdx && n.S2 != "s" {
		cls := n.S2
		// class names: b:o w a:o and numbered variants
		cls = className(cls)
		if n.N == 0 {
			return "[" + cls + "]"
		}
		if n.N > 0 {
			return "[" + cls + "+" + strconv.FormatInt(n.N, 10) + "]"
		}
		return "[" + cls + strconv.FormatInt(n.N, 10) + "]"
	}
	return "[" + n.key + "]"
}

func className(s string) string {
	s = strings.TrimSuffix(s, ">")
	if j := strings.IndexByte(s, ':'); j >= 0 {
		return s[j+1:]
	}
	return s
}

// lenOf gives the length of a collection.
func (in *Interp) lenOf(st *State, x *Val) *Val {
	switch x.K {
	case KNil:
		return vInt(0)
	case KConst:
		if s, ok := x.strConst(); ok {
			return vInt(int64(len(s)))
		}
	case KSlice:
		n := int64(0)
		for _, p := range x.A {
			if p.S != "one" {
				if len(x.A) == 1 && p.S == "spread" {
					return in.lenOf(st, p.A[0])
				}
				return vApp("len", x)
			}
			n++
		}
		return vInt(n)
	case KPtr:
		if l := st.heap[x.S]["$len"]; l != nil && x.S2 == "" {
			return l
		}
		if st.isFresh(x.S) && x.S2 == "" {
			if st.heap[x.S]["$keys"] == nil {
				return vInt(0)
			}
			return in.lenOf(st, st.heap[x.S]["$keys"])
		}
	case KApp:
		if x.S == "subslice" {
			if n, ok := x.A[1].intConst(); ok && n == 0 && x.A[2].K == KNil {
				return in.lenOf(st, x.A[0])
			}
		}
	}
	if st.nilness(x) == yes {
		return vInt(0)
	}
	return vApp("len", x)
}

func (f *frame) slice(it *item, i *ssa.Slice) cont {
	x := f.val(it, i.X)
	// a slice of a whole array that was just filled: a literal
	if x.K == KPtr && it.st.isFresh(x.S) && i.Low == nil && i.High == nil {
		if arr, ok := typeUnder(deref(i.X.Type())).(*types.Array); ok {
			parts := make([]*Val, arr.Len())
			for k := range parts {
				parts[k] = vPart("one", it.st.load(x.S, x.S2+"["+strconv.Itoa(k)+"]", arr.Elem()))
			}
			f.set(it, i, mk(Val{K: KSlice, T: i.Type(), A: parts}))
			return contNext
		}
	}
	lo, hi := vInt(0), vNil
	if i.Low != nil {
		lo = f.val(it, i.Low)
	}
	if i.High != nil {
		hi = f.val(it, i.High)
	}
	if h, ok := hi.intConst(); ok && h == 0 && isString(i.Type()) {
		f.set(it, i, vStr(""))
		return contNext
	}
	if h, ok := hi.intConst(); ok && h == 0 {
		// x[:0]: empty, sharing x's storage
		if x.K == KPtr && it.st.isFresh(x.S) {
			f.set(it, i, mk(Val{K: KSlice, T: i.Type()}))
			return contNext
		}
		f.set(it, i, mk(Val{K: KSlice, T: i.Type(), M: []*Val{x}}))
		return contNext
	}
	if x.K == KSlice && (hi.K == KNil) {
		if n, ok := lo.intConst(); ok && int(n) <= len(x.A) {
			all := true
			for _, p := range x.A[:n] {
				all = all && p.S == "one"
			}
			if all {
				f.set(it, i, mk(Val{K: KSlice, T: i.Type(), A: x.A[n:]}))
				return contNext
			}
		}
	}
	if s, ok := x.strConst(); ok {
		if a, ok := lo.intConst(); ok {
			b := int64(len(s))
			if n, ok := hi.intConst(); ok {
				b = n
			}
			if a >= 0 && a <= b && b <= int64(len(s)) {
				f.set(it, i, vStr(s[a:b]))
				return contNext
			}
			if _, known := hi.intConst(); known || hi.K == KNil {
				f.panicOut(it, fmt.Sprintf("slice bounds [%d:%d] out of range of a text of %d", a, b, len(s)), i)
				return contStop
			}
		}
	}
	if hi.isApp("len") && hi.A[0] == x {
		hi = vNil
	}
	if n, ok := lo.intConst(); ok && n == 0 && hi.K == KNil {
		if _, isArr := typeUnder(deref(i.X.Type())).(*types.Array); !isArr {
			f.set(it, i, x)
			return contNext
		}
	}
	if f.in.strictNil != nil && (it.st.nilness(x) != yes) {
		// bounds: lo <= len and hi <= len and lo <= hi
		lenv := f.in.lenOf(it.st, x)
		conds := []*Val{vApp("<=", lo, lenv)}
		if hi.K != KNil {
			conds = append(conds, vApp("<=", hi, lenv), vApp("<=", lo, hi), vApp("<=", vInt(0), hi))
		}
		for _, c := range conds {
			q := f.in.boundQuery(it.st, c)
			if q == no {
				f.panicOut(it, "slice bounds out of range: "+c.key, i)
				return contStop
			}
			if q == unknown {
				f.split(it, c)
				return contStop
			}
		}
	}
	f.set(it, i, vAppT(i.Type(), "subslice", x, lo, hi))
	return contNext
}

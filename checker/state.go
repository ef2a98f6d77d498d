package main

import (
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
)

// ---- facts: a finite conjunction of atoms over named values ----

const (
	mL = 1 // less
	mE = 2 // equal
	mG = 4 // greater
)

type pairKey struct{ a, b *Val }

type ival struct{ lo, hi int64 }

type dyn struct {
	exact types.Type
	not   []types.Type
}

type fact struct {
	v     *Val
	truth bool
}

// Facts is what is known on the current path.
type Facts struct {
	B  map[*Val]bool
	M  map[pairKey]uint8
	I  map[*Val]ival
	E  map[*Val]*Val
	D  map[*Val]dyn
	Ex map[fact]bool
}

func newFacts() *Facts {
	return &Facts{B: map[*Val]bool{}, M: map[pairKey]uint8{}, I: map[*Val]ival{}, E: map[*Val]*Val{}, D: map[*Val]dyn{}, Ex: map[fact]bool{}}
}

func (f *Facts) clone() *Facts {
	n := &Facts{
		B: make(map[*Val]bool, len(f.B)+4), M: make(map[pairKey]uint8, len(f.M)+2), I: make(map[*Val]ival, len(f.I)+2),
		E: make(map[*Val]*Val, len(f.E)+2), D: make(map[*Val]dyn, len(f.D)+2), Ex: make(map[fact]bool, len(f.Ex)),
	}
	for k, v := range f.B {
		n.B[k] = v
	}
	for k, v := range f.M {
		n.M[k] = v
	}
	for k, v := range f.I {
		n.I[k] = v
	}
	for k, v := range f.E {
		n.E[k] = v
	}
	for k, v := range f.D {
		n.D[k] = v
	}
	for k := range f.Ex {
		n.Ex[k] = true
	}
	return n
}

func (f *Facts) lines() []string {
	var out []string
	for k, v := range f.B {
		if v {
			out = append(out, k.key)
		} else {
			out = append(out, "!"+k.key)
		}
	}
	for k, v := range f.M {
		ops := [8]string{"?", "<", "==", "<=", ">", "!=", ">=", "any"}
		out = append(out, k.a.key+" "+ops[v]+" "+k.b.key)
	}
	for k, v := range f.I {
		lo, hi := "-inf", "inf"
		if v.lo != math.MinInt64 {
			lo = strconv.FormatInt(v.lo, 10)
		}
		if v.hi != math.MaxInt64 {
			hi = strconv.FormatInt(v.hi, 10)
		}
		out = append(out, k.key+" in ["+lo+","+hi+"]")
	}
	for k, v := range f.E {
		out = append(out, k.key+" = "+v.key)
	}
	for k, v := range f.D {
		if v.exact != nil {
			out = append(out, "type("+k.key+")="+typeShort(v.exact))
		} else {
			var n []string
			for _, t := range v.not {
				n = append(n, typeShort(t))
			}
			sort.Strings(n)
			out = append(out, "type("+k.key+")!="+strings.Join(n, "|"))
		}
	}
	for k := range f.Ex {
		s := "E: "
		if !k.truth {
			s += "!"
		}
		out = append(out, s+k.v.key)
	}
	sort.Strings(out)
	return out
}

// Event is a call that the analysis does not look into.
type Event struct {
	Name string // callee
	Args []*Val
	Res  []*Val
	Site string
	key  string
}

// Mut is a write to an object that existed before the analysed function was called.
type Mut struct {
	Obj, Path string
	Val       *Val
	Fn        string
}

type loopInfo struct {
	class string // current class of the loop's element
	coll  string
	n     int64    // offset of the induction variable relative to the element's index
	inner []string // collections iterated inside
	elem  string   // text in the name of the distinguished element
}

// State is an abstract program state.
type State struct {
	limit   int // objects from which it is worth while to look for those that nothing refers to
	heap    map[string]map[string]*Val
	shared  map[string]bool // inner maps shared with another state
	f       *Facts
	fShared bool
	events  []*Event
	muts    []Mut
	loops   map[string]loopInfo
	note    string

	// what was known about an element of a collection when it was left behind: conjunctions that hold for some element
	pend   []joint // of the iteration that just ended
	joints []joint
}

type joint struct {
	coll string
	v    *Val
}

func newState() *State {
	return &State{heap: map[string]map[string]*Val{}, shared: map[string]bool{}, f: newFacts(), loops: map[string]loopInfo{}}
}

// crowded tells whether it is time to look for objects that nothing refers to.
func (s *State) crowded() bool { return len(s.heap) > s.limit }

func (s *State) clone() *State {
	n := &State{heap: make(map[string]map[string]*Val, len(s.heap)+2), shared: make(map[string]bool, len(s.heap)), f: s.f, fShared: true,
		events: s.events[:len(s.events):len(s.events)], muts: s.muts[:len(s.muts):len(s.muts)], loops: make(map[string]loopInfo, len(s.loops)), note: s.note, pend: s.pend, joints: s.joints, limit: s.limit}
	s.fShared = true
	for k, v := range s.heap {
		n.heap[k] = v
		n.shared[k] = true
		s.shared[k] = true
	}
	for k, v := range s.loops {
		n.loops[k] = v
	}
	return n
}

func (s *State) wf() *Facts {
	if s.fShared {
		s.f = s.f.clone()
		s.fShared = false
	}
	return s.f
}

func (s *State) wobj(obj string) map[string]*Val {
	m, ok := s.heap[obj]
	if !ok {
		m = map[string]*Val{}
		s.heap[obj] = m
		delete(s.shared, obj)
		return m
	}
	if s.shared[obj] {
		c := make(map[string]*Val, len(m)+1)
		for k, v := range m {
			c[k] = v
		}
		s.heap[obj] = c
		delete(s.shared, obj)
		return c
	}
	return m
}

func (s *State) isFresh(obj string) bool {
	m, ok := s.heap[obj]
	return ok && m["$fresh"] != nil
}

func (s *State) markFresh(obj string) {
	s.heap[obj] = map[string]*Val{"$fresh": vTrue}
	delete(s.shared, obj)
}

// key identifies the state for fixpoint detection and merging.
func (s *State) key() string {
	var b strings.Builder
	objs := make([]string, 0, len(s.heap))
	for o := range s.heap {
		objs = append(objs, o)
	}
	sort.Strings(objs)
	for _, o := range objs {
		b.WriteString(o)
		b.WriteByte('{')
		m := s.heap[o]
		ps := make([]string, 0, len(m))
		for p := range m {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		for _, p := range ps {
			b.WriteString(p)
			b.WriteByte('=')
			b.WriteString(strconv.Itoa(m[p].id))
			b.WriteByte(';')
		}
		b.WriteByte('}')
	}
	b.WriteByte('|')
	for _, l := range s.f.lines() {
		b.WriteString(l)
		b.WriteByte(';')
	}
	b.WriteByte('|')
	for _, e := range s.events {
		b.WriteString(e.key)
		b.WriteByte(';')
	}
	b.WriteByte('|')
	for _, m := range s.muts {
		b.WriteString(m.Obj + m.Path)
		b.WriteByte(';')
	}
	b.WriteByte('|')
	var ls []string
	for k, l := range s.loops {
		ls = append(ls, k+":"+l.class+":"+l.coll+":"+strconv.FormatInt(l.n, 10)+":"+strings.Join(l.inner, ",")+":"+l.elem)
	}
	sort.Strings(ls)
	b.WriteString(strings.Join(ls, ","))
	b.WriteString(s.note)
	for _, j := range s.joints {
		b.WriteString("&" + j.v.key)
	}
	return b.String()
}

func (s *State) addEvent(e *Event) {
	for _, x := range s.events {
		if x.key == e.key {
			return
		}
	}
	s.events = append(s.events[:len(s.events):len(s.events)], e)
}

func (s *State) addMut(m Mut) {
	for _, x := range s.muts {
		if x.Obj == m.Obj && x.Path == m.Path && x.Val == m.Val {
			return
		}
	}
	s.muts = append(s.muts[:len(s.muts):len(s.muts)], m)
}

// ---- memory ----

// load reads a value of type t at a place.
func (s *State) load(obj, path string, t types.Type) *Val {
	if v, ok := s.heap[obj][path]; ok {
		return v
	}
	if st := expandable(t); st != nil {
		a := make([]*Val, st.NumFields())
		for i := range a {
			a[i] = s.load(obj, path+"."+st.Field(i).Name(), st.Field(i).Type())
		}
		return mk(Val{K: KStruct, T: t, A: a})
	}
	if s.isFresh(obj) {
		return zeroVal(t)
	}
	return s.initial(obj, path, t)
}

// initial names the value that a place had before the analysed function ran.
func (s *State) initial(obj, path string, t types.Type) *Val {
	// the base of a concrete shape found through a base is that base
	if path == ".BaseShape" {
		if j := strings.LastIndex(obj, "!"); j > 0 {
			if strings.HasSuffix(obj[:j], ".Shape") {
				return vSym(strings.TrimSuffix(obj[:j], ".Shape"), t)
			}
			return vSym(obj[:j]+".base", t)
		}
	}
	if path == "" {
		return vSym("*"+obj, t)
	}
	return vSym(obj+path, t)
}

// store writes a value of type t to a place.
func (s *State) store(obj, path string, v *Val, t types.Type) {
	if v.K == KStruct {
		if st := structOf(v.T); st != nil {
			for i, a := range v.A {
				s.store(obj, path+"."+st.Field(i).Name(), a, st.Field(i).Type())
			}
			return
		}
	}
	s.wobj(obj)[path] = v
}

// ---- loops' elements ----

func mentionsClass(key, class string) bool {
	// class marks are written [w], [o], [w+1], [w2], ...
	for i := 0; i+1 < len(key); i++ {
		if key[i] == '[' && key[i+1] == class[0] {
			j := i + 2
			for j < len(key) && (key[j] == '+' || key[j] == '-' || (key[j] >= '0' && key[j] <= '9')) {
				j++
			}
			if j < len(key) && key[j] == ']' {
				return true
			}
		}
	}
	return false
}

// relevant tells whether a fact about other elements of a collection relates them to the distinguished element
// of an enclosing loop that is being processed.
func (s *State) relevant(key, coll string) bool {
	for _, l := range s.loops {
		if l.elem != "" && l.coll != coll && l.elem != coll && strings.Contains(key, l.elem) && mentionsClass(key, "w") {
			return true
		}
	}
	return false
}

// settle keeps what was known about the element that was left behind if the iteration had an effect.
func (s *State) settle(effect bool) {
	if effect {
	next:
		for _, p := range s.pend {
			for _, j := range s.joints {
				if j.v == p.v {
					continue next
				}
			}
			s.joints = append(s.joints[:len(s.joints):len(s.joints)], p)
		}
		sort.Slice(s.joints, func(i, j int) bool { return s.joints[i].v.key < s.joints[j].v.key })
	}
	s.pend = nil
}

func (s *State) forgetOthers(colls []string) {
	for _, c := range colls {
		s.forgetOther(c)
	}
}

// forgetOther drops what is known about the non-distinguished elements of a collection,
// keeping as existential facts those that relate such an element to a distinguished one.
func (s *State) forgetOther(coll string) {
	s.forgetHits(coll, func(key string) bool {
		i := 0
		for {
			j := strings.Index(key[i:], coll)
			if j < 0 {
				return false
			}
			rest := key[i+j+len(coll):]
			rest = strings.TrimPrefix(rest, ".key")
			if strings.HasPrefix(rest, "[o") {
				return true
			}
			i += j + 1
		}
	})
}

// forgetMatching drops what is known about values whose name contains the text, which names other elements.
func (s *State) forgetMatching(text string) {
	if !strings.Contains(text, "[o") {
		return
	}
	s.forgetHits(text, func(key string) bool { return strings.Contains(key, text) })
}

func (s *State) forgetHits(coll string, hit func(string) bool) {
	f := s.wf()
	keep := func(v *Val, truth bool) {
		if truth && s.relevant(v.key, coll) {
			f.Ex[fact{v, truth}] = true
		}
	}
	var both []*Val
	for k, v := range f.B {
		if hit(k.key) {
			delete(f.B, k)
			keep(k, v)
			if v {
				both = append(both, k)
			} else if !k.isApp("nil") || strings.HasPrefix(k.A[0].key, "err:") {
				both = append(both, vApp("not", k))
			}
		}
	}
	if len(both) > 0 {
		s.pend = append(s.pend[:len(s.pend):len(s.pend)], joint{coll, vApp("some", sortVals(both)...)})
	}
	if len(s.joints) > 0 {
		var js []joint
		for _, j := range s.joints {
			if j.coll == coll || !hit(j.v.key) {
				js = append(js, j)
			}
		}
		s.joints = js
	}
	for k, m := range f.M {
		if hit(k.a.key) || hit(k.b.key) {
			delete(f.M, k)
			if m == mE {
				keep(vApp("==", k.a, k.b), true)
			}
		}
	}
	for k := range f.I {
		if hit(k.key) {
			delete(f.I, k)
		}
	}
	for k := range f.E {
		if hit(k.key) {
			delete(f.E, k)
		}
	}
	for k := range f.D {
		if hit(k.key) {
			delete(f.D, k)
		}
	}
	var ev []*Event
	for i, e := range s.events {
		if hit(e.key) {
			if ev == nil {
				ev = append([]*Event{}, s.events[:i]...)
			}
			continue
		}
		if ev != nil {
			ev = append(ev, e)
		}
	}
	if ev != nil {
		s.events = ev
	}
	var mu []Mut
	for i, e := range s.muts {
		if hit(e.Obj + e.Path) {
			if mu == nil {
				mu = append([]Mut{}, s.muts[:i]...)
			}
			continue
		}
		if mu != nil {
			mu = append(mu, e)
		}
	}
	if mu != nil {
		s.muts = mu
	}
	for o, m := range s.heap {
		if hit(o) {
			if m["$fresh"] == nil {
				delete(s.heap, o)
				delete(s.shared, o)
			}
			continue
		}
		if keys := m["$keys"]; keys != nil && m["$fresh"] == nil {
			var parts []*Val
			for _, e := range keys.A {
				if !hit(e.A[0].key) {
					parts = append(parts, e)
				}
			}
			if len(parts) < len(keys.A) {
				w := s.wobj(o)
				if len(parts) == 0 {
					delete(w, "$keys")
				} else {
					w["$keys"] = mk(Val{K: KSlice, A: parts})
				}
				m = w
			}
		}
		for p := range m {
			if (o == coll && strings.HasPrefix(p, "[o")) || hit(o+p) {
				w := s.wobj(o)
				delete(w, p)
			}
		}
	}
}

// ---- queries ----

func (s *State) interval(v *Val) ival {
	if n, ok := v.intConst(); ok {
		return ival{n, n}
	}
	if e, ok := s.f.E[v]; ok {
		if n, ok := e.intConst(); ok {
			return ival{n, n}
		}
	}
	r := ival{math.MinInt64, math.MaxInt64}
	if x, ok := s.f.I[v]; ok {
		r = x
	}
	if v.K == KApp && v.S == "lastindex" && r.lo < -1 {
		r.lo = -1
	}
	if v.K == KApp && (v.S == "len" || v.S == "runes" || v.S == "conv:uint64" || v.S == "cap") {
		if r.lo < 0 {
			r.lo = 0
		}
		if v.S == "len" && len(v.A) == 1 {
			c := v.A[0]
			if c.K == KSlice {
				if n := int64(len(c.A)); n > r.lo {
					r.lo = n
				}
			}
			if b, ok := s.f.B[vApp("nil", c)]; ok && b {
				return ival{0, 0}
			}
			if e, ok := s.f.E[c]; ok {
				if str, ok := e.strConst(); ok {
					return ival{int64(len(str)), int64(len(str))}
				}
			}
		}
	}
	if v.K == KSym && v.T != nil {
		if b, ok := v.T.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 && r.lo < 0 {
			r.lo = 0
		}
	}
	return r
}

// mask gives the possible orderings of a relative to b.
func (s *State) mask(a, b *Val) uint8 {
	if a == b {
		return mE
	}
	if a.K == KConst && b.K == KConst {
		return constOrder(a, b)
	}
	m := uint8(mL | mE | mG)
	x, y := s.interval(a), s.interval(b)
	if x.lo > y.hi {
		m &= mG
	}
	if x.hi < y.lo {
		m &= mL
	}
	if x.lo >= y.hi {
		m &= mG | mE
	}
	if x.hi <= y.lo {
		m &= mL | mE
	}
	k, rev := ordKey(a, b)
	if mm, ok := s.f.M[k]; ok {
		if rev {
			mm = revMask(mm)
		}
		m &= mm
	}
	ea, eb := a, b
	if e, ok := s.f.E[a]; ok {
		ea = e
	}
	if e, ok := s.f.E[b]; ok {
		eb = e
	}
	if ea.K == KConst && eb.K == KConst {
		m &= constOrder(ea, eb)
	}
	if bv, ok := s.f.B[eqAtom(a, b)]; ok {
		if bv {
			m &= mE
		} else {
			m &= mL | mG
		}
	}
	return m
}

func constOrder(a, b *Val) uint8 {
	if a == b {
		return mE
	}
	if x, ok := a.intConst(); ok {
		if y, ok := b.intConst(); ok {
			switch {
			case x < y:
				return mL
			case x > y:
				return mG
			}
			return mE
		}
	}
	if x, ok := a.strConst(); ok {
		if y, ok := b.strConst(); ok {
			if x < y {
				return mL
			}
			if x > y {
				return mG
			}
			return mE
		}
	}
	fa, oka := numConst(a)
	fb, okb := numConst(b)
	if oka && okb {
		switch {
		case fa < fb:
			return mL
		case fa > fb:
			return mG
		}
		return mE
	}
	return mL | mG
}

func numConst(a *Val) (float64, bool) {
	if a.K != KConst || len(a.S) < 2 || (a.S[0] != 'n' && a.S[0] != 'f') {
		return 0, false
	}
	f, err := strconv.ParseFloat(a.S[2:], 64)
	return f, err == nil
}

func ordKey(a, b *Val) (pairKey, bool) {
	if a.key > b.key {
		return pairKey{b, a}, true
	}
	return pairKey{a, b}, false
}

func revMask(m uint8) uint8 {
	r := m & mE
	if m&mL != 0 {
		r |= mG
	}
	if m&mG != 0 {
		r |= mL
	}
	return r
}

func eqAtom(a, b *Val) *Val {
	if a.key > b.key {
		a, b = b, a
	}
	return vApp("==", a, b)
}

// nilness: 1 nil, 0 not nil, -1 unknown.
func (s *State) nilness(v *Val) int {
	switch v.K {
	case KNil:
		return 1
	case KApp:
		if v.S == "elemaddr" {
			return 0
		}
	case KConst, KPtr, KIface, KFunc, KErr, KStruct, KTuple, KSlice, KIdx, KIter, KPair:
		return 0
	}
	if b, ok := s.f.B[vApp("nil", v)]; ok {
		if b {
			return 1
		}
		return 0
	}
	if v.O != nil {
		return s.nilness(v.O)
	}
	if v.K == KSym && v.T != nil && isErrorType(v.T) && strings.HasPrefix(v.S, "global:") {
		return 0 // a sentinel (C18 decides that it is never written)
	}
	if d, ok := s.f.D[v]; ok && d.exact != nil {
		return 0
	}
	if s.interval(vApp("len", v)).lo >= 1 {
		return 0
	}
	return -1
}

const (
	unknown = -1
	no      = 0
	yes     = 1
)

func b2i(b bool) int {
	if b {
		return yes
	}
	return no
}

// query evaluates a condition under what is known.
func (s *State) query(c *Val) int {
	switch c.K {
	case KConst:
		if b, ok := c.boolConst(); ok {
			return b2i(b)
		}
	case KApp:
		switch c.S {
		case "not":
			r := s.query(c.A[0])
			if r == unknown {
				return unknown
			}
			return 1 - r
		case "nil":
			return s.nilness(c.A[0])
		case "==":
			return s.queryEq(c.A[0], c.A[1])
		case "<", "<=", ">", ">=":
			a, b := c.A[0], c.A[1]
			if r, ok := s.cmp3(a, b); ok {
				a, b = r.a, r.b
			}
			m := s.mask(a, b)
			w := opMask(c.S)
			if m&^w == 0 {
				return yes
			}
			if m&w == 0 {
				return no
			}
			return unknown
		case "is":
			return s.queryIs(c.A[0], c.T)
		case "and":
			r := yes
			for _, a := range c.A {
				q := s.query(a)
				if q == no {
					return no
				}
				if q == unknown {
					r = unknown
				}
			}
			return r
		case "or":
			r := no
			for _, a := range c.A {
				q := s.query(a)
				if q == yes {
					return yes
				}
				if q == unknown {
					r = unknown
				}
			}
			return r
		}
	}
	if b, ok := s.f.B[c]; ok {
		return b2i(b)
	}
	if e, ok := s.f.E[c]; ok {
		if b, ok := e.boolConst(); ok {
			return b2i(b)
		}
	}
	return unknown
}

func opMask(op string) uint8 {
	switch op {
	case "<":
		return mL
	case "<=":
		return mL | mE
	case ">":
		return mG
	case ">=":
		return mG | mE
	case "==":
		return mE
	}
	return mL | mE | mG
}

// cmp3 turns a comparison of a three-way comparison result with zero into one of its operands.
func (s *State) cmp3(a, b *Val) (pairKey, bool) {
	if a.isApp("cmp3") {
		if n, ok := b.intConst(); ok && n == 0 {
			return pairKey{a.A[0], a.A[1]}, true
		}
	}
	if b.isApp("cmp3") {
		if n, ok := a.intConst(); ok && n == 0 {
			return pairKey{b.A[1], b.A[0]}, true
		}
	}
	return pairKey{}, false
}

func (s *State) queryEq(a, b *Val) int {
	if a == b {
		return yes
	}
	if a.K == KNil {
		return s.nilness(b)
	}
	if b.K == KNil {
		return s.nilness(a)
	}
	// the text of a number is not empty
	if a == vStr("") && neverEmpty(b) || b == vStr("") && neverEmpty(a) {
		return no
	}
	if c, ok := a.boolConst(); ok {
		r := s.query(b)
		if r == unknown {
			return r
		}
		return b2i((r == yes) == c)
	}
	if c, ok := b.boolConst(); ok {
		r := s.query(a)
		if r == unknown {
			return r
		}
		return b2i((r == yes) == c)
	}
	if k, ok := s.cmp3(a, b); ok {
		m := s.mask(k.a, k.b)
		if m == mE {
			return yes
		}
		if m&mE == 0 {
			return no
		}
		return unknown
	}
	if n, ok := b.intConst(); ok && a.isApp("cmp3") {
		m := s.mask(a.A[0], a.A[1])
		w := uint8(mE)
		if n < 0 {
			w = mL
		} else if n > 0 {
			w = mG
		}
		if m&^w == 0 {
			return yes
		}
		if m&w == 0 {
			return no
		}
		return unknown
	}
	if (s.nilness(a) == yes) != (s.nilness(b) == yes) && s.nilness(a) != unknown && s.nilness(b) != unknown {
		return no
	}
	if a.K == KPtr && b.K == KPtr {
		if a.S != b.S || a.S2 != b.S2 {
			if s.isFresh(a.S) || s.isFresh(b.S) || a.S == b.S {
				return no
			}
		}
	}
	if fa, fb := a.K == KPtr && s.isFresh(a.S), b.K == KPtr && s.isFresh(b.S); fa != fb {
		if fa && (b.K == KSym) || fb && (a.K == KSym) {
			return no
		}
	}
	if a.K == KIface && b.K == KIface {
		if !types.Identical(a.T, b.T) {
			return no
		}
		return s.queryEq(a.A[0], b.A[0])
	}
	// different elements of one map have different keys
	if a.K == KSym && b.K == KSym {
		i, j := strings.Index(a.S, ".key["), strings.Index(b.S, ".key[")
		if i > 0 && i == j && a.S[:i] == b.S[:j] && strings.IndexByte(a.S[i+5:], '.') < 0 && strings.IndexByte(b.S[j+5:], '.') < 0 {
			ca, cb := a.S[i+5], b.S[j+5]
			if ca == 'w' && cb == 'o' || ca == 'o' && cb == 'w' {
				return no
			}
		}
	}
	if bv, ok := s.f.B[eqAtom(a, b)]; ok {
		return b2i(bv)
	}
	if a.K == KFunc && b.K == KFunc && a.Fn != b.Fn {
		return no
	}
	m := s.mask(a, b)
	if m == mE {
		return yes
	}
	if m&mE == 0 {
		return no
	}
	return unknown
}

func (s *State) queryIs(v *Val, t types.Type) int {
	switch v.K {
	case KNil:
		return no
	case KIface:
		return b2i(implementsOrIs(v.T, t))
	case KErr:
		if types.IsInterface(t) {
			return unknownIs(s, v, t)
		}
		return unknownIs(s, v, t)
	}
	if s.nilness(v) == yes {
		return no
	}
	return unknownIs(s, v, t)
}

func unknownIs(s *State, v *Val, t types.Type) int {
	if d, ok := s.f.D[v]; ok {
		if d.exact != nil {
			return b2i(implementsOrIs(d.exact, t))
		}
		for _, n := range d.not {
			if types.Identical(n, t) {
				return no
			}
		}
	}
	if types.IsInterface(t) {
		if b, ok := s.f.B[isAtom(v, t)]; ok {
			return b2i(b)
		}
		if v.T != nil && types.IsInterface(v.T) && types.Implements(v.T, t.Underlying().(*types.Interface)) && s.nilness(v) == no {
			return yes
		}
	}
	return unknown
}

func implementsOrIs(dynT, t types.Type) bool {
	if i, ok := t.Underlying().(*types.Interface); ok {
		return types.Implements(dynT, i)
	}
	return types.Identical(dynT, t)
}

func isAtom(v *Val, t types.Type) *Val {
	return mk(Val{K: KApp, S: "is:" + typeShort(t), A: []*Val{v}})
}

func vIs(v *Val, t types.Type) *Val {
	// the type is part of the operation's identity
	x := mk(Val{K: KApp, S: "is", A: []*Val{v, vStr(typeShort(t))}, T: t})
	if x.T == nil {
		x.T = t
	}
	return x
}

// assume adds a condition; it returns false if that contradicts what is known.
func (s *State) assume(c *Val, truth bool) bool {
	if q := s.query(c); q != unknown {
		return (q == yes) == truth
	}
	switch {
	case c.isApp("not"):
		return s.assume(c.A[0], !truth)
	case c.isApp("and"):
		if truth {
			for _, a := range c.A {
				if !s.assume(a, true) {
					return false
				}
			}
			return true
		}
		var unk []*Val
		for _, a := range c.A {
			if s.query(a) == unknown {
				unk = append(unk, a)
			}
		}
		if len(unk) == 1 {
			return s.assume(unk[0], false)
		}
	case c.isApp("or"):
		if !truth {
			for _, a := range c.A {
				if !s.assume(a, false) {
					return false
				}
			}
			return true
		}
		var unk []*Val
		for _, a := range c.A {
			if s.query(a) == unknown {
				unk = append(unk, a)
			}
		}
		if len(unk) == 1 {
			return s.assume(unk[0], true)
		}
	case c.isApp("nil"):
		return s.assumeNil(c.A[0], truth)
	case c.isApp("=="):
		return s.assumeEq(c.A[0], c.A[1], truth)
	case c.isApp("<"), c.isApp("<="), c.isApp(">"), c.isApp(">="):
		w := opMask(c.S)
		if !truth {
			w = 7 &^ w
		}
		a, b := c.A[0], c.A[1]
		if k, ok := s.cmp3(a, b); ok {
			a, b = k.a, k.b
		}
		return s.assumeMask(a, b, w)
	case c.isApp("is"):
		return s.assumeIs(c.A[0], c.T, truth)
	}
	s.wf().B[c] = truth
	return true
}

func (s *State) assumeNil(v *Val, truth bool) bool {
	if q := s.nilness(v); q != unknown {
		return (q == yes) == truth
	}
	if v.O != nil {
		return s.assumeNil(v.O, truth)
	}
	s.wf().B[vApp("nil", v)] = truth
	return true
}

func (s *State) assumeIs(v *Val, t types.Type, truth bool) bool {
	if q := s.queryIs(v, t); q != unknown {
		return (q == yes) == truth
	}
	if types.IsInterface(t) {
		s.wf().B[isAtom(v, t)] = truth
		if truth {
			return s.assumeNil(v, false)
		}
		return true
	}
	f := s.wf()
	d := f.D[v]
	if truth {
		for k, b := range f.B {
			if strings.HasPrefix(k.S, "is:") && k.K == KApp && k.A[0] == v {
				_ = b
			}
		}
		f.D[v] = dyn{exact: t}
		return s.assumeNil(v, false) || true
	}
	d.not = append(d.not[:len(d.not):len(d.not)], t)
	f.D[v] = d
	return true
}

func (s *State) assumeEq(a, b *Val, truth bool) bool {
	if a.K == KNil {
		return s.assumeNil(b, truth)
	}
	if b.K == KNil {
		return s.assumeNil(a, truth)
	}
	if c, ok := a.boolConst(); ok {
		return s.assume(b, c == truth)
	}
	if c, ok := b.boolConst(); ok {
		return s.assume(a, c == truth)
	}
	if k, ok := s.cmp3(a, b); ok {
		w := uint8(mE)
		if !truth {
			w = mL | mG
		}
		return s.assumeMask(k.a, k.b, w)
	}
	if n, ok := b.intConst(); ok && a.isApp("cmp3") {
		w := uint8(mE)
		if n < 0 {
			w = mL
		} else if n > 0 {
			w = mG
		}
		if !truth {
			w = 7 &^ w
		}
		return s.assumeMask(a.A[0], a.A[1], w)
	}
	if a.K == KConst && b.K != KConst {
		a, b = b, a
	}
	if b.K == KConst {
		f := s.wf()
		if _, isInt := b.intConst(); isInt {
			w := uint8(mE)
			if !truth {
				w = mL | mG
			}
			return s.assumeMask(a, b, w)
		}
		if truth {
			if e, ok := f.E[a]; ok && e != b {
				return false
			}
			f.E[a] = b
			if str, ok := b.strConst(); ok {
				// consistency with what is known about the length
				iv := s.f.I[vApp("len", a)]
				if _, ok := s.f.I[vApp("len", a)]; ok && (int64(len(str)) < iv.lo || int64(len(str)) > iv.hi) {
					return false
				}
			}
			return true
		}
		f.B[eqAtom(a, b)] = false
		if str, ok := b.strConst(); ok && str == "" {
			return s.assumeMask(vApp("len", a), vInt(1), mG|mE)
		}
		return true
	}
	if a.K == KIface && b.K == KIface && types.Identical(a.T, b.T) {
		return s.assumeEq(a.A[0], b.A[0], truth)
	}
	s.wf().B[eqAtom(a, b)] = truth
	return true
}

func (s *State) assumeMask(a, b *Val, w uint8) bool {
	m := s.mask(a, b)
	if m&w == 0 {
		return false
	}
	if m&^w == 0 {
		return true
	}
	m &= w
	f := s.wf()
	if a.K == KConst && b.K != KConst {
		a, b = b, a
		m = revMask(m)
	}
	if n, ok := b.intConst(); ok {
		iv := s.interval(a)
		switch m {
		case mL:
			iv.hi = min64(iv.hi, n-1)
		case mL | mE:
			iv.hi = min64(iv.hi, n)
		case mG:
			iv.lo = max64(iv.lo, n+1)
		case mG | mE:
			iv.lo = max64(iv.lo, n)
		case mE:
			iv.lo, iv.hi = max64(iv.lo, n), min64(iv.hi, n)
		case mL | mG:
			if iv.lo == n {
				iv.lo++
			} else if iv.hi == n {
				iv.hi--
			} else {
				f.B[eqAtom(a, b)] = false
			}
		}
		if iv.lo > iv.hi {
			return false
		}
		if iv.lo == iv.hi {
			if v, ok := f.B[eqAtom(a, vInt(iv.lo))]; ok && !v {
				return false
			}
		}
		f.I[a] = iv
		if a.isApp("len") && iv.hi == 0 {
			if _, isStr := isStringTyped(a.A[0]); isStr {
				f.E[a.A[0]] = vStr("")
			}
		}
		return true
	}
	k, rev := ordKey(a, b)
	if rev {
		m = revMask(m)
	}
	f.M[k] = m
	return true
}

func isStringTyped(v *Val) (types.Type, bool) {
	if v.T == nil {
		return nil, false
	}
	return v.T, isString(v.T)
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}
func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// mine: the object was made in the frame with the name, or in one that it called.
func (s *State) mine(prefix, o string) bool {
	return strings.HasPrefix(o, prefix) && len(o) > len(prefix) && (o[len(prefix)] == ':' || o[len(prefix)] == '/') && s.isFresh(o)
}

// collect drops objects that were created in the activation and cannot be reached any more.
func (s *State) collect(prefix string, roots []*Val, given map[string]bool) {
	var mine []string
	for o := range s.heap {
		if !given[o] && s.mine(prefix, o) {
			mine = append(mine, o)
		}
	}
	if len(mine) == 0 {
		return
	}
	isMine := map[string]bool{}
	for _, o := range mine {
		isMine[o] = true
	}
	keep := map[string]bool{}
	seen := map[*Val]bool{}
	var work []string
	var visit func(v *Val)
	visit = func(v *Val) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if !strings.Contains(v.key, "new@") {
			return
		}
		if (v.K == KPtr || v.K == KIter) && isMine[v.S] && !keep[v.S] {
			keep[v.S] = true
			work = append(work, v.S)
		}
		for _, a := range v.A {
			visit(a)
		}
		for _, a := range v.M {
			visit(a)
		}
		visit(v.O)
	}
	for _, r := range roots {
		visit(r)
	}
	for o, m := range s.heap {
		if !isMine[o] {
			for _, v := range m {
				visit(v)
			}
		}
	}
	for _, e := range s.events {
		for _, a := range e.Args {
			visit(a)
		}
	}
	for _, m := range s.muts {
		visit(m.Val)
	}
	for k := range s.f.B {
		visit(k)
	}
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		for _, v := range s.heap[o] {
			visit(v)
		}
	}
	for _, o := range mine {
		if !keep[o] {
			delete(s.heap, o)
			delete(s.shared, o)
		}
	}
}

// forgetPart drops what is known about the other elements that the current part of a known list stands for.
func (s *State) forgetPart(list *Val, phase string) {
	ph := strings.TrimSuffix(strings.TrimPrefix(phase, "r"), ">")
	if !strings.HasPrefix(ph, "l") {
		return
	}
	k, sub := partOf(ph)
	if k >= len(list.A) {
		return
	}
	p := list.A[k]
	switch p.S {
	case "many":
		s.forgetMatching(p.A[0].key)
	case "spread":
		if strings.HasPrefix(className(sub), "o") {
			name := p.A[0].key
			if o, pp, ok := objOf(p.A[0]); ok {
				name = o + pp
			}
			s.forgetOther(name)
		}
	}
}

func neverEmpty(v *Val) bool {
	return v.K == KApp && (strings.HasPrefix(v.S, "strconv.Format") || v.S == "strconv.Itoa")
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- loops over collections ----

// idxCompare evaluates the comparison of an induction variable with a bound.
func (f *frame) idxCompare(it *item, i *ssa.BinOp, x, y *Val) (cont, bool) {
	op := i.Op
	if x.K != KIdx {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}
	if y.K == KIdx {
		if x.S == y.S && x.S2 == y.S2 {
			c := map[token.Token]bool{token.EQL: x.N == y.N, token.NEQ: x.N != y.N, token.LSS: x.N < y.N,
				token.LEQ: x.N <= y.N, token.GTR: x.N > y.N, token.GEQ: x.N >= y.N}[op]
			f.set(it, i, vBool(c))
			return contNext, true
		}
		return 0, false
	}
	// truth of the comparison while inside the collection
	var inside bool
	adj := int64(0)
	rev := strings.HasPrefix(x.S2, "r")
	if !rev {
		switch op {
		case token.LSS, token.NEQ:
			inside = true
		case token.GEQ, token.EQL:
			inside = false
		case token.LEQ: // i <= n-1
			inside, adj = true, 1
		case token.GTR:
			inside, adj = false, 1
		}
	} else {
		n, ok := y.intConst()
		if !ok {
			return 0, false
		}
		switch {
		case op == token.GEQ && n == 0, op == token.GTR && n == -1, op == token.NEQ && n == -1:
			inside = true
		case op == token.LSS && n == 0, op == token.LEQ && n == -1, op == token.EQL && n == -1:
			inside = false
		default:
			return 0, false
		}
	}
	next := strings.HasSuffix(x.S2, ">")
	if x.S2 == "s" {
		if n, ok := y.intConst(); ok {
			c := map[token.Token]bool{token.EQL: x.N == n, token.NEQ: x.N != n, token.LSS: x.N < n,
				token.LEQ: x.N <= n, token.GTR: x.N > n, token.GEQ: x.N >= n}[op]
			li := it.st.loops[x.S]
			if li.class != "const" {
				li = loopInfo{class: "const"}
			}
			li.n = x.N
			it.st.loops[x.S] = li
			f.set(it, i, vBool(c))
			return contNext, true
		}
		if y.K == KConst || x.N < 0 {
			return 0, false
		}
		bound := y
		if adj == 1 {
			if y.isApp("-") && y.A[1] == vInt(1) {
				bound = y.A[0]
			} else {
				return 0, false
			}
		}
		coll := vSym("range("+bound.key+")", nil)
		if bound.isApp("len") {
			coll = bound.A[0]
		} else if bound.K == KApp && bound.S == "-" && bound.A[0].isApp("len") {
			coll = vApp("subslice", bound.A[0].A[0], vInt(0), bound)
		}
		f.bindLoop(it, i, x, coll, bound, inside, f.stepOfLoop(x.S))
		return contStop, true
	}
	if x.S2 == "rs" {
		coll := x.A[0]
		f.bindLoop(it, i, x, coll, f.in.lenOf(it.st, coll), inside, -1)
		return contStop, true
	}
	if next && x.N == 0 {
		f.bindLoop(it, i, x, x.A[0], nil, inside, 1)
		return contStop, true
	}
	if !next && x.N <= 0 && !rev && (op == token.LSS || op == token.GEQ || op == token.NEQ || op == token.EQL) {
		if y.isApp("len") && y.A[0] == x.A[0] {
			f.set(it, i, vBool(inside))
			return contNext, true
		}
	}
	if n, ok := y.intConst(); ok {
		// comparison of a position with a constant: the first element or not
		c := vApp("first", vStr(x.S2), x.A[0])
		switch {
		case op == token.GTR && n == 0, op == token.NEQ && n == 0, op == token.GEQ && n == 1:
			f.set(it, i, vApp("not", c))
			return contNext, true
		case op == token.EQL && n == 0, op == token.LSS && n == 1, op == token.LEQ && n == 0:
			f.set(it, i, c)
			return contNext, true
		}
	}
	return 0, false
}

func (f *frame) stepOfLoop(pid string) int64 {
	for phi, s := range f.fi.induc {
		if strings.HasSuffix(pid, "."+phi.Name()) {
			return s
		}
	}
	return 1
}

// bindLoop decides on which element of the collection the loop goes on, or that it ends.
func (f *frame) bindLoop(it *item, i *ssa.BinOp, x, coll, bound *Val, inside bool, step int64) {
	pid := x.S
	shift := int64(0)
	if x.S2 == "s" {
		shift = x.N
		if shift > 0 {
			coll = vApp("subslice", coll, vInt(shift), vNil)
		}
	}
	emit := func(st *State, exit bool, phase string) {
		n := it.clone()
		n.st = st
		if exit {
			delete(n.st.loops, pid)
		} else {
			li := n.st.loops[pid]
			if x.S2 == "s" || x.S2 == "rs" {
				init := int64(0)
				if x.S2 == "s" {
					init = f.initOf(it, pid) - shift
				}
				li = loopInfo{n: init}
			}
			li.class = className(phase)
			li.coll = coll.key
			li.elem = elemText(coll, phase)
			n.st.loops[pid] = li
			// enclosing loops iterate this collection inside
			for id, o := range n.st.loops {
				if id != pid && o.class != "" && o.class != "const" && !containsStr(o.inner, coll.key) {
					o.inner = append(o.inner[:len(o.inner):len(o.inner)], coll.key)
					n.st.loops[id] = o
				}
			}
		}
		for r, v := range n.regs {
			if v == nil || !strings.Contains(v.key, pid) {
				continue
			}
			n.regs[r] = v.rewrite(func(v *Val) *Val {
				if v.K != KIdx || v.S != pid {
					return v
				}
				if exit {
					if x.S2 == "s" {
						return vInt(v.N)
					}
					return vAppT(nil, "end", v.A[0], vInt(v.N))
				}
				return mk(Val{K: KIdx, S: pid, S2: phase, N: v.N - shift, A: []*Val{coll}})
			})
		}
		f.set(n, i, vBool(inside != exit))
		n.idx++
		f.push(n)
	}
	ph := x.S2
	if ph == "s" || ph == "rs" {
		ph = "s"
	}
	pre := ""
	if x.S2 == "rs" || strings.HasPrefix(x.S2, "r") {
		pre = "r"
		ph = strings.TrimPrefix(ph, "r")
	}
	f.in.phases(it.st, coll, strings.TrimSuffix(ph, ">"), pid, bound, shift, func(st *State, exit bool, phase string) {
		if phase != "" {
			phase = pre + phase
		}
		emit(st, exit, phase)
	})
}

func containsStr(a []string, s string) bool {
	for _, x := range a {
		if x == s {
			return true
		}
	}
	return false
}

// initOf is the start value of the induction variable.
func (f *frame) initOf(it *item, pid string) int64 {
	for phi := range f.fi.induc {
		if strings.HasSuffix(pid, "."+phi.Name()) {
			if v := it.regs[f.fi.index[phi]]; v != nil && v.K == KIdx {
				return v.N
			}
		}
	}
	return 0
}

// phases enumerates the next positions of an iteration: over an unknown collection, one distinguished element
// and the others before and after it; over a known list, its parts in order.
func (in *Interp) phases(st *State, coll *Val, cur, id string, bound *Val, shift int64, emit func(*State, bool, string)) {
	if coll.K == KSlice {
		in.listPhases(st, coll, cur, emit)
		return
	}
	root := coll
	for root.isApp("subslice") {
		root = root.A[0]
	}
	name := root.key
	if o, p, ok := objOf(root); ok {
		name = o + p
	}
	suf := ""
	for lid, l := range st.loops {
		if lid != id && l.coll == coll.key && (strings.HasSuffix(l.class, "w") || strings.HasSuffix(l.class, "o")) {
			suf = "2"
		}
	}
	w, b, a := "w:w"+suf, "b:o"+suf, "a:o"+suf
	goOther := func(ph string) {
		n := st.clone()
		n.forgetOther(name)
		emit(n, false, ph)
	}
	switch cur {
	case "s":
		var lenv *Val
		if bound != nil {
			lenv = bound
		} else {
			lenv = in.lenOf(st, coll)
		}
		cond := vApp("<", vInt(shift), lenv)
		if shift > 0 || bound != nil {
			cond = vApp("<", vInt(shift), lenv)
		}
		e := st.clone()
		if e.assume(cond, false) {
			emit(e, true, "")
		}
		n := st.clone()
		if n.assume(cond, true) {
			// an earlier iteration may have ended at an element about which something is known
			n.pend = nil
			n.forgetOther(name)
			n.settle(true)
			st = n
			emit(n.clone(), false, w)
			goOther(b)
		}
	case "b:o", "b:o2":
		n := st.clone()
		n.forgetOther(name)
		emit(n, false, w)
		goOther(b)
	default: // w, a
		n := st.clone()
		if cur[0] == 'a' {
			n.forgetOther(name)
		}
		emit(n, true, "")
		goOther(a)
	}
}

// listPhases iterates a list whose parts are known.
func (in *Interp) listPhases(st *State, coll *Val, cur string, emit func(*State, bool, string)) {
	var enter func(st *State, k int)
	enter = func(st *State, k int) {
		if k >= len(coll.A) {
			emit(st.clone(), true, "")
			return
		}
		p := coll.A[k]
		switch p.S {
		case "one":
			emit(st.clone(), false, fmt.Sprintf("l%d", k))
		case "many":
			n := st.clone()
			n.forgetMatching(p.A[0].key)
			emit(n, false, fmt.Sprintf("l%d", k))
		case "spread":
			c := p.A[0]
			name := c.key
			if o, pp, ok := objOf(c); ok {
				name = o + pp
			}
			cond := vApp("<", vInt(0), in.lenOf(st, c))
			e := st.clone()
			if e.assume(cond, false) {
				enter(e, k+1)
			}
			n := st.clone()
			if n.assume(cond, true) {
				emit(n.clone(), false, fmt.Sprintf("l%dw:w", k))
				n.forgetOther(name)
				emit(n, false, fmt.Sprintf("l%db:o", k))
			}
		}
	}
	if cur == "s" {
		enter(st, 0)
		return
	}
	k := 0
	j := 1
	for j < len(cur) && cur[j] >= '0' && cur[j] <= '9' {
		k = k*10 + int(cur[j]-'0')
		j++
	}
	sub := cur[j:]
	p := coll.A[k]
	switch {
	case p.S == "one":
		enter(st, k+1)
	case p.S == "many":
		n := st.clone()
		n.forgetMatching(p.A[0].key)
		enter(n, k+1)
		emit(n.clone(), false, cur)
	default:
		c := p.A[0]
		name := c.key
		if o, pp, ok := objOf(c); ok {
			name = o + pp
		}
		n := st.clone()
		n.forgetOther(name)
		switch sub[0] {
		case 'b':
			emit(n.clone(), false, fmt.Sprintf("l%dw:w", k))
			emit(n, false, fmt.Sprintf("l%db:o", k))
		default:
			enter(n.clone(), k+1)
			emit(n, false, fmt.Sprintf("l%da:o", k))
		}
	}
}

// listElem gives the element of a known list at a position.
func (in *Interp) listElem(list, n *Val) (*Val, bool) {
	if c, ok := n.intConst(); ok {
		if c < 0 || int(c) >= len(list.A) {
			return nil, false
		}
		for _, p := range list.A[:c+1] {
			if p.S != "one" {
				return nil, false
			}
		}
		return list.A[c].A[0], true
	}
	if n.K == KIdx && n.S2 == "s" {
		return in.listElem(list, vInt(n.N))
	}
	if n.K != KIdx || n.N != 0 {
		return nil, false
	}
	cls := strings.TrimSuffix(strings.TrimPrefix(n.S2, "r"), ">")
	if !strings.HasPrefix(cls, "l") {
		return nil, false
	}
	k, sub := partOf(cls)
	if k >= len(list.A) {
		return nil, false
	}
	p := list.A[k]
	if p.S == "spread" {
		t := elemType(p.A[0].T)
		o, pp, ok := objOf(p.A[0])
		if !ok {
			return nil, false
		}
		return vSym(o+pp+"["+className(sub)+"]", t), true
	}
	return p.A[0], true
}

func partOf(cls string) (int, string) {
	k, j := 0, 1
	for j < len(cls) && cls[j] >= '0' && cls[j] <= '9' {
		k = k*10 + int(cls[j]-'0')
		j++
	}
	return k, cls[j:]
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	}
	return nil
}

// partKind tells whether a value added now stands for one element or for many.
func (in *Interp) partKind(st *State) string {
	for _, l := range st.loops {
		c := l.class
		if c == "" || c == "const" {
			continue
		}
		if strings.HasPrefix(c, "o") {
			return "many"
		}
		if strings.HasPrefix(c, "l") {
			if strings.HasSuffix(c, "o") {
				return "many"
			}
			continue
		}
	}
	return "one"
}

// addPart adds a part to a list; repeated parts added while other elements are processed form a set.
func addPart(parts []*Val, p *Val) []*Val {
	if p.S == "many" {
		for j := len(parts) - 1; j >= 0 && parts[j].S == "many"; j-- {
			if parts[j] == p {
				return parts
			}
		}
		out := append(parts[:len(parts):len(parts)], p)
		j := len(out) - 1
		for j > 0 && out[j-1].S == "many" && out[j-1].key > out[j].key {
			out[j-1], out[j] = out[j], out[j-1]
			j--
		}
		return out
	}
	return append(parts[:len(parts):len(parts)], p)
}

// next advances a map iterator.
func (f *frame) next(it *item, i *ssa.Next) cont {
	iter := f.val(it, i.Iter)
	tt := i.Type().(*types.Tuple)
	if i.IsString || iter.K != KIter {
		// the characters of a string
		n := it.clone()
		f.set(n, i, vTuple(vFalse, vInt(0), vInt(0)))
		n.idx++
		f.push(n)
		f.set(it, i, vTuple(vTrue, vSym("~i", tt.At(1).Type()), vSym("~r", tt.At(2).Type())))
		return contNext
	}
	m := iter.A[0]
	name := m.key
	if o, p, ok := objOf(m); ok {
		name = o + p
	}
	cur, _ := it.st.heap[iter.S]["phase"].strConst()
	coll := m
	fresh := m.K == KPtr && it.st.isFresh(m.S)
	if fresh {
		coll = it.st.heap[m.S]["$keys"]
		if coll == nil {
			coll = mk(Val{K: KSlice})
		}
	}
	id := f.loopID(it.block)
	li0 := it.st.loops[id]
	if cur != "s" {
		it.st.forgetOthers(li0.inner)
	}
	f.in.phases(it.st, coll, cur, id, nil, 0, func(st *State, exit bool, phase string) {
		n := it.clone()
		n.st = st
		if exit {
			delete(n.st.loops, id)
			f.set(n, i, vTuple(vFalse, zeroVal(tt.At(1).Type()), zeroVal(tt.At(2).Type())))
		} else {
			n.st.wobj(iter.S)["phase"] = vStr(phase)
			n.st.loops[id] = loopInfo{class: className(phase), coll: m.key, elem: elemText(coll, phase)}
			var k, v *Val
			mt, _ := typeUnder(i.Iter.(*ssa.Range).X.Type()).(*types.Map)
			if fresh {
				kk, ok := f.in.listElem(coll, mk(Val{K: KIdx, S: id, S2: phase, A: []*Val{coll}}))
				if !ok {
					kk = vSym("~key", mt.Key())
				}
				k = kk
				v = f.in.loadPlace(n.st, m.S, "{"+k.key+"}", mt.Elem())
			} else {
				cl := "[" + className(phase) + "]"
				k = vSym(name+".key"+cl, mt.Key())
				v = f.in.loadPlace(n.st, name, cl, mt.Elem())
			}
			f.set(n, i, vTuple(vTrue, k, v))
		}
		n.idx++
		f.push(n)
	})
	return contStop
}

// ---- maps ----

type mapAlt struct {
	st  *State
	val *Val
	ok  bool
}

// mapGet looks a key up.
func (in *Interp) mapGet(st *State, m, k *Val, t types.Type) []mapAlt {
	if st.nilness(m) == yes {
		return []mapAlt{{st, zeroVal(t), false}}
	}
	obj, path, ok := objOf(m)
	if !ok {
		obj = m.key
	}
	name := obj + path
	var out []mapAlt
	keys := st.heap[name]["$keys"]
	if keys != nil {
		for j := len(keys.A) - 1; j >= 0; j-- {
			e := keys.A[j].A[0]
			q := st.queryEq(e, k)
			if q == no {
				continue
			}
			del := false
			if v := st.heap[name]["{"+e.key+"}"]; v != nil && v.key == "$deleted" {
				del = true
			}
			v := in.loadPlace(st, name, "{"+e.key+"}", t)
			if q == yes {
				return append(out, mapAlt{st, v, !del})
			}
			n := st.clone()
			if n.assume(eqAtom(e, k), true) {
				out = append(out, mapAlt{n, v, !del})
			}
			st = st.clone()
			if !st.assume(eqAtom(e, k), false) {
				return out
			}
		}
	}
	if st.isFresh(name) {
		return append(out, mapAlt{st, zeroVal(t), false})
	}
	// a key taken from the map itself
	if k.K == KSym && strings.HasPrefix(k.S, name+".key[") {
		return append(out, mapAlt{st, in.loadPlace(st, name, k.S[len(name)+4:], t), true})
	}
	atom := vApp("in", vSym(name, nil), k)
	q := st.query(atom)
	if q != no {
		n := st.clone()
		if n.assume(atom, true) {
			n.assume(vApp("<", vInt(0), vApp("len", m)), true)
			out = append(out, mapAlt{n, in.loadPlace(n, name, "{"+k.key+"}", t), true})
		}
	}
	if q != yes {
		n := st.clone()
		if n.assume(atom, false) {
			out = append(out, mapAlt{n, zeroVal(t), false})
		}
	}
	return out
}

// mapSet stores a value under a key.
func (in *Interp) mapSet(st *State, m, k, v *Val, fn string) {
	obj, path, ok := objOf(m)
	if !ok {
		obj = m.key
	}
	name := obj + path
	if !st.isFresh(name) {
		st.addMut(Mut{Obj: name, Path: "{" + k.key + "}", Val: v, Fn: fn})
	}
	w := st.wobj(name)
	keys := w["$keys"]
	var parts []*Val
	if keys != nil {
		parts = keys.A
	}
	known := false
	for _, p := range parts {
		if p.A[0] == k {
			known = true
		}
	}
	if !known {
		parts = addPart(parts, vPart(in.partKind(st), k))
	}
	w["$keys"] = mk(Val{K: KSlice, A: parts})
	st.store(name, "{"+k.key+"}", v, v.T)
}

func (f *frame) lookup(it *item, i *ssa.Lookup) cont {
	m, k := f.val(it, i.X), f.val(it, i.Index)
	mt, ok := typeUnder(i.X.Type()).(*types.Map)
	if !ok { // a byte of a string
		if s, isC := m.strConst(); isC {
			if n, isC := k.intConst(); isC {
				if n < 0 || n >= int64(len(s)) {
					f.panicOut(it, fmt.Sprintf("index %d out of range of a text of %d", n, len(s)), i)
					return contStop
				}
				f.set(it, i, vInt(int64(s[n])))
				return contNext
			}
		}
		if f.in.strictNil != nil {
			n := k
			if n.K != KIdx {
				lenv := f.in.lenOf(it.st, m)
				for _, c := range []*Val{vApp("<", n, lenv), vApp("<=", vInt(0), n)} {
					q := f.in.boundQuery(it.st, c)
					if q == no {
						f.panicOut(it, "string index out of range: "+c.key, i)
						return contStop
					}
					if q == unknown {
						f.split(it, c)
						return contStop
					}
				}
			}
		}
		f.set(it, i, vAppT(i.Type(), "byte", m, k))
		return contNext
	}
	for _, a := range f.in.mapGet(it.st, m, k, mt.Elem()) {
		n := it.clone()
		n.st = a.st
		v := a.val
		if !a.ok {
			v = zeroVal(mt.Elem())
		}
		if i.CommaOk {
			f.set(n, i, vTuple(v, vBool(a.ok)))
		} else {
			f.set(n, i, v)
		}
		n.idx++
		f.push(n)
	}
	return contStop
}

// boundQuery evaluates an index condition, knowing that lengths are not negative.
func (in *Interp) boundQuery(st *State, c *Val) int {
	if q := st.query(c); q != unknown {
		return q
	}
	a, b := c.A[0], c.A[1]
	// n - k <= n, n - k < n
	if a.isApp("-") && a.A[0] == b {
		if k, ok := a.A[1].intConst(); ok && (k > 0 || k == 0 && c.S == "<=") {
			return yes
		}
	}
	// lo <= n - k  <=>  lo + k <= n
	if b.isApp("-") {
		if k, ok := b.A[1].intConst(); ok {
			if lo, ok := a.intConst(); ok {
				return st.query(vApp(c.S, vInt(lo+k), b.A[0]))
			}
		}
	}
	if a.isApp("+") && c.S == "<=" {
		if k, ok := a.A[1].intConst(); ok && k == 1 {
			// i + 1 <= n  <=>  i < n
			return in.boundQuery(st, vApp("<", a.A[0], b))
		}
	}
	if b.isApp("+") && c.S == "<=" {
		if k, ok := b.A[1].intConst(); ok {
			if lo, ok := a.intConst(); ok {
				return in.boundQuery(st, vApp("<=", vInt(lo-k), b.A[0]))
			}
		}
	}
	if a.isApp("lastindex") && b.isApp("len") && a.A[0] == b.A[0] {
		return yes
	}
	return unknown
}

// ---- calls ----

func (f *frame) call(it *item, i *ssa.Call, cc *ssa.CallCommon) cont {
	args := make([]*Val, len(cc.Args))
	for k, a := range cc.Args {
		args[k] = f.val(it, a)
	}
	var fnv, iface *Val
	if cc.IsInvoke() {
		iface = f.val(it, cc.Value)
	} else {
		fnv = f.val(it, cc.Value)
	}
	// the receiver of an unknown implementation
	if cc.IsInvoke() {
		switch it.st.nilness(iface) {
		case yes:
			f.panicOut(it, "method call on a nil interface "+iface.key, i)
			return contStop
		case unknown:
			if f.in.strictNil != nil && f.in.strictNil(iface) {
				f.split(it, vApp("nil", iface))
				return contStop
			}
			it.st.assumeNil(iface, false)
		}
	}
	outs := f.callCommon(it, i, cc, fnv, iface, args)
	for k, o := range outs {
		n := it
		if k < len(outs)-1 {
			n = it.clone()
		}
		n.st = o.st
		if o.pan != "" {
			f.panicOut(n, o.pan, i)
			continue
		}
		f.set(n, i, packRet(o.ret))
		// errors that are extended in place
		if len(o.ret) == 1 && o.ret[0].K == KErr && cc.StaticCallee() != nil && cc.StaticCallee().Name() == "Append" {
			old := args[0]
			for r, v := range n.regs {
				if v == old && old.K == KErr {
					n.regs[r] = o.ret[0]
				}
			}
		}
		n.idx++
		f.push(n)
	}
	return contStop
}

func packRet(r []*Val) *Val {
	switch len(r) {
	case 0:
		return vTuple()
	case 1:
		return r[0]
	}
	return vTuple(r...)
}

func (f *frame) callCommon(it *item, instr ssa.CallInstruction, cc *ssa.CallCommon, fnv, iface *Val, args []*Val) []callOut {
	in := f.in
	st := it.st
	c := &Call{Site: instr, Args: args, Sig: cc.Signature(), Depth: f.depth, Fn: f.fn}
	var bindings []*Val
	if cc.IsInvoke() {
		c.Method = cc.Method
		c.Args = append([]*Val{iface}, args...)
		c.Name = ifaceName(cc.Value.Type()) + "." + cc.Method.Name()
		if iface.K == KErr && cc.Method.Name() == "Error" {
			return []callOut{{st: st, ret: []*Val{vAppT(types.Typ[types.String], "errtext", iface)}}}
		}
		var dynT types.Type
		var recv *Val
		if iface.K == KIface {
			dynT, recv = iface.T, iface.A[0]
		} else if d, ok := st.f.D[iface]; ok && d.exact != nil {
			dynT, recv = d.exact, in.view(iface, d.exact)
		}
		if dynT != nil {
			if fn := in.p.Method(dynT, cc.Method.Name()); fn != nil {
				c.Callee = fn
				c.Args = append([]*Val{recv}, args...)
			} else if sel := in.p.Prog.MethodSets.MethodSet(dynT).Lookup(cc.Method.Pkg(), cc.Method.Name()); sel != nil {
				c.Callee = in.p.Prog.MethodValue(sel)
				c.Args = append([]*Val{recv}, args...)
			}
		}
	} else {
		switch {
		case fnv.K == KFunc:
			c.Callee = fnv.Fn
			bindings = fnv.A
		case strings.HasPrefix(fnv.key, "builtin:"):
			return f.builtin(it, fnv.key[8:], instr, args)
		case st.nilness(fnv) == yes:
			return []callOut{{st: st, pan: "call of a nil function"}}
		default:
			c.Name = "dyn:" + fnv.key
		}
	}
	if c.Callee != nil && c.Method == nil {
		c.Name = FuncName(c.Callee)
	}
	if c.Callee != nil && c.Method != nil {
		c.Name = FuncName(c.Callee)
	}
	if in.model != nil {
		if o, ok := in.model(in, st, c); ok {
			return o
		}
	}
	if c.Callee == nil {
		if cc.IsInvoke() {
			if cc.Method.Name() == "Base" && len(args) == 0 {
				return []callOut{{st: st, ret: []*Val{baseOf(iface, c.Sig.Results().At(0).Type())}}}
			}
			if pureInvokes[cc.Method.Name()] && c.Sig.Results().Len() == 1 && len(args) == 0 {
				return []callOut{{st: st, ret: []*Val{vAppT(c.Sig.Results().At(0).Type(), c.Name, iface)}}}
			}
		}
		return []callOut{in.event(st, c)}
	}
	if in.boundary != nil && in.boundary(c) && !(in.fixIdentity && c.Callee.Name() == "FixYamlError") {
		return []callOut{in.event(st, c)}
	}
	if o, ok := in.builtinModel(st, c, f); ok {
		return o
	}
	if !in.p.InModule(c.Callee) || len(c.Callee.Blocks) == 0 {
		if c.Callee.Synthetic != "" && len(c.Callee.Blocks) > 0 {
			// wrappers and bound methods
		} else {
			return in.external(st, c)
		}
	}
	// recursion and depth are events
	if in.recurse && f.depth >= in.maxDepth {
		in.giveUp("calls of %s do not end: more than %d are nested", shortFn(c.Callee), in.maxDepth)
		return nil
	}
	if f.depth >= in.maxDepth || !in.recurse && (strings.Contains("/"+f.id+"/", "/"+shortFn(c.Callee)+"@") || strings.HasPrefix(f.id+"/", shortFn(c.Callee)+"/") || f.id == shortFn(c.Callee)) {
		c.Name = "rec:" + c.Name
		return []callOut{in.event(st, c)}
	}
	id := f.id + "/" + shortFn(c.Callee) + "@" + strconv.Itoa(it.block.Index) + "." + strconv.Itoa(it.idx)
	outs := in.run(c.Callee, c.Args, bindings, st.clone(), id, f.depth+1)
	res := make([]callOut, len(outs))
	for k, o := range outs {
		res[k] = callOut{st: o.St, ret: o.Ret, pan: o.Panic}
		if o.Panic != "" && !strings.Contains(o.Panic, " at ") {
			res[k].pan = o.Panic + " at " + o.Where
		}
	}
	return res
}

func ifaceName(t types.Type) string {
	return typeShort(t)
}

// event records a call that is not looked into; its results are unknown.
func (in *Interp) event(st *State, c *Call) callOut {
	n := st.clone()
	site := fmt.Sprint(c.Site.Pos())
	// results that are passed on from one iteration to the next are not told apart
	for i, a := range c.Args {
		if a != nil && strings.Count(a.key, c.Name+"(") >= 2 {
			ch := "chain:" + c.Name
			n.forgetHits(ch, func(key string) bool { return strings.Contains(key, ch) })
			for o := range n.heap {
				if strings.Contains(o, ch) {
					delete(n.heap, o)
					delete(n.shared, o)
				}
			}
			args := append([]*Val(nil), c.Args...)
			args[i] = vSym(ch, a.T)
			cc := *c
			cc.Args = args
			c = &cc
		}
	}
	base := c.Name + "(" + argKeys(c.Args) + ")"
	// the same call at another place gives other results
	prime := ""
	for _, e := range n.events {
		if e.Name == c.Name && argKeys(e.Args) == argKeys(c.Args) && e.Site != site {
			prime += "'"
		} else if e.Name == c.Name && e.Site == site && argKeys(e.Args) == argKeys(c.Args) {
			prime = e.key[strings.LastIndexByte(e.key, ')')+1:]
			break
		}
	}
	base += prime
	var res []*Val
	for k := 0; k < c.Sig.Results().Len(); k++ {
		t := c.Sig.Results().At(k).Type()
		switch {
		case isErrorType(t), isStacktracePtr(t):
			res = append(res, vSym("err:"+base, t))
		default:
			res = append(res, vSym("res"+strconv.Itoa(k)+":"+base, t))
		}
	}
	n.addEvent(&Event{Name: c.Name, Args: c.Args, Res: res, Site: site, key: base})
	return callOut{st: n, ret: res}
}

func argKeys(a []*Val) string {
	var b strings.Builder
	writeArgs(&b, a)
	return b.String()
}

func (f *frame) builtin(it *item, name string, instr ssa.CallInstruction, args []*Val) []callOut {
	in, st := f.in, it.st
	ret := func(v ...*Val) []callOut { return []callOut{{st: st, ret: v}} }
	switch name {
	case "len", "cap":
		if name == "cap" {
			return ret(vApp("cap", args[0]))
		}
		return ret(in.lenOf(st, args[0]))
	case "append":
		return ret(in.appendTo(st, args[0], args[1], instr.Value().Type()))
	case "copy":
		dst, src := args[0], args[1]
		if o, p, ok := objOf(dst); ok && p == "" {
			if !st.isFresh(o) {
				st.addMut(Mut{Obj: o, Path: "[...]", Val: src, Fn: FuncName(f.fn)})
			}
			st.wobj(o)["$base"] = src
		}
		return ret(in.lenOf(st, src))
	case "delete":
		m, k := args[0], args[1]
		o, p, ok := objOf(m)
		if ok {
			o += p
			if st.isFresh(o) {
				if keys := st.heap[o]["$keys"]; keys != nil {
					var parts []*Val
					for _, e := range keys.A {
						if e.A[0] != k {
							parts = append(parts, e)
						}
					}
					w := st.wobj(o)
					w["$keys"] = mk(Val{K: KSlice, A: parts})
					delete(w, "{"+k.key+"}")
				}
			} else {
				in.mapSet(st, m, k, vSym("$deleted", nil), FuncName(f.fn))
			}
		}
		return ret()
	case "ssa:wrapnilchk":
		return ret(args[0])
	case "print", "println":
		return ret()
	case "recover":
		return ret(vNil)
	case "min", "max":
		return ret(vApp(name, args...))
	case "clear":
		if o, p, ok := objOf(args[0]); ok {
			if !st.isFresh(o + p) {
				st.addMut(Mut{Obj: o + p, Path: "{...}", Val: vNil, Fn: FuncName(f.fn)})
			} else {
				st.markFresh(o + p)
			}
		}
		return ret()
	case "close":
		return ret()
	}
	in.giveUp("builtin %s", name)
	return ret(vSym("builtin:"+name, nil))
}

// appendTo gives the list x followed by the parts of y.
func (in *Interp) appendTo(st *State, x, y *Val, t types.Type) *Val {
	var parts []*Val
	var store []*Val
	switch {
	case x.K == KSlice:
		parts = x.A
		store = x.M
	case st.nilness(x) == yes:
	default:
		parts = []*Val{vPart("spread", x)}
	}
	kind := in.partKind(st)
	switch {
	case y.K == KSlice:
		for _, p := range y.A {
			k := p.S
			if k == "one" {
				k = kind
			}
			if k == "spread" && kind == "many" {
				dup := false
				for _, q := range parts {
					if q == p {
						dup = true
					}
				}
				if dup {
					continue
				}
			}
			parts = addPart(parts, vPart(k, p.A[0]))
		}
	case st.nilness(y) == yes:
		if x.K == KNil {
			return x
		}
		return x
	default:
		p := vPart("spread", y)
		for _, q := range parts {
			if q == p && kind == "many" {
				p = nil
				break
			}
		}
		if p != nil {
			parts = append(parts[:len(parts):len(parts)], p)
		}
	}
	if len(parts) == 0 && x.K == KNil {
		return x
	}
	r := Val{K: KSlice, T: t, A: parts, M: store}
	root := x
	for root.isApp("subslice") {
		root = root.A[0]
	}
	owned := root.K == KSlice && root.S == "" && len(root.M) == 0
	if x.K != KSlice && !owned && st.nilness(x) != yes && len(parts) > 0 {
		// appending to an existing slice may write to its spare storage
		r.S = "shared"
	}
	return mk(r)
}

// baseOf is the base of an unknown shape: the concrete shape of a base points back to it.
func baseOf(x *Val, t types.Type) *Val {
	if x.K == KSym && strings.HasSuffix(x.S, ".Shape") {
		return vSym(strings.TrimSuffix(x.S, ".Shape"), t)
	}
	return vSym(x.key+".base", t)
}

// elemText is a text that occurs in the names of the current distinguished element, empty for the others.
func elemText(coll *Val, phase string) string {
	cls := className(phase)
	if coll.K == KSlice {
		ph := strings.TrimSuffix(strings.TrimPrefix(phase, "r"), ">")
		if !strings.HasPrefix(ph, "l") {
			return ""
		}
		k, sub := partOf(ph)
		if k >= len(coll.A) {
			return ""
		}
		p := coll.A[k]
		switch p.S {
		case "one":
			return p.A[0].key
		case "spread":
			if strings.HasPrefix(className(sub), "w") {
				return p.A[0].key
			}
		}
		return ""
	}
	if strings.HasPrefix(cls, "w") {
		name := coll.key
		if o, p, ok := objOf(coll); ok {
			name = o + p
		}
		return name
	}
	return ""
}

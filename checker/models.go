package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// extName names a function of another package without its import path and type arguments.
func extName(fn *ssa.Function) string {
	o := fn
	if x := fn.Origin(); x != nil {
		o = x
	}
	pkg := ""
	if o.Pkg != nil {
		pkg = o.Pkg.Pkg.Name()
	} else if o.Object() != nil && o.Object().Pkg() != nil {
		pkg = o.Object().Pkg().Name()
	}
	if r := o.Signature.Recv(); r != nil {
		t := r.Type()
		if e := deref(t); e != nil {
			t = e
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return pkg + "." + n.Obj().Name() + "." + o.Name()
		}
	}
	return pkg + "." + o.Name()
}

func freshIn(f *frame, st *State, c *Call) string {
	it := &item{st: st}
	if v := c.Site.Value(); v != nil {
		return f.freshName(it, v)
	}
	return "new@" + f.id + ":" + strconv.Itoa(int(c.Site.Pos()))
}

var pureInvokes = map[string]bool{"GetLocation": true, "IsScalar": true, "Error": true, "String": true, "Name": true}

// bigOf is the number a big value holds.
func bigOf(st *State, v *Val) *Val {
	o, p, ok := objOf(v)
	if !ok {
		return vApp("big", v)
	}
	if x := st.heap[o][p+"$big"]; x != nil {
		return x
	}
	if st.isFresh(o) {
		return vInt(0)
	}
	return vApp("big", v)
}

func (in *Interp) setBig(st *State, v, n *Val, fn string) {
	o, p, ok := objOf(v)
	if !ok {
		return
	}
	if !st.isFresh(o) {
		st.addMut(Mut{Obj: o, Path: p + "$big", Val: n, Fn: fn})
	}
	st.wobj(o)[p+"$big"] = n
}

// errCauses collects the errors that values carry.
func errCauses(vals []*Val) []*Val {
	var out []*Val
	var walk func(v *Val)
	walk = func(v *Val) {
		switch {
		case v == nil:
		case v.K == KErr:
			out = append(out, v)
		case v.K == KSym && strings.HasPrefix(v.S, "err:"):
			out = append(out, v)
		case v.T != nil && (isErrorType(v.T) || isStacktracePtr(v.T)) && (v.K == KSym || v.K == KApp):
			out = append(out, v)
		default:
			for _, a := range v.A {
				walk(a)
			}
		}
	}
	for _, v := range vals {
		walk(v)
	}
	return sortVals(dedupVals(out))
}

// newError makes an error that can be told from others and records that it was made.
func (in *Interp) newError(st *State, c *Call) ([]callOut, bool) {
	site := ""
	if c.Site != nil {
		site = FuncName(c.Fn) + ":" + strconv.Itoa(int(c.Site.Pos()))
	}
	if strings.HasPrefix(c.Name, "stacktrace.") {
		site = "located:" + site
	}
	v := vSym("err:new:"+site, types.Universe.Lookup("error").Type())
	st.assumeNil(v, false)
	st.addEvent(&Event{Name: "new error", Res: []*Val{v}, Site: site, key: "new error " + site})
	return []callOut{{st: st, ret: []*Val{mkErr([]*Val{v})}}}, true
}

func mkErr(causes []*Val) *Val {
	return mk(Val{K: KErr, S: "", A: sortVals(dedupVals(causes))})
}

// symStruct names the fields of an unknown value.
func symStruct(name string, t types.Type) *Val {
	if s := expandable(t); s != nil {
		a := make([]*Val, s.NumFields())
		for i := range a {
			a[i] = symStruct(name+"."+s.Field(i).Name(), s.Field(i).Type())
		}
		return mk(Val{K: KStruct, T: t, A: a})
	}
	return vSym(name, t)
}

// builtinModel gives the meaning of library functions and of a few helpers of the module.
func (in *Interp) builtinModel(st *State, c *Call, f *frame) ([]callOut, bool) {
	fn := c.Callee
	ret := func(v ...*Val) ([]callOut, bool) { return []callOut{{st: st, ret: v}}, true }
	if in.p.InModule(fn) {
		if fn.Name() == "FixYamlError" && fn.Parent() == nil && in.fixIdentity {
			return ret(c.Args[0])
		}
		if isEqPredicate(fn) && f.depth > 0 {
			a, b := c.Args[0], c.Args[1]
			if a == b {
				return ret(vTrue)
			}
			if a.key > b.key {
				a, b = b, a
			}
			return ret(vAppT(types.Typ[types.Bool], "eqv", a, b))
		}
		if isEqPredicate(fn) {
			a, b := c.Args[0], c.Args[1]
			if a.key > b.key {
				a, b = b, a
			}
			return ret(vAppT(types.Typ[types.Bool], "eqv", a, b))
		}
		return nil, false
	}
	name := extName(fn)
	a := c.Args
	if r, ok := foldText(name, a, c); ok {
		return ret(r...)
	}
	resT := func(i int) types.Type { return c.Sig.Results().At(i).Type() }
	nilRecv := func() ([]callOut, bool) {
		switch st.nilness(a[0]) {
		case yes:
			return []callOut{{st: st, pan: "method " + name + " on nil " + a[0].key}}, true
		case unknown:
			if in.strictNil != nil && in.strictNil(a[0]) {
				var out []callOut
				n := st.clone()
				if n.assumeNil(a[0], true) {
					out = append(out, callOut{st: n, pan: "method " + name + " on nil " + a[0].key})
				}
				m := st.clone()
				if m.assumeNil(a[0], false) {
					o, _ := in.builtinModel(m, c, f)
					out = append(out, o...)
				}
				return out, true
			}
			st = st.clone()
			st.assumeNil(a[0], false)
		}
		return nil, false
	}
	switch name {
	// ordered maps
	case "orderedmap.New":
		n := freshIn(f, st, c)
		st = st.clone()
		st.markFresh(n)
		return ret(vPtr(n, "", resT(0)))
	case "orderedmap.OrderedMap.Len":
		return ret(in.lenOf(st, a[0]))
	case "orderedmap.OrderedMap.Get", "orderedmap.OrderedMap.Load":
		if o, ok := nilRecv(); ok {
			return o, true
		}
		var out []callOut
		for _, m := range in.mapGet(st, a[0], a[1], resT(0)) {
			v := m.val
			if !m.ok {
				v = zeroVal(resT(0))
			}
			out = append(out, callOut{st: m.st, ret: []*Val{v, vBool(m.ok)}})
		}
		return out, true
	case "orderedmap.OrderedMap.Value":
		if o, ok := nilRecv(); ok {
			return o, true
		}
		var out []callOut
		for _, m := range in.mapGet(st, a[0], a[1], resT(0)) {
			v := m.val
			if !m.ok {
				v = zeroVal(resT(0))
			}
			out = append(out, callOut{st: m.st, ret: []*Val{v}})
		}
		return out, true
	case "orderedmap.OrderedMap.Set", "orderedmap.OrderedMap.Store":
		if o, ok := nilRecv(); ok {
			return o, true
		}
		st = st.clone()
		in.mapSet(st, a[0], a[1], a[2], FuncName(f.fn))
		return ret(vSym("~old", resT(0)), vSym("~present", resT(1)))
	case "orderedmap.OrderedMap.Delete":
		if o, ok := nilRecv(); ok {
			return o, true
		}
		st = st.clone()
		if st.isFresh(a[0].S) && a[0].K == KPtr {
			keys := st.heap[a[0].S]["$keys"]
			if keys != nil {
				var parts []*Val
				for _, e := range keys.A {
					if e.A[0] != a[1] {
						parts = append(parts, e)
					}
				}
				st.wobj(a[0].S)["$keys"] = mk(Val{K: KSlice, A: parts})
			}
		} else {
			o, p, _ := objOf(a[0])
			st.addMut(Mut{Obj: o + p, Path: "{" + a[1].key + "}", Val: vNil, Fn: FuncName(f.fn)})
		}
		return ret(vSym("~old", resT(0)), vSym("~present", resT(1)))
	case "orderedmap.OrderedMap.Oldest", "orderedmap.OrderedMap.Newest", "list.List.Front", "list.List.Back":
		if st.nilness(a[0]) == yes {
			return ret(vNil)
		}
		if ver := listVersion(st, a[0]); ver != nil {
			// the list changes while it is processed
			return ret(vSym("front:"+a[0].key, resT(0)))
		}
		return in.cursor(st, a[0], "s", resT(0)), true
	case "orderedmap.Pair.Next", "orderedmap.Pair.Prev", "list.Element.Next", "list.Element.Prev":
		if a[0].K == KPair {
			return in.cursor(st, a[0].A[0], a[0].S2, resT(0)), true
		}
		return ret(vAppT(resT(0), "next", a[0]))
	case "list.List.Len":
		if listVersion(st, a[0]) != nil {
			return ret(vSym("~len:"+a[0].key, resT(0)))
		}
		return ret(in.lenOf(st, a[0]))
	case "list.List.PushBack", "list.List.PushFront", "list.List.Remove", "list.List.Init":
		n := in.event(st, c)
		bumpList(n.st, a[0])
		return []callOut{n}, true
	// errors
	case "fmt.Errorf", "errors.New", "errors.Join":
		causes := errCauses(a)
		if in.newErrs && len(causes) == 0 {
			return in.newError(st, c)
		}
		return ret(mkErr(causes))
	case "stacktrace.New":
		if in.onErr != nil {
			in.onErr(st, c, f)
		}
		if in.newErrs {
			return in.newError(st, c)
		}
		return ret(mkErr(nil))
	case "stacktrace.NewWrapped", "stacktrace.Wrap":
		e := a[0]
		if name == "stacktrace.NewWrapped" {
			e = a[1]
		}
		if st.nilness(e) == yes {
			return []callOut{{st: st, pan: "wrapping a nil error"}}, true
		}
		if in.strictNil != nil && st.nilness(e) == unknown && in.strictNil(e) {
			var out []callOut
			n := st.clone()
			if n.assumeNil(e, true) {
				out = append(out, callOut{st: n, pan: "wrapping a nil error"})
			}
			return append(out, callOut{st: st, ret: []*Val{mkErr([]*Val{e})}}), true
		}
		if in.onErr != nil {
			in.onErr(st, c, f)
		}
		return ret(mkErr([]*Val{e}))
	case "stacktrace.StackTrace.Append":
		if st.nilness(a[0]) == yes {
			return []callOut{{st: st, pan: "Append to a nil stack trace"}}, true
		}
		if in.strictNil != nil && st.nilness(a[0]) == unknown && a[0].K == KSym && in.strictNil(a[0]) {
			var out []callOut
			n := st.clone()
			if n.assumeNil(a[0], true) {
				out = append(out, callOut{st: n, pan: "Append to a nil stack trace"})
			}
			return append(out, callOut{st: st, ret: []*Val{mkErr([]*Val{a[0], a[1]})}}), true
		}
		if a[0].K == KErr {
			cs := append(append([]*Val(nil), a[0].A...), a[1])
			return ret(mkErr(cs))
		}
		return ret(mkErr([]*Val{a[0], a[1]}))
	case "stacktrace.StackTrace.SetType", "stacktrace.StackTrace.SetSeverity", "stacktrace.StackTrace.SetLocation",
		"stacktrace.StackTrace.SetPosition", "stacktrace.StackTrace.SetMessage", "stacktrace.StackTrace.SetErr":
		return ret(a[0])
	case "stacktrace.StackTrace.Wrap":
		if a[0].K == KErr {
			return ret(mkErr(append(append([]*Val(nil), a[0].A...), a[1])))
		}
		return ret(mkErr([]*Val{a[0], a[1]}))
	case "stacktrace.WithInfo", "stacktrace.WithType", "stacktrace.WithSeverity":
		return ret(vAppT(resT(0), "opt"))
	case "stacktrace.WithLocation":
		return ret(vAppT(resT(0), "opt:loc", a[0]))
	case "stacktrace.WithPosition":
		return ret(vAppT(resT(0), "opt:pos", a[0]))
	case "errors.Is":
		if st.nilness(a[0]) == yes {
			return ret(vFalse)
		}
		if causesOf(a[0])[a[1]] {
			return ret(vTrue)
		}
		return ret(vAppT(resT(0), "errors.Is", a...))
	case "errors.As":
		if st.nilness(a[0]) == yes {
			return ret(vFalse)
		}
		// on success the target is set
		t := in.outTarget(a[1])
		n := st.clone()
		if t != nil {
			o, p, _ := objOf(t)
			v := vSym("as:"+a[0].key, deref(outType(a[1])))
			in.storePlace(n, o, p, v, deref(outType(a[1])), FuncName(f.fn))
			n.assumeNil(v, false)
		}
		return []callOut{{st: n, ret: []*Val{vTrue}}, {st: st, ret: []*Val{vFalse}}}, true
	// numbers
	case "big.NewInt", "big.NewFloat":
		n := freshIn(f, st, c)
		st = st.clone()
		st.markFresh(n)
		p := vPtr(n, "", resT(0))
		in.setBig(st, p, a[0], FuncName(f.fn))
		return ret(p)
	case "big.Int.SetInt64", "big.Int.SetUint64", "big.Rat.SetInt64", "big.Rat.SetUint64", "big.Rat.SetFloat64", "big.Float.SetFloat64", "big.Float.SetInt64":
		st = st.clone()
		in.setBig(st, a[0], a[1], FuncName(f.fn))
		return ret(a[0])
	case "big.Int.Set", "big.Rat.SetInt", "big.Rat.Set", "big.Float.SetInt":
		st = st.clone()
		in.setBig(st, a[0], bigOf(st, a[1]), FuncName(f.fn))
		return ret(a[0])
	case "big.Int.SetString", "big.Rat.SetString":
		ok := vAppT(resT(1), "bigparse", a[1:]...)
		n := st.clone()
		var out []callOut
		if n.assume(ok, true) {
			in.setBig(n, a[0], vApp("bigint", a[1:]...), FuncName(f.fn))
			out = append(out, callOut{st: n, ret: []*Val{a[0], vTrue}})
		}
		m := st.clone()
		if m.assume(ok, false) {
			out = append(out, callOut{st: m, ret: []*Val{vNil, vFalse}})
		}
		return out, true
	case "big.Float.Int":
		st = st.clone()
		z := a[1]
		if st.nilness(z) == yes {
			n := freshIn(f, st, c)
			st.markFresh(n)
			z = vPtr(n, "", resT(0))
		}
		in.setBig(st, z, vApp("trunc", bigOf(st, a[0])), FuncName(f.fn))
		return ret(z, vSym("~acc", resT(1)))
	case "big.Int.Cmp", "big.Rat.Cmp", "big.Float.Cmp":
		return ret(vAppT(resT(0), "cmp3", bigOf(st, a[0]), bigOf(st, a[1])))
	case "big.Int.Sign", "big.Rat.Sign":
		return ret(vAppT(resT(0), "cmp3", bigOf(st, a[0]), vInt(0)))
	case "big.Int.String":
		return ret(vAppT(resT(0), "bigtext", bigOf(st, a[0])))
	case "math.Trunc":
		return ret(vAppT(resT(0), "trunc", a[0]))
	case "utf8.RuneCountInString":
		if s, ok := a[0].strConst(); ok {
			return ret(vInt(int64(len([]rune(s)))))
		}
		return ret(vAppT(resT(0), "runes", a[0]))
	case "utf8.RuneCount":
		return ret(vAppT(resT(0), "runes", a[0]))
	case "strings.LastIndex", "strings.LastIndexByte", "strings.Index", "strings.IndexByte":
		return ret(vAppT(resT(0), "lastindex", a[0], a[1], vStr(name)))
	case "strings.HasSuffix", "strings.HasPrefix", "strings.Contains":
		x, ok1 := a[0].strConst()
		y, ok2 := a[1].strConst()
		if e, ok := st.f.E[a[0]]; ok && !ok1 {
			x, ok1 = e.strConst()
		}
		if ok1 && ok2 {
			r := false
			switch name {
			case "strings.HasSuffix":
				r = strings.HasSuffix(x, y)
			case "strings.HasPrefix":
				r = strings.HasPrefix(x, y)
			default:
				r = strings.Contains(x, y)
			}
			return ret(vBool(r))
		}
		return ret(vAppT(resT(0), name, a...))
	case "regexp.Regexp.MatchString":
		return ret(vAppT(resT(0), "match", a...))
	case "reflect.DeepEqual":
		x, y := a[0], a[1]
		if x == y {
			return ret(vTrue)
		}
		if x.key > y.key {
			x, y = y, x
		}
		return ret(vAppT(resT(0), "deepeq", x, y))
	case "sort.Strings", "sort.Slice", "sort.SliceStable", "sort.Ints", "sort.Sort", "sort.Stable",
		"slices.Sort", "slices.SortFunc", "slices.SortStableFunc":
		x := a[0]
		if x.K == KIface {
			x = x.A[0]
		}
		if o, p, ok := objOf(x); ok && !st.isFresh(o) {
			st = st.clone()
			st.addMut(Mut{Obj: o + p, Path: "[...]", Val: vSym("sorted", nil), Fn: FuncName(f.fn)})
		}
		return ret()
	// decoding
	case "yaml.Node.Decode", "yaml.Decoder.Decode", "json.Decoder.Decode", "json.Unmarshal", "yaml.Unmarshal":
		n := in.event(st, c)
		err := n.ret[0]
		out := a[len(a)-1]
		t := in.outTarget(out)
		ok := n.st.clone()
		var res []callOut
		if ok.assumeNil(err, true) {
			if t != nil {
				et := deref(outType(out))
				o, p, _ := objOf(t)
				if et != nil {
					in.storePlace(ok, o, p, symStruct("decoded<"+typeShort(et)+">("+argKeys(a[:len(a)-1])+")", et), et, FuncName(f.fn))
				}
			}
			res = append(res, callOut{st: ok, ret: n.ret})
		}
		bad := n.st.clone()
		if bad.assumeNil(err, false) {
			res = append(res, callOut{st: bad, ret: n.ret})
		}
		return res, true
	case "atomic.AddInt64", "atomic.AddUint64", "atomic.AddInt32", "atomic.Int64.Add", "atomic.Uint64.Add", "atomic.Int32.Add":
		// counters of known objects count
		if o, p, ok := objOf(a[0]); ok && st.isFresh(o) {
			if strings.HasSuffix(name, ".Add") {
				p += ".v"
			}
			if d, ok := a[1].intConst(); ok {
				if was, ok := in.loadPlace(st, o, p, types.Typ[types.Int64]).intConst(); ok {
					st = st.clone()
					st.wobj(o)[p] = vInt(was + d)
					return ret(vInt(was + d))
				}
			}
		}
		n := in.event(st, c)
		return []callOut{n}, true
	}
	return nil, false
}

func listVersion(st *State, l *Val) *Val {
	o, p, ok := objOf(l)
	if !ok {
		return nil
	}
	return st.heap[o+p]["$changed"]
}

func bumpList(st *State, l *Val) {
	o, p, ok := objOf(l)
	if !ok {
		return
	}
	st.wobj(o + p)["$changed"] = vTrue
	n := vSym("~len:"+l.key, nil)
	f := st.wf()
	delete(f.I, n)
	delete(f.E, n)
}

// outTarget is the pointer passed as an output argument.
func (in *Interp) outTarget(v *Val) *Val {
	if v.K == KIface {
		v = v.A[0]
	}
	if _, _, ok := objOf(v); ok {
		return v
	}
	return nil
}

func outType(v *Val) types.Type {
	if v.K == KIface {
		return v.T
	}
	return v.T
}

// cursor gives the next cursor into an ordered collection.
func (in *Interp) cursor(st *State, m *Val, cur string, t types.Type) []callOut {
	coll := m
	if m.K == KPtr && st.isFresh(m.S) && m.S2 == "" {
		coll = st.heap[m.S]["$keys"]
		if coll == nil {
			coll = mk(Val{K: KSlice})
		}
	}
	// the loop that iterates this collection
	id := ""
	var ids []string
	for l := range st.loops {
		ids = append(ids, l)
	}
	sort.Strings(ids)
	for _, l := range ids {
		if st.loops[l].coll == m.key {
			id = l
		}
	}
	if cur != "s" && id != "" {
		st = st.clone()
		li := st.loops[id]
		st.forgetOthers(li.inner)
		li.inner = nil
		st.loops[id] = li
	}
	for l, o := range st.loops {
		if l != id && o.class != "" && o.class != "const" && !containsStr(o.inner, m.key) && o.coll != m.key {
			st = st.clone()
			o.inner = append(o.inner[:len(o.inner):len(o.inner)], m.key)
			st.loops[l] = o
		}
	}
	var out []callOut
	skip := id
	if cur == "s" {
		skip = ""
	}
	in.phases(st, coll, cur, skip, nil, 0, func(s *State, exit bool, phase string) {
		if exit {
			out = append(out, callOut{st: s, ret: []*Val{vNil}})
			return
		}
		out = append(out, callOut{st: s, ret: []*Val{mk(Val{K: KPair, S: className(phase), S2: phase, A: []*Val{m}, T: t})}})
	})
	return out
}

// external is a call of a function outside the module without a model: its results are functions of its arguments.
func (in *Interp) external(st *State, c *Call) []callOut {
	name := extName(c.Callee)
	hasErr := false
	n := c.Sig.Results().Len()
	for i := 0; i < n; i++ {
		if isErrorType(c.Sig.Results().At(i).Type()) {
			hasErr = true
		}
	}
	c.Name = name
	if n == 0 || hasErr || impureExternals[name] {
		return []callOut{in.event(st, c)}
	}
	ret := make([]*Val, n)
	for i := range ret {
		op := name
		if n > 1 {
			op += "#" + strconv.Itoa(i)
		}
		ret[i] = vAppT(c.Sig.Results().At(i).Type(), op, c.Args...)
	}
	return []callOut{{st: st, ret: ret}}
}

var impureExternals = map[string]bool{"os.Getenv": true, "time.Now": true, "rand.Int": true}

// isEqPredicate recognises the module's value equality by its type.
func isEqPredicate(fn *ssa.Function) bool {
	s := fn.Signature
	if s.Recv() != nil || s.Params().Len() != 2 || s.Results().Len() != 1 || fn.Parent() != nil {
		return false
	}
	isAny := func(t types.Type) bool {
		i, ok := t.Underlying().(*types.Interface)
		return ok && i.Empty()
	}
	b, ok := s.Results().At(0).Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool && isAny(s.Params().At(0).Type()) && isAny(s.Params().At(1).Type())
}

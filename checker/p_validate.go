package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", "path-sensitive abstract interpretation of every validate method, compared with the rule of each kind of type", checkC01)
}

// shapeTypes lists the types that implement the Shape interface.
func (c *Ctx) shapeTypes() []*types.Named {
	sc := c.P.Pkg.Pkg.Scope()
	so := sc.Lookup("Shape")
	if so == nil {
		c.fail("anchor", "Shape", "the interface does not exist any more")
		return nil
	}
	si, _ := so.Type().Underlying().(*types.Interface)
	var r []*types.Named
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || strings.HasPrefix(n, "Mock") {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok || types.IsInterface(nt) || nt.TypeParams() != nil {
			continue
		}
		if si != nil && types.Implements(types.NewPointer(nt), si) {
			r = append(r, nt)
		}
	}
	return r
}

var (
	tInt, tInt64, tUint, tUint64 = types.Typ[types.Int], types.Typ[types.Int64], types.Typ[types.Uint], types.Typ[types.Uint64]
	tF64, tStr, tBool            = types.Typ[types.Float64], types.Typ[types.String], types.Typ[types.Bool]
	tAny                         = types.NewInterfaceType(nil, nil)
	tList                        = types.NewSlice(tAny)
	tMap                         = types.NewMap(tStr, tAny)
)

// valRule is the meaning of a kind of type: it holds for accepted values (accept) and for no rejected one (reject).
type valRule struct {
	must []types.Type // kinds that are admitted
	may  []types.Type // kinds that may be admitted besides
	any  bool
	// cond returns the conditions under which a value of the kind is accepted.
	cond func(l look, o *Outcome, t *types.Named, v *Val, k types.Type, accepted bool) map[string]form
	// never: every value is refused
	never bool
}

// facetBound relates a facet, if it is set, to the value.
func (l look) facetBound(t *types.Named, facet, op string, terms ...*Val) form {
	p, ft := l.fieldT(vSym("t", types.NewPointer(t)), types.NewPointer(t), facet)
	if p == nil {
		l.c.fail("anchor", t.Obj().Name()+"."+facet, "the facet does not exist any more")
		return fConst(true)
	}
	var bs []*Val
	if pt, ok := ft.Underlying().(*types.Pointer); ok {
		if isBigInt(ft) {
			bs = append(bs, vApp("big", p), vApp("bigtext", vApp("big", p)))
		} else {
			bs = append(bs, l.deref(p, pt.Elem()))
		}
	} else {
		bs = append(bs, p)
	}
	var as []*Val
	for _, b := range bs {
		for _, b2 := range []*Val{b, vApp("conv:float64", b), vApp("conv:int", b), vApp("conv:int64", b)} {
			for _, x := range terms {
				as = append(as, vApp(op, x, b2))
			}
		}
	}
	return fOr(fNil(p), fSome(as...))
}

func isBigInt(t types.Type) bool {
	return strings.HasSuffix(types.TypeString(deref(t), nil), "math/big.Int")
}

// enumHas says that the value is a member of the enum facet, if that is set.
func (l look) enumHas(t *types.Named, v, view *Val, accepted, numeric bool) form {
	en, et := l.fieldT(vSym("t", types.NewPointer(t)), types.NewPointer(t), "Enum")
	if en == nil {
		return fConst(true)
	}
	eqs := func(class string) []*Val {
		e := l.elem(en, class, et.Underlying().(*types.Slice).Elem())
		m, _ := l.sub(e, et.Underlying().(*types.Slice).Elem(), "Value")
		var r []*Val
		for _, x := range []*Val{v, view} {
			a, b := m, x
			if a.key > b.key {
				a, b = b, a
			}
			r = append(r, vApp("eqv", a, b))
			if !numeric {
				r = append(r, eqAtom(m, x), vApp("deepeq", a, b))
			}
		}
		return r
	}
	empty := fAtom(vApp("<=", vApp("len", en), vInt(0)))
	return fOr(fNil(en), fAnd(fNot(empty), fFn(func(s *State) int {
		if accepted {
			for _, cl := range []string{"w", "o"} {
				for _, a := range eqs(cl) {
					if s.known(a, true) {
						return yes
					}
				}
			}
			return unknown
		}
		// refused: the distinguished member, which stands for every member, differs
		for _, a := range eqs("w") {
			if s.query(a) == no {
				return no
			}
		}
		return unknown
	})))
}

// nested finds the validation of a value against a nested type: yes if it succeeded, no if it failed.
func nestedVerdict(s *State, shape, val *Val) int {
	for _, e := range s.events {
		if e.named("validate") && len(e.Args) >= 2 && e.Args[0] == shape && sameValue(e.Args[1], val) {
			if er := e.errRes(); er != nil {
				switch s.nilness(er) {
				case yes:
					return yes
				case no:
					return no
				}
			}
		}
	}
	return unknown
}

func sameValue(a, b *Val) bool {
	if a == b {
		return true
	}
	// a concrete view of an interface value, put back into an interface
	if a.K == KIface && a.A[0].O == b {
		return true
	}
	return false
}

func (l look) validate(shape, val *Val) form {
	return fFn(func(s *State) int { return nestedVerdict(s, shape, val) })
}

func boundsRule(kinds ...string) func(l look, o *Outcome, t *types.Named, v *Val, k types.Type, accepted bool) map[string]form {
	return func(l look, o *Outcome, t *types.Named, v *Val, k types.Type, accepted bool) map[string]form {
		r := map[string]form{}
		view := l.in.view(v, k)
		var terms []*Val
		for _, kind := range kinds {
			switch kind {
			case "runes":
				terms = []*Val{vApp("runes", view)}
			case "len":
				terms = []*Val{vApp("len", view)}
			case "int":
				terms = []*Val{view}
				if types.Identical(k, tF64) {
					terms = append(terms, vApp("trunc", view))
				}
			case "num":
				terms = []*Val{view, vApp("conv:float64", view)}
			case "whole":
				if types.Identical(k, tF64) {
					r["whole number"] = fOr(fSome(eqAtom(vApp("trunc", view), view), eqAtom(vApp("math.Floor", view), view)), fSome())
					inf := vApp("math.IsInf", view, vInt(0))
					if accepted {
						// only one of both needs to be known to refuse
						r["whole number"] = fAnd(r["whole number"], fNot(fAtom(inf)))
					} else {
						r["whole number"] = fAnd(fSome(eqAtom(vApp("trunc", view), view), eqAtom(vApp("math.Floor", view), view)), fNot(fAtom(inf)))
					}
				}
			case "value":
				r["minimum"] = l.facetBound(t, "Minimum", ">=", terms...)
				r["maximum"] = l.facetBound(t, "Maximum", "<=", terms...)
			case "length":
				r["minLength"] = l.facetBound(t, "MinLength", ">=", terms...)
				r["maxLength"] = l.facetBound(t, "MaxLength", "<=", terms...)
			case "enum":
				r["enum"] = l.enumHas(t, v, view, accepted, false)
			case "enumv":
				r["enum"] = l.enumHas(t, v, view, accepted, true)
			case "pattern":
				p := l.field(vSym("t", nil), types.NewPointer(t), "Pattern")
				if p == nil {
					l.c.fail("anchor", t.Obj().Name()+".Pattern", "the facet does not exist any more")
					break
				}
				r["pattern"] = fOr(fNil(p), fAtom(vApp("match", p, view)))
			}
		}
		return r
	}
}

// layoutRule: the value is a date in the layout.
func layoutOk(s *State, layout string, view *Val) int {
	for _, e := range s.events {
		if e.Name == "time.Parse" && e.Args[0] == vStr(layout) && e.Args[1] == view {
			if er := e.errRes(); er != nil {
				return s.nilness(er)
			}
		}
	}
	return unknown
}

func layoutRule(layout string) func(l look, o *Outcome, t *types.Named, v *Val, k types.Type, accepted bool) map[string]form {
	return func(l look, o *Outcome, t *types.Named, v *Val, k types.Type, accepted bool) map[string]form {
		return map[string]form{"layout": fFn(func(s *State) int { return layoutOk(s, layout, l.in.view(v, k)) })}
	}
}

func dateTimeRule(l look, o *Outcome, t *types.Named, v *Val, k types.Type, accepted bool) map[string]form {
	p := l.field(vSym("t", nil), types.NewPointer(t), "Format")
	if p == nil {
		l.c.fail("anchor", "DateTimeShape.Format", "the facet does not exist any more")
		return nil
	}
	val := l.deref(p, tStr)
	view := l.in.view(v, k)
	r3, r2 := eqAtom(val, vStr("rfc3339")), eqAtom(val, vStr("rfc2616"))
	lay := func(x string) form { return fFn(func(s *State) int { return layoutOk(s, x, view) }) }
	return map[string]form{
		"format rfc3339": fImp(fOr(fNil(p), fAtom(r3)), lay("2006-01-02T15:04:05Z07:00")),
		"format rfc2616": fImp(fAnd(fNot(fNil(p)), fAtom(r2)), lay("Mon, 02 Jan 2006 15:04:05 GMT")),
	}
}

func arrayRule(l look, o *Outcome, t *types.Named, v *Val, k types.Type, accepted bool) map[string]form {
	pt := types.NewPointer(t)
	view := l.in.view(v, k)
	ln := vApp("len", view)
	r := map[string]form{
		"minItems": l.facetBound(t, "MinItems", ">=", ln),
		"maxItems": l.facetBound(t, "MaxItems", "<=", ln),
	}
	items, it := l.fieldT(vSym("t", nil), pt, "Items")
	uq := l.field(vSym("t", nil), pt, "UniqueItems")
	if items == nil || uq == nil {
		l.c.fail("anchor", "ArrayShape", "the facets do not exist any more")
		return r
	}
	shape := l.field(items, it, "Shape")
	empty := fAtom(vApp("<=", ln, vInt(0)))
	r["items"] = fOr(fNil(items), empty, fFn(func(s *State) int {
		if accepted {
			return nestedVerdict(s, shape, l.elem(view, "w", tAny))
		}
		for _, cl := range []string{"w", "o"} {
			if nestedVerdict(s, shape, l.elem(view, cl, tAny)) == no {
				return no
			}
		}
		return unknown
	}))
	// uniqueItems: the number of different contents is the number of items
	distinct := fFn(func(s *State) int {
		w, ot := l.elem(view, "w", tAny), l.elem(view, "o", tAny)
		about := func(x, e *Val) bool { return strings.Contains(x.key, e.key) }
		for a, truth := range s.f.B {
			if !a.isApp("==") {
				continue
			}
			for i := 0; i < 2; i++ {
				if a.A[i] == ln && a.A[1-i].isApp("len") && about(a.A[1-i], w) {
					return b2i(truth)
				}
			}
			// two contents compared
			if about(a.A[0], w) && about(a.A[1], ot) || about(a.A[0], ot) && about(a.A[1], w) {
				return b2i(!truth)
			}
		}
		for k, m := range s.f.M {
			for i, x := range []*Val{k.a, k.b} {
				y := []*Val{k.b, k.a}[i]
				if x == ln && y.isApp("len") && about(y, w) {
					if m == mE {
						return yes
					}
					if m&mE == 0 {
						return no
					}
				}
			}
		}
		for _, k := range []*Val{ln} {
			if e, ok := s.f.E[k]; ok && e.isApp("len") && about(e, w) {
				return yes
			}
		}
		for x, e := range s.f.E {
			if x.isApp("len") && about(x, w) && e == ln {
				return yes
			}
		}
		for _, e := range s.events {
			// all contents were found to be the same one
			if s.interval(ln).lo >= 2 && strings.Contains(e.Name, "Marshal") && len(e.Args) > 0 && about(e.Args[0], w) {
				return no
			}
		}
		return unknown
	})
	unhashable := fFn(func(s *State) int {
		for _, e := range s.events {
			if er := e.errRes(); er != nil && s.nilness(er) == no && len(e.Args) > 0 {
				for _, cl := range []string{"w", "o"} {
					if sameValue(e.Args[0], l.elem(view, cl, tAny)) && !e.named("validate") {
						return no
					}
				}
			}
		}
		return unknown
	})
	few := fAtom(vApp("<=", ln, vInt(1)))
	on := fAnd(fNot(fNil(uq)), fAtom(l.deref(uq, tBool)))
	if accepted {
		r["uniqueItems"] = fImp(on, fOr(few, distinct))
	} else {
		r["uniqueItems"] = fImp(on, distinct)
		r["hash"] = fOr(fNot(on), unhashable)
	}
	return r
}

func unionRule(l look, o *Outcome, t *types.Named, v *Val, k types.Type, accepted bool) map[string]form {
	any, at := l.fieldT(vSym("t", nil), types.NewPointer(t), "AnyOf")
	if any == nil {
		l.c.fail("anchor", "UnionShape.AnyOf", "the facet does not exist any more")
		return nil
	}
	et := at.Underlying().(*types.Slice).Elem()
	empty := fAtom(vApp("<=", vApp("len", any), vInt(0)))
	return map[string]form{"members": fAnd(fNot(fNil(any)), fNot(empty), fFn(func(s *State) int {
		for _, cl := range []string{"w", "o"} {
			sh := l.field(l.elem(any, cl, et), et, "Shape")
			q := nestedVerdict(s, sh, v)
			if accepted && q == yes {
				return yes
			}
			if !accepted && cl == "w" && q == no {
				return no
			}
		}
		return unknown
	}))}
}

func recursiveRule(l look, o *Outcome, t *types.Named, v *Val, k types.Type, accepted bool) map[string]form {
	h, ht := l.fieldT(vSym("t", nil), types.NewPointer(t), "Head")
	if h == nil {
		l.c.fail("anchor", "RecursiveShape.Head", "does not exist any more")
		return nil
	}
	return map[string]form{"head": l.validate(l.field(h, ht, "Shape"), v)}
}

func objectRule(l look, o *Outcome, t *types.Named, v *Val, k types.Type, accepted bool) map[string]form {
	pt := types.NewPointer(t)
	view := l.in.view(v, k)
	ln := vApp("len", view)
	r := map[string]form{
		"minProperties": l.facetBound(t, "MinProperties", ">=", ln),
		"maxProperties": l.facetBound(t, "MaxProperties", "<=", ln),
	}
	props := l.field(vSym("t", nil), pt, "Properties")
	patts := l.field(vSym("t", nil), pt, "PatternProperties")
	addl := l.field(vSym("t", nil), pt, "AdditionalProperties")
	propT := l.c.P.Pkg.Pkg.Scope().Lookup("Property")
	pattT := l.c.P.Pkg.Pkg.Scope().Lookup("PatternProperty")
	if props == nil || patts == nil || addl == nil || propT == nil || pattT == nil {
		l.c.fail("anchor", "ObjectShape", "the facets do not exist any more")
		return r
	}
	shapeOf := func(v *Val, t types.Type) *Val {
		x, _ := l.sub(v, t, "Base", "Shape")
		return x
	}
	noProps := fOr(fNil(props), fAtom(vApp("<=", vApp("len", props), vInt(0))))
	noValue := fAtom(vApp("<=", ln, vInt(0)))
	req := func(cl string) *Val {
		x, _ := l.sub(l.elem(props, cl, propT.Type()), propT.Type(), "Required")
		return x
	}
	has := func(m, k *Val) *Val { return vApp("in", m, k) }
	if accepted {
		w := "w"
		r["required"] = fOr(noProps, fImp(fAtom(req(w)), fAnd(fNot(noValue), fAtom(has(view, keyOf(props, w))))))
	} else {
		missing := func(cl string) form {
			return fAnd(fAtom(req(cl)), fOr(noValue, fNot(fAtom(has(view, keyOf(props, cl))))))
		}
		left := fFn(func(s *State) int {
			return s.some(func(a *Val) bool { return a == req("o") }, func(a *Val) bool { return a == vApp("not", has(view, keyOf(props, "o"))) })
		})
		r["required"] = fOr(noProps, fNot(fOr(missing("w"), missing("o"), left)))
	}
	closed := fAnd(fNot(fNil(addl)), fNot(fAtom(l.deref(addl, tBool))))
	noPatts := fOr(fNil(patts), fAtom(vApp("<=", vApp("len", patts), vInt(0))))
	// a key of the value
	for _, kc := range []string{"w", "o"} {
		if accepted && kc == "o" {
			continue
		}
		key := keyOf(view, kc)
		item := l.elem(view, kc, tAny)
		declared := fAnd(fNot(fNil(props)), fAtom(has(props, key)))
		own := shapeOf(l.in.loadPlace(l.st, props.key, "{"+key.key+"}", propT.Type()), propT.Type())
		ownOk := l.validate(own, item)
		patt := func(pc string) (m, okv form) {
			e := l.elem(patts, pc, pattT.Type())
			re, _ := l.sub(e, pattT.Type(), "Pattern")
			return fAtom(vApp("match", re, key)), l.validate(shapeOf(e, pattT.Type()), item)
		}
		mw, vw := patt("w")
		// some pattern property that matches accepts the value
		okSome := fFn(func(s *State) int {
			for _, pc := range []string{"w", "o"} {
				e := l.elem(patts, pc, pattT.Type())
				re, _ := l.sub(e, pattT.Type(), "Pattern")
				m := vApp("match", re, key)
				if !s.known(m, true) {
					continue
				}
				sh := shapeOf(e, pattT.Type())
				if nestedVerdict(s, sh, item) == yes {
					return yes
				}
				for f := range s.f.Ex {
					if f.truth && f.v.isApp("nil") && strings.HasPrefix(f.v.A[0].key, "err:Shape.validate("+sh.key+","+item.key+",") {
						return yes
					}
				}
			}
			return unknown
		})
		if accepted {
			r["declared properties"] = fOr(noValue, fImp(declared, ownOk))
			r["additional properties"] = fOr(noValue, declared, fNot(closed))
			r["pattern properties"] = fOr(noValue, declared, noPatts, fNot(mw), okSome)
			_ = vw
			continue
		}
		ownBad := fAnd(declared, fFn(func(s *State) int {
			q := nestedVerdict(s, own, item)
			if q == unknown {
				return unknown
			}
			return 1 - q
		}))
		undeclared := fFn(func(s *State) int {
			if s.nilness(props) == yes || s.interval(vApp("len", props)).hi == 0 {
				return yes
			}
			q := s.query(has(props, key))
			if q == unknown {
				return unknown
			}
			return 1 - q
		})
		pattBad := func(pc string) form {
			e := l.elem(patts, pc, pattT.Type())
			re, _ := l.sub(e, pattT.Type(), "Pattern")
			sh := shapeOf(e, pattT.Type())
			return fFn(func(s *State) int {
				if s.query(vApp("match", re, key)) == yes && nestedVerdict(s, sh, item) == no {
					return yes
				}
				return unknown
			})
		}
		// every matching pattern property refuses: the distinguished one does not match or refuses
		allBad := fOr(fNot(mw), fFn(func(s *State) int {
			q := vw.eval(s)
			if q == unknown {
				return unknown
			}
			return 1 - q
		}))
		someBad := fOr(pattBad("w"), pattBad("o"), fFn(func(s *State) int {
			e := l.elem(patts, "o", pattT.Type())
			re, _ := l.sub(e, pattT.Type(), "Pattern")
			sh := shapeOf(e, pattT.Type())
			return s.some(func(a *Val) bool { return a == vApp("match", re, key) }, func(a *Val) bool {
				return strings.HasPrefix(a.key, "not(nil(err:Shape.validate("+sh.key+","+item.key+",")
			})
		}))
		r["declared properties "+kc] = fNot(ownBad)
		r["additional properties "+kc] = fNot(fAnd(undeclared, closed))
		r["pattern properties "+kc] = fNot(fAnd(undeclared, someBad, allBad))
	}
	return r
}

func checkC01(c *Ctx) {
	rules := map[string]valRule{
		"IntegerShape":      {must: []types.Type{tInt, tInt64, tUint, tUint64, tF64}, cond: boundsRule("int", "whole", "value", "enumv")},
		"NumberShape":       {must: []types.Type{tInt, tInt64, tUint, tUint64, tF64}, cond: boundsRule("num", "value", "enumv")},
		"StringShape":       {must: []types.Type{tStr}, cond: boundsRule("runes", "length", "pattern", "enum")},
		"FileShape":         {must: []types.Type{tStr}, cond: boundsRule("len", "length")},
		"BooleanShape":      {must: []types.Type{tBool}, cond: boundsRule("enum")},
		"DateTimeShape":     {must: []types.Type{tStr}, cond: dateTimeRule},
		"DateTimeOnlyShape": {must: []types.Type{tStr}, cond: layoutRule("2006-01-02T15:04:05")},
		"DateOnlyShape":     {must: []types.Type{tStr}, cond: layoutRule("2006-01-02")},
		"TimeOnlyShape":     {must: []types.Type{tStr}, cond: layoutRule("15:04:05")},
		"NilShape":          {must: []types.Type{nil}},
		"AnyShape":          {any: true},
		"JSONShape":         {any: true},
		"UnknownShape":      {never: true},
		"ArrayShape":        {must: []types.Type{tList}, cond: arrayRule},
		"ObjectShape":       {must: []types.Type{tMap}, cond: objectRule},
		"UnionShape":        {any: true, cond: unionRule},
		"RecursiveShape":    {any: true, cond: recursiveRule},
	}
	extra := map[string][]types.Type{
		"IntegerShape": {types.Typ[types.Int8], types.Typ[types.Int16], types.Typ[types.Int32], types.Typ[types.Uint8], types.Typ[types.Uint16], types.Typ[types.Uint32], types.Typ[types.Float32]},
	}
	extra["NumberShape"] = extra["IntegerShape"]
	seen := map[string]bool{}
	for _, t := range c.shapeTypes() {
		name := t.Obj().Name()
		rule, ok := rules[name]
		if !ok {
			c.fail("coverage", name, "no rule says which values this kind of type accepts")
			continue
		}
		seen[name] = true
		fn := c.method(name, "validate")
		if fn == nil {
			continue
		}
		c.checkValidate(t, fn, rule, extra[name])
	}
	for n := range rules {
		if !seen[n] {
			c.fail("anchor", n, "this kind of type does not exist any more")
		}
	}
	c.floor("accepts", 300)
	c.floor("refuses", 100)

	// the public entry: the concrete type decides
	if fn := c.method("BaseShape", "Validate"); fn != nil {
		for _, o := range errCases(c.explore(fn, runOpt{})) {
			l := c.look(o.St)
			sh := l.field(vSym("t", nil), fn.Signature.Recv().Type(), "Shape")
			q := nestedVerdict(o.St, sh, vSym("p1", nil))
			c.holds(q != unknown && (q == yes) == o.success(), "entry", "BaseShape.Validate", "does not answer what the concrete type says", o.Where)
		}
		c.floor("entry", 2)
	}
	// equality of data values
	n := 0
	for _, fn := range c.P.Funcs {
		if isEqPredicate(fn) {
			n++
			c.checkEquality(fn)
		}
	}
	if n > 0 {
		c.floor("equality", 20)
	}
}

func (c *Ctx) checkValidate(t *types.Named, fn *ssa.Function, rule valRule, extra []types.Type) {
	name := t.Obj().Name() + ".validate"
	outs := c.explore(fn, runOpt{budget: 12_000_000, boundary: func(k *Call) bool {
		return k.Callee != nil && k.Callee.Name() == "validate" && k.Callee != fn
	}})
	v := vSym("p1", tAny)
	nOk, nBad := 0, 0
	for _, o := range errCases(outs) {
		o := o
		c.debugState = o.St
		if len(o.St.muts) > 0 {
			c.ok("pure", name) // decided under C10
		}
		if o.success() {
			nOk++
			if rule.never {
				c.fail("accepts", name, "accepts a value although this kind of type has no values", o.Where)
				continue
			}
			kinds := append(append([]types.Type{}, rule.must...), extra...)
			if !rule.any && !c.holds(o.St.implies(fIs(v, kinds...)), "accepts", name+": kind of value", "accepts values of another kind", o.Where) {
				continue
			}
			if rule.any {
				kinds = []types.Type{tAny}
				c.ok("accepts", name+": kind of value")
			}
			if rule.cond == nil {
				continue
			}
			for _, k := range kinds {
				st := o.St.clone()
				if !rule.any && (k == nil || !st.assumeIs(v, k, true)) {
					continue
				}
				for facet, f := range rule.cond(c.look(st), &o, t, v, k, true) {
					c.holds(st.implies(f), "accepts", name+": "+facet, "accepts a value without having found that this facet is satisfied", o.Where)
				}
			}
			continue
		}
		nBad++
		if rule.never {
			c.ok("refuses", name)
			continue
		}
		if rule.any && rule.cond == nil {
			c.fail("refuses", name, "refuses a value although every value is admitted", o.Where)
			continue
		}
		kinds := rule.must
		if rule.any {
			kinds = []types.Type{tAny}
		}
		for _, k := range kinds {
			st := o.St.clone()
			if !rule.any {
				if k == nil {
					c.holds(st.nilness(v) == no, "refuses", name+": kind of value", "refuses nil", o.Where)
					continue
				}
				if !st.assumeIs(v, k, true) {
					c.ok("refuses", name+": kind of value")
					continue
				}
			}
			var all []form
			var names []string
			if rule.cond != nil {
				for facet, f := range rule.cond(c.look(st), &o, t, v, k, false) {
					all = append(all, f)
					names = append(names, facet)
				}
			}
			f := fNot(fAnd(all...))
			c.holds(st.implies(f), "refuses", name+": "+typeShort(k), "refuses a value although no facet was found to be violated", o.Where)
		}
	}
	if !rule.never {
		c.holds(nOk > 0, "accepts", name, "never accepts anything", FuncName(fn))
	}
	_ = nBad
}

// checkEquality: two data values are equal if they are the same number or deeply equal.
func (c *Ctx) checkEquality(fn *ssa.Function) {
	name := FuncName(fn)
	nums := []types.Type{tInt, tInt64, tUint, tUint64, tF64}
	a, b := vSym("p0", tAny), vSym("p1", tAny)
	in := []*Val{a, b}
	for _, o := range c.explore(fn, runOpt{args: in}) {
		if o.Panic != "" {
			continue
		}
		for _, ka := range append([]types.Type{nil}, nums...) {
			for _, kb := range append([]types.Type{nil}, nums...) {
				st := o.St.clone()
				feasible := true
				for i, k := range []types.Type{ka, kb} {
					if k != nil {
						feasible = feasible && st.assumeIs(in[i], k, true)
						continue
					}
					for _, n := range nums {
						feasible = feasible && st.assumeIs(in[i], n, false)
					}
				}
				if !feasible {
					continue
				}
				ret := o.Ret[0]
				what := fmt.Sprintf("%s: %s and %s", name, typeShort2(ka), typeShort2(kb))
				l := c.look(st)
				switch {
				case ka != nil && kb != nil:
					x, y := l.in.view(a, ka), l.in.view(b, kb)
					okv := false
					for _, e := range []*Val{vApp("<=", x, y), vApp(">=", x, y)} {
						_ = e
					}
					// equal exactly if the numbers are
					s1 := st.clone()
					if s1.assumeMask(x, y, mE) {
						okv = s1.query(ret) == yes
					} else {
						okv = true
					}
					s2 := st.clone()
					if s2.assumeMask(x, y, mL|mG) {
						okv = okv && s2.query(ret) == no
					}
					c.holds(okv, "equality", what, "the result is not that of comparing the numbers", o.Where)
				case ka == nil && kb == nil:
					okv := ret.isApp("deepeq") && sameValue(ret.A[0], a) && sameValue(ret.A[1], b)
					okv = okv || o.St.query(ret) == no || o.St.query(ret) == yes || ret.isApp("==")
					c.holds(okv, "equality", what, "the result is not that of comparing the values", o.Where)
				default:
					// a number and something else differ
					okv := st.query(ret) == no || ret.isApp("deepeq") || ret.isApp("==")
					c.holds(okv, "equality", what, "a number equals another kind of value", o.Where)
				}
			}
		}
	}
}

func typeShort2(t types.Type) string {
	if t == nil {
		return "other"
	}
	return typeShort(t)
}

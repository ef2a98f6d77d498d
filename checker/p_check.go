package main

import (
	"go/types"
	"strings"
)

func init() {
	register("C04", "path-sensitive abstract interpretation of every check method: a path that accepts excludes every contradiction, a path that refuses implies one", checkC04)
}

var boundPairs = [][2]string{{"Minimum", "Maximum"}, {"MinLength", "MaxLength"}, {"MinItems", "MaxItems"}, {"MinProperties", "MaxProperties"}}

// memberKinds gives the Go types that members of the facet may have.
func memberKinds(kind, facet string) (must, may []types.Type) {
	ints := []types.Type{tInt, tInt64, tUint, tUint64}
	moreInts := append([]types.Type{types.Typ[types.Int8], types.Typ[types.Int16], types.Typ[types.Int32],
		types.Typ[types.Uint8], types.Typ[types.Uint16], types.Typ[types.Uint32]}, ints...)
	switch {
	case facet == "FileTypes":
		return []types.Type{tStr}, []types.Type{tStr}
	case kind == "IntegerShape":
		return ints, moreInts
	case kind == "NumberShape":
		return append([]types.Type{tF64}, ints...), append([]types.Type{tF64, types.Typ[types.Float32]}, moreInts...)
	case kind == "StringShape":
		return []types.Type{tStr}, []types.Type{tStr}
	case kind == "BooleanShape":
		return []types.Type{tBool}, []types.Type{tBool}
	}
	return nil, nil
}

// contradiction is a reason to refuse a type: on a path that accepts, absent must hold, on one that refuses, present may.
type contradiction struct {
	name            string
	absent, present form
}

// nestedChecked tells whether a nested type was checked.
func nestedChecked(s *State, base *Val) int {
	for _, e := range s.events {
		if (e.named("Check") || e.named("check")) && len(e.Args) > 0 && (e.Args[0] == base || strings.HasPrefix(e.Args[0].key, base.key+".Shape")) {
			if er := e.errRes(); er != nil {
				return s.nilness(er)
			}
		}
	}
	return unknown
}

func checkC04(c *Ctx) {
	rec := 0
	for _, t := range c.shapeTypes() {
		fn := c.method(t.Obj().Name(), "check")
		if fn == nil {
			continue
		}
		name := t.Obj().Name() + ".check"
		tp := types.NewPointer(t)
		tv := vSym("t", tp)
		facets := map[string]types.Type{}
		for _, f := range c.facets(t) {
			facets[f.name] = f.typ
		}
		outs := errCases(c.explore(fn, runOpt{boundary: bounds("Check", "check", "validate", "Validate", "IsScalar"), budget: 20_000_000}))
		nOk, nBad := 0, 0
		for i := range outs {
			o := &outs[i]
			s := o.St
			c.debugState = s
			l0 := c.look(newState())
			var cs []contradiction
			add := func(n string, absent, present form) { cs = append(cs, contradiction{n, absent, present}) }
			for _, p := range boundPairs {
				ta, ok := facets[p[0]]
				if !ok {
					continue
				}
				a, b := l0.field(tv, tp, p[0]), l0.field(tv, tp, p[1])
				var gt form
				if isBigInt(ta) {
					gt = fSome(vApp(">", vApp("big", a), vApp("big", b)))
				} else {
					e := ta.Underlying().(*types.Pointer).Elem()
					gt = fSome(vApp(">", l0.deref(a, e), l0.deref(b, e)))
				}
				both := fAnd(fNot(fNil(a)), fNot(fNil(b)), gt)
				add(p[0]+" exceeds "+p[1], fNot(both), both)
			}
			for _, f := range []string{"Enum", "FileTypes"} {
				ft, ok := facets[f]
				must, may := memberKinds(t.Obj().Name(), f)
				if !ok || must == nil {
					continue
				}
				et := ft.Underlying().(*types.Slice).Elem()
				list := l0.field(tv, tp, f)
				val := func(cl string) *Val {
					v, _ := l0.sub(l0.elem(list, cl, et), et, "Value")
					return v
				}
				empty := fOr(fNil(list), fAtom(vApp("<=", vApp("len", list), vInt(0))))
				add("a member of "+f+" has another kind", fOr(empty, fIs(val("w"), may...)),
					fAnd(fNot(empty), fOr(fNot(fIs(val("w"), must...)), fNot(fIs(val("o"), must...)))))
			}
			if t.Obj().Name() == "IntegerShape" {
				f := l0.field(tv, tp, "Format")
				v := l0.deref(f, tStr)
				knownFmt := fFn(func(x *State) int {
					for at, truth := range x.f.B {
						if at.isApp("in") && at.A[1] == v {
							return b2i(truth)
						}
					}
					if e, ok := x.f.E[v]; ok {
						if _, ok := e.strConst(); ok {
							return yes
						}
					}
					if !o.success() && x.f.D != nil {
						for k := range x.f.D {
							if k == v {
								return no // none of the known ones
							}
						}
					}
					return unknown
				})
				add("unknown format", fOr(fNil(f), knownFmt), fAnd(fNot(fNil(f)), fNot(knownFmt)))
			}
			nested := func(what string, empty form, base func(cl string) *Val) {
				add(what+" is contradictory", fOr(empty, fFn(func(x *State) int { return nestedChecked(x, base("w")) })),
					fFn(func(x *State) int {
						for _, cl := range []string{"w", "o"} {
							if nestedChecked(x, base(cl)) == no {
								return yes
							}
						}
						return unknown
					}))
			}
			if _, ok := facets["Items"]; ok {
				it := l0.field(tv, tp, "Items")
				nested("the type of items", fNil(it), func(string) *Val { return it })
			}
			if ft, ok := facets["AnyOf"]; ok {
				et := ft.Underlying().(*types.Slice).Elem()
				any := l0.field(tv, tp, "AnyOf")
				nested("a member", fOr(fNil(any), fAtom(vApp("<=", vApp("len", any), vInt(0)))), func(cl string) *Val { return l0.elem(any, cl, et) })
			}
			propsOf := func(f, pn string) (*Val, types.Type, form) {
				m := l0.field(tv, tp, f)
				pt := c.P.Pkg.Pkg.Scope().Lookup(pn).Type()
				return m, pt, fOr(fNil(m), fAtom(vApp("<=", vApp("len", m), vInt(0))))
			}
			if _, ok := facets["PatternProperties"]; ok {
				pp, pt, empty := propsOf("PatternProperties", "PatternProperty")
				nested("a pattern property", empty, func(cl string) *Val {
					b, _ := l0.sub(l0.elem(pp, cl, pt), pt, "Base")
					return b
				})
				ap := l0.field(tv, tp, "AdditionalProperties")
				apv := l0.deref(ap, tBool)
				add("pattern properties although additional ones are forbidden", fOr(empty, fNil(ap), fAtom(apv)),
					fAnd(fNot(fNil(pp)), fNot(fNil(ap)), fNot(fAtom(apv))))
			}
			if _, ok := facets["Properties"]; ok {
				ps, pt, empty := propsOf("Properties", "Property")
				nested("a property", empty, func(cl string) *Val {
					b, _ := l0.sub(l0.elem(ps, cl, pt), pt, "Base")
					return b
				})
				d := l0.field(tv, tp, "Discriminator")
				dn := l0.deref(d, tStr)
				has := vApp("in", ps, dn)
				// which property it is: the distinguished one, another one, or one found by name
				bases := []*Val{}
				for _, k := range []*Val{dn, keyOf(ps, "w"), keyOf(ps, "o")} {
					b, _ := l0.sub(l0.in.loadPlace(l0.st, ps.key, "{"+k.key+"}", pt), pt, "Base")
					bases = append(bases, b)
				}
				for _, cl := range []string{"w", "o"} {
					b, _ := l0.sub(l0.elem(ps, cl, pt), pt, "Base")
					bases = append(bases, b)
				}
				found := fOr(fAtom(has), fAtom(eqAtom(keyOf(ps, "w"), dn)), fAtom(eqAtom(keyOf(ps, "o"), dn)))
				scalar := func(x *State, want int) int {
					for _, e := range x.events {
						if e.named("IsScalar") && len(e.Res) == 1 {
							for _, b := range bases {
								if e.Args[0] == b || strings.HasPrefix(e.Args[0].key, b.key+".Shape") {
									if q := x.query(e.Res[0]); q != unknown {
										return b2i(q == want)
									}
								}
							}
						}
					}
					for at, truth := range x.f.B {
						if strings.Contains(at.key, "IsScalar") {
							for _, b := range bases {
								if strings.Contains(at.key, b.key) {
									return b2i((truth && want == yes) || (!truth && want == no))
								}
							}
						}
					}
					return unknown
				}
				add("the discriminator is no declared property", fOr(fNil(d), found), fAnd(fNot(fNil(d)), fOr(empty, fNot(fAtom(has)))))
				add("the discriminator is not scalar", fOr(fNil(d), fFn(func(x *State) int { return scalar(x, yes) })),
					fAnd(fNot(fNil(d)), fFn(func(x *State) int { return scalar(x, no) })))
				dv := l0.field(tv, tp, "DiscriminatorValue")
				fits := func(x *State) int {
					for _, e := range x.events {
						if !e.named("Validate") && !e.named("validate") {
							continue
						}
						okBase := false
						for _, b := range bases {
							if e.Args[0] == b || strings.HasPrefix(e.Args[0].key, b.key+".Shape") {
								okBase = true
							}
						}
						if okBase && len(e.Args) > 1 && sameValue(e.Args[1], dv) {
							if er := e.errRes(); er != nil {
								return x.nilness(er)
							}
						}
					}
					return unknown
				}
				add("the discriminator value does not fit", fOr(fNil(d), fNil(dv), fFn(fits)), fAnd(fNot(fNil(d)), fNot(fNil(dv)), fNot(fFn(fits))))
			}
			if t.Obj().Name() == "UnknownShape" {
				c.holds(!o.success(), "a contradiction is refused", name+": unknown kind", "accepts a type of unknown kind", o.Where)
				continue
			}
			if o.success() {
				nOk++
				for _, k := range cs {
					c.holds(s.implies(k.absent), "a contradiction is refused", name+": "+k.name, "accepts a type with this contradiction", o.Where)
				}
			} else {
				nBad++
				var ps []form
				for _, k := range cs {
					ps = append(ps, k.present)
				}
				c.holds(len(ps) > 0 && s.implies(fOr(ps...)), "a refusal has a reason", name, "refuses a type that has no contradiction", o.Where)
			}
			rec++
			for _, m := range s.muts {
				c.fail("coverage", name, "writes to "+m.Obj+m.Path)
			}
		}
		if t.Obj().Name() != "UnknownShape" {
			c.holds(nOk > 0, "consistent types pass", name, "no path accepts", FuncName(fn))
		}
	}
	// the check of a type is that of its kind
	if fn := c.method("BaseShape", "Check"); fn != nil {
		outs := errCases(c.explore(fn, runOpt{boundary: bounds("check")}))
		for i := range outs {
			o := &outs[i]
			s := o.St
			c.debugState = s
			e := o.call(func(e *Event) bool { return strings.HasSuffix(e.Name, "check") })
			want := yes
			if !o.success() {
				want = no
			}
			c.holds(e != nil && s.nilness(e.errRes()) == want, "the kind decides", "BaseShape.Check", "does not answer what the check of the kind answers", o.Where)
		}
	}
	c.floor("consistent types pass", 16)
	c.floor("a contradiction is refused", 40)
	c.floor("a refusal has a reason", 20)
	c.floor("the kind decides", 2)
	_ = rec
}

package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C02", "path-sensitive abstract interpretation of every inherit method: facets after the call against the merging rule of each facet", checkC02)
	register("C03", "path-sensitive abstract interpretation of every alias method: facets after the call against those of the target", checkC03)
}

type facetInfo struct {
	name string
	typ  types.Type
}

// facets lists the facets of a kind of type: the fields of its struct and of the structs embedded in it.
func (c *Ctx) facets(t *types.Named) []facetInfo {
	var r []facetInfo
	var walk func(s *types.Struct)
	walk = func(s *types.Struct) {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if f.Embedded() {
				if _, isPtr := f.Type().Underlying().(*types.Pointer); isPtr {
					continue // the common attributes
				}
				if e, ok := f.Type().Underlying().(*types.Struct); ok {
					walk(e)
				}
				continue
			}
			r = append(r, facetInfo{f.Name(), f.Type()})
		}
	}
	walk(t.Underlying().(*types.Struct))
	return r
}

// merge is one analysed path of a method that combines a type with another one.
type merge struct {
	c      *Ctx
	t      *types.Named
	o      *Outcome
	l, l0  look
	parent *Val // the other type, seen as the same kind; nil if it is of another kind
}

func (c *Ctx) newMerge(t *types.Named, o *Outcome, st *State, parent *Val) *merge {
	return &merge{c, t, o, c.look(st), c.look(newState()), parent}
}

func (m *merge) tp() types.Type          { return types.NewPointer(m.t) }
func (m *merge) own(f string) *Val       { return m.l0.field(vSym("t", m.tp()), m.tp(), f) }
func (m *merge) theirs(f string) *Val    { return m.l0.field(m.parent, m.tp(), f) }
func (m *merge) final(f string) *Val     { return m.l.field(vSym("t", m.tp()), m.tp(), f) }
func (m *merge) finalThem(f string) *Val { return m.l.field(m.parent, m.tp(), f) }

// same tells whether two values are known to be the same.
func (s *State) same(a, b *Val) bool {
	if a == b {
		return true
	}
	if s.nilness(a) == yes && s.nilness(b) == yes {
		return true
	}
	return s.queryEq(a, b) == yes
}

func fSame(a, b *Val) form { return fFn(func(s *State) int { return triBool(s.same(a, b)) }) }

// triBool: yes or unknown.
func triBool(b bool) int {
	if b {
		return yes
	}
	return unknown
}

// unset tells that a facet is not declared.
func unset(v *Val, t types.Type) form {
	if isString(t) {
		return fAtom(eqAtom(v, vStr("")))
	}
	if _, ok := t.Underlying().(*types.Slice); ok {
		return fNil(v)
	}
	return fNil(v)
}

// relation of a facet's values: own is looser than theirs.
func (m *merge) looser(f facetInfo) (form, bool) {
	a, b := m.own(f.name), m.theirs(f.name)
	pair := func(op string) form {
		if isBigInt(f.typ) {
			return fSome(vApp(op, vApp("big", a), vApp("big", b)))
		}
		pt, ok := f.typ.Underlying().(*types.Pointer)
		if !ok {
			return fSome(vApp(op, a, b))
		}
		return fSome(vApp(op, m.l0.deref(a, pt.Elem()), m.l0.deref(b, pt.Elem())))
	}
	switch f.name {
	case "Minimum", "MinLength", "MinItems", "MinProperties":
		return pair("<"), true
	case "Maximum", "MaxLength", "MaxItems", "MaxProperties":
		return pair(">"), true
	case "UniqueItems":
		return fAnd(fAtom(m.l0.deref(b, tBool)), fNot(fAtom(m.l0.deref(a, tBool)))), true
	case "Format":
		x, y := m.l0.deref(a, tStr), m.l0.deref(b, tStr)
		same := fFn(func(s *State) int {
			if s.query(eqAtom(x, y)) == yes {
				return yes
			}
			// equal in a table of formats; one that is in no table is refused elsewhere
			for at, truth := range s.f.B {
				if at.isApp("in") && !truth && (at.A[1] == x || at.A[1] == y) {
					return b2i(m.o.success())
				}
			}
			for at, truth := range s.f.B {
				if at.isApp("==") && tableLookup(at.A[0], x, y) && tableLookup(at.A[1], x, y) && at.A[0] != at.A[1] {
					return b2i(truth)
				}
			}
			for k, mk := range s.f.M {
				if tableLookup(k.a, x, y) && tableLookup(k.b, x, y) && k.a != k.b {
					switch {
					case mk == mE:
						return yes
					case mk&mE == 0:
						return no
					}
				}
			}
			for k, e := range s.f.E {
				if tableLookup(k, x, y) && tableLookup(e, x, y) && k != e {
					return yes
				}
			}
			return s.query(eqAtom(x, y))
		})
		return fNot(same), true
	case "Enum", "FileTypes":
		if m.t.Obj().Name() == "UnionShape" {
			return form{}, false
		}
		et := f.typ.Underlying().(*types.Slice).Elem()
		eq := func(pc, oc string) []*Val {
			x, _ := m.l0.sub(m.l0.elem(b, pc, et), et, "Value")
			y, _ := m.l0.sub(m.l0.elem(a, oc, et), et, "Value")
			if x.key > y.key {
				x, y = y, x
			}
			return []*Val{vApp("eqv", x, y), vApp("deepeq", x, y), eqAtom(x, y)}
		}
		ownEmpty := fAtom(vApp("<=", vApp("len", a), vInt(0)))
		theirsEmpty := fAtom(vApp("<=", vApp("len", b), vInt(0)))
		if m.o.success() {
			return fNot(fOr(ownEmpty, fFn(func(s *State) int {
				for _, pc := range []string{"w", "o"} {
					for _, x := range eq(pc, "w") {
						if s.known(x, true) {
							return yes
						}
						if s.some(func(v *Val) bool { return v == x }) == yes {
							return yes
						}
					}
				}
				return unknown
			}))), true
		}
		return fAnd(fNot(ownEmpty), fOr(theirsEmpty, fFn(func(s *State) int {
			for _, oc := range []string{"w", "o"} {
				for _, x := range eq("w", oc) {
					if s.query(x) == no || s.some(func(v *Val) bool { return v == vApp("not", x) }) == yes {
						return yes
					}
				}
			}
			return unknown
		}))), true
	}
	return form{}, false
}

// tableLookup recognises the entry of a table for one of the keys.
func tableLookup(v, x, y *Val) bool {
	return v != nil && (strings.Contains(v.key, "{"+x.key+"}") || strings.Contains(v.key, "{"+y.key+"}") ||
		v.K == KApp && v.S != "conv" && len(v.A) == 2 && (v.A[1] == x || v.A[1] == y)) && v != x && v != y
}

// free facets may be overridden freely.
var freeFacets = map[string]bool{"MultipleOf": true, "Pattern": true, "AdditionalProperties": true, "Discriminator": true}

// inheritEvent finds the call that makes a nested type inherit from another one.
func inheritEvent(s *State, target, source *Val) *Event {
	for _, e := range s.events {
		if e.named("Inherit") && len(e.Args) >= 2 && e.Args[0] == target && e.Args[1] == source {
			return e
		}
	}
	return nil
}

// checkC02 decides the merging of facets.
func checkC02(c *Ctx) {
	n := 0
	for _, t := range c.shapeTypes() {
		fn := c.method(t.Obj().Name(), "inherit")
		if fn == nil {
			continue
		}
		n++
		c.checkInherit(t, fn)
	}
	c.floor("kind", 17)
	c.floor("facet after inheriting", 100)
	c.floor("refusal has a reason", 30)
	c.checkBaseInherit()
	c.checkUnionInherit()
	c.checkParents()
}

func (c *Ctx) checkInherit(t *types.Named, fn *ssa.Function) {
	name := t.Obj().Name() + ".inherit"
	facets := c.facets(t)
	outs := errCases(c.explore(fn, runOpt{budget: 40_000_000, boundary: bounds("Inherit", "CloneDetached", "Clone", "clone", "validate", "Check", "check")}))
	p1 := vSym("p1", fn.Params[1].Type())
	tp := types.NewPointer(t)
	never := t.Obj().Name() == "UnknownShape" || t.Obj().Name() == "RecursiveShape"
	rec := c.P.Pkg.Pkg.Scope().Lookup("RecursiveShape")
	nOk := 0
	for i := range outs {
		o := &outs[i]
		c.debugState = o.St
		st := o.St
		// the parent as the same kind of type
		l0 := c.look(newState())
		parent := l0.in.view(p1, tp)
		isKind := fIs(p1, tp)
		if t.Obj().Name() == "ObjectShape" && rec != nil && st.queryIs(p1, types.NewPointer(rec.Type())) == yes {
			// an object may inherit from the type that a recursive one stands for
			head, ht := l0.fieldT(l0.in.view(p1, types.NewPointer(rec.Type())), types.NewPointer(rec.Type()), "Head")
			hs, _ := l0.fieldT(head, ht, "Shape")
			parent = l0.in.view(hs, tp)
			isKind = fIs(hs, tp)
		}
		m := c.newMerge(t, o, st, parent)
		if o.success() {
			nOk++
			if never {
				c.fail("kind", name, "a type of this kind inherits from another one", o.Where)
				continue
			}
			if !c.holds(st.implies(isKind), "kind", name, "inherits from a type of another kind", o.Where) {
				continue
			}
			c.holds(retIs(o.Ret[0], "t"), "kind", name+": result", "does not return the type that inherits", o.Where)
			for _, f := range facets {
				c.checkFacetMerge(m, name, f)
			}
			for _, mu := range st.muts {
				if strings.HasPrefix(mu.Obj, "res") && strings.Contains(mu.Obj, ".Clone") {
					continue // a copy
				}
				c.holds(strings.HasPrefix(mu.Obj, "t.") || mu.Obj == "t", "only the heir changes", name, "changes "+mu.Obj+mu.Path, o.Where)
			}
			continue
		}
		if never {
			c.ok("kind", name)
			continue
		}
		// a refusal: another kind of type, a looser facet, or a nested type that cannot inherit
		reasons := []form{fNot(isKind)}
		for _, f := range facets {
			if lo, ok := m.looser(f); ok {
				reasons = append(reasons, fAnd(fNot(unset(m.own(f.name), f.typ)), fNot(unset(m.theirs(f.name), f.typ)), lo))
			}
		}
		reasons = append(reasons, fConst(m.nestedRefusal()))
		c.holds(st.implies(fOr(reasons...)), "refusal has a reason", name, "refuses a type whose facets are not looser than the parent's", o.Where)
	}
	if !never {
		c.holds(nOk > 0, "kind", name+": never inherits", "no path inherits", FuncName(fn))
	}
}

func retIs(v *Val, obj string) bool {
	if v == nil {
		return false
	}
	if v.K == KIface {
		v = v.A[0]
	}
	return v.key == obj
}

// nestedRefusal tells whether a nested type could not inherit or a required property was made optional.
func (m *merge) nestedRefusal() bool {
	s := m.o.St
	if m.t.Obj().Name() == "UnionShape" {
		return true // decided by checkUnionInherit
	}
	for _, e := range s.events {
		if e.named("Inherit") {
			if er := e.errRes(); er != nil && s.nilness(er) == no {
				return true
			}
		}
	}
	switch m.t.Obj().Name() {
	case "ObjectShape":
		own, theirs := m.own("Properties"), m.theirs("Properties")
		pt := m.c.P.Pkg.Pkg.Scope().Lookup("Property").Type()
		for _, cl := range []string{"w", "o"} {
			key := keyOf(theirs, cl)
			tr, _ := m.l0.sub(m.l0.elem(theirs, cl, pt), pt, "Required")
			or, _ := m.l0.sub(m.l0.in.loadPlace(m.l0.st, own.key, "{"+key.key+"}", pt), pt, "Required")
			if s.query(tr) == yes && s.query(or) == no && s.query(vApp("in", own, key)) == yes {
				return true
			}
		}
	case "JSONShape":
		a, b := m.own("Raw"), m.theirs("Raw")
		if a != nil && b != nil {
			return s.query(eqAtom(a, b)) == no && s.query(eqAtom(a, vStr(""))) == no && s.query(eqAtom(b, vStr(""))) == no
		}
	}
	return false
}

// checkFacetMerge compares a facet after a successful call with the rule.
func (c *Ctx) checkFacetMerge(m *merge, name string, f facetInfo) {
	s := m.o.St
	own, theirs, final := m.own(f.name), m.theirs(f.name), m.final(f.name)
	what := name + ": " + f.name
	no := func(cond bool, detail string) {
		c.holds(cond, "facet after inheriting", what, detail, m.o.Where)
	}
	uo, ut := unset(own, f.typ), unset(theirs, f.typ)
	switch {
	case f.name == "DiscriminatorValue":
		// belongs to the type that declares it
		no(s.implies(fOr(fSame(final, own), fAnd(uo, fSame(final, theirs)))), "is neither kept nor inherited")
		return
	case m.t.Obj().Name() == "JSONShape":
		no(s.implies(fOr(fSame(final, own), fSame(final, theirs))), "is neither kept nor inherited")
		return
	case m.t.Obj().Name() == "UnionShape":
		return // decided by checkUnionInherit
	case f.name == "Items":
		no(s.implies(fImp(uo, fSame(final, theirs))), "an absent facet does not take the parent's value")
		no(s.implies(fImp(fAnd(fNot(uo), ut), fSame(final, own))), "a declared facet is lost")
		no(s.implies(fImp(fAnd(fNot(uo), fNot(ut)), fFn(func(x *State) int {
			e := inheritEvent(x, own, theirs)
			return triBool(e != nil && x.nilness(e.errRes()) == yes && (x.same(final, e.Res[0]) || x.same(final, own)))
		}))), "the items do not inherit from the parent's items")
		return
	case f.name == "Properties" || f.name == "PatternProperties":
		c.checkPropMerge(m, what, f)
		return
	}
	no(s.implies(fImp(uo, fSame(final, theirs))), "an absent facet does not take the parent's value")
	no(s.implies(fImp(fNot(uo), fSame(final, own))), "a declared facet is lost")
	if lo, ok := m.looser(f); ok {
		c.holds(s.implies(fOr(uo, ut, fNot(lo))), "looser facets are refused", what, "accepts a type whose facet was not found to be as strict as the parent's", m.o.Where)
	} else if !freeFacets[f.name] {
		c.fail("coverage", what, "no rule says when this facet is looser than the parent's")
	}
}

// sameEntry compares two properties field by field.
func (m *merge) sameEntry(s *State, a, b *Val, t types.Type, except string) bool {
	st := structOf(t)
	if st == nil || a == nil || b == nil {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == except {
			continue
		}
		x, y := fieldOf(a, t, i), fieldOf(b, t, i)
		if !s.same(x, y) {
			return false
		}
	}
	return true
}

func (c *Ctx) checkPropMerge(m *merge, what string, f facetInfo) {
	s := m.o.St
	own, theirs, final := m.own(f.name), m.theirs(f.name), m.final(f.name)
	pn := "Property"
	if f.name == "PatternProperties" {
		pn = "PatternProperty"
	}
	pt := c.P.Pkg.Pkg.Scope().Lookup(pn).Type()
	no := func(cond bool, detail string) {
		c.holds(cond, "facet after inheriting", what, detail, m.o.Where)
	}
	uo, ut := fNil(own), fNil(theirs)
	empty := fAtom(vApp("<=", vApp("len", theirs), vInt(0)))
	key := keyOf(theirs, "w")
	entryOf := func(coll *Val) *Val { return m.l.in.loadPlace(s, placeName(coll), "{"+key.key+"}", pt) }
	sw := m.l0.elem(theirs, "w", pt)
	copied := fFn(func(x *State) int {
		// a copy that has the parent's entries
		o, _, ok := objOf(final)
		return triBool(ok && s.isFresh(o) && m.sameEntry(s, entryOf(final), sw, pt, ""))
	})
	no(s.implies(fImp(uo, fOr(fSame(final, theirs), copied, fAnd(empty, fSame(final, own)), fAnd(ut, fSame(final, own))))), "absent properties do not take the parent's")
	no(s.implies(fImp(fAnd(fNot(uo), fOr(ut, empty)), fSame(final, own))), "the declared properties are lost")
	both := fAnd(fNot(uo), fNot(ut), fNot(empty))
	if s.implies(fNot(both)) {
		return
	}
	no(s.implies(fImp(both, fSame(final, own))), "the declared properties are lost")
	has := vApp("in", own, key)
	ent := entryOf(final)
	no(s.implies(fImp(fAnd(both, fNot(fAtom(has))), fFn(func(x *State) int { return triBool(m.sameEntry(x, ent, sw, pt, "")) }))),
		"a property of the parent that the type lacks is not added as it is")
	ow := m.l0.in.loadPlace(m.l0.st, own.key, "{"+key.key+"}", pt)
	ob, _ := m.l0.sub(ow, pt, "Base")
	sb, _ := m.l0.sub(sw, pt, "Base")
	eb, _ := m.l.sub(ent, pt, "Base")
	no(s.implies(fImp(fAnd(both, fAtom(has)), fFn(func(x *State) int {
		e := inheritEvent(x, ob, sb)
		if e == nil || x.nilness(e.errRes()) != yes {
			return unknown
		}
		return triBool((x.same(eb, e.Res[0]) || x.same(eb, ob)) && m.sameEntry(x, ent, ow, pt, "Base"))
	}))), "a redeclared property does not inherit from the parent's")
	if sr, _ := m.l0.sub(sw, pt, "Required"); sr != nil {
		or, _ := m.l0.sub(ow, pt, "Required")
		c.holds(s.implies(fImp(fAnd(both, fAtom(has)), fOr(fNot(fAtom(sr)), fAtom(or)))), "looser facets are refused", what,
			"accepts a required property that was made optional", m.o.Where)
	}
	// nothing else is written into the properties
	for _, mu := range s.muts {
		if mu.Obj != own.key || !strings.HasPrefix(mu.Path, "{") {
			continue
		}
		okKey := mu.Path == "{"+key.key+"}" || mu.Path == "{"+keyOf(theirs, "o").key+"}"
		no(okKey, "writes a property of another name: "+mu.Path)
	}
}

func placeName(coll *Val) string {
	o, p, ok := objOf(coll)
	if !ok {
		return coll.key
	}
	return o + p
}

// ---- BaseShape.Inherit ----

func (c *Ctx) checkBaseInherit() {
	fn := c.method("BaseShape", "Inherit")
	if fn == nil {
		return
	}
	name := "BaseShape.Inherit"
	outs := errCases(c.explore(fn, runOpt{boundary: bounds("inherit", "inheritUnionSource", "inheritUnionTarget", "Inherit", "callRAMLHooks", "callHooks")}))
	bt := fn.Signature.Recv().Type()
	t, p := vSym("t", bt), vSym("p1", bt)
	l0 := c.look(newState())
	ty := func(n string) types.Type {
		o := c.P.Pkg.Pkg.Scope().Lookup(n)
		if o == nil {
			c.fail("anchor", n, "does not exist any more")
			return tAny
		}
		return types.NewPointer(o.Type())
	}
	tAnyS, tUnion := ty("AnyShape"), ty("UnionShape")
	f := func(l look, x *Val, n string) *Val { return l.field(x, bt, n) }
	source, target := f(l0, p, "Shape"), f(l0, t, "Shape")
	visited := f(l0, p, "ShapeVisited")
	for i := range outs {
		o := &outs[i]
		s := o.St
		c.debugState = s
		l := c.look(s)
		called := func(n string, args ...*Val) *Event {
			return o.call(func(e *Event) bool {
				if !e.named(n) {
					return false
				}
				for j, a := range args {
					if a != nil && (j >= len(e.Args) || !sameValue(e.Args[j], a)) {
						return false
					}
				}
				return true
			})
		}
		okOf := func(e *Event) bool { return e != nil && s.nilness(e.errRes()) == yes }
		if !o.success() {
			// some step failed
			bad := false
			for _, e := range s.events {
				if er := e.errRes(); er != nil && s.nilness(er) == no {
					bad = true
				}
			}
			c.holds(bad, "refusal has a reason", name, "refuses although no step failed", o.Where)
			continue
		}
		if s.query(visited) == yes {
			c.holds(len(s.muts) == 0 && retIs(o.Ret[0], "t"), "recursion", name, "changes a type while it is being inherited from", o.Where)
			continue
		}
		// common attributes
		d0, d1 := f(l0, t, "Description"), f(l0, p, "Description")
		c.holds(s.implies(fImp(fNil(d0), fSame(f(l, t, "Description"), d1))), "facet after inheriting", name+": description", "an absent description is not taken over", o.Where)
		c.holds(s.implies(fImp(fNot(fNil(d0)), fSame(f(l, t, "Description"), d0))), "facet after inheriting", name+": description", "the own description is lost", o.Where)
		cf0, cf1, cf := f(l0, t, "CustomShapeFacets"), f(l0, p, "CustomShapeFacets"), f(l, t, "CustomShapeFacets")
		key := keyOf(cf1, "w")
		has := vApp("in", cf0, key)
		nt := ty("Node")
		entry := l.in.loadPlace(s, cf0.key, "{"+key.key+"}", nt)
		sw := l0.elem(cf1, "w", nt)
		empty := fOr(fNil(cf1), fAtom(vApp("<=", vApp("len", cf1), vInt(0))))
		what := name + ": custom facet values"
		c.holds(s.implies(fImp(fNot(fNil(cf0)), fSame(cf, cf0))), "facet after inheriting", what, "the own values are lost", o.Where)
		c.holds(s.implies(fImp(fNil(cf0), fOr(fSame(cf, cf1), empty))), "facet after inheriting", what, "absent values are not taken over", o.Where)
		c.holds(s.implies(fOr(fNil(cf0), empty, fAtom(has), fSame(entry, sw))), "facet after inheriting", what, "a value that the type lacks is not taken over", o.Where)
		own0 := l0.in.loadPlace(l0.st, cf0.key, "{"+key.key+"}", nt)
		c.holds(s.implies(fOr(fNil(cf0), empty, fNot(fAtom(has)), fSame(entry, own0))), "facet after inheriting", what, "an own value is overwritten", o.Where)
		// the facets of the kind
		isAny := fIs(source, tAnyS)
		su, tu := fIs(source, tUnion), fIs(target, tUnion)
		srcU := l0.in.view(source, tUnion)
		tgtU := l0.in.view(target, tUnion)
		merged := o.call(func(e *Event) bool {
			return e.named("inherit") && len(e.Args) == 2 && strip(e.Args[0]) == strip(target) && strip(e.Args[1]) == strip(source)
		})
		c.holds(s.implies(fOr(isAny, fAnd(su, fNot(tu)), fAnd(tu, fNot(su)), fConst(okOf(merged)))), "facets are merged", name,
			"succeeds without merging the facets", o.Where)
		c.holds(s.implies(fImp(fAnd(fNot(isAny), su, fNot(tu)), fFn(func(x *State) int {
			e := called("inheritUnionSource", t, srcU)
			return triBool(okOf(e) && sameValue(o.Ret[0], e.Res[0]))
		}))), "facets are merged", name+": union parent", "does not return the members that are compatible with the parent", o.Where)
		c.holds(s.implies(fImp(fAnd(fNot(isAny), tu, fNot(su)), fFn(func(x *State) int {
			e := called("inheritUnionTarget", p, tgtU)
			return triBool(okOf(e) && retIs(o.Ret[0], "t"))
		}))), "facets are merged", name+": union heir", "the members do not inherit from the parent", o.Where)
		if s.implies(fOr(isAny, fAnd(su, tu), fAnd(fNot(su), fNot(tu)))) {
			c.holds(retIs(o.Ret[0], "t"), "facets are merged", name+": result", "does not return the type that inherits", o.Where)
		}
	}
	// the members of a union that inherits
	if fn := c.method("BaseShape", "inheritUnionTarget"); fn != nil {
		name := "BaseShape.inheritUnionTarget"
		ut := ty("UnionShape")
		any, at := l0.fieldT(vSym("p1", ut), ut, "AnyOf")
		et := at.Underlying().(*types.Slice).Elem()
		for _, o := range errCases(c.explore(fn, runOpt{boundary: bounds("Inherit", "callRAMLHooks", "callHooks")})) {
			s := o.St
			c.debugState = s
			empty := fAtom(vApp("<=", vApp("len", any), vInt(0)))
			e := inheritEvent(s, l0.elem(any, "w", et), t)
			if o.success() {
				c.holds(s.implies(fOr(fNil(any), empty, fConst(e != nil && s.nilness(e.errRes()) == yes))), "members inherit", name, "a member of the union does not inherit", o.Where)
				continue
			}
			c.holds(c.anyFailed(&o), "refusal has a reason", name, "refuses although every member inherits", o.Where)
		}
	}
}

// strip gives the value of which v is the content or the view as a concrete type.
func strip(v *Val) string {
	k := v.key
	if v.K == KIface {
		k = v.A[0].key
	}
	if i := strings.LastIndexByte(k, '!'); i > 0 && strings.HasPrefix(k[i:], "!*") && !strings.ContainsAny(k[i:], ".[(") {
		k = k[:i]
	}
	return k
}

// anyFailed tells whether a step of the path, or of an iteration that was left behind, failed.
func (c *Ctx) anyFailed(o *Outcome) bool {
	s := o.St
	for _, e := range s.events {
		if er := e.errRes(); er != nil && s.nilness(er) == no {
			return true
		}
	}
	for _, j := range s.joints {
		for _, a := range j.v.A {
			if strings.HasPrefix(a.key, "not(nil(err:") {
				return true
			}
		}
	}
	for f := range s.f.Ex {
		if f.v.isApp("nil") && !f.truth && strings.HasPrefix(f.v.A[0].key, "err:") {
			return true
		}
	}
	return false
}

// ---- unions ----

func (c *Ctx) checkUnionInherit() {
	obj := c.P.Pkg.Pkg.Scope().Lookup("UnionShape")
	if obj == nil {
		c.fail("anchor", "UnionShape", "does not exist any more")
		return
	}
	t := obj.Type().(*types.Named)
	tp := types.NewPointer(t)
	l0 := c.look(newState())
	pure := bounds("Inherit", "CloneDetached", "Clone", "clone", "callRAMLHooks", "callHooks")
	// both are unions
	if fn := c.method("UnionShape", "inherit"); fn != nil {
		name := "UnionShape.inherit"
		p1 := vSym("p1", fn.Params[1].Type())
		parent := l0.in.view(p1, tp)
		own, at := l0.fieldT(vSym("t", tp), tp, "AnyOf")
		theirs := l0.field(parent, tp, "AnyOf")
		et := at.Underlying().(*types.Slice).Elem()
		typeOf := func(m *Val) *Val { return l0.field(m, et, "Type") }
		for _, o := range errCases(c.explore(fn, runOpt{boundary: pure})) {
			o := o
			s := o.St
			c.debugState = s
			if s.queryIs(p1, tp) != yes {
				c.holds(!o.success(), "kind", name, "inherits from a type of another kind", o.Where)
				continue
			}
			final := c.look(s).field(vSym("t", tp), tp, "AnyOf")
			ownEmpty := fOr(fNil(own), fAtom(vApp("<=", vApp("len", own), vInt(0))))
			theirsEmpty := fOr(fNil(theirs), fAtom(vApp("<=", vApp("len", theirs), vInt(0))))
			pairRes := func(oc, pc string) (same int, e *Event) {
				a, b := l0.elem(own, oc, et), l0.elem(theirs, pc, et)
				same = s.query(eqAtom(typeOf(a), typeOf(b)))
				return same, c.inheritsInto(&o, a, b)
			}
			if o.success() {
				c.holds(s.implies(fImp(ownEmpty, fSame(final, theirs))), "facet after inheriting", name+": AnyOf", "absent members do not take the parent's", o.Where)
				if s.implies(fOr(ownEmpty, theirsEmpty)) {
					continue
				}
				same, e := pairRes("w", "w")
				switch {
				case same == no:
					c.ok("members", name)
				case same == yes && e != nil && s.nilness(e.errRes()) == yes:
					c.holds(listHas(final, e.Res[0]) || listHas(final, e.Args[0]), "members", name, "a member that inherits from a compatible member of the parent is left out", o.Where)
				case same == yes && e != nil && s.nilness(e.errRes()) == no:
					c.holds(!listHas(final, e.Res[0]) && !listHas(final, e.Args[0]), "members", name, "keeps a member that cannot inherit", o.Where)
				default:
					c.fail("members", name, "does not try every member of the same type", o.Where)
				}
				continue
			}
			// a member of the parent has no counterpart
			bad := false
			for _, pc := range []string{"w", "o"} {
				same, e := pairRes("w", pc)
				if same == no || (e != nil && s.nilness(e.errRes()) == no) {
					bad = true
				}
			}
			c.holds(bad || s.implies(ownEmpty), "refusal has a reason", name, "refuses although there are compatible members", o.Where)
		}
	}
	// only the parent is a union
	if fn := c.method("BaseShape", "inheritUnionSource"); fn != nil {
		name := "BaseShape.inheritUnionSource"
		p1 := vSym("p1", tp)
		any, at := l0.fieldT(p1, tp, "AnyOf")
		et := at.Underlying().(*types.Slice).Elem()
		bt := fn.Signature.Recv().Type()
		tv := vSym("t", bt)
		anyS := c.P.Pkg.Pkg.Scope().Lookup("AnyShape")
		for _, o := range errCases(c.explore(fn, runOpt{boundary: pure})) {
			o := o
			s := o.St
			c.debugState = s
			if ev := o.eventsNamed("callRAMLHooks", "callHooks"); len(ev) > 0 && s.nilness(ev[0].errRes()) == no {
				c.holds(!o.success(), "refusal has a reason", name, "ignores a hook that failed", o.Where)
				continue
			}
			w := l0.elem(any, "w", et)
			member := func(cl string) (isAny, same int, e *Event) {
				m := l0.elem(any, cl, et)
				sh := l0.field(m, et, "Shape")
				if anyS != nil {
					isAny = s.queryIs(sh, types.NewPointer(anyS.Type()))
				}
				return isAny, s.query(eqAtom(l0.field(m, et, "Type"), l0.field(tv, bt, "Type"))), c.inheritsInto(&o, tv, m)
			}
			_ = w
			empty := fOr(fNil(any), fAtom(vApp("<=", vApp("len", any), vInt(0))))
			isAny, same, e := member("w")
			lf := c.look(s)
			if o.success() {
				if retIs(o.Ret[0], "t") && !mutates(s, "t") {
					// any type is among the members
					isAnyO, _, _ := member("o")
					c.holds(isAny == yes || isAnyO == yes, "members", name, "leaves the type as it is without any type among the parent's members", o.Where)
					continue
				}
				var res []*Val
				if retIs(o.Ret[0], "t") {
					sh := lf.field(tv, bt, "Shape")
					ok := sh.K == KIface && types.Identical(sh.A[0].T, tp)
					if ok {
						back, _ := lf.fieldT(sh.A[0], tp, "BaseShape")
						ok = back != nil && back.key == "t" && s.same(lf.field(tv, bt, "Type"), vStr("union"))
					}
					c.holds(ok, "members", name+": result", "does not become a union of the members that are compatible", o.Where)
					if !ok {
						continue
					}
					res = []*Val{lf.field(sh.A[0], tp, "AnyOf")}
				} else {
					res = []*Val{o.Ret[0]}
				}
				has := func(v *Val) bool {
					for _, r := range res {
						if r == v || listHas(r, v) {
							return true
						}
					}
					return false
				}
				switch {
				case isAny == yes:
					c.fail("members", name, "restricts a type although the parent admits any", o.Where)
				case same == no:
					c.ok("members", name)
				case same == yes && e != nil && s.nilness(e.errRes()) == yes:
					c.holds(has(e.Res[0]), "members", name, "a member that is compatible is left out", o.Where)
				case same == yes && e != nil && s.nilness(e.errRes()) == no:
					c.holds(!has(e.Res[0]), "members", name, "keeps a member that is not compatible", o.Where)
				default:
					c.fail("members", name, "does not try every member of the same type", o.Where)
				}
				continue
			}
			c.holds(s.implies(empty) || same == no || (e != nil && s.nilness(e.errRes()) == no), "refusal has a reason", name, "refuses although a member of the parent is compatible", o.Where)
		}
	}
	c.floor("members", 10)
}

// inheritsInto finds the call that makes a copy of a inherit from b.
func (c *Ctx) inheritsInto(o *Outcome, a, b *Val) *Event {
	return o.call(func(e *Event) bool {
		if !e.named("Inherit") || len(e.Args) < 2 || e.Args[1] != b {
			return false
		}
		x := e.Args[0]
		if x == a {
			return true
		}
		for _, k := range o.St.events {
			if (k.named("CloneDetached") || k.named("Clone") || k.named("clone")) && len(k.Res) > 0 && k.Res[0] == x && k.Args[0] == a {
				return true
			}
		}
		return false
	})
}

// mutates tells whether the object is changed.
func mutates(s *State, obj string) bool {
	for _, m := range s.muts {
		if m.Obj == obj || strings.HasPrefix(m.Obj, obj+".") {
			return true
		}
	}
	return false
}

// listHas tells whether a list that was built on the path has the value as an element.
func listHas(l, v *Val) bool {
	if l == nil {
		return false
	}
	return l.contains(func(x *Val) bool { return x == v })
}

// ---- parents ----

func (c *Ctx) checkParents() {
	// a type inherits from its parents: what unwrapParents returns
	fn := c.method("RAML", "UnwrapShape")
	if fn == nil {
		return
	}
	name := "RAML.UnwrapShape"
	bt := fn.Params[1].Type()
	p := vSym("p1", bt)
	l0 := c.look(newState())
	inh, it := l0.fieldT(p, bt, "Inherits")
	link, lt := l0.fieldT(p, bt, "Link")
	et := it.Underlying().(*types.Slice).Elem()
	n := 0
	steps := bounds("UnwrapShape", "Inherit", "AliasTo")
	for _, o := range errCases(c.explore(fn, runOpt{boundary: bounds("UnwrapShape", "Inherit", "UnwrapTarget", "callHooks", "PutShape", "AliasTo"),
		model: func(in *Interp, st *State, k *Call) ([]callOut, bool) {
			// these yield a type or an error, by induction
			if !steps(k) {
				return nil, false
			}
			ev := in.event(st, k)
			bad := ev.st.clone()
			var r []callOut
			if bad.assumeNil(ev.ret[1], false) {
				r = append(r, callOut{st: bad, ret: ev.ret})
			}
			if ev.st.assumeNil(ev.ret[1], true) && ev.st.assumeNil(ev.ret[0], false) {
				r = append(r, ev)
			}
			return r, true
		}})) {
		o := o
		s := o.St
		c.debugState = s
		if !o.success() {
			continue
		}
		c.holds(s.nilness(o.Ret[0]) == no, "a result on success", name, "returns neither a type nor an error", o.Where)
		unwrapped := l0.field(p, bt, "unwrapped")
		alias := l0.field(p, bt, "Alias")
		if s.query(unwrapped) == yes || s.nilness(alias) == no {
			continue
		}
		n++
		// what the type inherits from
		var last *Event
		for _, e := range s.events {
			if e.named("Inherit") {
				last = e
			}
		}
		hasLink := s.nilness(link) == no
		hasInh := s.implies(fAnd(fNil(link), fNot(fNil(inh)), fAtom(vApp("<", vInt(0), vApp("len", inh)))))
		switch {
		case hasLink:
			ls := l0.field(link, lt, "Shape")
			u := unwrapOf(s, ls)
			c.holds(u != nil && last != nil && last.Args[0] == p && last.Args[1] == u.Res[0] && s.nilness(last.errRes()) == yes, "parents", name+": link",
				"does not inherit from the unwrapped type that it is included from", o.Where)
		case hasInh:
			// the first parent is unwrapped; so is any other one, and merged into what is inherited
			first := unwrapOf(s, l0.elem(inh, "0", et))
			if first == nil {
				for _, e := range s.events {
					if e.named("UnwrapShape") && strings.HasPrefix(e.Args[1].key, inh.key+"[") {
						first = e
						break
					}
				}
			}
			c.holds(first != nil && last != nil && last.Args[0] == p && s.nilness(last.errRes()) == yes, "parents", name+": parents", "does not inherit from its unwrapped parents", o.Where)
			if first != nil && last != nil {
				if uw := unwrapOf(s, l0.elem(inh, "w", et)); uw != nil || !s.implies(fAtom(vApp("<=", vApp("len", inh), vInt(1)))) {
					merged := uw != nil && (uw.Res[0] == first.Res[0] || o.call(func(e *Event) bool {
						return e.named("Inherit") && e.Args[1] == uw.Res[0] && s.nilness(e.errRes()) == yes
					}) != nil)
					c.holds(merged, "parents", name+": further parents", "does not inherit from every one of its parents", o.Where)
				}
				okSrc := c.derivesFrom(s, last.Args[1], first.Res[0])
				c.holds(okSrc, "parents", name+": parents", "what it inherits from does not start from its first parent", o.Where)
			}
		default:
			c.holds(last == nil, "parents", name+": none", "inherits from something although it has no parents", o.Where)
		}
	}
	c.floor("parents", 3)
	_ = n
}

func unwrapOf(s *State, v *Val) *Event {
	for _, e := range s.events {
		if e.named("UnwrapShape") && len(e.Args) > 1 && e.Args[1] == v {
			return e
		}
	}
	return nil
}

// derivesFrom tells whether v is x or the result of merging more parents into x.
func (c *Ctx) derivesFrom(s *State, v, x *Val) bool {
	for i := 0; i < 8; i++ {
		if v == x || strings.HasPrefix(v.key, "~") {
			return true
		}
		var next *Val
		for _, e := range s.events {
			if e.named("Inherit") && len(e.Res) > 0 && e.Res[0] == v {
				next = e.Args[0]
			}
		}
		if next == nil {
			return strings.Contains(v.key, x.key)
		}
		v = next
	}
	return false
}

// ---- aliases ----

func checkC03(c *Ctx) {
	for _, t := range c.shapeTypes() {
		fn := c.method(t.Obj().Name(), "alias")
		if fn == nil {
			continue
		}
		name := t.Obj().Name() + ".alias"
		tp := types.NewPointer(t)
		p1 := vSym("p1", fn.Params[1].Type())
		never := t.Obj().Name() == "UnknownShape"
		nOk := 0
		for _, o := range errCases(c.explore(fn, runOpt{})) {
			o := o
			s := o.St
			c.debugState = s
			l0 := c.look(newState())
			if !o.success() {
				c.holds(never || s.implies(fNot(fIs(p1, tp))), "kind", name, "refuses a target of the same kind", o.Where)
				c.holds(len(s.muts) == 0, "all or nothing", name, "changes the type although it fails", o.Where)
				continue
			}
			nOk++
			if never {
				c.fail("kind", name, "an unresolved type becomes an alias", o.Where)
				continue
			}
			if !c.holds(s.implies(fIs(p1, tp)), "kind", name, "accepts a target of another kind", o.Where) {
				continue
			}
			m := c.newMerge(t, &o, s, l0.in.view(p1, tp))
			for _, f := range c.facets(t) {
				fv, tv := m.final(f.name), m.theirs(f.name)
				c.holds(s.same(fv, tv) || m.copyOf(fv, tv, f.typ), "facet of the target", name+": "+f.name, "is not the target's after aliasing", o.Where)
				c.holds(s.same(m.finalThem(f.name), tv), "target unchanged", name+": "+f.name, "the target itself is changed", o.Where)
			}
			c.holds(retIs(o.Ret[0], "t"), "kind", name+": result", "does not return the alias", o.Where)
		}
		if !never {
			c.holds(nOk > 0, "kind", name+": never", "no target is accepted", FuncName(fn))
		}
	}
	c.floor("facet of the target", 30)
	c.floor("kind", 30)

	// the common attributes
	attrs := []string{"DisplayName", "Description", "Example", "Examples", "Inherits", "Default", "Required", "CustomShapeFacets", "CustomShapeFacetDefinitions", "CustomDomainProperties"}
	if fn := c.method("BaseShape", "AliasTo"); fn != nil {
		name := "BaseShape.AliasTo"
		bt := fn.Signature.Recv().Type()
		t, p := vSym("t", bt), vSym("p1", bt)
		l0 := c.look(newState())
		for _, o := range errCases(c.explore(fn, runOpt{boundary: bounds("alias")})) {
			o := o
			s := o.St
			c.debugState = s
			l := c.look(s)
			e := o.call(func(e *Event) bool { return e.named("alias") })
			good := e != nil && sameValue(e.Args[0], l0.field(t, bt, "Shape")) && sameValue(e.Args[1], l0.field(p, bt, "Shape"))
			if !o.success() {
				c.holds(good && s.nilness(e.errRes()) == no, "attributes", name+": refusal", "fails although the facets were taken over", o.Where)
				c.holds(len(s.muts) == 0, "all or nothing", name, "changes the type although it fails", o.Where)
				continue
			}
			c.holds(good && s.nilness(e.errRes()) == yes, "attributes", name+": facets", "does not take over the facets of the target", o.Where)
			for _, a := range attrs {
				x, ft := l0.fieldT(p, bt, a)
				y := l.field(t, bt, a)
				if x == nil || y == nil {
					c.fail("anchor", "BaseShape."+a, "does not exist any more")
					continue
				}
				m := &merge{c: c, o: &o, l: l, l0: l0}
				c.holds(s.same(x, y) || m.copyOf(y, x, ft), "attributes", name+": "+a, "is not the target's after aliasing", o.Where)
				c.holds(s.same(l.field(p, bt, a), x), "target unchanged", name+": "+a, "the target itself is changed", o.Where)
			}
			c.holds(retIs(o.Ret[0], "t"), "attributes", name+": result", "does not return the alias", o.Where)
		}
	}
	// an alias is replaced by what it stands for: AliasTo with the unwrapped target
	if fn := c.method("RAML", "UnwrapShape"); fn != nil {
		name := "RAML.UnwrapShape"
		bt := fn.Params[1].Type()
		p := vSym("p1", bt)
		l0 := c.look(newState())
		for _, o := range errCases(c.explore(fn, runOpt{boundary: bounds("UnwrapShape", "Inherit", "UnwrapTarget", "callHooks", "PutShape", "AliasTo", "unwrapParents")})) {
			o := o
			s := o.St
			c.debugState = s
			alias := l0.field(p, bt, "Alias")
			if !o.success() || s.nilness(alias) != no || s.query(l0.field(p, bt, "unwrapped")) == yes {
				continue
			}
			u := unwrapOf(s, alias)
			a := o.call(func(e *Event) bool { return e.named("AliasTo") })
			c.holds(u != nil && a != nil && s.nilness(u.errRes()) == yes && s.nilness(a.errRes()) == yes && a.Args[0] == p && a.Args[1] == u.Res[0] && (sameValue(o.Ret[0], a.Res[0]) || sameValue(o.Ret[0], p)),
				"alias stands for its target", name, "an alias does not get what its unwrapped target has", o.Where)
		}
		c.floor("alias stands for its target", 1)
	}
}

// copyOf tells whether a value is a fresh copy of a collection or of what a pointer points to.
func (m *merge) copyOf(v, of *Val, t types.Type) bool {
	s := m.o.St
	if s.nilness(of) == yes {
		return s.nilness(v) == yes
	}
	o, _, ok := objOf(v)
	if !ok || !s.isFresh(o) {
		// a list built from all elements
		if v.K == KSlice && len(v.A) == 1 && v.A[0].S == "spread" && v.A[0].A[0] == of {
			return true
		}
		return false
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		x, y := m.l.deref(v, pt.Elem()), m.l0.deref(of, pt.Elem())
		return s.same(x, y)
	}
	return false
}

var _ = fmt.Sprint

package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
)

// ---- known worlds: objects with given content that exist before a function is called ----

// newObj makes an object of the given pointer type whose fields have their zero values.
func newObj(st *State, name string, ptr types.Type) *Val {
	st.markFresh(name)
	return vPtr(name, "", ptr)
}

// newList makes a list of known elements.
func newList(st *State, name string, t types.Type, elems ...*Val) *Val {
	v := newObj(st, name, t)
	o := st.wobj(name)
	o["$len"] = vInt(int64(len(elems)))
	for i, e := range elems {
		st.store(name, "["+strconv.Itoa(i)+"]", e, e.T)
	}
	return v
}

// newMap makes an (ordered) map with known keys and values.
func newMap(st *State, name string, t types.Type, kv ...*Val) *Val {
	v := newObj(st, name, t)
	var parts []*Val
	for i := 0; i+1 < len(kv); i += 2 {
		parts = append(parts, vPart("one", kv[i]))
		st.store(name, "{"+kv[i].key+"}", kv[i+1], kv[i+1].T)
	}
	st.wobj(name)["$keys"] = mk(Val{K: KSlice, A: parts})
	return v
}

// newVar makes a variable and gives a pointer to it.
func newVar(st *State, name string, ptr types.Type, v *Val) *Val {
	p := newObj(st, name, ptr)
	st.store(name, "", v, v.T)
	return p
}

// nonNil makes an unknown value that is not nil.
func nonNil(st *State, name string, t types.Type) *Val {
	v := vSym(name, t)
	st.assumeNil(v, false)
	return v
}

// snapshot keeps the content of all objects.
type snapshot map[string]map[string]*Val

func (s *State) snapshot() snapshot {
	r := snapshot{}
	for o, m := range s.heap {
		c := map[string]*Val{}
		for k, v := range m {
			c[k] = v
		}
		r[o] = c
	}
	return r
}

// changed lists the places of the kept objects that have another value now.
func (r snapshot) changed(s *State) []string {
	var out []string
	for o, was := range r {
		now := s.heap[o]
		for k, v := range was {
			if now[k] != v {
				out = append(out, fmt.Sprintf("%s%s: %s -> %s", o, k, v, now[k]))
			}
		}
		for k, v := range now {
			if was[k] == nil {
				out = append(out, fmt.Sprintf("%s%s := %s", o, k, v))
			}
		}
	}
	sort.Strings(out)
	return out
}

// items lists the elements of a list whose content is known.
func (l look) items(v *Val, elem types.Type) ([]*Val, bool) {
	if v == nil {
		return nil, false
	}
	switch v.K {
	case KNil:
		return nil, true
	case KSlice:
		var r []*Val
		for _, p := range v.A {
			switch p.S {
			case "one":
				r = append(r, p.A[0])
			case "spread":
				x, ok := l.items(p.A[0], elem)
				if !ok {
					return nil, false
				}
				r = append(r, x...)
			default:
				return nil, false
			}
		}
		return r, true
	case KPtr:
		n, ok := l.in.lenOf(l.st, v).intConst()
		if !ok || !l.st.isFresh(v.S) {
			return nil, false
		}
		var r []*Val
		for i := int64(0); i < n; i++ {
			r = append(r, l.in.loadPlace(l.st, v.S, v.S2+"["+strconv.FormatInt(i, 10)+"]", elem))
		}
		return r, true
	}
	return nil, false
}

// entry is an entry of a map whose content is known.
type mapEntry struct {
	key string
	val *Val
}

// mapEntries lists the entries of a map whose content is known.
func (l look) mapEntries(m *Val, t types.Type) ([]mapEntry, bool) {
	if m == nil {
		return nil, false
	}
	if m.K == KNil {
		return nil, true
	}
	if m.K != KPtr || !l.st.isFresh(m.S) || m.S2 != "" {
		return nil, false
	}
	h := l.st.heap[m.S]
	var r []mapEntry
	if h["$keys"] == nil {
		return nil, true
	}
	for _, p := range h["$keys"].A {
		k, ok := p.A[0].strConst()
		if p.S != "one" || !ok {
			return nil, false
		}
		r = append(r, mapEntry{k, l.in.loadPlace(l.st, m.S, "{"+p.A[0].key+"}", t)})
	}
	return r, true
}

// plain removes the wrapping of a value in an interface.
func plain(v *Val) *Val {
	for v != nil && v.K == KIface {
		v = v.A[0]
	}
	return v
}

// typeWorld is a type with known attributes and facets that exists before a function is called.
type typeWorld struct {
	c           *Ctx
	st          *State
	in          *Interp
	prefix      string
	kind        *types.Named
	base, shape *Val
	baseT       types.Type
	// next makes the types that facets and attributes refer to; without it they are opaque
	next func() *typeWorld
}

// newType makes a type of the kind without any facet.
func (c *Ctx) newType(st *State, prefix, kind string) *typeWorld {
	k, bt := c.P.Named(kind), c.P.PtrTo("BaseShape")
	if k == nil || bt == nil {
		c.fail("anchor", kind, "the type does not exist any more")
		return nil
	}
	w := &typeWorld{c: c, st: st, in: NewInterp(c.P), prefix: prefix, kind: k, baseT: bt}
	w.base = newObj(st, prefix+"base", bt)
	w.shape = newObj(st, prefix+"shape", types.NewPointer(k))
	st.wobj(w.shape.S)[".BaseShape"] = w.base
	w.set("Shape", vIface(types.NewPointer(k), w.shape))
	w.set("ID", vSym(prefix+"id", types.Typ[types.Int64]))
	for _, f := range []string{"Name", "Type", "TypeLabel", "Location"} {
		w.set(f, vSym(prefix+"attr."+f, types.Typ[types.String]))
	}
	w.set("raml", nonNil(st, prefix+"raml", c.P.PtrTo("RAML")))
	for _, f := range []string{"CustomShapeFacets", "CustomShapeFacetDefinitions", "CustomDomainProperties"} {
		w.set(f, newMap(st, prefix+f, w.typeOf(f)))
	}
	return w
}

// place finds a facet or an attribute.
func (w *typeWorld) place(field string) (obj, path string, t types.Type) {
	find := func(t types.Type) (string, types.Type) {
		o, idx, _ := types.LookupFieldOrMethod(t, true, w.c.P.Pkg.Pkg, field)
		if _, ok := o.(*types.Var); !ok {
			return "", nil
		}
		p := ""
		cur := deref(t)
		for n, i := range idx {
			f := cur.Underlying().(*types.Struct).Field(i)
			if _, isPtr := f.Type().Underlying().(*types.Pointer); isPtr && n < len(idx)-1 {
				return "", nil
			}
			p += "." + f.Name()
			cur = f.Type()
		}
		return p, cur
	}
	for _, f := range w.c.facets(w.kind) {
		if f.name == field {
			p, t := find(types.NewPointer(w.kind))
			return w.shape.S, p, t
		}
	}
	p, t := find(w.baseT)
	return w.base.S, p, t
}

func (w *typeWorld) typeOf(field string) types.Type {
	_, _, t := w.place(field)
	return t
}

func (w *typeWorld) set(field string, v *Val) {
	o, p, t := w.place(field)
	if t == nil {
		w.c.fail("anchor", w.kind.Obj().Name()+"."+field, "the field does not exist any more")
		return
	}
	w.st.store(o, p, v, t)
}

func (w *typeWorld) get(st *State, field string) *Val {
	o, p, t := w.place(field)
	if t == nil {
		return nil
	}
	return w.in.loadPlace(st, o, p, t)
}

// fill gives a facet or attribute some value and returns it.
func (w *typeWorld) fill(field string) *Val {
	_, _, t := w.place(field)
	if t == nil {
		w.set(field, nil)
		return nil
	}
	v := w.some(w.prefix+"v."+field, t)
	w.set(field, v)
	return v
}

// some makes a value of the type that is not its zero value.
func (w *typeWorld) some(name string, t types.Type) *Val {
	st := w.st
	if w.next != nil {
		switch {
		case types.Identical(t, w.baseT):
			return w.next().base
		case isShapeType(w.c, t):
			return w.next().get(st, "Shape")
		case holder(w.c, t) != nil:
			v := newObj(st, name, t)
			h := holder(w.c, t)
			for i := 0; i < h.NumFields(); i++ {
				f := h.Field(i)
				st.store(name, "."+f.Name(), w.some(name+":"+f.Name(), f.Type()), f.Type())
			}
			return v
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return newList(st, name, t, w.some(name+".0", u.Elem()), w.some(name+".1", u.Elem()))
	case *types.Map:
		return newMap(st, name, t, vStr("k1"), w.some(name+".0", u.Elem()), vStr("k0"), w.some(name+".1", u.Elem()))
	case *types.Struct:
		a := make([]*Val, u.NumFields())
		for i := range a {
			f := u.Field(i)
			if _, isB := f.Type().Underlying().(*types.Basic); isB {
				a[i] = vSym(name+"."+f.Name(), f.Type())
			} else {
				a[i] = w.some(name+"."+f.Name(), f.Type())
			}
		}
		return mk(Val{K: KStruct, T: t, A: a})
	case *types.Pointer:
		if n, ok := u.Elem().(*types.Named); ok && n.Obj().Name() == "OrderedMap" && n.TypeArgs().Len() == 2 {
			e := n.TypeArgs().At(1)
			return newMap(st, name, t, vStr("//k1/"), w.some(name+".0", e), vStr("/k0//"), w.some(name+".1", e))
		}
		if _, ok := u.Elem().Underlying().(*types.Basic); ok {
			return newVar(st, name, t, vSym(name+".value", u.Elem()))
		}
	case *types.Basic:
		return vSym(name, t)
	}
	return nonNil(st, name, t)
}

// holder is the struct that the pointer type points to if it is a fragment that holds a type.
func holder(c *Ctx, t types.Type) *types.Struct {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	n, ok := p.Elem().(*types.Named)
	if !ok || n.Obj().Name() != "DataType" || n.Obj().Pkg() != c.P.Pkg.Pkg {
		return nil
	}
	s, _ := n.Underlying().(*types.Struct)
	return s
}

// holdsTypes tells whether values of the type lead to types of the language.
func holdsTypes(c *Ctx, t types.Type) bool {
	if isShapeType(c, t) || holder(c, t) != nil {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return holdsTypes(c, u.Elem())
	case *types.Map:
		return holdsTypes(c, u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsTypes(c, u.Field(i).Type()) {
				return true
			}
		}
	case *types.Pointer:
		if e := orderedElem(t); e != nil {
			return holdsTypes(c, e)
		}
	}
	return false
}

// attributes lists the fields of the common part of a type.
func (c *Ctx) attributes() []facetInfo {
	var r []facetInfo
	s := structOf(deref(c.P.PtrTo("BaseShape")))
	if s == nil {
		c.fail("anchor", "BaseShape", "the type does not exist any more")
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if f := s.Field(i); !f.Embedded() {
			r = append(r, facetInfo{f.Name(), f.Type()})
		}
	}
	return r
}

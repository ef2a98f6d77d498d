package main

import (
	"fmt"
	"go/types"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C08", "abstract interpretation of the unwrapping of whole documents and of the marking of recursions on all graphs of types of two references (every way to refer to a type with every other, with sharing and cycles): what every reachable type and every reference is afterwards", checkC08)
}

// typeRef is a reference from one type to another.
type typeRef struct {
	field string // name of the facet or attribute
	at    string // field and key
	to    *Val
}

// contains: the referenced type is a part of the type that refers to it.
func (r typeRef) contains() bool {
	switch r.field {
	case "Alias", "Inherits", "Link", "Head":
		return false
	}
	return true
}

// typeRefs lists the references of a type in a state.
func (c *Ctx) typeRefs(l look, base *Val) ([]typeRef, error) {
	var out []typeRef
	var err error
	var walk func(v *Val, t types.Type, field, at string)
	walk = func(v *Val, t types.Type, field, at string) {
		if v == nil || v.K == KNil || !holdsTypes(c, t) {
			return
		}
		if types.Identical(t, c.P.PtrTo("BaseShape")) {
			out = append(out, typeRef{field, at, v})
			return
		}
		if h := holder(c, t); h != nil {
			for i := 0; i < h.NumFields(); i++ {
				f := h.Field(i)
				walk(l.in.loadPlace(l.st, v.S, v.S2+"."+f.Name(), f.Type()), f.Type(), field, at+"."+f.Name())
			}
			return
		}
		if e := orderedElem(t); e != nil {
			m, ok := l.mapEntries(v, e)
			if !ok {
				err = fmt.Errorf("the content of %s is not known: %s", at, shortKey(v.key))
			}
			for _, x := range m {
				walk(x.val, e, field, at+"["+x.key+"]")
			}
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			m, ok := l.items(v, u.Elem())
			if !ok {
				err = fmt.Errorf("the content of %s is not known: %s", at, shortKey(v.key))
			}
			for i, x := range m {
				walk(x, u.Elem(), field, at+"["+strconv.Itoa(i)+"]")
			}
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(l.in.fieldVal(l.st, v, u, i), u.Field(i).Type(), field, at)
			}
		}
	}
	if base.K != KPtr {
		return nil, fmt.Errorf("the type is not known: %s", shortKey(base.key))
	}
	for _, a := range c.attributes() {
		walk(l.in.loadPlace(l.st, base.S, base.S2+"."+a.name, a.typ), a.typ, a.name, a.name)
	}
	sh, kind := c.concrete(l, base)
	if kind == nil {
		return nil, fmt.Errorf("the kind of a type is not known")
	}
	s := kind.Underlying().(*types.Struct)
	var fields func(s *types.Struct, path string)
	fields = func(s *types.Struct, path string) {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if types.Identical(f.Type(), c.P.PtrTo("BaseShape")) && f.Embedded() {
				continue
			}
			if sub, ok := f.Type().Underlying().(*types.Struct); ok {
				fields(sub, path+"."+f.Name())
				continue
			}
			walk(l.in.loadPlace(l.st, sh.S, sh.S2+path+"."+f.Name(), f.Type()), f.Type(), f.Name(), f.Name())
		}
	}
	fields(s, "")
	return out, err
}

// concrete gives the struct of the kind of a type.
func (c *Ctx) concrete(l look, base *Val) (*Val, *types.Named) {
	for _, a := range c.shapeFields() {
		v := l.in.loadPlace(l.st, base.S, base.S2+"."+a.Name(), a.Type())
		if v.K == KIface && v.T != nil {
			if n, ok := deref(v.T).(*types.Named); ok {
				return plain(v), n
			}
		}
	}
	return nil, nil
}

// shapeFields are the fields of the common part that hold the concrete type.
func (c *Ctx) shapeFields() []*types.Var {
	var r []*types.Var
	s := structOf(deref(c.P.PtrTo("BaseShape")))
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if isShapeType(c, s.Field(i).Type()) && !types.Identical(s.Field(i).Type(), c.P.PtrTo("BaseShape")) {
			r = append(r, s.Field(i))
		}
	}
	return r
}

// markField is the field that a method without parameters returns.
func (c *Ctx) markField(typ, method string) string {
	f := c.method(typ, method)
	if f == nil {
		return ""
	}
	name := ""
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok {
				name = structOf(deref(fa.X.Type())).Field(fa.Field).Name()
			}
		}
	}
	if name == "" {
		c.fail("anchor", typ+"."+method, "does not return a field")
	}
	return name
}

// instance is a parser instance with known fragments.
type instance struct {
	c     *Ctx
	g     *graph
	st    *State
	raml  *Val
	frags []*Val
	files []string
	names map[*Val]string // names of the types
}

func (c *Ctx) newInstance(g *graph) *instance {
	w := &instance{c: c, g: g, st: g.st, names: map[*Val]string{}}
	w.raml = c.newStruct(g.st, "raml", "RAML", nil)
	return w
}

// node makes a type that belongs to the instance.
func (w *instance) node(kind, file string) *typeWorld {
	n := w.g.node(kind)
	n.set("raml", w.raml)
	for _, t := range sortedKeys(primKinds) {
		if primKinds[t] == kind {
			n.set("Type", vStr(t))
		}
	}
	n.set("Location", vStr(file))
	n.set("Name", vStr(fmt.Sprintf("T%d", len(w.g.nodes))))
	return n
}

func (w *instance) table(name, typ, field string, ts []*typeWorld) *Val {
	var kv []*Val
	for i, t := range ts {
		n := vStr(fmt.Sprintf("%s%d", strings.ToLower(field[:1]), i))
		t.set("Name", n)
		kv = append(kv, n, t.base)
	}
	return newMap(w.st, name, w.c.P.fieldType(typ, field), kv...)
}

func (w *instance) add(file, kind string, v *Val) {
	w.files = append(w.files, file)
	w.frags = append(w.frags, vIface(w.c.P.PtrTo(kind), v))
}

func (w *instance) library(file string, typs, anns []*typeWorld) *Val {
	name := "lib:" + file
	v := w.c.newStruct(w.st, name, "Library", map[string]*Val{"Types": w.table(name+":types", "Library", "Types", typs), "AnnotationTypes": w.table(name+":anns", "Library", "AnnotationTypes", anns),
		"Location": vStr(file), "raml": w.raml})
	w.add(file, "Library", v)
	return v
}

func (w *instance) dataType(file string, t *typeWorld) *Val {
	v := w.c.newStruct(w.st, "dt:"+file, "DataType", map[string]*Val{"Shape": t.base, "Location": vStr(file), "raml": w.raml})
	w.add(file, "DataType", v)
	return v
}

// done registers the fragments.
func (w *instance) done() {
	f := w.c.fragmentsField()
	if f == nil {
		return
	}
	var kv []*Val
	for i := range w.frags {
		kv = append(kv, vStr(w.files[i]), w.frags[i])
	}
	w.st.store(w.raml.S, "."+f.Name(), newMap(w.st, "fragments", f.Type(), kv...), f.Type())
}

// noHooks: no hook is registered.
var dbgModel func(in *Interp, st *State, k *Call)

func noHooks(in *Interp, st *State, k *Call) ([]callOut, bool) {
	if dbgModel != nil {
		dbgModel(in, st, k)
	}
	if k.Method != nil && k.Method.Name() == "Value" && k.Method.Pkg() != nil && k.Method.Pkg().Path() == "context" {
		return []callOut{{st: st, ret: []*Val{vNil}}}, true
	}
	if k.Callee != nil {
		switch FuncName(k.Callee) {
		case "(*RAML).callHooks", "(*BaseShape).callRAMLHooks":
			return []callOut{{st: st, ret: []*Val{vNil}}}, true
		}
	}
	return nil, false
}

// roots lists the types that the fragments declare.
func (w *instance) roots(l look) (map[string]*Val, error) {
	r := map[string]*Val{}
	for i, f := range w.frags {
		v := plain(f)
		n := deref(f.T).(*types.Named)
		s := n.Underlying().(*types.Struct)
		for j := 0; j < s.NumFields(); j++ {
			fl := s.Field(j)
			fv := l.in.loadPlace(l.st, v.S, "."+fl.Name(), fl.Type())
			if types.Identical(fl.Type(), w.c.P.PtrTo("BaseShape")) {
				r[w.files[i]+":"+fl.Name()] = fv
				continue
			}
			if e := orderedElem(fl.Type()); e != nil && types.Identical(e, w.c.P.PtrTo("BaseShape")) {
				m, ok := l.mapEntries(fv, e)
				if !ok {
					return nil, fmt.Errorf("the content of %s is not known", fl.Name())
				}
				for _, x := range m {
					r[w.files[i]+":"+fl.Name()+":"+x.key] = x.val
				}
			}
		}
	}
	return r, nil
}

// typeGraph is the graph of all types that are reachable from some.
type typeGraph struct {
	c     *Ctx
	l     look
	refs  map[*Val][]typeRef
	order []*Val
	err   error
}

func (c *Ctx) reach(l look, from ...*Val) *typeGraph {
	g := &typeGraph{c: c, l: l, refs: map[*Val][]typeRef{}}
	for len(from) > 0 {
		b := from[0]
		from = from[1:]
		if b == nil || b.K == KNil {
			continue
		}
		if _, ok := g.refs[b]; ok {
			continue
		}
		r, err := c.typeRefs(l, b)
		if err != nil {
			g.err = fmt.Errorf("%s: %v", shortKey(b.key), err)
		}
		g.refs[b] = r
		g.order = append(g.order, b)
		for _, x := range r {
			from = append(from, x.to)
		}
	}
	return g
}

// cycle finds a type that contains itself.
func (g *typeGraph) cycle() string {
	state := map[*Val]int{}
	found := ""
	var visit func(b *Val, path string)
	visit = func(b *Val, path string) {
		if found != "" || state[b] == 2 {
			return
		}
		if state[b] == 1 {
			found = path
			return
		}
		state[b] = 1
		for _, r := range g.refs[b] {
			if r.contains() && r.to.K != KNil {
				visit(r.to, path+"."+r.at)
			}
		}
		state[b] = 2
	}
	for _, b := range g.order {
		visit(b, shortKey(b.key))
	}
	return found
}

// within tells whether a type leads to another one without regard to the kind of the reference.
func (g *typeGraph) within(from, to *Val, along func(typeRef) bool) bool {
	seen := map[*Val]bool{}
	var visit func(b *Val) bool
	visit = func(b *Val) bool {
		if b == to {
			return true
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, r := range g.refs[b] {
			if r.to.K != KNil && along(r) && visit(r.to) {
				return true
			}
		}
		return false
	}
	return visit(from)
}

// marker is the type that a recursive marker stands for.
func (c *Ctx) marker(l look, base *Val) *Val {
	sh, k := c.concrete(l, base)
	if k == nil || k.Obj().Name() != "RecursiveShape" {
		return nil
	}
	t := c.P.fieldType("RecursiveShape", "Head")
	if t == nil {
		c.fail("anchor", "RecursiveShape.Head", "the field does not exist any more")
		return nil
	}
	return l.in.loadPlace(l.st, sh.S, sh.S2+".Head", t)
}

// afterwards compares the references of the types before and after unwrapping or marking.
func (c *Ctx) afterwards(at string, before, after *typeGraph, where string, gone func(owner *Val, r typeRef) bool) bool {
	good := true
	bad := func(rule, what string) {
		good = false
		c.fail(rule, at, what, where)
	}
	for _, b := range before.order {
		now := map[string]*Val{}
		for _, r := range after.refs[b] {
			now[r.at] = r.to
		}
		if after.refs[b] == nil {
			continue
		}
		for _, r := range before.refs[b] {
			if gone != nil && gone(b, r) {
				continue
			}
			x := now[r.at]
			if x == r.to {
				continue
			}
			if x == nil {
				bad("place", fmt.Sprintf("%s.%s refers to nothing any more", shortKey(b.key), r.at))
				continue
			}
			h := c.marker(after.l, x)
			switch {
			case h == nil:
				bad("place", fmt.Sprintf("%s.%s refers to %s instead of %s", shortKey(b.key), r.at, shortKey(x.key), shortKey(r.to.key)))
			case h != r.to:
				bad("marker", fmt.Sprintf("%s.%s is a marker for %s instead of %s", shortKey(b.key), r.at, shortKey(h.key), shortKey(r.to.key)))
			case !r.contains():
				bad("marker", fmt.Sprintf("%s.%s is replaced by a marker", shortKey(b.key), r.at))
			case !before.within(r.to, b, func(r typeRef) bool { return r.field != "Head" }):
				bad("marker", fmt.Sprintf("%s.%s is replaced by a marker although %s does not contain the type", shortKey(b.key), r.at, shortKey(r.to.key)))
			}
		}
	}
	// markers elsewhere
	for _, b := range after.order {
		for _, r := range after.refs[b] {
			if before.refs[r.to] != nil {
				continue
			}
			if h := c.marker(after.l, r.to); h != nil && before.refs[h] == nil {
				bad("marker", fmt.Sprintf("%s.%s is a marker for something that was not there: %s", shortKey(b.key), r.at, shortKey(h.key)))
			}
		}
	}
	if cyc := after.cycle(); cyc != "" {
		bad("acyclic", "walking the result never ends: "+cyc)
	}
	return good
}

// kindsFor gives the kinds of the owner and of the referenced types for a reference: some require equal kinds.
func sameKind(field string) bool { return field == "Alias" || field == "Inherits" || field == "Link" }

// unwrapped is what a path of the unwrapping of an instance led to.
type unwrapped struct {
	at            string
	w             *instance
	o             *Outcome
	before, after *typeGraph
	roots, now    map[string]*Val
}

func (c *Ctx) unwrapWorld(at string, judge func(u *unwrapped), build func(w *instance) []*typeWorld) {
	fn := c.method("RAML", "UnwrapShapes")
	mark := c.markField("BaseShape", "IsUnwrapped")
	if fn == nil || mark == "" {
		return
	}
	if d := os.Getenv("DBGW"); d != "" && d != at {
		return
	}
	var w *instance
	var before *State
	outs := c.explore(fn, runOpt{recurse: true, depth: 40, budget: 400000, model: noHooks, setup: func(in *Interp, st *State, args []*Val) {
		g := &graph{c: c, st: st}
		w = c.newInstance(g)
		build(w)
		w.done()
		args[0] = w.raml
		before = st.clone()
	}})
	in := NewInterp(c.P)
	was := look{c: c, in: in, st: before}
	roots, err := w.roots(was)
	if err != nil {
		c.fail("undecided", at, err.Error())
		return
	}
	var from []*Val
	for _, k := range sortedKeys(roots) {
		from = append(from, roots[k])
	}
	gb := c.reach(was, from...)
	n := 0
	for i := range outs {
		o := &outs[i]
		c.debugState = o.St
		if o.Panic != "" {
			c.fail("unwrap", at, "panics: "+o.Panic, o.Where)
			continue
		}
		if !o.success() {
			continue
		}
		n++
		l := look{c: c, in: in, st: o.St}
		now, err := w.roots(l)
		if err != nil {
			c.fail("undecided", at, err.Error(), o.Where)
			continue
		}
		var from []*Val
		for _, k := range sortedKeys(roots) {
			from = append(from, now[k])
		}
		ga := c.reach(l, from...)
		if ga.err != nil {
			c.fail("undecided", at, ga.err.Error(), o.Where)
			continue
		}
		judge(&unwrapped{at: at, w: w, o: o, before: gb, after: ga, roots: roots, now: now})
	}
	c.debugState = nil
	if n == 0 {
		c.fail("unwrap", at, "unwrapping fails on every path: "+shortKey(fmt.Sprint(outs[0].Where)))
	}
}

// reachedAll decides whether all types are unwrapped and all references lead to what they led to before.
func (c *Ctx) reachedAll(mark string) func(u *unwrapped) {
	in := NewInterp(c.P)
	return func(u *unwrapped) {
		at, o, gb, ga, roots, now := u.at, u.o, u.before, u.after, u.roots, u.now
		good := true
		for _, k := range sortedKeys(roots) {
			if now[k] != roots[k] {
				good = false
				c.fail("place", at, k+" is another type: "+shortKey(now[k].key), o.Where)
			}
		}
		for _, b := range ga.order {
			m := in.loadPlace(o.St, b.S, b.S2+"."+mark, types.Typ[types.Bool])
			if x, ok := m.boolConst(); !ok || !x {
				good = false
				c.fail("reached", at, shortKey(b.key)+" is not unwrapped", o.Where)
			}
			c.ok("types", "")
		}
		definition := map[*Val]bool{}
		for _, b := range gb.order {
			for _, r := range gb.refs[b] {
				if r.field == "CustomShapeFacetDefinitions" {
					definition[r.to] = true
				}
			}
		}
		alias := map[*Val]bool{}
		for _, b := range gb.order {
			for _, r := range gb.refs[b] {
				if r.field == "Alias" {
					alias[b] = true
				}
			}
		}
		if !c.afterwards(at, gb, ga, o.Where, func(b *Val, r typeRef) bool {
			// links are dissolved, aliases are replaced, and definitions of facets have no facets of their own
			return r.field == "Link" || alias[b] || r.field == "CustomShapeFacetDefinitions" && definition[b]
		}) {
			good = false
		}
		if good {
			c.ok("unwrap", at)
		}
	}
}

// graphs makes one of the graphs in which root refers to a and a to b or back to root. References to a named type are
// parents, links, or types of their own that are aliases of it.
func (w *instance) graphs(r1, r2 refField, shape string) []*typeWorld {
	k1, k2, k3 := r1.kind, r2.kind, "NumberShape"
	if sameKind(r2.field) {
		k3 = k2
		if shape == "back" || shape == "alias" {
			k3, k2 = k1, k1
		}
	}
	if sameKind(r1.field) {
		k1, k3 = k2, k2
	}
	root, a, b := w.node(k1, "/l.raml"), w.node(k2, "/l.raml"), w.node(k3, "/l.raml")
	switch shape {
	case "plain":
		root.next, a.next = seq(a, b), seq(b)
	case "shared":
		root.next, a.next = seq(a, a), seq(b, b)
	case "back":
		root.next, a.next = seq(a, b), seq(root)
		if sameKind(r1.field) {
			root.next = seq(a)
		}
		if r2.field == "CustomShapeFacetDefinitions" {
			a.next = seq(w.aliasOf(root), b)
		}
	case "alias":
		x := w.aliasOf(root)
		root.next, a.next = seq(a, b), seq(x, b)
		if sameKind(r1.field) {
			root.next = seq(a)
		}
	}
	root.fill(r1.field)
	a.fill(r2.field)
	return []*typeWorld{root, a, b}
}

// aliasOf makes a type that is nothing but a reference to another one.
func (w *instance) aliasOf(t *typeWorld) *typeWorld {
	x := w.node(t.kind.Obj().Name(), "/l.raml")
	x.next = seq(t)
	x.fill("Alias")
	return x
}

func checkC08(c *Ctx) {
	mark := c.markField("BaseShape", "IsUnwrapped")
	c.unwrapWorlds(c.reachedAll(mark))
	c.markWorlds(c.references(), nil)
	c.floor("unwrap", 200)
	c.floor("mark", 100)
}

// references lists the ways to refer to another type in a document.
func (c *Ctx) references() []refField {
	var refs []refField
	for _, r := range c.refFields() {
		if r.field != "Head" && r.field != "Shape" {
			refs = append(refs, r)
		}
	}
	return refs
}

// unwrapWorlds unwraps instances of many forms.
func (c *Ctx) unwrapWorlds(judge func(u *unwrapped)) {
	refs := c.references()
	for _, r1 := range refs {
		for _, r2 := range refs {
			for _, shape := range []string{"plain", "shared", "back", "alias"} {
				if r1.field == "AnyOf" && r2.field == "Inherits" && shape == "back" {
					continue // a type that inherits from a union it is a member of
				}
				at := r1.kind + "." + r1.field + " to " + r2.kind + "." + r2.field + ", " + shape
				c.unwrapWorld(at, judge, func(w *instance) []*typeWorld {
					ts := w.graphs(r1, r2, shape)
					w.library("/l.raml", ts[:1], nil)
					return ts
				})
			}
		}
	}
	// every place in which a fragment declares types, several of them each, in several fragments
	kinds := []string{"ObjectShape", "ArrayShape", "UnionShape", "StringShape"}
	for i := range kinds {
		c.unwrapWorld("several fragments, "+kinds[i], judge, func(w *instance) []*typeWorld {
			mk := func(k int, file string) *typeWorld {
				r := w.node(kinds[(i+k)%len(kinds)], file)
				r.next = func() *typeWorld { return w.node("NumberShape", file) }
				for _, x := range refs {
					if x.kind == r.kind.Obj().Name() && !sameKind(x.field) && (x.kind != "StringShape" || x.field == "CustomShapeFacetDefinitions") {
						r.fill(x.field)
					}
				}
				return r
			}
			for _, file := range []string{"/b.raml", "/a.raml"} {
				w.library(file, []*typeWorld{mk(0, file), mk(1, file)}, []*typeWorld{mk(2, file), mk(3, file)})
			}
			w.dataType("/c.raml", mk(0, "/c.raml"))
			w.dataType("/0.raml", mk(1, "/0.raml"))
			return nil
		})
	}
	// two references of one type, the second to another type or back to the type itself
	for _, r1 := range refs {
		for _, r2 := range refs {
			if r1.kind != r2.kind && !sameKind(r1.field) || r1.field == r2.field || sameKind(r2.field) {
				continue
			}
			// unions are written as expressions and have no parents beside their members
			if sameKind(r1.field) && r2.kind == "UnionShape" && r2.field != "CustomShapeFacetDefinitions" {
				continue
			}
			for _, shape := range []string{"plain", "alias", "alias twice"} {
				if r1.field == "Alias" && shape == "alias twice" {
					continue // an alias has nothing of its own
				}
				c.unwrapWorld(r1.field+" and "+r2.kind+"."+r2.field+", "+shape, judge, func(w *instance) []*typeWorld {
					ka := r2.kind
					if !sameKind(r1.field) {
						ka = "NumberShape"
					}
					root, a, b := w.node(r2.kind, "/l.raml"), w.node(ka, "/l.raml"), w.node("NumberShape", "/l.raml")
					next := []*typeWorld{a, a}
					if shape == "alias twice" {
						if sameKind(r1.field) {
							next = []*typeWorld{a}
							x := w.aliasOf(root)
							a.next = seq(x, x)
							if r2.field != "CustomShapeFacetDefinitions" {
								a.fill(r2.field)
							}
						} else {
							x := w.aliasOf(root)
							next = []*typeWorld{x, x}
						}
					}
					root.next = seq(next...)
					root.fill(r1.field)
					root.next = seq(b, b)
					if shape == "alias" {
						root.next = seq(w.aliasOf(root), b)
					} else if shape == "alias twice" {
						root.next = seq(w.aliasOf(root), w.aliasOf(root))
					}
					root.fill(r2.field)
					w.library("/l.raml", []*typeWorld{root}, nil)
					return nil
				})
			}
		}
	}
	// recursions in every place in which a fragment declares types, alone and beside other ones
	for _, r1 := range refs {
		for _, slots := range []string{"types", "annotations", "data type", "types annotations", "annotations types", "types data", "annotations data"} {
			if sameKind(r1.field) || r1.field == "CustomShapeFacetDefinitions" {
				continue
			}
			c.unwrapWorld("recursion by "+r1.kind+"."+r1.field+" in "+slots, judge, func(w *instance) []*typeWorld {
				f := strings.Fields(slots)
				in := map[string][]*typeWorld{}
				for i, s := range f {
					if i == 0 {
						in[s] = w.graphs(r1, r1, "alias")[:1]
					} else if in[s] == nil {
						in[s] = []*typeWorld{w.node("NumberShape", "/l.raml")}
					}
				}
				w.library("/l.raml", in["types"], in["annotations"])
				if d := in["data"]; d != nil {
					w.dataType("/d.raml", d[0])
				}
				return nil
			})
		}
	}
	// members, items and properties that are links, and links to what refers to itself
	for _, r1 := range refs {
		if sameKind(r1.field) || r1.field == "CustomShapeFacetDefinitions" {
			continue
		}
		for _, k := range []string{"NumberShape", "ObjectShape"} {
			c.unwrapWorld("links in "+r1.kind+"."+r1.field+" to "+k, judge, func(w *instance) []*typeWorld {
				root, x, y, t := w.node(r1.kind, "/l.raml"), w.node(k, "/l.raml"), w.node(k, "/l.raml"), w.node(k, "/d.raml")
				if k == "ObjectShape" {
					t.next = seq(w.node("NumberShape", "/d.raml"), w.node("NumberShape", "/d.raml"))
					t.fill("Properties")
				}
				d := w.dataType("/d.raml", t)
				for _, l := range []*typeWorld{x, y} {
					l.set("Link", d)
				}
				root.next = seq(x, y)
				root.fill(r1.field)
				w.library("/l.raml", []*typeWorld{root}, nil)
				return nil
			})
		}
	}
}

// markWorlds decides what the marking of recursions does to types that are unwrapped already.
func (c *Ctx) markWorlds(refs []refField, judge func(at string, w *instance, o *Outcome, before, after *typeGraph)) {
	fn := c.method("RAML", "FindAndMarkRecursion")
	mark := c.markField("BaseShape", "IsUnwrapped")
	if fn == nil || mark == "" {
		return
	}
	var in2 []refField
	for _, r := range refs {
		if !sameKind(r.field) {
			in2 = append(in2, r)
		}
	}
	// definitions of facets have no definitions of their own
	allowed := func(rs ...refField) bool {
		for i := range rs {
			if rs[i].field == "CustomShapeFacetDefinitions" && i > 0 {
				return false
			}
		}
		return true
	}
	run := func(at string, raw bool, build func(w *instance) *typeWorld) {
		if d := os.Getenv("DBGW"); d != "" && d != at {
			return
		}
		var w *instance
		var root *typeWorld
		var before *State
		outs := c.explore(fn, runOpt{recurse: true, depth: 40, budget: 400000, model: noHooks, setup: func(in *Interp, st *State, args []*Val) {
			w = c.newInstance(&graph{c: c, st: st})
			root = build(w)
			for _, t := range w.g.nodes {
				t.set(mark, vBool(!raw || t == root))
			}
			w.done()
			args[0], args[1] = w.raml, root.base
			before = st.clone()
		}})
		in := NewInterp(c.P)
		gb := c.reach(look{c: c, in: in, st: before}, root.base)
		n := 0
		for i := range outs {
			o := &outs[i]
			if o.Panic != "" {
				c.fail("mark", at, "panics: "+o.Panic, o.Where)
				continue
			}
			n++
			if raw {
				c.holds(o.St.nilness(o.lastErr()) == no, "mark", at, "a type that is not unwrapped is accepted", o.Where)
				continue
			}
			if !o.success() {
				c.fail("mark", at, "fails: "+shortKey(o.lastErr().key), o.Where)
				continue
			}
			ga := c.reach(look{c: c, in: in, st: o.St}, root.base)
			if ga.err != nil {
				c.fail("undecided", at, ga.err.Error(), o.Where)
				continue
			}
			if judge != nil {
				judge(at, w, o, gb, ga)
				continue
			}
			good := c.afterwards(at, gb, ga, o.Where, nil)
			for _, b := range ga.order {
				if x, ok := in.loadPlace(o.St, b.S, b.S2+"."+mark, types.Typ[types.Bool]).boolConst(); !ok || !x {
					good = false
					c.fail("reached", at, shortKey(b.key)+" is not unwrapped", o.Where)
				}
			}
			// a type that is not part of itself stays as it is
			if !c.holds(o.Ret[0].K == KNil, "mark", at, "a type that is not inside of itself is replaced", o.Where) {
				good = false
			}
			if good {
				c.ok("mark", at)
			}
		}
		if n == 0 {
			c.fail("mark", at, "no path returns")
		}
	}
	for _, r1 := range in2 {
		for _, r2 := range in2 {
			if !allowed(r1, r2) {
				continue
			}
			at := r1.kind + "." + r1.field + " to " + r2.kind + "." + r2.field
			// ends names what the second and third type refer to
			for _, ends := range []string{"b b", "root b", "b root", "a b", "root a", "root root"} {
				run(at+", "+ends, false, func(w *instance) *typeWorld {
					root, a, b := w.node(r1.kind, "/l.raml"), w.node(r2.kind, "/l.raml"), w.node("NumberShape", "/l.raml")
					by := map[string]*typeWorld{"root": root, "a": a, "b": b}
					f := strings.Fields(ends)
					root.next = seq(a, b)
					root.fill(r1.field)
					a.next = seq(by[f[0]], by[f[1]])
					a.fill(r2.field)
					return root
				})
			}
			run(at+", twice", false, func(w *instance) *typeWorld {
				root, a, b := w.node(r1.kind, "/l.raml"), w.node(r2.kind, "/l.raml"), w.node("NumberShape", "/l.raml")
				root.next, a.next = seq(a, a), seq(b, b)
				root.fill(r1.field)
				a.fill(r2.field)
				return root
			})
			for _, r3 := range in2 {
				if !allowed(r1, r2, r3) {
					continue
				}
				for _, ends := range []string{"root", "a", "b"} {
					run(at+" to "+r3.kind+"."+r3.field+", "+ends, false, func(w *instance) *typeWorld {
						root, a, b, d := w.node(r1.kind, "/l.raml"), w.node(r2.kind, "/l.raml"), w.node(r3.kind, "/l.raml"), w.node("NumberShape", "/l.raml")
						by := map[string]*typeWorld{"root": root, "a": a, "b": b}
						root.next, a.next, b.next = seq(a, d), seq(b, d), seq(by[ends], d)
						root.fill(r1.field)
						a.fill(r2.field)
						b.fill(r3.field)
						return root
					})
				}
			}
			run(at+", not unwrapped", true, func(w *instance) *typeWorld {
				root, a, b := w.node(r1.kind, "/l.raml"), w.node(r2.kind, "/l.raml"), w.node("NumberShape", "/l.raml")
				root.next, a.next = seq(a), seq(b)
				root.fill(r1.field)
				a.fill(r2.field)
				return root
			})
		}
	}
}

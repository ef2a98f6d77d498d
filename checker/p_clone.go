package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

func init() {
	register("C09", "abstract interpretation of the copying of types on known graphs of types, for every kind of type and every pair of ways in which a type refers to others: the copy is isomorphic to the original and apart from it", checkC09)
}

// graph makes types with given references between them.
type graph struct {
	c     *Ctx
	st    *State
	nodes []*typeWorld
}

// node makes a type of the kind without facets, with an ID of its own.
func (g *graph) node(kind string) *typeWorld {
	n := len(g.nodes)
	w := g.c.newType(g.st, "n"+strconv.Itoa(n)+".", kind)
	if w == nil {
		panic("cannot make a " + kind)
	}
	w.set("ID", vInt(int64(1000+n)))
	g.nodes = append(g.nodes, w)
	return w
}

// seq yields the given types one after the other, the last one again and again.
func seq(ws ...*typeWorld) func() *typeWorld {
	i := 0
	return func() *typeWorld {
		w := ws[i]
		if i < len(ws)-1 {
			i++
		}
		return w
	}
}

// refField is a facet or an attribute that refers to other types.
type refField struct{ kind, field string }

// refFields lists all ways in which a type refers to others.
func (c *Ctx) refFields() []refField {
	var r []refField
	for _, a := range c.attributes() {
		if holdsTypes(c, a.typ) {
			r = append(r, refField{"StringShape", a.name})
		}
	}
	for _, t := range c.shapeTypes() {
		for _, f := range c.facets(t) {
			if holdsTypes(c, f.typ) {
				r = append(r, refField{t.Obj().Name(), f.name})
			}
		}
	}
	return r
}

// copyCheck compares a copy with its original.
type copyCheck struct {
	c        *Ctx
	was, now look
	to, from map[*Val]*Val // originals to copies and back
	old      snapshot
	shallow  bool
	depth    int
	given    map[*Val]*Val // copies that existed before
	bad      func(path, what string)
}

func (k *copyCheck) isNew(v *Val) bool {
	return v.K == KPtr && k.now.st.isFresh(v.S) && k.old[v.S] == nil || v.K == KSlice
}

// same: a value that may be shared.
func (k *copyCheck) same(a, b *Val) bool {
	a, b = plain(a), plain(b)
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	if a.K == KPtr && b.K == KPtr && a.T != nil {
		if e := deref(a.T); e != nil {
			if _, ok := e.Underlying().(*types.Basic); ok {
				return k.was.in.loadPlace(k.was.st, a.S, a.S2, e) == k.now.in.loadPlace(k.now.st, b.S, b.S2, e)
			}
		}
	}
	return false
}

// ref compares a reference to a type, or to the struct of its kind.
func (k *copyCheck) ref(a, b *Val, t types.Type, path string) {
	a, b = plain(a), plain(b)
	if a.K == KNil || b.K == KNil {
		if a.K != b.K {
			k.bad(path, fmt.Sprintf("is %s instead of %s", shortKey(b.key), shortKey(a.key)))
		}
		return
	}
	if x := k.given[a]; x != nil {
		if x != b {
			k.bad(path, "is not the copy that was made before")
		}
		return
	}
	if x := k.to[a]; x != nil {
		if x != b {
			k.bad(path, "is another copy of a type that occurs elsewhere, or not a copy")
		}
		return
	}
	if a.K != KPtr || b.K != KPtr || b.S2 != "" {
		k.bad(path, "is not a type: "+shortKey(b.key))
		return
	}
	if k.from[b] != nil {
		k.bad(path, "is the copy of another type")
		return
	}
	if !k.isNew(b) {
		k.bad(path, "is shared with the original")
		return
	}
	k.to[a], k.from[b] = b, a
	s := structOf(t)
	if s == nil {
		return
	}
	k.depth++
	k.fields(a, "", b, "", s, path)
	k.depth--
}

func (k *copyCheck) fields(a *Val, ap string, b *Val, bp string, s *types.Struct, path string) {
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		n := "." + f.Name()
		if sub, ok := f.Type().Underlying().(*types.Struct); ok {
			k.fields(a, ap+n, b, bp+n, sub, path+n)
			continue
		}
		x := k.was.in.loadPlace(k.was.st, a.S, ap+n, f.Type())
		y := k.now.in.loadPlace(k.now.st, b.S, bp+n, f.Type())
		k.value(x, y, f.Type(), path+n)
	}
}

func (k *copyCheck) value(a, b *Val, t types.Type, path string) {
	c := k.c
	switch {
	case types.Identical(t, c.P.PtrTo("BaseShape")):
		if k.shallow && k.to[a] == nil {
			if a != b {
				k.bad(path, "is not the type that the original refers to")
			}
			return
		}
		k.ref(a, b, deref(t), path)
		return
	case isShapeType(c, t):
		if a.K == KIface && b.K == KIface && !types.Identical(a.T, b.T) {
			k.bad(path, fmt.Sprintf("is %s instead of %s", b.T, a.T))
			return
		}
		if a.K == KIface {
			k.ref(a, b, deref(a.T), path)
			return
		}
	case holder(c, t) != nil && !k.shallow:
		k.ref(a, b, deref(t), path)
		return
	}
	own := holdsTypes(c, t) && !k.shallow || k.depth > 0 && strings.HasPrefix(path[strings.LastIndexByte(path, '.')+1:], "Custom")
	if k.shallow && a != b && k.isNew(b) {
		own = true // more of its own than it has to have
	}
	if e := orderedElem(t); e != nil && own {
		x, ok1 := k.was.mapEntries(a, e)
		y, ok2 := k.now.mapEntries(b, e)
		if !ok1 || !ok2 {
			k.bad(path, "is not decided: "+shortKey(b.key))
			return
		}
		if a.K != KNil && b.K != KNil && !k.isNew(b) {
			k.bad(path, "is shared with the original")
			return
		}
		if len(x) != len(y) {
			k.bad(path, fmt.Sprintf("has %d entries instead of %d", len(y), len(x)))
			return
		}
		for i := range x {
			if x[i].key != y[i].key {
				k.bad(path, fmt.Sprintf("has the entry %s instead of %s", y[i].key, x[i].key))
				return
			}
			k.elem(x[i].val, y[i].val, e, path+"["+x[i].key+"]")
		}
		return
	}
	if u, ok := t.Underlying().(*types.Slice); ok && own {
		x, ok1 := k.was.items(a, u.Elem())
		y, ok2 := k.now.items(b, u.Elem())
		if !ok1 || !ok2 {
			k.bad(path, "is not decided: "+shortKey(b.key))
			return
		}
		if a.K != KNil && b.K != KNil && len(x) > 0 && !k.isNew(b) {
			k.bad(path, "is shared with the original")
			return
		}
		if len(x) != len(y) {
			k.bad(path, fmt.Sprintf("has %d elements instead of %d", len(y), len(x)))
			return
		}
		for i := range x {
			k.elem(x[i], y[i], u.Elem(), path+"["+strconv.Itoa(i)+"]")
		}
		return
	}
	if strings.HasSuffix(path, ".ShapeVisited") {
		return // a mark of running operations
	}
	if !k.same(a, b) {
		k.bad(path, fmt.Sprintf("is %s instead of %s", shortKey(b.key), shortKey(a.key)))
	}
}

// elem compares elements of lists and maps, which may be structs.
func (k *copyCheck) elem(a, b *Val, t types.Type, path string) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		k.value(a, b, t, path)
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		x, y := k.was.in.fieldVal(k.was.st, a, s, i), k.now.in.fieldVal(k.now.st, b, s, i)
		k.elem(x, y, s.Field(i).Type(), path+"."+s.Field(i).Name())
	}
}

// fieldVal is a field of a struct value.
func (in *Interp) fieldVal(st *State, v *Val, s *types.Struct, i int) *Val {
	return fieldOf(v, s.Field(i).Type(), i)
}

// copies runs one of the copying functions on a world and compares the result.
func (c *Ctx) copies(at, fn string, shallow bool, build func(g *graph) (root *typeWorld, given map[*Val]*Val)) {
	f := c.method("BaseShape", fn)
	if f == nil {
		return
	}
	g := &graph{c: c}
	var root *typeWorld
	var given map[*Val]*Val
	var before *State
	var memo *Val
	outs := c.explore(f, runOpt{recurse: true, depth: 24, budget: 300000, setup: func(in *Interp, st *State, args []*Val) {
		g.st = st
		root, given = build(g)
		args[0] = root.base
		if len(args) > 1 {
			var kv []*Val
			for a, b := range given {
				kv = append(kv, root.in.loadPlace(st, a.S, ".ID", types.Typ[types.Int64]), b)
			}
			memo = newMap(st, "memo", f.Signature.Params().At(0).Type(), kv...)
			args[1] = memo
		}
		before = st.clone()
	}})
	if root == nil {
		return
	}
	n := 0
	for i := range outs {
		o := &outs[i]
		if o.Panic != "" {
			c.fail("copy", at, fn+" panics: "+o.Panic)
			continue
		}
		n++
		in := NewInterp(c.P)
		good := true
		old := before.snapshot()
		k := &copyCheck{c: c, was: look{c: c, in: in, st: before}, now: look{c: c, in: in, st: o.St}, to: map[*Val]*Val{}, from: map[*Val]*Val{}, old: old, shallow: shallow, given: given,
			bad: func(path, what string) {
				good = false
				c.fail("copy", fn+" of "+at, path+" "+what, o.Where)
			}}
		c.debugState = o.St
		k.ref(root.base, o.Ret[0], deref(root.baseT), "")
		if good {
			c.ok("copy", fn+" of "+at)
		}
		for range k.to {
			c.ok("types", "")
		}
		for _, ch := range old.changed(o.St) {
			if memo != nil && strings.HasPrefix(ch, memo.S) {
				continue
			}
			good = false
			c.fail("original", fn+" of "+at, "the original is changed: "+ch, o.Where)
		}
		if good {
			c.ok("original", fn+" of "+at)
		}
		if memo != nil {
			// what was copied is known to later calls
			for a, b := range k.to {
				if !types.Identical(a.T, root.baseT) {
					continue
				}
				id := in.loadPlace(before, a.S, ".ID", types.Typ[types.Int64])
				c.holds(o.St.heap[memo.S]["{"+id.key+"}"] == b, "memo", fn+" of "+at, "a type that was copied is not recorded for later calls", o.Where)
			}
		}
		c.debugState = nil
	}
	if n == 0 {
		c.fail("copy", fn+" of "+at, "no path returns")
	}
}

func checkC09(c *Ctx) {
	refs := c.refFields()
	kinds := c.shapeTypes()
	isRef := map[refField]bool{}
	for _, r := range refs {
		isRef[r] = true
	}
	run := func(at string, deep bool, build func(g *graph) (*typeWorld, map[*Val]*Val)) {
		c.copies(at, "CloneDetached", false, build)
		c.copies(at, "Clone", false, build)
		if !deep {
			c.copies(at, "CloneShallow", true, build)
		}
	}
	// every kind of type with everything set, and with nothing set
	for _, t := range kinds {
		kind := t.Obj().Name()
		fill := func(g *graph) *typeWorld {
			w := g.node(kind)
			w.next = func() *typeWorld { return g.node("IntegerShape") }
			for _, a := range c.attributes() {
				switch a.name {
				case "ID", "raml", "ShapeVisited":
					continue
				}
				w.fill(a.name)
			}
			for _, f := range c.facets(t) {
				w.fill(f.name)
			}
			return w
		}
		run(kind+" with all facets", false, func(g *graph) (*typeWorld, map[*Val]*Val) { return fill(g), nil })
		run(kind+" without facets", false, func(g *graph) (*typeWorld, map[*Val]*Val) { return g.node(kind), nil })
	}
	// every way to refer to a type, combined with every way in which that type refers to others
	for _, r1 := range refs {
		for _, r2 := range refs {
			at := r1.kind + "." + r1.field + " to " + r2.kind + "." + r2.field
			run(at, true, func(g *graph) (*typeWorld, map[*Val]*Val) {
				root, a, b := g.node(r1.kind), g.node(r2.kind), g.node("NumberShape")
				root.next = seq(a, b)
				root.fill(r1.field)
				a.next = seq(root, a)
				a.fill(r2.field)
				return root, nil
			})
			run(at+", shared", true, func(g *graph) (*typeWorld, map[*Val]*Val) {
				root, a, b := g.node(r1.kind), g.node(r2.kind), g.node("NumberShape")
				root.next = seq(a, a, b)
				root.fill(r1.field)
				if r2.kind == "StringShape" && isRef[refField{r2.kind, r2.field}] && r1.field != r2.field {
					root.next = seq(b)
					root.fill(r2.field)
				}
				a.next = seq(b, b)
				a.fill(r2.field)
				return root, nil
			})
		}
		// a copy that was made before is used again
		c.copies(r1.kind+"."+r1.field+", copied before", "Clone", false, func(g *graph) (*typeWorld, map[*Val]*Val) {
			root, a, b := g.node(r1.kind), g.node("NumberShape"), g.node("NumberShape")
			root.next = seq(a)
			root.fill(r1.field)
			return root, map[*Val]*Val{a.base: b.base}
		})
	}
	c.floor("copy", 300)
	c.floor("types", 2000)
}

package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	divide("C24")
	register("C24", "abstract interpretation of the making of types and of the unwrapping of whole documents on type graphs of two references: identity, back pointer, instance, file and maps of every type that is reachable afterwards, and what the registries say about it; SSA rule over all allocations of types", checkC24)
}

// wellFormed decides whether the types are what every part of the system relies on.
func (c *Ctx) wellFormed(at string, g *typeGraph, raml *Val, where string) bool {
	good := true
	bad := func(rule, what string) {
		good = false
		c.fail(rule, at, what, where)
	}
	in, st := g.l.in, g.l.st
	baseT := deref(c.P.PtrTo("BaseShape"))
	ids := map[*Val]*Val{}
	for _, b := range g.order {
		n := shortKey(b.key)
		load := func(f string) *Val {
			t := c.P.fieldType("BaseShape", f)
			if t == nil {
				bad("anchor", "BaseShape."+f+" does not exist any more")
				return vNil
			}
			return in.loadPlace(st, b.S, b.S2+"."+f, t)
		}
		sh, kind := c.concrete(g.l, b)
		if kind == nil {
			bad("shape", n+" has no concrete type")
			continue
		}
		if back := in.loadPlace(st, sh.S, sh.S2+".BaseShape", c.P.PtrTo("BaseShape")); back != b {
			bad("shape", fmt.Sprintf("the concrete type of %s belongs to another type: %s", n, shortKey(back.key)))
		}
		if raml != nil && load("raml") != raml {
			bad("instance", n+" does not belong to the instance")
		}
		id := load("ID")
		switch {
		case id.K != KConst:
			bad("id", fmt.Sprintf("the ID of %s is not known: %s", n, shortKey(id.key)))
		case id == vInt(0):
			bad("id", n+" has no ID")
		case ids[id] != nil:
			bad("id", fmt.Sprintf("%s and %s have the same ID", shortKey(ids[id].key), n))
		default:
			ids[id] = b
		}
		if l := load("Location"); l == vStr("") {
			bad("file", n+" has no file")
		}
		s := structOf(baseT)
		for i := 0; s != nil && i < s.NumFields(); i++ {
			f := s.Field(i)
			if orderedElem(f.Type()) == nil {
				continue
			}
			if v := in.loadPlace(st, b.S, b.S2+"."+f.Name(), f.Type()); st.nilness(v) != no {
				bad("maps", fmt.Sprintf("%s.%s is nil", n, f.Name()))
			}
		}
	}
	return good
}

// registered compares the registries of an instance with the declared types.
func (u *unwrapped) registered(c *Ctx) bool {
	good := true
	bad := func(rule, what string) {
		good = false
		c.fail(rule, u.at, what, u.o.Where)
	}
	ask := func(fn *ssa.Function, args ...*Val) *Val {
		outs := c.explore(fn, runOpt{from: u.o.St, args: append([]*Val{u.w.raml}, args...), recurse: true, depth: 10, model: noHooks})
		if len(outs) != 1 || outs[0].Panic != "" {
			bad("undecided", "the result of "+FuncName(fn)+" is not decided")
			return nil
		}
		return outs[0].Ret[0]
	}
	typ, ann := c.method("RAML", "GetTypeFromFragmentPtr"), c.method("RAML", "GetAnnotationTypeFromFragmentPtr")
	list := c.method("RAML", "GetShapes")
	if typ == nil || ann == nil || list == nil {
		return false
	}
	for _, k := range sortedKeys(u.now) {
		p := strings.SplitN(k, ":", 3)
		fn, name := typ, ""
		switch {
		case p[1] == "AnnotationTypes":
			fn, name = ann, p[2]
		case len(p) == 3:
			name = p[2]
		default:
			b := u.now[k]
			name, _ = u.after.l.in.loadPlace(u.o.St, b.S, b.S2+".Name", types.Typ[types.String]).strConst()
		}
		got := ask(fn, vStr(p[0]), vStr(name))
		if got != nil && got != u.now[k] {
			bad("registered", fmt.Sprintf("%s is registered as %s", k, shortKey(got.key)))
		}
	}
	v := ask(list)
	if v == nil {
		return false
	}
	items, ok := u.after.l.items(v, c.P.PtrTo("BaseShape"))
	if !ok {
		bad("undecided", "the list of types is not known: "+shortKey(v.key))
		return false
	}
	in := map[*Val]bool{}
	for _, x := range items {
		in[x] = true
	}
	for _, b := range u.after.order {
		if !in[b] {
			bad("listed", fmt.Sprintf("%s is not in the list of types", shortKey(b.key)))
		}
	}
	// annotations
	if f := c.extensionsField(); f != nil {
		v := u.after.l.in.loadPlace(u.o.St, u.w.raml.S, "."+f.Name(), f.Type())
		xs, _ := u.after.l.items(v, c.P.PtrTo("DomainExtension"))
		for i, x := range xs {
			t := c.P.fieldType("DomainExtension", "DefinedBy")
			d := u.after.l.in.loadPlace(u.o.St, x.S, x.S2+".DefinedBy", t)
			found := false
			for k, b := range u.now {
				found = found || b == d && strings.Contains(k, ":AnnotationTypes")
			}
			if !found {
				bad("annotation", fmt.Sprintf("annotation %d is defined by %s, which is not an annotation type of the document", i, shortKey(d.key)))
			}
		}
	}
	return good
}

func checkC24(c *Ctx) {
	judge := func(u *unwrapped) {
		if c.wellFormed(u.at, u.after, u.w.raml, u.o.Where) && u.registered(c) {
			c.ok("unwrapped", u.at)
		}
	}
	if c.first() {
		c.unwrapWorlds(judge)
	}
	mark := c.markWorlds
	if !c.first() {
		mark = func([]refField, func(string, *instance, *Outcome, *typeGraph, *typeGraph)) {}
	}
	mark(c.references(), func(at string, w *instance, o *Outcome, before, after *typeGraph) {
		if c.wellFormed(at, after, w.raml, o.Where) {
			c.ok("marked", at)
		}
	})
	c.declared24("parsed", nil, half(0))
	c.declared24("parsed and unwrapped", []string{"OptWithUnwrap"}, half(1))
	c.floor("parsed", 500)
	c.floor("parsed and unwrapped", 500)
	c.floor("unwrapped", 200)
	c.floor("marked", 100)
}

// asInstance looks at what a document was read into.
func (w *docWorld) asInstance(o *Outcome) (*instance, bool) {
	frags, ok := w.fragments(o)
	if !ok {
		return nil, false
	}
	in := &instance{c: w.c, st: o.St, raml: plain(o.Ret[0]), names: map[*Val]string{}}
	for _, f := range sortedKeys(frags) {
		in.files = append(in.files, f)
		in.frags = append(in.frags, frags[f])
	}
	return in, true
}

// declared24 decides the property on documents with every way to declare a type in every place.
func (c *Ctx) declared24(rule string, opts []string, pick func(pl docPlace, i, j int) bool) {
	names := map[string]string{"UnionShape": "union", "JSONShape": "json"} // kinds and the names they carry
	for _, k := range docKinds {
		names[k.kind] = k.name
	}
	c.documents(opts, pick, func(at string, w *docWorld, o *Outcome, pl docPlace, b docBody) bool {
		at += ", " + rule
		if !o.success() {
			return false
		}
		inst, ok := w.asInstance(o)
		if !ok {
			return false
		}
		l := c.look(o.St)
		roots, err := inst.roots(l)
		if err != nil {
			c.fail("undecided", at, err.Error(), o.Where)
			return false
		}
		var from []*Val
		for _, k := range sortedKeys(roots) {
			from = append(from, roots[k])
		}
		g := c.reach(l, from...)
		if g.err != nil {
			c.fail("undecided", at, g.err.Error(), o.Where)
			return false
		}
		good, declared := c.wellFormed(at, g, inst.raml, o.Where), false
		bad := func(rule, format string, a ...any) {
			good = false
			c.fail(rule, at, fmt.Sprintf(format, a...), o.Where)
		}
		for _, x := range g.order {
			load := func(f string) *Val {
				return l.in.loadPlace(o.St, x.S, x.S2+"."+f, c.P.fieldType("BaseShape", f))
			}
			loc, _ := load("Location").strConst()
			line, ok := l.in.loadPlace(o.St, x.S, x.S2+".Position.Line", types.Typ[types.Int]).intConst()
			col, ok2 := l.in.loadPlace(o.St, x.S, x.S2+".Position.Column", types.Typ[types.Int]).intConst()
			declared = declared || ok && line == w.line(o.St, w.body)
			switch {
			case !ok || !ok2:
				bad("position", "the position of %s is not known", shortKey(x.key))
			case line <= 0:
				bad("position", "%s has no position", shortKey(x.key))
			case w.lines[line] != "" && (w.lines[line] != loc || col != line+5):
				bad("position", "%s is said to be in line %d, column %d of %s", shortKey(x.key), line, col, loc)
			case line == 1 && x == roots[loc+":Shape"]:
				// the type of a data type
			case w.lines[line] == "" && !strings.HasSuffix(loc, ".json"):
				bad("position", "%s is said to be in line %d of %s", shortKey(x.key), line, loc)
			}
			_, kind := c.concrete(l, x)
			if kind == nil {
				continue
			}
			name, _ := load("Type").strConst()
			if want := names[kind.Obj().Name()]; want != name {
				if kind.Obj().Name() != "RecursiveShape" || opts == nil {
					bad("kind", "%s is a %s and carries the name %q", shortKey(x.key), kind.Obj().Name(), name)
				}
			}
		}
		if !declared {
			bad("position", "no type is at the declaration")
		}
		if t := roots[w.entry+":"+strings.ReplaceAll(strings.Replace(pl.path, "types", "Types", 1), "annotationTypes", "AnnotationTypes")]; pl.name == "type" || pl.name == "annotation type" {
			if t == nil {
				bad("kind", "the declared type is not there")
			} else if _, kind := c.concrete(l, t); kind == nil || b.kind != "" && kind.Obj().Name() != b.kind {
				bad("kind", "the declared type is a %v instead of %s", kind, b.kind)
			}
		}
		if opts == nil {
			// data types are registered when they are unwrapped
			for k := range roots {
				if strings.HasSuffix(k, ":Shape") {
					delete(roots, k)
				}
			}
		}
		u := &unwrapped{at: at, w: inst, o: o, after: g, now: roots}
		if u.registered(c) && good {
			c.ok(rule, at)
		}
		return true
	})
}

package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
)

func init() {
	register("C23", "abstract interpretation of the validation of whole documents on known documents (values of every sort at every place of type graphs, custom facets defined at every level, several fragments, unwrapped or not): which value is validated against which type on every path, with any two of the steps failing", checkC23)
}

// document is an instance with values in its types and a record of what has to be validated.
type document struct {
	*instance
	ids     map[*Val]*typeWorld
	want    map[string]string     // type and value to the declared type they belong to
	parts   map[string][]string   // declared type to the types it consists of
	defects map[string]string     // declared type to what is wrong with it
	decl    map[string]*typeWorld // declared types
	order   []string
	limit   int64
	raw     bool
}

func (c *Ctx) newDocument(g *graph) *document {
	return &document{instance: c.newInstance(g), ids: map[*Val]*typeWorld{}, want: map[string]string{}, parts: map[string][]string{}, defects: map[string]string{}, decl: map[string]*typeWorld{}, limit: 2}
}

func (d *document) id(t *typeWorld) string {
	n, _ := t.get(d.st, "ID").intConst()
	return strconv.FormatInt(n, 10)
}

// data makes a data node.
func (d *document) data(name string) (node, value *Val) {
	t := d.c.P.fieldType("Node", "Value")
	value = nonNil(d.st, "value:"+name, t)
	return d.c.newStruct(d.st, "data:"+name, "Node", map[string]*Val{"Value": value, "Location": vStr("/values.raml"), "raml": d.raml}), value
}

func (d *document) exampleOf(name string) (ex, value *Val) {
	n, v := d.data(name)
	return d.c.newStruct(d.st, "example:"+name, "Example", map[string]*Val{"Data": n, "Strict": vBool(true), "Location": vStr("/values.raml"), "raml": d.raml}), v
}

// values gives a type an example, examples, and a default.
func (d *document) values(t *typeWorld, sorts string) {
	id := d.id(t)
	expect := func(v *Val) { d.want[id+" "+v.key] = "" }
	for _, s := range strings.Fields(sorts) {
		name := s + ":" + id
		switch s {
		case "example":
			ex, v := d.exampleOf(name)
			t.set("Example", ex)
			expect(v)
		case "default":
			n, v := d.data(name)
			t.set("Default", n)
			expect(v)
		case "examples", "included":
			e1, v1 := d.exampleOf(name + ":1")
			e2, v2 := d.exampleOf(name + ":2")
			m := newMap(d.st, "map:"+name, d.c.P.fieldType("Examples", "Map"), vStr("e1"), e1, vStr("e2"), e2)
			f := map[string]*Val{"Map": m}
			if s == "included" {
				f = map[string]*Val{"Link": d.c.newStruct(d.st, "named:"+name, "NamedExample", map[string]*Val{"Map": m, "Location": vStr("/values.raml"), "raml": d.raml})}
			}
			t.set("Examples", d.c.newStruct(d.st, "examples:"+name, "Examples", f))
			expect(v1)
			expect(v2)
		}
	}
}

// define adds definitions of custom facets.
func (d *document) define(t *typeWorld, defs ...facetDef) {
	mt := t.typeOf("CustomShapeFacetDefinitions")
	pt := orderedElem(mt)
	s := pt.Underlying().(*types.Struct)
	var kv []*Val
	for _, x := range defs {
		a := make([]*Val, s.NumFields())
		for i := range a {
			switch f := s.Field(i); f.Name() {
			case "Name":
				a[i] = vStr(x.name)
			case "Base":
				a[i] = x.def.base
			case "Required":
				a[i] = vBool(x.required)
			default:
				a[i] = zeroVal(f.Type())
			}
		}
		kv = append(kv, vStr(x.name), mk(Val{K: KStruct, T: pt, A: a}))
	}
	t.set("CustomShapeFacetDefinitions", newMap(d.st, t.prefix+"definitions", mt, kv...))
}

type facetDef struct {
	name     string
	def      *typeWorld
	required bool
}

// give adds values of custom facets and returns them.
func (d *document) give(t *typeWorld, names ...string) map[string]*Val {
	r := map[string]*Val{}
	var kv []*Val
	for _, n := range names {
		x, v := d.data("facet:" + d.id(t) + ":" + n)
		kv = append(kv, vStr(n), x)
		r[n] = v
	}
	t.set("CustomShapeFacets", newMap(d.st, t.prefix+"given", t.typeOf("CustomShapeFacets"), kv...))
	return r
}

// declare tells which types a declared type consists of.
func (d *document) declare(t *typeWorld, parts ...*typeWorld) *typeWorld {
	id := d.id(t)
	d.order = append(d.order, id)
	d.decl[id] = t
	d.parts[id] = []string{id}
	for _, p := range parts {
		d.parts[id] = append(d.parts[id], d.id(p))
	}
	return t
}

func (d *document) extension(t *typeWorld) {
	v := d.annotated(t)
	if v != nil {
		d.want[d.id(t)+" "+v.key] = "extension"
	}
}

// annotated adds an annotation of the given type to the document and returns its value.
func (d *instance) annotated(t *typeWorld) *Val {
	id := t.get(d.st, "ID").key
	vt := d.c.P.fieldType("Node", "Value")
	v := nonNil(d.st, "value:annotation:"+id, vt)
	n := d.c.newStruct(d.st, "data:annotation:"+id, "Node", map[string]*Val{"Value": v, "Location": vStr("/values.raml"), "raml": d.raml})
	x := d.c.newStruct(d.st, "extension:"+id, "DomainExtension", map[string]*Val{"Extension": n, "DefinedBy": t.base, "Location": vStr("/values.raml"), "raml": d.raml})
	ft := d.c.extensionsField()
	if ft == nil {
		return nil
	}
	l := look{c: d.c, in: NewInterp(d.c.P), st: d.st}
	old, _ := l.items(l.in.loadPlace(d.st, d.raml.S, "."+ft.Name(), ft.Type()), ft.Type().Underlying().(*types.Slice).Elem())
	d.st.store(d.raml.S, "."+ft.Name(), newList(d.st, "extensions"+strconv.Itoa(len(old)), ft.Type(), append(old, x)...), ft.Type())
	return v
}

// extensionsField is the list of annotations of an instance.
func (c *Ctx) extensionsField() *types.Var {
	return c.fieldOfType("RAML", func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && types.Identical(s.Elem(), c.P.PtrTo("DomainExtension"))
	})
}

// model lets up to limit of the steps fail and records all of them.
func (d *document) model(mark string) func(in *Interp, st *State, k *Call) ([]callOut, bool) {
	errT := types.Universe.Lookup("error").Type()
	baseT, idT := d.c.P.PtrTo("BaseShape"), types.Typ[types.Int64]
	return func(in *Interp, st *State, k *Call) ([]callOut, bool) {
		name := ""
		switch {
		case k.Callee != nil:
			name = k.Callee.Name()
		case k.Method != nil:
			name = k.Method.Name()
		}
		step := map[string]string{"Validate": "validate", "validate": "validate", "Check": "check", "check": "check", "UnwrapShape": "unwrap", "FindAndMarkRecursion": "mark"}[name]
		if step == "" || len(k.Args) == 0 {
			return noHooks(in, st, k)
		}
		on := plain(k.Args[0])
		if step == "unwrap" || step == "mark" {
			if len(k.Args) < 2 {
				return nil, false
			}
			on = plain(k.Args[1])
		}
		if on.K != KPtr || on.T == nil {
			return nil, false
		}
		if !types.Identical(on.T, baseT) {
			n, ok := deref(on.T).(*types.Named)
			if !ok || !strings.HasSuffix(n.Obj().Name(), "Shape") {
				return nil, false
			}
			on = in.loadPlace(st, on.S, on.S2+".BaseShape", baseT)
		}
		id := in.loadPlace(st, on.S, on.S2+".ID", idT)
		um := in.loadPlace(st, on.S, on.S2+"."+mark, types.Typ[types.Bool])
		value := vNil
		if step == "validate" && len(k.Args) > 1 {
			value = plain(k.Args[1])
		}
		failed, _ := in.loadPlace(st, "verif:failures", ".n", idT).intConst()
		var outs []callOut
		for _, fails := range []bool{false, true} {
			if fails && failed >= d.limit {
				continue
			}
			n := st.clone()
			er := vNil
			if fails {
				er = vSym(fmt.Sprintf("err:%s:%d", step, len(n.events)), errT)
				n.assumeNil(er, false)
				n.store("verif:failures", ".n", vInt(failed+1), idT)
			}
			n.addEvent(&Event{Name: step, Args: []*Val{on, value, id, um}, Res: []*Val{er}, key: fmt.Sprintf("%s %d %s", step, len(n.events), on.key)})
			ret := []*Val{er}
			switch step {
			case "unwrap":
				ret = []*Val{vNil, er}
				if !fails {
					ret[0] = on
					g := d.c.reach(look{c: d.c, in: in, st: n}, on)
					if g.err != nil {
						in.giveUp("%s", g.err.Error())
						return nil, true
					}
					for _, b := range g.order {
						n.store(b.S, b.S2+"."+mark, vBool(true), types.Typ[types.Bool])
					}
				}
			case "mark":
				ret = []*Val{vNil, er}
			}
			outs = append(outs, callOut{st: n, ret: ret})
		}
		return outs, true
	}
}

// documentWorld validates a document and compares what was done with what has to be done.
func (c *Ctx) documentWorld(at string, build func(d *document)) {
	fn := c.method("RAML", "ValidateShapes")
	mark := c.markField("BaseShape", "IsUnwrapped")
	if fn == nil || mark == "" {
		return
	}
	if d := os.Getenv("DBGW"); d != "" && d != at {
		return
	}
	var d *document
	run := func(in *Interp, st *State, k *Call) ([]callOut, bool) { return d.model(mark)(in, st, k) }
	outs := c.explore(fn, runOpt{recurse: true, depth: 40, budget: 400000, model: run, setup: func(in *Interp, st *State, args []*Val) {
		d = c.newDocument(&graph{c: c, st: st})
		newObj(st, "verif:failures", types.NewPointer(types.Typ[types.Int64]))
		st.store("verif:failures", ".n", vInt(0), types.Typ[types.Int64])
		build(d)
		for _, t := range d.g.nodes {
			t.set(mark, vBool(!d.raw))
		}
		d.done()
		args[0] = d.raml
	}})
	if len(outs) == 0 {
		c.fail("undecided", at, "no path returns")
	}
	names := map[string]string{}
	for _, t := range d.g.nodes {
		l := look{c: c, in: NewInterp(c.P), st: t.st}
		s, _ := l.in.loadPlace(t.st, t.base.S, ".Name", types.Typ[types.String]).strConst()
		names[d.id(t)] = s + " (" + t.kind.Obj().Name() + ")"
	}
	what := func(o string) string {
		f := strings.SplitN(o, " ", 2)
		return shortKey(f[1]) + " of " + names[f[0]]
	}
	for i := range outs {
		o := &outs[i]
		if o.Panic != "" {
			c.fail("panic", at, o.Panic, o.Where)
			continue
		}
		good := true
		bad := func(rule, s string) {
			good = false
			c.fail(rule, at, s, o.Where)
		}
		causes := causesOf(o.lastErr())
		failed := map[string]bool{} // types for which a step failed
		done := map[string]bool{}   // steps that were taken
		any := false
		for _, e := range o.St.events {
			switch e.Name {
			case "validate", "check", "unwrap", "mark":
			default:
				continue
			}
			n, ok := e.Args[2].intConst()
			if !ok {
				bad("undecided", "the ID of a type is not known: "+shortKey(e.Args[2].key))
				continue
			}
			id := strconv.FormatInt(n, 10)
			if e.Res[0] != vNil {
				any = true
				failed[id] = true
				if !causes[e.Res[0]] {
					bad("reported", fmt.Sprintf("the failure to %s %s is not reported", e.Name, names[id]))
				}
			}
			switch e.Name {
			case "validate":
				k := id + " " + e.Args[1].key
				done[k] = true
				if _, ok := d.want[k]; !ok {
					bad("value", "a value is validated against a type it does not belong to: "+what(k))
				}
			default:
				done[id+" "+e.Name] = true
			}
			if e.Name == "validate" || e.Name == "check" {
				if x, ok := e.Args[3].boolConst(); !ok || !x {
					bad("unwrapped", fmt.Sprintf("%s is used to %s although it is not unwrapped", names[id], e.Name))
				}
			}
		}
		wrong := ""
		for _, r := range d.order {
			fails := d.defects[r] != ""
			for _, p := range d.parts[r] {
				fails = fails || failed[p]
			}
			if d.defects[r] != "" {
				wrong = d.defects[r]
			}
			if fails {
				continue
			}
			need := []string{r + " check"}
			if d.raw {
				need = append(need, r+" unwrap", r+" mark")
			}
			for _, k := range need {
				if !done[k] {
					bad("type", fmt.Sprintf("%s is not part of the validation: no %s", names[r], k[len(r)+1:]))
				}
			}
			for _, p := range d.parts[r] {
				for _, k := range sortedKeys(d.want) {
					if strings.HasPrefix(k, p+" ") && d.want[k] == "" && !done[k] {
						bad("value", "is not validated: "+what(k))
					}
				}
			}
		}
		for _, k := range sortedKeys(d.want) {
			if d.want[k] == "extension" && !done[k] && !failed[strings.Fields(k)[0]] {
				bad("annotation", "is not validated: "+what(k))
			}
		}
		if o.success() && wrong != "" {
			bad("facets", "is accepted: "+wrong)
		}
		if !o.success() && !any && wrong == "" {
			bad("valid", "a valid document is refused")
		}
		if o.success() && any {
			bad("reported", "the document is accepted although a step fails")
		}
		if good {
			c.ok("document", at)
		}
	}
}

func checkC23(c *Ctx) {
	var content []refField
	for _, r := range c.refFields() {
		switch r.field {
		case "Alias", "Inherits", "Link", "Head", "Shape":
		default:
			content = append(content, r)
		}
	}
	sort.Slice(content, func(i, j int) bool { return content[i].kind+content[i].field < content[j].kind+content[j].field })
	// values at every place of a type: in the type, in the types it is made of, and in the parts of these
	for _, r1 := range content {
		for _, r2 := range content {
			if r2.field == "CustomShapeFacetDefinitions" && r1.field == r2.field {
				continue
			}
			for _, sorts := range []string{"example", "examples", "included", "default", "example examples default"} {
				c.documentWorld(fmt.Sprintf("%s at %s.%s of %s.%s", sorts, r2.kind, r2.field, r1.kind, r1.field), func(d *document) {
					a1, a2 := d.node(r1.kind, "/l.raml"), d.node(r2.kind, "/l.raml")
					p, q1, q2 := d.node("StringShape", "/l.raml"), d.node("NumberShape", "/l.raml"), d.node("BooleanShape", "/l.raml")
					a1.next, a2.next = seq(p, a2), seq(q1, q2)
					if r1.field == "Items" {
						a1.next = seq(a2)
					}
					a1.fill(r1.field)
					a2.fill(r2.field)
					parts := []*typeWorld{a2}
					if r1.field != "Items" {
						parts = append(parts, p)
					}
					parts = append(parts, q1)
					if r2.field != "Items" {
						parts = append(parts, q2)
					}
					if len(strings.Fields(sorts)) == 1 {
						for _, t := range append(parts, a1) {
							d.values(t, sorts)
						}
					} else {
						d.values(parts[len(parts)-1], sorts)
					}
					d.library("/l.raml", []*typeWorld{a1}, nil)
					d.declare(a1, parts...)
				})
			}
		}
	}
	// custom facets: definitions at two levels above the type, values, and the definitions of the type itself
	for _, place := range append([]refField{{"", ""}}, content...) {
		for _, level := range []string{"none", "parent", "grandparent"} {
			for _, required := range []bool{false, true} {
				for _, given := range []bool{false, true} {
					for _, again := range []bool{false, true} {
						for _, unknown := range []bool{false, true} {
							if level == "none" && required {
								continue
							}
							if place.field == "CustomShapeFacetDefinitions" && again {
								continue // definitions have no definitions
							}
							at := fmt.Sprintf("facet defined by %s", level)
							for _, x := range []struct {
								on bool
								s  string
							}{{required, "required"}, {given, "given"}, {again, "defined again"}, {unknown, "with an unknown one"}} {
								if x.on {
									at += ", " + x.s
								}
							}
							if place.field != "" {
								at += " at " + place.kind + "." + place.field
							}
							c.documentWorld(at, func(d *document) {
								pp, p, t, def, def2, own := d.node("NumberShape", "/l.raml"), d.node("NumberShape", "/l.raml"), d.node("NumberShape", "/l.raml"), d.node("StringShape", "/l.raml"), d.node("BooleanShape", "/l.raml"), d.node("StringShape", "/l.raml")
								p.next = seq(pp)
								p.set("Inherits", newList(d.st, "inherits:p", p.typeOf("Inherits"), pp.base))
								t.set("Inherits", newList(d.st, "inherits:t", t.typeOf("Inherits"), p.base))
								defs := map[string][]facetDef{"grandparent": {{"z", def2, true}}}
								if level != "none" {
									defs[level] = append(defs[level], facetDef{"f", def, required})
								}
								d.define(p, defs["parent"]...)
								d.define(pp, defs["grandparent"]...)
								if again {
									d.define(t, facetDef{"f", own, false})
								}
								var names []string
								if given {
									names = append(names, "f")
								}
								names = append(names, "z")
								if unknown {
									names = append(names, "y")
								}
								vals := d.give(t, names...)
								d.want[d.id(def2)+" "+vals["z"].key] = ""
								if given && level != "none" {
									d.want[d.id(def)+" "+vals["f"].key] = ""
								}
								root := t
								parts := []*typeWorld{t, def, def2, own}
								if place.field != "" {
									root = d.node(place.kind, "/l.raml")
									root.next = seq(d.node("NilShape", "/l.raml"), t)
									if place.field == "Items" {
										root.next = seq(t)
									}
									root.fill(place.field)
								}
								d.library("/l.raml", []*typeWorld{root}, nil)
								if root == t {
									parts = parts[1:]
								}
								d.declare(root, parts...)
								id := d.id(root)
								switch {
								case again && level != "none":
									d.defects[id] = "a facet is defined again by a descendant"
								case required && !given:
									d.defects[id] = "a required facet is missing"
								case unknown:
									d.defects[id] = "a facet is not defined"
								case level == "none" && given:
									d.defects[id] = "a facet is defined by no ancestor"
								}
							})
						}
					}
				}
			}
		}
	}
	// several fragments and types, with annotations
	for _, raw := range []bool{false, true} {
		s := "unwrapped"
		if raw {
			s = "not unwrapped"
		}
		for _, kind := range []string{"types", "annotation types", "data types", "all"} {
			c.documentWorld("several "+kind+", "+s, func(d *document) {
				d.raw = raw
				mk := func(file string) *typeWorld {
					t := d.node("NumberShape", file)
					d.values(t, "example")
					return d.declare(t)
				}
				for _, file := range []string{"/b.raml", "/a.raml"} {
					var ts, as []*typeWorld
					if kind == "types" {
						ts = []*typeWorld{mk(file), mk(file)}
					}
					if kind == "annotation types" {
						as = []*typeWorld{mk(file), mk(file)}
					}
					if kind == "all" {
						ts, as = []*typeWorld{mk(file)}, []*typeWorld{mk(file)}
					}
					d.library(file, ts, as)
					for i := range as {
						if i == 0 || !raw {
							d.extension(as[len(as)-1-i])
						}
					}
				}
				if kind == "data types" || kind == "all" {
					d.dataType("/c.raml", mk("/c.raml"))
				}
				if kind == "data types" {
					d.dataType("/0.raml", mk("/0.raml"))
				}
			})
		}
		// nested types of types that are not unwrapped
		for _, r := range content {
			for _, where := range []string{"type", "annotation type", "data type"} {
				if !raw && where == "type" {
					continue
				}
				c.documentWorld(fmt.Sprintf("%s.%s in a %s, %s", r.kind, r.field, where, s), func(d *document) {
					d.raw = raw
					t, a, b := d.node(r.kind, "/l.raml"), d.node("NumberShape", "/l.raml"), d.node("StringShape", "/l.raml")
					t.next = seq(a, b)
					t.fill(r.field)
					parts := []*typeWorld{a, b}
					if r.field == "Items" {
						parts = parts[:1]
					}
					d.declare(t, parts...)
					d.values(parts[len(parts)-1], "example")
					d.values(t, "default")
					switch where {
					case "type":
						d.library("/l.raml", []*typeWorld{t}, nil)
					case "annotation type":
						d.library("/l.raml", nil, []*typeWorld{t})
						d.extension(t)
					default:
						d.dataType("/l.raml", t)
					}
				})
			}
		}
	}
	c.floor("document", 1000)
}

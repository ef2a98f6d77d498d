package main

import (
	"fmt"
	"go/types"
	"path"
	"strings"
)

// wrongBody is a declaration that is wrong, not in its syntax but in what it says.
type wrongBody struct {
	name string
	make func(w *docWorld) any
	in   string // the file at fault, if it is another one
	may  bool   // the models do not tell that it is wrong, on every path
	self bool   // wrong in itself: such types are not refused as definitions of facets
}

func wrongBodies() []wrongBody {
	var r []wrongBody
	kv := func(x ...any) []any { return x }
	add := func(name string, f func(w *docWorld) any) { r = append(r, wrongBody{name: name, make: f}) }
	with := func(name string, f func(w *docWorld) []any) {
		add(name, func(w *docWorld) any { return w.m(f(w)...) })
	}
	for _, e := range []string{"Nope", "l.Nope", "nope.T", "Nope[]", "string | Nope", "(string", "string |"} {
		e := e
		add(e, func(w *docWorld) any { return e })
		with("type: "+e, func(w *docWorld) []any { return kv("displayName", "n", "type", e) })
	}
	from := len(r)
	with("lengths", func(w *docWorld) []any { return kv("type", "string", "minLength", w.num(3), "maxLength", w.num(1)) })
	with("bounds of numbers", func(w *docWorld) []any { return kv("minimum", w.num(3), "maximum", w.num(1)) })
	with("items", func(w *docWorld) []any { return kv("type", "array", "minItems", w.num(3), "maxItems", w.num(1)) })
	with("properties", func(w *docWorld) []any {
		return kv("type", "object", "minProperties", w.num(3), "maxProperties", w.num(1))
	})
	with("lengths of files", func(w *docWorld) []any { return kv("type", "file", "minLength", w.num(3), "maxLength", w.num(1)) })
	with("discriminator", func(w *docWorld) []any { return kv("type", "object", "discriminator", "nope") })
	for i := from; i < len(r); i++ {
		r[i].self = true
	}
	with("example", func(w *docWorld) []any { return kv("type", "integer", "example", "x") })
	with("default", func(w *docWorld) []any { return kv("type", "integer", "default", "x") })
	with("example of a reference", func(w *docWorld) []any { return kv("type", "@S", "example", w.num(1)) })
	with("one of the examples", func(w *docWorld) []any { return kv("type", "integer", "examples", w.m("e1", w.num(1), "e2", "x")) })
	r = append(r, wrongBody{name: "one of the included examples", in: "n.raml", make: func(w *docWorld) any {
		return w.m("type", "integer", "examples", w.include("n.raml"))
	}})
	with("wider facet", func(w *docWorld) []any { return kv("type", "@S", "maxLength", w.num(20)) })
	with("wider property", func(w *docWorld) []any { return kv("type", "@R", "properties", w.m("r", "integer")) })
	with("parents", func(w *docWorld) []any { return kv("type", w.seq(w.str("@S"), w.str("@R"))) })
	with("missing facet", func(w *docWorld) []any { return kv("type", "@WithFacet") })
	with("wrong facet", func(w *docWorld) []any { return kv("type", "@WithFacet", "cf", "x") })
	with("unknown facet", func(w *docWorld) []any { return kv("type", "string", "nofacet", "x") })
	with("wrong annotation", func(w *docWorld) []any { return kv("type", "string", "(@an)", "x") })
	with("unknown annotation", func(w *docWorld) []any { return kv("type", "string", "(nope)", "x") })
	with("unknown annotation of a library", func(w *docWorld) []any { return kv("type", "string", "(l.nope)", "x") })
	// types of parts that come from another file
	with("example of a union", func(w *docWorld) []any { return kv("type", "@S | @R", "example", w.yes()) })
	with("items from a file", func(w *docWorld) []any { return kv("type", "@L", "items", w.include("d.raml")) })
	with("property from a file", func(w *docWorld) []any { return kv("type", "@R", "properties", w.m("r", w.include("d.raml"))) })
	with("optional property from a file", func(w *docWorld) []any { return kv("type", "@D", "properties", w.m("r?", w.include("d.raml"))) })
	with("pattern property from a file", func(w *docWorld) []any { return kv("type", "@P", "properties", w.m("/x/", w.include("d.raml"))) })
	with("discriminator from a file", func(w *docWorld) []any {
		return kv("properties", w.m("k", w.include("d.raml")), "discriminator", "k")
	})
	with("value of a discriminator from a file", func(w *docWorld) []any {
		return kv("properties", w.m("k", w.m("type", "l.I")), "discriminator", "k", "discriminatorValue", "x")
	})
	with("example of a pattern property from a file", func(w *docWorld) []any {
		return kv("properties", w.m("/^x/", w.include("d.raml")), "example", w.m("xx", "v"))
	})
	with("example of a property from a file", func(w *docWorld) []any {
		return kv("properties", w.m("x", w.include("d.raml")), "example", w.m("x", "v"))
	})
	with("example of items from a file", func(w *docWorld) []any {
		return kv("items", w.include("d.raml"), "example", w.seq(w.str("v")))
	})
	for i := range r {
		switch r[i].name {
		case "discriminator from a file", "value of a discriminator from a file":
			r[i].self = true
		case "example of a pattern property from a file":
			r[i].may = true
		}
	}
	for _, k := range []string{"integer", "number", "string", "boolean"} {
		k := k
		r = append(r, wrongBody{name: k + " enum of a type in a file", in: k + ".raml", make: func(w *docWorld) any {
			return w.m("type", w.include(k+".raml"), "description", "d")
		}})
	}
	with("wrong nested type", func(w *docWorld) []any {
		return kv("properties", w.m("x?", w.m("items", w.m("type", "@S", "maxLength", w.num(20)))))
	})
	with("wrong nested example", func(w *docWorld) []any {
		return kv("properties", w.m("x?", w.m("items", w.m("type", "@S", "example", w.num(1)))))
	})
	return r
}

// wrongSetting is a way in which a file gets into the document.
type wrongSetting struct {
	name, file string
	data       bool
	entry      func(w *docWorld, file string) // the files that lead to it
}

func wrongSettings() []wrongSetting {
	const entry = "/a/api.raml"
	return []wrongSetting{
		{name: "entry point", file: entry},
		{name: "used library", file: "/a/m/f.raml", entry: func(w *docWorld, file string) {
			w.file(entry, "Library")
			w.content(w.m("usage", "x", "uses", w.m("f", w.uses("m/f.raml"))))
		}},
		{name: "library used by a library", file: "/a/m/f.raml", entry: func(w *docWorld, file string) {
			w.file(entry, "Library")
			w.content(w.m("uses", w.m("g", w.uses("g.raml"))))
			w.file("/a/g.raml", "Library")
			w.content(w.m("uses", w.m("f", w.uses("m/f.raml"))))
		}},
		{name: "library of a parent", file: "/a/m/f.raml", entry: func(w *docWorld, file string) {
			w.file(entry, "Library")
			w.content(w.m("uses", w.m("f", w.uses("m/f.raml")), "types", w.m("Y", w.m("type", "f.A", "description", "d"), "X", w.m("items", "f.A"))))
		}},
		{name: "library used by a data type", file: "/a/m/f.raml", entry: func(w *docWorld, file string) {
			w.file(entry, "DataType")
			w.content(w.m("uses", w.m("f", w.uses("m/f.raml")), "type", "object", "properties", w.m("p", "f.Fine")))
		}},
		{name: "data type", file: entry, data: true},
		{name: "included data type", file: "/a/m/f.raml", data: true, entry: func(w *docWorld, file string) {
			w.file(entry, "Library")
			w.content(w.m("types", w.m("Z", "string", "A", w.include("m/f.raml"))))
		}},
		{name: "data type included in a property", file: "/a/m/f.raml", data: true, entry: func(w *docWorld, file string) {
			w.file(entry, "Library")
			w.content(w.m("types", w.m("Z", w.m("properties", w.m("y?", "string", "p?", w.m("type", w.include("m/f.raml")))))))
		}},
	}
}

// wrongPlaces tells where the declaration is, in a library and in a data type.
func wrongPlaces(data bool) []docPlace {
	var r []docPlace
	kv := func(x ...any) []any { return x }
	for _, pl := range docPlaces() {
		if pl.data == data && pl.name != "property of items" && pl.name != "optional property" {
			r = append(r, pl)
		}
	}
	if !data {
		r = append(r, docPlace{name: "parent", make: func(w *docWorld, b any) []any {
			return kv("types", w.m("A", w.m("type", "B", "description", "d"), "B", b))
		}})
	}
	return r
}

// wrong runs through the documents with a wrong declaration.
func (c *Ctx) wrong(opts []string, before func(w *docWorld), judge func(at string, w *docWorld, o *Outcome, file string, lines map[int64]bool, may bool) bool) {
	for i, s := range wrongSettings() {
		for j, pl := range wrongPlaces(s.data) {
			for k, b := range wrongBodies() {
				for n, pre := range []string{"", "l."} {
					if s.name == "library of a parent" && pl.name == "annotation type" {
						continue
					}
					if b.self && (pl.name == "definition of a facet" || pl.name == "facet of a data type") {
						continue
					}
					if s.data && pre == "" || c.Tier != "thorough" && (i+j+k+n)%share(pl) != 0 {
						continue
					}
					s, pl, b := s, pl, b
					at := fmt.Sprintf("%s as %s of %s with %s", b.name, pl.name, s.name, pre)
					file, lines := s.file, map[int64]bool{}
					c.parsed(at, "/a/api.raml", opts, func(w *docWorld) {
						before(w)
						c.wrongDoc(w, s, pl, b, pre)
						body := w.body
						if b.in != "" {
							file = path.Join(path.Dir(s.file), b.in)
							body = w.files[file].root
						}
						for _, x := range w.nodes(body) {
							if l, ok := c.look(w.st).in.loadPlace(w.st, x.n.S, ".Line", types.Typ[types.Int]).intConst(); ok {
								lines[l] = true
							}
						}
					}, func(w *docWorld, o *Outcome) bool { return judge(at, w, o, file, lines, b.may) })
				}
			}
		}
	}
}

// share tells that one in so many of the documents of a place is looked at in the quick check.
func share(pl docPlace) int {
	if mainPlaces[pl.name] {
		return 2
	}
	return 6
}

func (c *Ctx) wrongDoc(w *docWorld, s wrongSetting, pl docPlace, b wrongBody, pre string) {
	aux := func() []any {
		return []any{"S", w.m("type", "string", "maxLength", w.num(9)), "R", w.m("type", "object", "properties", w.m("r", "S")),
			"WithFacet", w.m("type", "string", "facets", w.m("cf", "integer")), "Fine", "string",
			"L", w.m("items", "string"), "P", w.m("properties", w.m("/x/", "string")), "I", "integer",
			"D", w.m("properties", w.m("r", w.m("type", "object", "properties", w.m("d?", "string"))))}
	}
	if s.entry != nil {
		s.entry(w, s.file)
	}
	w.pre = ""
	w.file("/a/lib/l.raml", "Library")
	w.content(w.m("annotationTypes", w.m("an", "integer"), "types", w.m(aux()...)))
	w.pre = pre
	kind, rel := "Library", "lib/l.raml"
	if s.data {
		kind = "DataType"
	}
	if s.entry != nil {
		rel = "../lib/l.raml"
	}
	w.file(s.file, kind)
	es := []any{"uses", w.m("l", w.uses(rel))}
	w.body = w.asNode(b.make(w))
	body := pl.make(w, w.body)
	w.pre = ""
	if !s.data {
		ann := w.m("an", "integer")
		typ := w.m(aux()...)
		join := func(to, from *Val) {
			m, more := w.st.wobj(to.S), w.st.heap[from.S][".Content"]
			m[".Content"] = mk(Val{K: KSlice, T: more.T, A: append(append([]*Val(nil), m[".Content"].A...), more.A...)})
		}
		switch body[0] {
		case "types":
			join(body[1].(*Val), typ)
			es = append(es, "annotationTypes", ann)
		default:
			join(body[1].(*Val), ann)
			es = append(es, "types", typ)
		}
	}
	es = append(es, body...)
	w.content(w.m(es...))
	if w.want[path.Join(path.Dir(s.file), "d.raml")] > 0 {
		w.file(path.Join(path.Dir(s.file), "d.raml"), "DataType")
		w.content(w.m("properties", w.m("d?", "string")))
	}
	switch b.in {
	case "":
	default:
		w.file(path.Join(path.Dir(s.file), b.in), "DataType")
		x := w.str("x")
		if b.in == "string.raml" {
			x = w.num(1)
		}
		w.content(w.m("type", strings.TrimSuffix(b.in, ".raml"), "enum", w.seq(x)))
	case "n.raml":
		w.file(path.Join(path.Dir(s.file), b.in), "NamedExample")
		w.content(w.m("e1", w.num(1), "e2", "x"))
	}
}

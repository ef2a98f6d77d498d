package main

import (
	"fmt"
	"strings"
)

// docBody is a way to declare a type.
type docBody struct {
	name string
	make func(w *docWorld) any // a text or a node
	kind string                // concrete type that it has after resolving, if it is known
}

// docKinds are the built-in types and their kinds.
var docKinds = []struct{ name, kind string }{
	{"any", "AnyShape"}, {"nil", "NilShape"}, {"string", "StringShape"}, {"number", "NumberShape"}, {"integer", "IntegerShape"},
	{"boolean", "BooleanShape"}, {"datetime", "DateTimeShape"}, {"datetime-only", "DateTimeOnlyShape"}, {"date-only", "DateOnlyShape"},
	{"time-only", "TimeOnlyShape"}, {"file", "FileShape"}, {"object", "ObjectShape"}, {"array", "ArrayShape"},
}

// docBodies lists the ways to declare a type. They refer to the types of docPlace.
func docBodies() []docBody {
	var r []docBody
	add := func(name, kind string, f func(w *docWorld) any) {
		r = append(r, docBody{name: name, make: f, kind: kind})
	}
	for _, k := range docKinds {
		n := k.name
		add(n, k.kind, func(w *docWorld) any { return n })
		add("type: "+n, k.kind, func(w *docWorld) any { return w.m("type", n) })
		add("described "+n, k.kind, func(w *docWorld) any {
			return w.m("displayName", "N", "type", n, "description", "text", "facets", w.m("f1", "string", "f2?", w.m("type", "integer")))
		})
	}
	with := func(kind string, name string, kv func(w *docWorld) []any) {
		add(name, kind, func(w *docWorld) any { return w.m(kv(w)...) })
	}
	kv := func(x ...any) []any { return x }
	with("StringShape", "string facets", func(w *docWorld) []any {
		return kv("type", "string", "minLength", w.num(1), "maxLength", w.num(9), "pattern", "^a", "enum", w.seq(w.str("ab"), w.str("ac")), "default", "ab", "example", "ac")
	})
	with("IntegerShape", "integer facets", func(w *docWorld) []any {
		return kv("type", "integer", "minimum", w.num(1), "maximum", w.num(9), "multipleOf", w.num(1), "format", "int8", "enum", w.seq(w.num(3), w.num(4)), "examples", w.m("a", w.num(3), "b", w.m("value", w.num(4))))
	})
	with("NumberShape", "number facets", func(w *docWorld) []any {
		return kv("type", "number", "minimum", w.num(1), "maximum", w.num(9), "format", "float", "default", w.num(2))
	})
	with("FileShape", "file facets", func(w *docWorld) []any {
		return kv("type", "file", "minLength", w.num(1), "maxLength", w.num(9), "fileTypes", w.seq(w.str("image/png")))
	})
	with("BooleanShape", "boolean facets", func(w *docWorld) []any { return kv("type", "boolean", "enum", w.seq(w.yes()), "default", w.yes()) })
	with("ObjectShape", "object facets", func(w *docWorld) []any {
		return kv("type", "object", "minProperties", w.num(0), "maxProperties", w.num(5), "additionalProperties", w.tagged("!!bool", "false"),
			"properties", w.m("a?", "string", "b", w.m("type", "integer", "required", w.tagged("!!bool", "false")), "/^x/", w.m("type", "any")), "discriminator", "a", "discriminatorValue", "v")
	})
	with("ObjectShape", "nested objects", func(w *docWorld) []any {
		return kv("properties", w.m("a", w.m("properties", w.m("b?", w.m("properties", w.m("c", "@S", "d", "@R[]"))))))
	})
	with("ArrayShape", "array facets", func(w *docWorld) []any {
		return kv("type", "array", "minItems", w.num(0), "maxItems", w.num(5), "uniqueItems", w.yes(), "items", w.m("type", "object", "properties", w.m("a", "@R")))
	})
	with("ArrayShape", "nested arrays", func(w *docWorld) []any { return kv("items", w.m("items", w.m("items", "@S"))) })
	// without a type
	with("StringShape", "minLength alone", func(w *docWorld) []any { return kv("minLength", w.num(1)) })
	with("NumberShape", "minimum alone", func(w *docWorld) []any { return kv("minimum", w.num(1)) })
	with("ArrayShape", "items alone", func(w *docWorld) []any { return kv("items", "@S") })
	with("ObjectShape", "properties alone", func(w *docWorld) []any { return kv("properties", w.m("a?", "@S")) })
	with("FileShape", "fileTypes alone", func(w *docWorld) []any { return kv("fileTypes", w.seq(w.str("*/*"))) })
	with("StringShape", "description alone", func(w *docWorld) []any { return kv("description", "d") })
	with("StringShape", "no value for the type", func(w *docWorld) []any { return kv("type", w.null()) })
	add("no value", "StringShape", func(w *docWorld) any { return w.null() })
	// expressions and references
	for _, x := range []struct{ e, kind string }{
		{"@S", "StringShape"}, {"@R", "ObjectShape"}, {"l.T", "ObjectShape"}, {"l.U", "UnionShape"}, {"@Alias", "ObjectShape"},
		{"@S[]", "ArrayShape"}, {"@R[][]", "ArrayShape"}, {"@S | @R", "UnionShape"}, {"(@S | l.T)[]", "ArrayShape"}, {"string?", "UnionShape"},
		{"l.T?", "UnionShape"}, {"@R[]?", "UnionShape"}, {"nil | l.U | @R[]", "UnionShape"}, {"boolean | datetime-only", "UnionShape"}, {"(string)", "StringShape"},
	} {
		e := x.e
		add(e, x.kind, func(w *docWorld) any { return e })
		add("type: "+e, x.kind, func(w *docWorld) any { return w.m("type", e) })
		with(x.kind, "described "+e, func(w *docWorld) []any { return kv("type", e, "description", "text", "displayName", "n") })
	}
	with("StringShape", "@S with facets", func(w *docWorld) []any { return kv("type", "@S", "minLength", w.num(2), "example", "abc") })
	with("ObjectShape", "@R with properties", func(w *docWorld) []any {
		return kv("type", "@R", "properties", w.m("r", w.m("type", "string", "minLength", w.num(1)), "q?", "l.T"))
	})
	with("ObjectShape", "l.T with properties", func(w *docWorld) []any { return kv("type", "l.T", "properties", w.m("q?", "@R[]")) })
	with("ArrayShape", "@R[] with facets", func(w *docWorld) []any { return kv("type", "@R[]", "minItems", w.num(1)) })
	with("StringShape", "custom facet", func(w *docWorld) []any { return kv("type", "@WithFacet", "cf", "v") })
	with("ObjectShape", "two parents", func(w *docWorld) []any { return kv("type", w.seq(w.str("@R"), w.str("@Q"))) })
	with("ObjectShape", "two parents with properties", func(w *docWorld) []any {
		return kv("type", w.seq(w.str("@R"), w.str("l.T")), "properties", w.m("z?", "@S"))
	})
	with("ObjectShape", "one parent in a list", func(w *docWorld) []any { return kv("type", w.seq(w.str("@R"))) })
	// other files
	add("include", "ObjectShape", func(w *docWorld) any { return w.include("d.raml") })
	with("ObjectShape", "type: include", func(w *docWorld) []any { return kv("type", w.include("d.raml")) })
	with("ObjectShape", "described include", func(w *docWorld) []any { return kv("type", w.include("d.raml"), "description", "text") })
	with("", "type: include of JSON", func(w *docWorld) []any { return kv("type", w.include("d.json")) })
	add("JSON", "", func(w *docWorld) any { return `{"type": "object"}` })
	with("", "type: JSON", func(w *docWorld) []any { return kv("type", `{"type": "object"}`) })
	with("AnyShape", "examples: include", func(w *docWorld) []any { return kv("type", "any", "examples", w.include("n.raml")) })
	with("AnyShape", "annotations", func(w *docWorld) []any {
		return kv("type", "any", "(l.an)", "x", "example", w.m("value", "x", "(l.an)", "y"))
	})
	// recursion
	with("ObjectShape", "refers to the declared type", func(w *docWorld) []any {
		return kv("type", "object", "properties", w.m("self?", "@A", "list?", "@A[]", "u?", "@A | nil"))
	})
	with("ObjectShape", "refers to a recursive type", func(w *docWorld) []any { return kv("properties", w.m("a?", "@Rec", "b?", "l.Rec", "c?", "@Rec[]")) })
	add("a recursive type", "ObjectShape", func(w *docWorld) any { return "@Rec" })
	with("ObjectShape", "below a recursive type", func(w *docWorld) []any { return kv("type", "@Rec", "properties", w.m("x?", "@Rec")) })
	return r
}

// docPlace is a place where a type is declared.
type docPlace struct {
	name string
	data bool   // in a data type, not in a library
	path string // how the type is reached from what the file declares
	make func(w *docWorld, b any) []any
}

func docPlaces() []docPlace {
	kv := func(x ...any) []any { return x }
	return []docPlace{
		{name: "type", path: "types:A", make: func(w *docWorld, b any) []any { return kv("types", w.m("A", b)) }},
		{name: "annotation type", path: "annotationTypes:A", make: func(w *docWorld, b any) []any { return kv("annotationTypes", w.m("A", b)) }},
		{name: "property", path: "types:A", make: func(w *docWorld, b any) []any {
			return kv("types", w.m("A", w.m("type", "object", "properties", w.m("p", b))))
		}},
		{name: "optional property", make: func(w *docWorld, b any) []any {
			return kv("types", w.m("A", w.m("properties", w.m("p?", b, "q", "string"))))
		}},
		{name: "pattern property", make: func(w *docWorld, b any) []any {
			return kv("types", w.m("A", w.m("properties", w.m("/^p/", b))))
		}},
		{name: "items", make: func(w *docWorld, b any) []any { return kv("types", w.m("A", w.m("type", "array", "items", b))) }},
		{name: "definition of a facet", make: func(w *docWorld, b any) []any {
			return kv("types", w.m("A", w.m("type", "string", "facets", w.m("f?", b))))
		}},
		{name: "property of items", make: func(w *docWorld, b any) []any {
			return kv("types", w.m("A", w.m("items", w.m("properties", w.m("p?", b)))))
		}},
		{name: "property of a data type", data: true, make: func(w *docWorld, b any) []any { return kv("type", "object", "properties", w.m("p", b)) }},
		{name: "items of a data type", data: true, make: func(w *docWorld, b any) []any { return kv("items", b) }},
		{name: "facet of a data type", data: true, make: func(w *docWorld, b any) []any { return kv("type", "string", "facets", w.m("f", b)) }},
	}
}

const docLib = "/a/lib/l.raml"

// corpus writes the document with a type declared in a place. The files it refers to are in the same directory.
func (w *docWorld) corpus(entry string, pl docPlace, b docBody) {
	kv := func(x ...any) []any { return x }
	auxTypes := func() []any {
		return kv("S", w.m("type", "string", "maxLength", w.num(9)), "R", w.m("type", "object", "properties", w.m("r", "S")),
			"Q", w.m("type", "object", "properties", w.m("x?", "integer")), "Alias", "R", "WithFacet", w.m("type", "string", "facets", w.m("cf", "string")),
			"Rec", w.m("type", "object", "properties", w.m("rec?", "Rec", "more?", "Rec[]")))
	}
	lib := kv("T", w.m("type", "object", "properties", w.m("t?", "string")), "U", "integer | T")
	if pl.data {
		// the types are in the library
		w.pre = "l."
		lib = append(lib, auxTypes()...)
		lib = append(lib, "A", w.m("properties", w.m("rec?", "A")))
	} else {
		lib = append(lib, "Rec", w.m("type", "object", "properties", w.m("more?", "Rec[]")))
	}
	w.file(docLib, "Library")
	w.content(w.m("annotationTypes", w.m("an", "any"), "types", w.m(lib...)))

	w.file(entry, "Library")
	if pl.data {
		w.file(entry, "DataType")
	}
	es := kv("uses", w.m("l", w.uses("lib/l.raml")))
	w.body = w.asNode(b.make(w))
	body := pl.make(w, w.body)
	if !pl.data && body[0] != "types" {
		es = append(es, "types", w.m(auxTypes()...))
	}
	for i := 0; i+1 < len(body); i += 2 {
		v := body[i+1]
		if body[i] == "types" {
			// the declared type comes before the others
			n := v.(*Val)
			m := w.st.wobj(n.S)
			more := w.st.heap[w.m(auxTypes()...).S][".Content"]
			m[".Content"] = mk(Val{K: KSlice, T: more.T, A: append(append([]*Val(nil), m[".Content"].A...), more.A...)})
		}
		es = append(es, body[i], v)
	}
	w.content(w.m(es...))
	dir := entry[:strings.LastIndexByte(entry, '/')+1]
	if w.want[dir+"d.raml"] > 0 {
		w.file(dir+"d.raml", "DataType")
		w.content(w.m("type", "object", "properties", w.m("d?", w.m("type", "string"))))
	}
	if w.want[dir+"d.json"] > 0 {
		w.raw(dir+"d.json", `{"type": "object"}`)
	}
	if w.want[dir+"n.raml"] > 0 {
		w.file(dir+"n.raml", "NamedExample")
		w.content(w.m("e1", "x", "e2", w.m("value", "y")))
	}
}

// mainPlaces are the places where every body is looked at in every way.
var mainPlaces = map[string]bool{"type": true, "property": true, "property of a data type": true}

// half selects the documents of the main places, and every second one of the others.
func half(n int) func(pl docPlace, i, j int) bool {
	return func(pl docPlace, i, j int) bool { return mainPlaces[pl.name] || (i+j)%2 == n }
}

// documents runs through the documents with every way to declare a type in every place that are picked.
func (c *Ctx) documents(opts []string, pick func(pl docPlace, i, j int) bool, judge func(at string, w *docWorld, o *Outcome, pl docPlace, b docBody) bool) {
	c.documentsAt(docPlaces(), opts, pick, judge)
}

func (c *Ctx) documentsAt(places []docPlace, opts []string, pick func(pl docPlace, i, j int) bool, judge func(at string, w *docWorld, o *Outcome, pl docPlace, b docBody) bool) {
	const entry = "/a/api.raml"
	for i, pl := range places {
		for j, b := range docBodies() {
			if pick != nil && !pick(pl, i, j) {
				continue
			}
			if pl.name == "annotation type" && b.name == "refers to the declared type" {
				continue // which is not a type
			}
			at := fmt.Sprintf("%s as %s", b.name, pl.name)
			if pl.data {
				// the types of the library only
				at += ", types of the library"
			}
			c.parsed(at, entry, opts, func(w *docWorld) {
				w.corpus(entry, pl, b)
			}, func(w *docWorld, o *Outcome) bool { return judge(at, w, o, pl, b) })
		}
	}
}

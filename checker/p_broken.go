package main

import (
	"fmt"
	"strings"
)

// brokenDoc is a document in which every node of one file is replaced by odd ones.
type brokenDoc struct {
	name string
	make func(w *docWorld) *Val // writes the other files, starts the file with the holes and makes its content
}

const brokenEntry = "/a/api.raml"

// brokenDocs lists the documents.
func brokenDocs() []brokenDoc {
	var r []brokenDoc
	kv := func(x ...any) []any { return x }
	// a library that declares a type
	typ := func(name string, f func(w *docWorld) any, more ...func(w *docWorld) []any) {
		r = append(r, brokenDoc{name: name, make: func(w *docWorld) *Val {
			w.file(brokenEntry, "Library")
			es := kv("A", f(w))
			for _, m := range more {
				es = append(es, m(w)...)
			}
			return w.m("types", w.m(es...))
		}})
	}
	m := func(f func(w *docWorld) []any) func(w *docWorld) any {
		return func(w *docWorld) any { return w.m(f(w)...) }
	}
	lib := func(w *docWorld) {
		w.file("/a/l.raml", "Library")
		w.content(w.m("annotationTypes", w.m("an", "string"), "types", w.m("T", "string")))
	}
	entry := func(name string, f func(w *docWorld) *Val) {
		r = append(r, brokenDoc{name: name, make: f})
	}
	entry("library", func(w *docWorld) *Val {
		lib(w)
		w.file(brokenEntry, "Library")
		return w.m("usage", "u", "uses", w.m("l", w.uses("l.raml")), "annotationTypes", w.m("bn", "string"), "types", w.m("A", "l.T"), "(bn)", "x", "(l.an)", "y")
	})
	entry("used library", func(w *docWorld) *Val {
		w.file(brokenEntry, "Library")
		w.content(w.m("uses", w.m("l", w.uses("l.raml")), "types", w.m("A", "l.T")))
		w.file("/a/l.raml", "Library")
		return w.m("types", w.m("T", "string"))
	})
	entry("data type", func(w *docWorld) *Val {
		lib(w)
		w.file(brokenEntry, "DataType")
		return w.m("usage", "u", "uses", w.m("l", w.uses("l.raml")), "type", "object", "properties", w.m("p?", "l.T"), "(l.an)", "x")
	})
	entry("included data type", func(w *docWorld) *Val {
		w.file(brokenEntry, "Library")
		w.content(w.m("types", w.m("A", w.m("type", w.include("d.raml")), "B", w.m("properties", w.m("p", w.include("d.raml"))))))
		w.file("/a/d.raml", "DataType")
		return w.m("type", "object", "properties", w.m("p?", "string"))
	})
	entry("named examples", func(w *docWorld) *Val {
		w.file(brokenEntry, "Library")
		w.content(w.m("types", w.m("A", w.m("type", "string", "examples", w.include("n.raml")))))
		w.file("/a/n.raml", "NamedExample")
		return w.m("e1", "x", "e2", w.m("value", "y", "strict", w.yes(), "displayName", "d"))
	})
	entry("included value", func(w *docWorld) *Val {
		w.file(brokenEntry, "Library")
		w.content(w.m("types", w.m("A", w.m("type", "any", "example", w.include("v.yaml"), "default", w.m("k", w.include("v.yaml"))))))
		w.file("/a/v.yaml", "")
		return w.m("k", w.seq(w.str("x"), w.num(1)))
	})
	typ("shorthand", func(w *docWorld) any { return "string" })
	typ("string", m(func(w *docWorld) []any {
		return kv("type", "string", "minLength", w.num(1), "maxLength", w.num(9), "pattern", "^a", "enum", w.seq(w.str("ab")), "default", "ab", "example", "ac")
	}))
	typ("integer", m(func(w *docWorld) []any {
		return kv("type", "integer", "minimum", w.num(1), "maximum", w.num(9), "multipleOf", w.num(1), "format", "int8", "enum", w.seq(w.num(3)), "default", w.num(3), "example", w.num(4))
	}))
	typ("number", m(func(w *docWorld) []any {
		return kv("type", "number", "minimum", w.num(1), "maximum", w.num(9), "multipleOf", w.num(1), "format", "float", "enum", w.seq(w.num(3)), "default", w.num(2), "example", w.num(4))
	}))
	typ("file", m(func(w *docWorld) []any {
		return kv("type", "file", "minLength", w.num(1), "maxLength", w.num(9), "fileTypes", w.seq(w.str("image/png")))
	}))
	for _, k := range []struct{ name, example string }{
		{"boolean", ""}, {"nil", ""}, {"datetime", "2015-05-23T08:00:00Z"}, {"date-only", "2015-05-23"}, {"time-only", "12:30:00"}, {"datetime-only", "2015-05-23T08:00:00"}, {"any", "x"},
	} {
		k := k
		typ(k.name, m(func(w *docWorld) []any {
			v := w.str(k.example)
			switch k.name {
			case "boolean":
				v = w.yes()
			case "nil":
				v = w.null()
			}
			return kv("type", k.name, "example", v)
		}))
	}
	typ("enum of booleans", m(func(w *docWorld) []any { return kv("type", "boolean", "enum", w.seq(w.yes())) }))
	typ("object", m(func(w *docWorld) []any {
		return kv("type", "object", "minProperties", w.num(0), "maxProperties", w.num(5), "additionalProperties", w.yes(),
			"properties", w.m("a?", "string", "b", w.m("type", "integer", "required", w.tagged("!!bool", "false")), "/^x/", w.m("type", "any")), "discriminator", "a", "discriminatorValue", "v")
	}))
	typ("value of an object", m(func(w *docWorld) []any {
		return kv("properties", w.m("a?", "string", "/^x/", "number"), "example", w.m("a", "v", "x", w.num(1)))
	}))
	typ("array", m(func(w *docWorld) []any {
		return kv("type", "array", "minItems", w.num(0), "maxItems", w.num(5), "uniqueItems", w.yes(), "items", w.m("type", "object", "properties", w.m("a", "string")))
	}))
	typ("value of an array", m(func(w *docWorld) []any {
		return kv("type", "string[]", "uniqueItems", w.yes(), "example", w.seq(w.str("x"), w.str("y")))
	}))
	typ("value of a union", m(func(w *docWorld) []any { return kv("type", "string[] | integer | nil", "example", w.seq(w.str("x"))) }))
	typ("value of a recursive type", m(func(w *docWorld) []any {
		return kv("properties", w.m("a?", "A", "b?", "A[]"), "example", w.m("a", w.m("b", w.seq(w.m("a", w.m())))))
	}))
	typ("examples", m(func(w *docWorld) []any {
		return kv("type", "string", "examples", w.m("e1", "x", "e2", w.m("value", "y", "strict", w.yes(), "displayName", "d", "description", "e")))
	}))
	typ("example with a value", m(func(w *docWorld) []any {
		return kv("type", "string", "example", w.m("value", "y", "strict", w.yes(), "displayName", "d"))
	}))
	typ("common facets", m(func(w *docWorld) []any {
		return kv("displayName", "n", "description", "d", "type", "any", "required", w.yes(), "facets", w.m("f1", "string", "f2?", w.m("type", "integer", "minimum", w.num(1))))
	}))
	typ("custom facet", m(func(w *docWorld) []any { return kv("type", "F", "cf", "v") }), func(w *docWorld) []any {
		return kv("F", w.m("type", "string", "facets", w.m("cf", "string")))
	})
	typ("parents", m(func(w *docWorld) []any {
		return kv("type", w.seq(w.str("P"), w.str("Q")), "properties", w.m("z?", "string"))
	}), func(w *docWorld) []any { return kv("P", "object", "Q", w.m("type", "object")) })
	typ("subtype of a union", m(func(w *docWorld) []any { return kv("type", "U", "description", "d") }), func(w *docWorld) []any {
		return kv("U", "string | integer", "V", w.m("type", w.seq(w.str("S"), w.str("U"))), "S", "string")
	})
	typ("subtype of an array", m(func(w *docWorld) []any { return kv("type", "L", "items", "string", "maxItems", w.num(2)) }), func(w *docWorld) []any {
		return kv("L", w.m("type", "array", "items", "string", "uniqueItems", w.yes(), "maxItems", w.num(3)))
	})
	typ("subtype of an object", m(func(w *docWorld) []any {
		return kv("type", "O", "minProperties", w.num(2), "properties", w.m("p", "string"))
	}), func(w *docWorld) []any {
		return kv("O", w.m("type", "object", "minProperties", w.num(1), "properties", w.m("p?", "string", "/x/", "string")))
	})
	typ("JSON", m(func(w *docWorld) []any { return kv("type", `{"type": "string"}`, "example", "x") }))
	typ("include of JSON", m(func(w *docWorld) []any {
		at := w.at
		w.raw("/a/d.json", `{"type": "string"}`)
		w.at = at
		return kv("type", w.include("d.json"))
	}))
	return r
}

// oddNode replaces a node.
type oddNode struct {
	name string
	make func(w *docWorld) *Val
	core bool // is tried everywhere
}

// coreOdd are the odd nodes that are tried everywhere; each of the others is tried at some of the nodes.
var coreOdd = map[string]bool{
	`the text ""`: true, `the text "x"`: true, `the text "("`: true, `the text "{}"`: true, `!!null ""`: true, `!!int "-7"`: true, `!!float "1.5"`: true, `!!bool "true"`: true,
	`an include of "nope.raml"`: true, `an include of "bad.json"`: true, "an empty list": true, "a list of nothing": true, "a list of maps": true, "an empty map": true,
	`a map of "" to nothing`: true, `a map of "x" to a list`: true, `a map of "type" to nothing`: true, "a map of a list": true, "an alias of a text": true,
}

func oddNodes() []oddNode {
	var r []oddNode
	add := func(name string, f func(w *docWorld) *Val) { r = append(r, oddNode{name, f, coreOdd[name]}) }
	for _, s := range []string{"", "x", "(", "()", "(x)", "[]", "?", "//", "/", "/(/", ".", "l.", ".T", "l.Nope", "Nope", "A", "{", "{}", "string", "object", "A[]", "nil", "9", "-1", "true"} {
		s := s
		add(fmt.Sprintf("the text %q", s), func(w *docWorld) *Val { return w.str(s) })
	}
	for _, x := range []struct{ tag, text string }{
		{"!!null", ""}, {"!!null", "~"}, {"!!int", "0"}, {"!!int", "-7"}, {"!!int", "99999999999999999999"}, {"!!int", "x"}, {"!!float", "1.5"}, {"!!float", ".nan"}, {"!!bool", "true"}, {"!!bool", "false"},
		{"!!timestamp", "2015-05-23"}, {"!!binary", "x"}, {"!custom", "x"}, {"", "x"},
	} {
		x := x
		add(fmt.Sprintf("%s %q", x.tag, x.text), func(w *docWorld) *Val { return w.tagged(x.tag, x.text) })
	}
	for _, s := range []string{"", "nope.raml", "nope.json", "nope.yaml", "bad.raml", "bad.json", "bad.yaml", "empty.raml", "wrong.raml", "text.txt", "api.raml"} {
		s := s
		add(fmt.Sprintf("an include of %q", s), func(w *docWorld) *Val { return w.node(8, "!include", s) })
	}
	add("an empty list", func(w *docWorld) *Val { return w.seq() })
	add("a list of nothing", func(w *docWorld) *Val { return w.seq(w.null()) })
	add("a list of an unknown name", func(w *docWorld) *Val { return w.seq(w.str("Nope")) })
	add("a list of an empty text", func(w *docWorld) *Val { return w.seq(w.str("")) })
	add("a list of a type", func(w *docWorld) *Val { return w.seq(w.str("string")) })
	add("a list of lists", func(w *docWorld) *Val { return w.seq(w.seq(w.str("x"))) })
	add("a list of maps", func(w *docWorld) *Val { return w.seq(w.m("x", "y"), w.m()) })
	add("a list of includes", func(w *docWorld) *Val { return w.seq(w.node(8, "!include", "nope.raml")) })
	add("a list of numbers", func(w *docWorld) *Val { return w.seq(w.num(1), w.num(1)) })
	add("an empty map", func(w *docWorld) *Val { return w.m() })
	for _, s := range []string{"", "x", "?", "//", "/(/", "()", "(x)", "type", "value", "properties", "items", "enum", "facets", "example", "examples"} {
		s := s
		add(fmt.Sprintf("a map of %q to nothing", s), func(w *docWorld) *Val { return w.m(s, w.null()) })
		add(fmt.Sprintf("a map of %q to a text", s), func(w *docWorld) *Val { return w.m(s, "x") })
		add(fmt.Sprintf("a map of %q to a list", s), func(w *docWorld) *Val { return w.m(s, w.seq(w.str("x"))) })
		add(fmt.Sprintf("a map of %q to a map", s), func(w *docWorld) *Val { return w.m(s, w.m("x", "y")) })
	}
	add("a map of a list", func(w *docWorld) *Val { return w.node(4, "!!map", "", w.seq(w.str("x")), w.str("y")) })
	add("a map of a map", func(w *docWorld) *Val { return w.node(4, "!!map", "", w.m("x", "y"), w.str("y")) })
	add("a map of nothing", func(w *docWorld) *Val { return w.node(4, "!!map", "", w.null(), w.str("y")) })
	alias := func(name string, f func(w *docWorld) *Val) {
		add("an alias of "+name, func(w *docWorld) *Val {
			n, to := w.node(16, "", "x"), f(w)
			w.st.wobj(n.S)[".Alias"] = to
			return n
		})
	}
	alias("a text", func(w *docWorld) *Val { return w.str("string") })
	alias("a map", func(w *docWorld) *Val { return w.m("type", "string") })
	return r
}

// oddKeys are the replacements of the names in maps.
func oddKey(o oddNode) bool {
	return !strings.HasPrefix(o.name, "an include") && !strings.HasPrefix(o.name, "a map of \"")
}

// broken runs through the documents with one odd node.
func (c *Ctx) broken(opts []string, pick func(n int) bool, judge func(at string, w *docWorld, o *Outcome) bool, before func(w *docWorld)) {
	odd := oddNodes()
	n, pos := 0, 0
	for _, d := range brokenDocs() {
		d := d
		// the nodes of the document
		w := c.newDocs(newState())
		for i, at := range w.nodes(d.make(w)) {
			pos++
			for j, x := range odd {
				i, x := i, x
				if !x.core && c.Tier != "thorough" && (pos+j)%12 != 0 {
					continue
				}
				if at.key && !oddKey(x) {
					continue
				}
				n++
				if pick != nil && !pick(n) {
					continue
				}
				name := fmt.Sprintf("%s: %s is %s", d.name, at.path, x.name)
				c.parsed(name, brokenEntry, opts, func(w *docWorld) {
					if before != nil {
						before(w)
					}
					root := d.make(w)
					hole := w.nodes(root)[i].n
					by := x.make(w)
					h := w.st.wobj(hole.S)
					for _, f := range []string{".Kind", ".Tag", ".Value", ".Content", ".Alias"} {
						delete(h, f)
						if v := w.st.heap[by.S][f]; v != nil {
							h[f] = v
						}
					}
					w.content(root)
					w.raw("/a/bad.raml", "text")
					w.raw("/a/bad.json", "text")
					w.raw("/a/bad.yaml", "text")
					w.raw("/a/text.txt", "text")
					w.file("/a/empty.raml", "DataType")
					w.content(w.null())
					w.file("/a/wrong.raml", "Overlay")
					w.content(w.m("x", "y"))
				}, func(w *docWorld, o *Outcome) bool { return judge(name, w, o) })
			}
		}
	}
}

type placedNode struct {
	n    *Val
	path string
	key  bool
}

// nodes lists a node and those below it.
func (w *docWorld) nodes(root *Val) []placedNode {
	var r []placedNode
	var walk func(n *Val, path string, key bool)
	walk = func(n *Val, path string, key bool) {
		r = append(r, placedNode{n, path, key})
		o := w.st.heap[n.S]
		l := o[".Content"]
		if l == nil {
			return
		}
		kind, _ := o[".Kind"].intConst()
		below := make([]*Val, len(l.A))
		for i, x := range l.A {
			below[i] = x.A[0]
		}
		for i, x := range below {
			switch {
			case kind != 4:
				walk(x, fmt.Sprintf("%s[%d]", path, i), false)
			case i%2 == 0:
				s, _ := w.st.heap[x.S][".Value"].strConst()
				walk(x, path+" key "+s, true)
			default:
				s, _ := w.st.heap[below[i-1].S][".Value"].strConst()
				walk(x, path+"/"+s, false)
			}
		}
	}
	walk(root, "", false)
	return r
}

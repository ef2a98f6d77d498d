package main

import (
	"fmt"
	"go/types"
	"path"
	"strings"
)

func init() {
	register("C15", "abstract interpretation of parsing on documents of several files that refer to each other, given as syntax trees: how often each file is read, as what it is accepted, and which object each reference leads to", checkC15)
}

// readOnce decides whether every fragment was read once and every reference leads to it.
func (c *Ctx) readOnce(at string, w *docWorld, o *Outcome) bool {
	good := true
	bad := func(rule, format string, a ...any) {
		good = false
		c.fail(rule, at, fmt.Sprintf(format, a...), o.Where)
	}
	opens := w.opens(o.St)
	frags, ok := w.fragments(o)
	if !ok {
		return false
	}
	for _, f := range sortedKeys(w.files) {
		if w.files[f].head == "" {
			continue
		}
		if opens[f] != 1 {
			bad("once", "%s is read %d times", f, opens[f])
		}
		if frags[f] == nil {
			bad("registered", "%s is not known as a fragment", f)
			continue
		}
		if k := "#%RAML 1.0 " + typeName(frags[f].T); w.files[f].head != k && !(strings.HasSuffix(f, ".json") && typeName(frags[f].T) == "DataType") {
			bad("kind", "%s is a %s", f, k)
		}
	}
	for _, f := range sortedKeys(frags) {
		if w.files[f] == nil {
			bad("registered", "%s is a fragment", f)
		}
	}
	l := c.look(o.St)
	if e, _ := l.fieldT(o.Ret[0], o.Ret[0].T, "entryPoint"); e == nil || plain(e).key != frags[w.entry].key {
		bad("entry", "the entry point is not the fragment of the document")
	}
	// every link leads to a fragment that is known
	links := 0
	for _, obj := range sortedKeys(o.St.heap) {
		h := o.St.heap[obj]
		for _, f := range sortedKeys(h) {
			if !strings.HasSuffix(f, ".Link") || h[f].K != KPtr {
				continue
			}
			links++
			known := ""
			for _, k := range sortedKeys(frags) {
				if frags[k].key == h[f].key {
					known = k
				}
			}
			if known == "" {
				bad("link", "a reference leads to a fragment of its own: %s", shortKey(h[f].key))
				continue
			}
			base := strings.TrimSuffix(f, ".Link")
			if v := h[base+".Value"]; v != nil {
				// of a library
				rel, _ := v.strConst()
				loc, _ := h[base+".Location"].strConst()
				if to := path.Join(path.Dir(loc), rel); to != known {
					bad("link", "%s in %s leads to %s", rel, loc, known)
				}
			}
		}
	}
	refs := 0
	for f, n := range w.want {
		if w.files[f] != nil && (w.files[f].head != "" || strings.HasSuffix(f, ".json")) {
			refs += n
		}
	}
	if links != refs {
		bad("link", "%d of %d references to fragments lead anywhere", links, refs)
	}
	return good
}

func checkC15(c *Ctx) {
	accepted := func(at string, entry string, build func(w *docWorld)) {
		c.parsed(at, entry, nil, func(w *docWorld) { w.entry = entry; build(w) }, func(w *docWorld, o *Outcome) bool {
			if !o.success() {
				return false
			}
			if c.readOnce(at, w, o) {
				c.ok("accepted", at)
			}
			return true
		})
	}
	refused := func(at string, entry string, build func(w *docWorld)) {
		c.parsed(at, entry, nil, func(w *docWorld) { w.entry = entry; build(w) }, func(w *docWorld, o *Outcome) bool {
			if o.success() {
				c.fail("refused", at, "is accepted", o.Where)
			} else {
				c.ok("refused", at)
			}
			return true
		})
	}
	const main = "/a/api.raml"
	lib := func(w *docWorld, f string, kv ...any) { w.file(f, "Library"); w.content(w.m(kv...)) }
	data := func(w *docWorld, f string, kv ...any) { w.file(f, "DataType"); w.content(w.m(kv...)) }
	named := func(w *docWorld, f string, kv ...any) { w.file(f, "NamedExample"); w.content(w.m(kv...)) }

	// references of each sort, to each sort of file
	sorts := []struct {
		name, kind string
		ref        func(w *docWorld, to string) []any
	}{
		{"uses", "Library", func(w *docWorld, to string) []any { return []any{"uses", w.m("l", w.uses(to))} }},
		{"type", "DataType", func(w *docWorld, to string) []any {
			return []any{"types", w.m("A", w.m("type", w.include(to)))}
		}},
		{"examples", "NamedExample", func(w *docWorld, to string) []any {
			return []any{"types", w.m("E", w.m("type", "any", "examples", w.include(to)))}
		}},
	}
	write := func(w *docWorld, f, kind string) {
		switch kind {
		case "Library":
			lib(w, f, "types", w.m("T", "string"))
		case "DataType":
			data(w, f, "type", "string")
		case "NamedExample":
			named(w, f, "e", "x")
		default:
			w.file(f, "")
			w.content(w.m("type", "string"))
			w.files[f].head = kind
			if kind == "" {
				w.files[f].head = "types:"
			}
		}
	}
	heads := []string{"Library", "DataType", "NamedExample", "#%RAML 1.0", "#%RAML 1.0 Overlay", "#%RAML 0.8 Library", "#%RAML 1.0 ", "", "#%RAML 1.0 library", "#%RAML 1.0 DataTypes"}
	for _, s := range sorts {
		for _, k := range heads {
			at := s.name + " of a file that begins with " + k
			do := refused
			if k == s.kind {
				do = accepted
			}
			do(at, main, func(w *docWorld) { lib(w, main, s.ref(w, "x.raml")...); write(w, "/a/x.raml", k) })
			if s.name == "uses" {
				do(at+", in a data type", main, func(w *docWorld) {
					data(w, main, append(s.ref(w, "x.raml"), "type", "string")...)
					write(w, "/a/x.raml", k)
				})
			} else {
				do(at+", in a data type", main, func(w *docWorld) {
					switch s.name {
					case "type":
						data(w, main, "type", w.include("x.raml"))
					case "examples":
						data(w, main, "type", "any", "examples", w.include("x.raml"))
					}
					write(w, "/a/x.raml", k)
				})
			}
		}
		at := s.name + " of a JSON file"
		do := refused
		if s.kind == "DataType" {
			do = accepted
		}
		json := func(w *docWorld) {
			w.file("/a/x.json", "")
			w.files["/a/x.json"].head, w.files["/a/x.json"].text = `{"type":"string"}`, `{"type":"string"}`
			w.content(w.m("type", "string")) // JSON is YAML as well
		}
		do(at, main, func(w *docWorld) { lib(w, main, s.ref(w, "x.json")...); json(w) })
		do(at+", in a data type", main, func(w *docWorld) {
			switch s.name {
			case "uses":
				data(w, main, append(s.ref(w, "x.json"), "type", "string")...)
			case "type":
				data(w, main, "type", "array", "items", w.include("x.json"))
			case "examples":
				data(w, main, "type", "any", "examples", w.include("x.json"))
			}
			json(w)
		})
		refused(s.name+" of a file that does not exist", main, func(w *docWorld) { lib(w, main, s.ref(w, "x.raml")...) })
		// the entry point of a wrong kind
	}
	for _, k := range heads {
		at := "entry point that begins with " + k
		if strings.HasPrefix(k, "#") || k == "" {
			refused(at, main, func(w *docWorld) { write(w, main, k) })
		} else {
			accepted(at, main, func(w *docWorld) { write(w, main, k) })
		}
	}

	// several references
	spell := []string{"x.raml", "./x.raml", "s/../x.raml", "../a/x.raml"}
	for i, s1 := range spell {
		s2 := spell[(i+1)%len(spell)]
		accepted("two libraries use "+s1+" and "+s2, main, func(w *docWorld) {
			lib(w, main, "uses", w.m("l", w.uses(s1), "m", w.uses("m.raml")))
			lib(w, "/a/m.raml", "uses", w.m("l", w.uses(s2)))
			lib(w, "/a/x.raml", "types", w.m("T", "string"))
		})
		accepted("a library uses "+s1+" and "+s2, main, func(w *docWorld) {
			lib(w, main, "uses", w.m("l", w.uses(s1), "m", w.uses(s2)))
			lib(w, "/a/x.raml", "types", w.m("T", "string"))
		})
		accepted("two types include "+s1+" and "+s2, main, func(w *docWorld) {
			lib(w, main, "types", w.m("A", w.include(s1), "B", w.m("type", w.include(s2)), "C", w.m("properties", w.m("p", w.m("type", w.include(s1))))))
			data(w, "/a/x.raml", "type", "string")
		})
		accepted("types of two files include "+s1+" and "+s2, main, func(w *docWorld) {
			lib(w, main, "uses", w.m("m", w.uses("m.raml")), "types", w.m("A", w.include(s1)))
			lib(w, "/a/m.raml", "annotationTypes", w.m("A", w.include(s2)))
			data(w, "/a/x.raml", "type", "string")
		})
		accepted("two types have the examples "+s1+" and "+s2, main, func(w *docWorld) {
			lib(w, main, "types", w.m("A", w.m("examples", w.include(s1)), "B", w.m("type", "string", "examples", w.include(s2))))
			named(w, "/a/x.raml", "e", "x")
		})
		accepted("examples of two files are "+s1+" and "+s2, main, func(w *docWorld) {
			lib(w, main, "types", w.m("A", w.m("examples", w.include(s1)), "B", w.include("d.raml")))
			data(w, "/a/d.raml", "type", "string", "examples", w.include(s2))
			named(w, "/a/x.raml", "e", "x")
		})
		accepted("data types and a library use "+s1+" and "+s2, main, func(w *docWorld) {
			lib(w, main, "uses", w.m("l", w.uses(s1)), "types", w.m("A", w.include("d.raml"), "B", w.include("e.raml")))
			data(w, "/a/d.raml", "uses", w.m("l", w.uses(s2)), "type", "l.T")
			data(w, "/a/e.raml", "uses", w.m("m", w.uses(s1)), "type", "m.T")
			lib(w, "/a/x.raml", "types", w.m("T", "string"))
		})
	}
	accepted("two types include a JSON file", main, func(w *docWorld) {
		lib(w, main, "types", w.m("A", w.include("x.json"), "B", w.m("type", w.include("x.json"))))
		w.raw("/a/x.json", `{"type":"string"}`)
		w.files["/a/x.json"].head = "#%RAML 1.0 DataType"
	})

	// a file that is used as two kinds; types are read before the libraries
	for _, s1 := range sorts {
		for _, s2 := range sorts {
			if s1.kind == s2.kind {
				continue
			}
			for _, k := range []string{"Library", "DataType", "NamedExample"} {
				at := s1.name + " and " + s2.name + " of a file that begins with " + k
				refused(at, main, func(w *docWorld) {
					lib(w, main, append(s1.ref(w, "x.raml"), s2.ref(w, "x.raml")...)...)
					write(w, "/a/x.raml", k)
				})
				refused(at+", in two libraries", main, func(w *docWorld) {
					if s1.name == "uses" {
						lib(w, main, "uses", w.m("l", w.uses("x.raml"), "z", w.uses("z.raml")))
					} else {
						lib(w, main, append(s1.ref(w, "x.raml"), "uses", w.m("z", w.uses("z.raml")))...)
					}
					lib(w, "/a/z.raml", s2.ref(w, "x.raml")...)
					write(w, "/a/x.raml", k)
				})
			}
			refused(s1.name+" and "+s2.name+" of a JSON file", main, func(w *docWorld) {
				lib(w, main, append(s1.ref(w, "x.json"), s2.ref(w, "x.json")...)...)
				w.raw("/a/x.json", `{"type":"string"}`)
			})
		}
	}
	for _, s := range sorts[1:] {
		refused(s.name+" of the library itself", main, func(w *docWorld) { lib(w, main, s.ref(w, "api.raml")...) })
		refused(s.name+" of a library in use", main, func(w *docWorld) {
			lib(w, main, "uses", w.m("m", w.uses("m.raml")))
			lib(w, "/a/m.raml", s.ref(w, "api.raml")...)
		})
	}
	refused("a data type uses itself", main, func(w *docWorld) { data(w, main, "uses", w.m("l", w.uses("api.raml")), "type", "string") })
	refused("a data type has itself as examples", main, func(w *docWorld) { data(w, main, "type", "any", "examples", w.include("api.raml")) })

	// cycles
	accepted("a library uses itself", main, func(w *docWorld) { lib(w, main, "uses", w.m("l", w.uses("api.raml"))) })
	for n := 2; n <= 4; n++ {
		accepted(fmt.Sprintf("%d libraries use each other", n), main, func(w *docWorld) {
			f := func(i int) string {
				if i%n == 0 {
					return "api.raml"
				}
				return fmt.Sprintf("l%d.raml", i%n)
			}
			for i := 0; i < n; i++ {
				lib(w, "/a/"+f(i), "uses", w.m("next", w.uses(f(i+1))), "types", w.m("T", w.m("type", "object", "properties", w.m("p?", "next.T[]"))))
			}
		})
	}
	accepted("libraries in different directories use each other", main, func(w *docWorld) {
		lib(w, main, "uses", w.m("l", w.uses("../b/l.raml"), "m", w.uses("c/m.raml")))
		lib(w, "/b/l.raml", "uses", w.m("m", w.uses("../a/c/m.raml"), "x", w.uses("../a/api.raml")))
		lib(w, "/a/c/m.raml", "uses", w.m("l", w.uses("../../b/l.raml"), "x", w.uses("../api.raml"), "y", w.uses("m.raml")))
	})
	accepted("a data type includes itself in a property", main, func(w *docWorld) {
		data(w, main, "type", "object", "properties", w.m("p?", w.m("type", w.include("api.raml"))))
	})
	accepted("a data type in use includes itself in items", main, func(w *docWorld) {
		lib(w, main, "types", w.m("A", w.include("d.raml")))
		data(w, "/a/d.raml", "type", "array", "items", w.include("d.raml"))
	})
	accepted("data types include each other", main, func(w *docWorld) {
		lib(w, main, "types", w.m("A", w.include("d.raml"), "B", w.include("e.raml")))
		data(w, "/a/d.raml", "type", "object", "properties", w.m("p?", w.include("e.raml")))
		data(w, "/a/e.raml", "type", "object", "properties", w.m("p?", w.include("d.raml"), "q?", w.include("e.raml")))
	})
	accepted("a data type uses a library that includes it", main, func(w *docWorld) {
		data(w, main, "uses", w.m("l", w.uses("l.raml")), "type", "object", "properties", w.m("p?", "l.A"))
		lib(w, "/a/l.raml", "types", w.m("A", w.m("type", "array", "items", w.include("api.raml"))))
	})
	accepted("a library includes a data type that uses it", main, func(w *docWorld) {
		lib(w, main, "types", w.m("A", w.include("d.raml"), "B", "string"))
		data(w, "/a/d.raml", "uses", w.m("l", w.uses("api.raml")), "type", "object", "properties", w.m("p?", "l.B"))
	})
	accepted("a library in use includes a data type that uses both", main, func(w *docWorld) {
		lib(w, main, "uses", w.m("l", w.uses("l.raml")), "types", w.m("B", "string"))
		lib(w, "/a/l.raml", "types", w.m("A", w.include("d.raml"), "C", w.include("d.raml")))
		data(w, "/a/d.raml", "uses", w.m("l", w.uses("l.raml"), "m", w.uses("api.raml")), "type", "object", "properties", w.m("p?", "m.B", "q?", "l.A"))
	})
	c.floor("accepted", 50)
	c.floor("refused", 80)
}

func typeName(t types.Type) string {
	if n, ok := deref(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

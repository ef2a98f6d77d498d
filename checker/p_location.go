package main

import (
	"fmt"
	"os"
	"path"
	"strings"
	"time"
)

func init() {
	divide("C14")
	register("C14", "abstract interpretation of parsing on documents of several files in different directories, given as syntax trees: which files are opened, and which file everything that is made of them says it comes from", checkC14)
}

// parsed analyses how a document is read, resolved and, if asked, unwrapped and validated.
func (c *Ctx) parsed(at, entry string, opts []string, build func(w *docWorld), judge func(w *docWorld, o *Outcome) bool) {
	fn := c.function("ParseFromPathCtx")
	if fn == nil {
		return
	}
	if d := os.Getenv("DBGW"); d != "" && d != at || !c.mine() {
		return
	}
	var given []*Val
	for _, n := range opts {
		mk := c.function(n)
		if mk == nil {
			return
		}
		o := c.explore(mk, runOpt{args: []*Val{}})
		if len(o) != 1 || len(o[0].Ret) != 1 {
			c.fail("undecided", n, "the option is not known")
			return
		}
		given = append(given, o[0].Ret[0])
	}
	if os.Getenv("DBGX") != "" {
		fmt.Println("document", at)
		defer func(t time.Time) { fmt.Println("time", time.Since(t), at) }(time.Now())
	}
	var w *docWorld
	outs := c.explore(fn, runOpt{recurse: true, exact: true, depth: 60, budget: 400000, newErrs: c.newErrs, model: func(in *Interp, st *State, k *Call) ([]callOut, bool) { return w.model(in, st, k) },
		onErr: func(st *State, k *Call, f *frame) {
			if w.onErr != nil {
				w.onErr(st, k, f)
			}
		},
		setup: func(in *Interp, st *State, args []*Val) {
			w = c.newDocs(st)
			w.entry = entry
			build(w)
			st.assumeNil(args[0], false)
			args[1] = vStr(entry)
			args[2] = listOf(fn.Params[2].Type(), given...)
		}})
	n := 0
	for i := range outs {
		o := &outs[i]
		c.debugState = o.St
		if o.Panic != "" {
			c.fail("document", at, "panics: "+o.Panic, o.Where)
			continue
		}
		if judge(w, o) {
			n++
		}
	}
	c.debugState = nil
	if n == 0 {
		c.fail("document", at, "no way through the analysed code ends as expected")
	}
}

// includeForm is a place where a file can be named.
type includeForm struct {
	name string
	in   string // kinds of fragments: L(ibrary), D(ata type), N(amed example)
	exts []string
	body func(w *docWorld, rel string) []any // entries of a type declaration (L, D) or examples (N)
	top  func(w *docWorld, rel string) []any // entries of the fragment
	aux  func(w *docWorld) []any             // further entries of the fragment
}

var dataExts = []string{".yaml", ".yml", ".json", ".txt"}

func includeForms() []includeForm {
	frag, dt := []string{".raml"}, []string{".raml", ".json"}
	entries := func(kv ...any) []any { return kv }
	decl := func(key string, kind any) func(w *docWorld, rel string) []any {
		return func(w *docWorld, rel string) []any { return entries(key, w.include(rel)) }
	}
	return []includeForm{
		{name: "uses", in: "LD", exts: frag, top: func(w *docWorld, rel string) []any { return entries("uses", w.m("l", w.uses(rel))) }},
		{name: "second uses", in: "LD", exts: frag, top: func(w *docWorld, rel string) []any {
			return entries("uses", w.m("k", w.uses("k.raml"), "l", w.uses(rel)))
		}},
		{name: "type", in: "LD", exts: dt, body: decl("type", nil)},
		{name: "type with facets", in: "LD", exts: frag, body: func(w *docWorld, rel string) []any {
			return entries("displayName", "d", "type", w.include(rel), "minLength", w.num(2))
		}},
		{name: "shorthand of a property", in: "LD", exts: dt, body: func(w *docWorld, rel string) []any {
			return entries("type", "object", "properties", w.m("p", w.include(rel)))
		}},
		{name: "type of a property", in: "LD", exts: dt, body: func(w *docWorld, rel string) []any {
			return entries("type", "object", "properties", w.m("p?", w.m("type", w.include(rel))))
		}},
		{name: "pattern property", in: "LD", exts: frag, body: func(w *docWorld, rel string) []any {
			return entries("properties", w.m("/p/", w.m("type", w.include(rel))))
		}},
		{name: "items", in: "LD", exts: frag, body: func(w *docWorld, rel string) []any {
			return entries("type", "array", "items", w.m("type", w.include(rel)))
		}},
		{name: "shorthand of items", in: "LD", exts: frag, body: func(w *docWorld, rel string) []any { return entries("items", w.include(rel)) }},
		{name: "definition of a facet", in: "LD", exts: frag, body: func(w *docWorld, rel string) []any {
			return entries("type", "string", "facets", w.m("f?", w.m("type", w.include(rel))))
		}},
		{name: "shorthand of a type", in: "L", exts: dt, top: func(w *docWorld, rel string) []any { return entries("types", w.m("A", w.include(rel))) }},
		{name: "annotation type", in: "L", exts: frag, top: func(w *docWorld, rel string) []any {
			return entries("annotationTypes", w.m("A", w.m("type", w.include(rel))))
		}},
		{name: "examples", in: "LD", exts: frag, body: decl("examples", nil)},
		{name: "examples after the type", in: "LD", exts: frag, body: func(w *docWorld, rel string) []any { return entries("type", "string", "examples", w.include(rel)) }},
		{name: "example", in: "LD", exts: dataExts, body: decl("example", nil)},
		{name: "value of an example", in: "LD", exts: dataExts, body: func(w *docWorld, rel string) []any {
			return entries("example", w.m("strict", w.yes(), "value", w.include(rel)))
		}},
		{name: "one of several examples", in: "LD", exts: dataExts, body: func(w *docWorld, rel string) []any {
			return entries("examples", w.m("e1", "x", "e2", w.include(rel)))
		}},
		{name: "value of one of several examples", in: "LD", exts: dataExts, body: func(w *docWorld, rel string) []any {
			return entries("examples", w.m("e1", w.m("value", w.include(rel))))
		}},
		{name: "default", in: "LD", exts: dataExts, body: decl("default", nil)},
		{name: "custom facet", in: "LD", exts: dataExts, body: func(w *docWorld, rel string) []any { return entries("type", "object", "cf", w.include(rel)) }},
		{name: "annotation", in: "LD", exts: dataExts, body: func(w *docWorld, rel string) []any { return entries("(l.an)", w.include(rel)) },
			aux: func(w *docWorld) []any { return entries("uses", w.m("l", w.uses("an.raml"))) }},
		{name: "annotation of an example", in: "LD", exts: dataExts, body: func(w *docWorld, rel string) []any {
			return entries("example", w.m("value", "x", "(l.an)", w.include(rel)))
		}, aux: func(w *docWorld) []any { return entries("uses", w.m("l", w.uses("an.raml"))) }},
		{name: "annotation of a library", in: "L", exts: dataExts, top: func(w *docWorld, rel string) []any {
			return entries("uses", w.m("l", w.uses("an.raml")), "(l.an)", w.include(rel))
		}},
		{name: "entry of a value", in: "LD", exts: []string{".yaml", ".yml", ".txt"}, body: func(w *docWorld, rel string) []any {
			return entries("type", "object", "example", w.m("k", w.include(rel)))
		}},
		{name: "deep in a value", in: "LD", exts: []string{".yaml", ".txt"}, body: func(w *docWorld, rel string) []any {
			return entries("type", "any", "default", w.seq(w.str("x"), w.m("k", w.seq(w.include(rel)))))
		}},
		{name: "member of an enum", in: "LD", exts: []string{".yaml", ".txt"}, body: func(w *docWorld, rel string) []any {
			return entries("type", "string", "enum", w.seq(w.str("x"), w.include(rel)))
		}},
		{name: "named example", in: "N", exts: dataExts, body: func(w *docWorld, rel string) []any { return entries("e1", "x", "e2", w.include(rel)) }},
		{name: "value of a named example", in: "N", exts: dataExts, body: func(w *docWorld, rel string) []any { return entries("e1", w.m("value", w.include(rel))) }},
		{name: "entry of a named example", in: "N", exts: []string{".yaml", ".txt"}, body: func(w *docWorld, rel string) []any { return entries("e1", w.m("k", w.include(rel))) }},
	}
}

// write writes the fragment that names the file.
func (x includeForm) write(w *docWorld, kind byte, file, rel string) {
	var es []any
	switch kind {
	case 'L':
		w.file(file, "Library")
		if x.aux != nil {
			es = x.aux(w)
		}
		if x.top != nil {
			es = append(es, x.top(w, rel)...)
		} else {
			es = append(es, "types", w.m("Z", "string", "A", w.m(x.body(w, rel)...)))
		}
	case 'D':
		w.file(file, "DataType")
		if x.aux != nil {
			es = x.aux(w)
		}
		if x.top != nil {
			es = append(es, x.top(w, rel)...)
		} else {
			es = append(es, x.body(w, rel)...)
		}
	case 'N':
		w.file(file, "NamedExample")
		es = x.body(w, rel)
	}
	w.content(w.m(es...))
	dir := path.Dir(file)
	if w.want[dir+"/an.raml"] > 0 {
		w.file(dir+"/an.raml", "Library")
		w.content(w.m("annotationTypes", w.m("an", "any")))
	}
	if w.want[dir+"/k.raml"] > 0 {
		w.file(dir+"/k.raml", "Library")
		w.content(w.m("types", w.m("K", "any")))
	}
}

// target writes the file that is named; more names a file in turn.
func (x includeForm) target(w *docWorld, file string) {
	switch {
	case strings.HasSuffix(file, ".json") && containsStr(x.exts, ".raml"):
		w.raw(file, `{"type": "string"}`)
	case strings.Contains(x.name, "uses"):
		w.file(file, "Library")
		w.content(w.m("types", w.m("B", "integer")))
	case strings.HasPrefix(x.name, "examples"):
		w.file(file, "NamedExample")
		w.content(w.m("e1", "some", "e2", w.m("value", "other")))
	case containsStr(x.exts, ".raml"):
		w.file(file, "DataType")
		w.content(w.m("type", "string", "example", "xyz", "default", "abcd"))
	case strings.HasSuffix(file, ".yaml"), strings.HasSuffix(file, ".yml"):
		w.file(file, "")
		if len(x.exts) < len(dataExts) || w.decoys[file] {
			w.content(w.m("k", "v", "l", w.seq(w.str("a"), w.num(1))))
			break
		}
		// names further files
		w.content(w.m("k", w.include("n/t.txt"), "l", w.seq(w.str("a"), w.include("../n/t.yaml"))))
		dir := path.Dir(file)
		w.raw(path.Join(dir, "n/t.txt"), "text")
		w.file(path.Join(dir, "../n/t.yaml"), "")
		w.content(w.m("k", "v"))
	case strings.HasSuffix(file, ".json"):
		w.raw(file, `{"k": ["v", 1]}`)
	default:
		w.raw(file, "text")
	}
}

// places where the naming file is
var includePlaces = []struct {
	name, file string
	kinds      string
	entry      func(w *docWorld, kind byte)
}{
	{"entry point", "/a/b/api.raml", "LDN", nil},
	{"used", "/u/v/lib.raml", "L", func(w *docWorld, _ byte) {
		w.file("/a/b/api.raml", "Library")
		w.content(w.m("uses", w.m("m", w.uses("../../u/v/lib.raml"))))
	}},
	{"used twice removed", "/u/v/lib.raml", "L", func(w *docWorld, _ byte) {
		w.file("/a/b/api.raml", "DataType")
		w.content(w.m("uses", w.m("m", w.uses("c/mid.raml")), "type", "string"))
		w.file("/a/b/c/mid.raml", "Library")
		w.content(w.m("uses", w.m("m", w.uses("../../../u/v/lib.raml"))))
	}},
	{"included", "/a/inc/d.raml", "D", func(w *docWorld, _ byte) {
		w.file("/a/b/api.raml", "Library")
		w.content(w.m("types", w.m("X", w.m("type", w.include("../inc/d.raml")))))
	}},
	{"included twice removed", "/w/d.raml", "DN", func(w *docWorld, kind byte) {
		w.file("/a/b/api.raml", "Library")
		w.content(w.m("types", w.m("X", w.m("properties", w.m("p", w.m("type", w.include("../inc/e.raml")))))))
		w.file("/a/inc/e.raml", "DataType")
		if kind == 'D' {
			w.content(w.m("type", "array", "items", w.include("../../w/d.raml")))
		} else {
			w.content(w.m("type", "any", "examples", w.include("../../w/d.raml")))
		}
	}},
	{"examples", "/x/y/n.raml", "N", func(w *docWorld, _ byte) {
		w.file("/a/api.raml", "DataType")
		w.content(w.m("type", "any", "examples", w.include("../x/y/n.raml")))
	}},
}

// includes runs through the documents in which a file is named. Files of the same name are in the
// directories that the path must not be resolved against.
func (c *Ctx) includes(opts []string, missing bool, judge func(at string, w *docWorld, o *Outcome) bool) {
	for _, x := range includeForms() {
		for _, pl := range includePlaces {
			for _, kind := range []byte(x.in) {
				if !strings.ContainsRune(pl.kinds, rune(kind)) {
					continue
				}
				rels := []string{"x", "sub/x", "../x", "../c/../d/x", "./x"}
				if missing {
					rels = []string{"x", "../s/x"}
				}
				for _, rel := range rels {
					for _, ext := range x.exts {
						entry := "/a/b/api.raml"
						if pl.name == "examples" {
							entry = "/a/api.raml"
						}
						at := fmt.Sprintf("%s of %s in %c, %s", rel+ext, x.name, kind, pl.name)
						if missing {
							at += ", missing"
						}
						c.parsed(at, entry, opts, func(w *docWorld) {
							if pl.entry != nil {
								pl.entry(w, kind)
							}
							x.write(w, kind, pl.file, rel+ext)
							to := path.Join(path.Dir(pl.file), rel+ext)
							if !missing {
								x.target(w, to)
							}
							for _, dir := range []string{"/cwd", "/", path.Dir(entry), path.Dir(pl.file), path.Dir(to), path.Dir(path.Dir(pl.file))} {
								for _, r := range []string{rel + ext, path.Base(rel) + ext} {
									if d := path.Join(dir, r); w.files[d] == nil && d != to {
										w.decoys[d] = true
										x.target(w, d)
									}
								}
							}
						}, func(w *docWorld, o *Outcome) bool { return judge(at, w, o) })
					}
				}
			}
		}
	}
}

// fragments gives the fragments that were read, by file.
func (w *docWorld) fragments(o *Outcome) (map[string]*Val, bool) {
	c := w.c
	f := c.fragmentsField()
	if f == nil || len(o.Ret) == 0 || o.Ret[0].K != KPtr {
		return nil, false
	}
	l := c.look(o.St)
	es, ok := l.mapEntries(l.in.loadPlace(o.St, o.Ret[0].S, o.Ret[0].S2+"."+f.Name(), f.Type()), c.P.Named("Fragment"))
	if !ok {
		c.fail("undecided", "fragments", "the fragments that were read are not known", o.Where)
		return nil, false
	}
	r := map[string]*Val{}
	for _, e := range es {
		v := plain(e.val)
		if e.val.K == KIface {
			v = vPtr(v.S, v.S2, e.val.T)
		}
		r[e.key] = v
	}
	return r, true
}

// located decides whether everything that was made of a document says which file it comes from.
func (c *Ctx) located(at string, w *docWorld, o *Outcome) bool {
	good := true
	seen := 0
	for _, obj := range sortedKeys(o.St.heap) {
		h := o.St.heap[obj]
		for _, f := range sortedKeys(h) {
			if !strings.HasSuffix(f, ".Location") {
				continue
			}
			base := strings.TrimSuffix(f, ".Location")
			loc, ok := h[f].strConst()
			line, isLine := int64(0), false
			if l := h[base+".Position.Line"]; l != nil {
				line, isLine = l.intConst()
			}
			if !ok {
				good = false
				c.fail("location", at, "the location of "+shortKey(obj)+" is not known: "+shortKey(h[f].key), o.Where)
				continue
			}
			if !isLine || line == 0 || w.lines[line] == "" {
				continue
			}
			seen++
			want := w.lines[line]
			if to := w.incs[line]; to != "" && w.files[to].head == "" && h[base+".Value"] != nil && h[base+".Link"] == nil {
				want = to // a value that is in a file of its own
			}
			if loc != want {
				good = false
				c.fail("location", at, fmt.Sprintf("what is made of line %d is said to be in %s instead of %s", line, loc, want), o.Where)
			}
		}
	}
	frags, ok := w.fragments(o)
	if !ok {
		return false
	}
	l := c.look(o.St)
	for _, f := range sortedKeys(frags) {
		v := frags[f]
		seen++
		if loc, _ := l.fieldT(v, v.T, "Location"); loc != vStr(f) {
			good = false
			c.fail("location", at, fmt.Sprintf("the fragment in %s is said to be in %v", f, loc), o.Where)
		}
		if root, _ := l.fieldT(v, v.T, "Shape"); root != nil && root.K == KPtr {
			if loc, _ := l.fieldT(root, c.P.PtrTo("BaseShape"), "Location"); loc != vStr(f) {
				good = false
				c.fail("location", at, fmt.Sprintf("the type in %s is said to be in %v", f, loc), o.Where)
			}
		}
	}
	if seen == 0 {
		good = false
		c.fail("location", at, "nothing that is made of the document has a location", o.Where)
	}
	return good
}

func checkC14(c *Ctx) {
	opened := func(at string, w *docWorld, o *Outcome) bool {
		good := true
		opens := w.opens(o.St)
		for _, f := range sortedKeys(w.files) {
			if opens[f] == 0 && !w.decoys[f] && o.success() {
				good = false
				c.fail("opened", at, f+" is not read", o.Where)
			}
		}
		for _, f := range sortedKeys(opens) {
			if w.want[f] == 0 && f != w.entry {
				good = false
				c.fail("opened", at, f+" is read", o.Where)
			}
		}
		return good
	}
	accepted := func(at string, w *docWorld, o *Outcome) bool {
		if !o.success() {
			return false
		}
		good := c.located(at, w, o)
		if opened(at, w, o) && good {
			c.ok("document", at)
		}
		return true
	}
	c.includes(nil, false, accepted)
	c.includes(nil, true, func(at string, w *docWorld, o *Outcome) bool {
		if o.success() {
			c.fail("missing", at, "is accepted", o.Where)
		} else if opened(at, w, o) {
			c.ok("missing", at)
		}
		return true
	})
	// types that are made of type expressions, in every file
	places := []struct {
		name string
		top  bool
		body func(w *docWorld, e string) []any
	}{
		{"a type", true, func(w *docWorld, e string) []any { return []any{"types", w.m("A", e)} }},
		{"an annotation type", true, func(w *docWorld, e string) []any { return []any{"annotationTypes", w.m("A", e)} }},
		{"the type", false, func(w *docWorld, e string) []any { return []any{"type", e} }},
		{"several types", false, func(w *docWorld, e string) []any { return []any{"type", w.seq(w.str(e), w.str("any"))} }},
		{"a property", false, func(w *docWorld, e string) []any { return []any{"properties", w.m("p", e, "q?", w.m("type", e))} }},
		{"a pattern property", false, func(w *docWorld, e string) []any { return []any{"properties", w.m("/p/", w.m("type", e))} }},
		{"items", false, func(w *docWorld, e string) []any { return []any{"items", w.m("type", e)} }},
		{"items, in short", false, func(w *docWorld, e string) []any { return []any{"items", e} }},
		{"a facet", false, func(w *docWorld, e string) []any { return []any{"facets", w.m("f?", e, "g?", w.m("type", e))} }},
	}
	for _, e := range []string{"string[]", "string[][]", "string | integer", "(string | nil)[]", "nil | string[]", "string?", "l.T", "l.T[]", "l.T | nil", "(l.T[] | string?)[]"} {
		for _, p := range places {
			for _, pl := range includePlaces {
				for _, kind := range []byte("LD") {
					if !strings.ContainsRune(pl.kinds, rune(kind)) || p.top && kind == 'D' {
						continue
					}
					at := fmt.Sprintf("%s as %s in %c, %s", e, p.name, kind, pl.name)
					entry := "/a/b/api.raml"
					c.parsed(at, entry, nil, func(w *docWorld) {
						if pl.entry != nil {
							pl.entry(w, kind)
						}
						if kind == 'L' {
							w.file(pl.file, "Library")
						} else {
							w.file(pl.file, "DataType")
						}
						uses := []any{"uses", w.m("l", w.uses("lib/l.raml"))}
						body := p.body(w, e)
						if !p.top && kind == 'L' {
							body = []any{"types", w.m("A", w.m(body...))}
						}
						w.content(w.m(append(uses, body...)...))
						w.file(path.Join(path.Dir(pl.file), "lib/l.raml"), "Library")
						w.content(w.m("types", w.m("T", "string")))
					}, func(w *docWorld, o *Outcome) bool { return accepted(at, w, o) })
				}
			}
		}
	}
	c.floor("document", 300)
	c.floor("missing", 300)
}

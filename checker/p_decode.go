package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C05", "path-sensitive abstract interpretation of the decoding of a type declaration, once for each kind of type and keyword: which facet gets the value node", checkC05)
}

// listOf makes a list value of the given elements.
func listOf(t types.Type, elems ...*Val) *Val {
	var parts []*Val
	for _, e := range elems {
		parts = append(parts, mk(Val{K: KPart, S: "one", A: []*Val{e}}))
	}
	return mk(Val{K: KSlice, T: t, A: parts})
}

// pairs makes the content of a mapping node: keys are known, values are nodes called val0, val1, ...
func pairs(st *State, nt types.Type, prefix string, keys ...string) []*Val {
	var vs []*Val
	for i, k := range keys {
		kn, vn := vSym(prefix+"key"+strconv.Itoa(i), nt), vSym(prefix+"val"+strconv.Itoa(i), nt)
		st.assumeNil(kn, false)
		st.assumeNil(vn, false)
		st.wobj(kn.key)[".Value"] = vStr(k)
		vs = append(vs, kn, vn)
	}
	return vs
}

// mapping makes a node a mapping node with the given content.
func mapping(st *State, n *Val, content ...*Val) {
	o := st.wobj(n.key)
	o[".Kind"] = vInt(4)
	o[".Tag"] = vStr("!!map")
	o[".Value"] = vStr("")
	o[".Content"] = listOf(types.NewSlice(n.T), content...)
}

func scalar(st *State, n *Val, value string) {
	o := st.wobj(n.key)
	o[".Kind"] = vInt(8)
	o[".Tag"] = vStr("!!str")
	o[".Value"] = vStr(value)
}

// declared explores how a declaration with the given keywords is decoded.
func (c *Ctx) declared(fn *ssa.Function, typ string, setup func(st *State, nt types.Type), keys ...string) []Outcome {
	nt := fn.Params[1].Type()
	return c.explore(fn, runOpt{
		boundary: c.boundaryAll("makeShapeType", "decode", "decodeValueNode", "MakeConcreteShapeYAML", "MakeBaseShape", "SetShape",
			"unmarshalYAMLNodes", "unmarshalYAMLNode", "unmarshalProperty", "unmarshalPatternProperties", "makeProperty", "makePatternProperty",
			"chompImplicitOptional", "decodeFacets", "decodeExample", "decodeExamples", "IsCustomDomainExtensionNode", "unmarshalCustomDomainExtension", "MakeEnum", "identifyShapeType"),
		setup: func(in *Interp, st *State, a []*Val) {
			all := keys
			if typ != "" {
				all = append([]string{"type"}, keys...)
			}
			content := pairs(st, nt, "", all...)
			if typ != "" {
				scalar(st, content[1], typ)
			}
			st.assumeNil(a[1], false)
			mapping(st, a[1], content...)
			if setup != nil {
				setup(st, nt)
			}
		},
	})
}

// keyword forms: how a value node becomes the value of a facet
const (
	asDecoded = "decoded" // decoded by YAML into the facet's own type
	asPattern = "pattern" // compiled
	asBig     = "bigint"  // read as a decimal number of any size
	asNodes   = "nodes"   // one data node for each member
	asNode    = "node"    // a data node
	asShape   = "shape"   // a nested type
	asExample = "example" // an example
)

type keyword struct{ facet, form string }

// facetWords gives RAML's facet keywords for each kind of type.
var facetWords = map[string]map[string]keyword{
	"string": {"minLength": {"MinLength", asDecoded}, "maxLength": {"MaxLength", asDecoded}, "pattern": {"Pattern", asPattern}, "enum": {"Enum", asNodes}},
	"file":   {"minLength": {"MinLength", asDecoded}, "maxLength": {"MaxLength", asDecoded}, "fileTypes": {"FileTypes", asNodes}},
	"integer": {"minimum": {"Minimum", asBig}, "maximum": {"Maximum", asBig}, "multipleOf": {"MultipleOf", asDecoded}, "format": {"Format", asDecoded},
		"enum": {"Enum", asNodes}},
	"number": {"minimum": {"Minimum", asDecoded}, "maximum": {"Maximum", asDecoded}, "multipleOf": {"MultipleOf", asDecoded}, "format": {"Format", asDecoded},
		"enum": {"Enum", asNodes}},
	"boolean":       {"enum": {"Enum", asNodes}},
	"datetime":      {"format": {"Format", asDecoded}},
	"datetime-only": {},
	"date-only":     {},
	"time-only":     {},
	"any":           {},
	"nil":           {},
	"array": {"items": {"Items", asShape}, "minItems": {"MinItems", asDecoded}, "maxItems": {"MaxItems", asDecoded},
		"uniqueItems": {"UniqueItems", asDecoded}},
	"object": {"additionalProperties": {"AdditionalProperties", asDecoded}, "discriminator": {"Discriminator", asDecoded},
		"discriminatorValue": {"DiscriminatorValue", asDecoded}, "minProperties": {"MinProperties", asDecoded}, "maxProperties": {"MaxProperties", asDecoded}},
	"union": {},
}

// commonWords are the keywords of every kind of type.
var commonWords = map[string]keyword{
	"displayName": {"DisplayName", asDecoded}, "description": {"Description", asDecoded}, "required": {"Required", asDecoded},
	"default": {"Default", asNode}, "example": {"Example", asExample},
}

// otherWords are facets of some kind of type.
func otherWords() []string {
	m := map[string]bool{"properties": true}
	for _, f := range facetWords {
		for k := range f {
			m[k] = true
		}
	}
	return sortedKeys(m)
}

func sortedKeys[T any](m map[string]T) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var kindStruct = map[string]string{
	"string": "StringShape", "file": "FileShape", "integer": "IntegerShape", "number": "NumberShape", "boolean": "BooleanShape", "datetime": "DateTimeShape",
	"datetime-only": "DateTimeOnlyShape", "date-only": "DateOnlyShape", "time-only": "TimeOnlyShape", "any": "AnyShape", "nil": "NilShape",
	"array": "ArrayShape", "object": "ObjectShape", "union": "UnionShape",
}

// declaration is one analysed way through the decoding of a declaration.
type declaration struct {
	c     *Ctx
	o     *Outcome
	l     look
	base  *Val
	baseT types.Type
	shape *Val
	kind  *types.Named // of the concrete type
}

func (c *Ctx) declaration(o *Outcome, fn *ssa.Function) (d declaration, ok bool) {
	d = declaration{c: c, o: o, l: c.look(o.St), base: o.Ret[0], baseT: fn.Signature.Results().At(0).Type()}
	if d.base == vNil || d.base.K != KPtr {
		return d, false
	}
	sh, _ := d.l.fieldT(d.base, d.baseT, "Shape")
	if sh == nil || sh.K != KIface {
		return d, false
	}
	d.shape = sh.A[0]
	n, isNamed := deref(sh.T).(*types.Named)
	d.kind = n
	return d, isNamed
}

// attr is an attribute of the base of the type.
func (d declaration) attr(name string) *Val {
	v, _ := d.l.fieldT(d.base, d.baseT, name)
	return v
}

// facet is a facet of the concrete type.
func (d declaration) facet(name string) *Val {
	v, _ := d.l.fieldT(d.shape, types.NewPointer(d.kind), name)
	return v
}

// entries lists the entries of an ordered map that was made while decoding.
func (d declaration) entries(m *Val) (map[string]*Val, bool) {
	if m == nil || m.K == KNil {
		return nil, true
	}
	if m.K != KPtr || !d.o.St.isFresh(m.S) {
		return nil, false
	}
	h := d.o.St.heap[m.S]
	r := map[string]*Val{}
	ks := h["$keys"]
	if ks == nil {
		return r, true
	}
	for _, p := range ks.A {
		k, ok := p.A[0].strConst()
		if p.S != "one" || !ok {
			return nil, false
		}
		r[k] = h["{"+p.A[0].key+"}"]
		if r[k] == nil {
			r[k] = d.structAt(m.S, "{"+p.A[0].key+"}")
		}
	}
	return r, true
}

// structAt collects the fields of a struct that is stored in place.
func (d declaration) structAt(o, path string) *Val {
	return vPtr(o, path, nil)
}

// result finds the step that gave a value.
func (d declaration) result(v *Val) *Event {
	for _, e := range d.o.St.events {
		for _, r := range e.Res {
			if r == v && v != nil {
				return e
			}
		}
	}
	return nil
}

func (e *Event) takes(key string) bool {
	for _, a := range e.Args {
		if a.key == key {
			return true
		}
	}
	return false
}

// madeBy tells that the value is the result of the named step on the node and the location of the declaration.
func (d declaration) madeBy(v *Val, name, node string) bool {
	e := d.result(v)
	return e != nil && e.named(name) && e.takes(node) && e.takes("p3")
}

// from tells that a facet value was made of the node in the given form.
func (d declaration) from(v *Val, form, node string) bool {
	if v == nil {
		return false
	}
	switch form {
	case asDecoded:
		return strings.HasPrefix(v.key, "decoded<") && strings.HasSuffix(v.key, "("+node+")")
	case asPattern:
		e := d.result(v)
		return e != nil && e.named("Compile") && e.takes(node+".Value")
	case asBig:
		o, _, ok := objOf(v)
		if !ok {
			return false
		}
		b := d.o.St.heap[o]["$big"]
		return b != nil && b.key == "bigint("+node+".Value,n:10)"
	case asNode:
		return d.madeBy(v, "makeRootNode", node)
	case asShape:
		return d.madeBy(v, "makeNewShapeYAML", node)
	case asExample:
		return d.madeBy(v, "makeExample", node)
	case asNodes:
		return d.nodesOf(v, node)
	}
	return false
}

// expect checks one analysed way: which facets are set, and from what.
func (d declaration) expect(construct, kind string, words []string, node func(i int) string) {
	c, o := d.c, d.o
	c.debugState = o.St
	want := map[string][2]string{} // facet of the concrete type
	base := map[string][2]string{}
	custom := map[string]string{}
	ann := map[string]string{}
	for i, w := range words {
		n := node(i)
		if k, ok := facetWords[kind][w]; ok {
			want[k.facet] = [2]string{k.form, n}
		} else if k, ok := commonWords[w]; ok {
			base[k.facet] = [2]string{k.form, n}
		} else if strings.HasPrefix(w, "(") {
			ann[w[1:len(w)-1]] = n
		} else if w != "type" {
			custom[w] = n
		}
	}
	for _, f := range c.facets(d.kind) {
		v := d.facet(f.name)
		if v == nil {
			c.fail("facet", construct, "facet "+f.name+" cannot be found", o.Where)
			continue
		}
		if w, ok := want[f.name]; ok {
			c.holds(d.from(v, w[0], w[1]), "facet", construct, f.name+" is not what its keyword gives: "+shortKey(v.key), o.Where)
			delete(want, f.name)
			continue
		}
		c.holds(unsetVal(v), "other-facet", construct, f.name+" is set by another keyword: "+shortKey(v.key), o.Where)
	}
	for f := range want {
		c.fail("facet", construct, "there is no facet "+f, o.Where)
	}
	for _, f := range []string{"DisplayName", "Description", "Required", "Default", "Example", "Examples", "Alias", "Link", "Inherits"} {
		v := d.attr(f)
		if v == nil {
			c.fail("attribute", construct, "attribute "+f+" cannot be found", o.Where)
			continue
		}
		if w, ok := base[f]; ok {
			c.holds(d.from(v, w[0], w[1]), "attribute", construct, f+" is not what its keyword gives: "+shortKey(v.key), o.Where)
			continue
		}
		c.holds(unsetVal(v), "other-attribute", construct, f+" is set by another keyword: "+shortKey(v.key), o.Where)
	}
	got, ok := d.entries(d.attr("CustomShapeFacets"))
	whole := construct
	if kind == "union" {
		// one decision for all keywords
		construct = kind
	}
	c.holds(ok && len(got) == len(custom), "custom-facets", construct, fmt.Sprintf("%d custom facets instead of %d", len(got), len(custom)), o.Where)
	for k, n := range custom {
		c.holds(d.madeBy(got[k], "makeRootNode", n), "custom-facets", construct, "the keyword is not kept as a custom facet with its value", o.Where)
	}
	construct = whole
	got, ok = d.entries(d.attr("CustomDomainProperties"))
	c.holds(ok && len(got) == len(ann), "annotations", construct, fmt.Sprintf("%d annotations instead of %d", len(got), len(ann)), o.Where)
	for k, n := range ann {
		c.annotation(d, construct, k, got[k], n)
	}
}

func (c *Ctx) annotation(d declaration, construct, name string, de *Val, node string) {
	ok := false
	if de != nil {
		if ob, p, is := objOf(de); is {
			h := d.o.St.heap[ob]
			ok = h[p+".Name"] == vStr(name) && d.madeBy(h[p+".Extension"], "makeRootNode", node)
		}
	}
	c.holds(ok, "annotations", construct, "the annotation does not have its name and value", d.o.Where)
}

func unsetVal(v *Val) bool {
	if v.K == KNil || v.K == KSlice && len(v.A) == 0 {
		return true
	}
	return v == zeroVal(v.T)
}

func checkC05(c *Ctx) {
	fn := c.method("RAML", "makeNewShapeYAML")
	if fn == nil {
		return
	}
	runs := 0
	run := func(kind string, words ...string) {
		runs++
		setup := func(st *State, nt types.Type) {
			st.wobj("p1")[".Line"] = vInt(7)
			for i, w := range words {
				if w == "enum" || w == "fileTypes" {
					sequence(st, vSym(fmt.Sprintf("val%d", i+1), nt))
				}
			}
		}
		outs := c.declared(fn, kind, setup, words...)
		good := 0
		construct := kind + " " + strings.Join(words, "+")
		for i := range outs {
			o := &outs[i]
			if o.Panic != "" || !o.success() {
				continue
			}
			d, ok := c.declaration(o, fn)
			if !ok {
				c.fail("result", construct, "the concrete type cannot be found", o.Where)
				continue
			}
			good++
			if !c.holds(d.kind.Obj().Name() == kindStruct[kind], "kind", construct, "the concrete type is "+d.kind.Obj().Name(), o.Where) {
				continue
			}
			d.expect(construct, kind, words, func(i int) string { return fmt.Sprintf("val%d", i+1) })
		}
		c.holds(good > 0, "accepted", construct, "the declaration is never accepted")
	}
	for _, kind := range sortedKeys(facetWords) {
		var own []string
		for _, w := range otherWords() {
			if kind == "object" && w == "properties" {
				continue
			}
			run(kind, w, "zzOther")
			run(kind, "zzOther", w)
			if _, ok := facetWords[kind][w]; ok {
				own = append(own, w)
			}
		}
		for _, w := range sortedKeys(commonWords) {
			run(kind, w, "zzOther")
			run(kind, "zzOther", w)
			own = append(own, w)
		}
		run(kind, "(note)", "zzOther")
		run(kind, append(own, "(note)", "zzOther")...)
	}
	c.declaredProperties(fn)
	c.declaredFacets(fn)
	c.declaredExamples(fn)
	c.exampleFacets()
	c.undeclaredKind(fn)
	c.laterKind(fn)
	for r, n := range map[string]int{"facet": 90, "other-facet": 1400, "attribute": 150, "other-attribute": 5000, "custom-facets": 600, "annotations": 600,
		"accepted": 700, "properties": 6, "facet-definitions": 3, "examples": 2, "example-facets": 12, "inferred": 15, "kept": 5} {
		c.floor(r, n)
	}
}

// propEntry is an entry of a map of properties that is expected.
type propEntry struct {
	key      string // of the map
	nodeName string // as written
	node     string // value node
	required int    // 1: required, 0: optional, -1: as declared
}

// propsAre checks the content of a map of properties.
func (d declaration) propsAre(rule, construct string, m *Val, propT types.Type, want []propEntry) {
	c := d.c
	got, ok := d.entries(m)
	if !c.holds(ok && len(got) == len(want), rule, construct, fmt.Sprintf("%d entries instead of %d", len(got), len(want)), d.o.Where) {
		return
	}
	for _, w := range want {
		p := got[w.key]
		if !c.holds(p != nil, rule, construct, "there is no entry "+w.key, d.o.Where) {
			continue
		}
		name, _ := d.l.sub(p, types.NewPointer(propT), "Name")
		base, _ := d.l.sub(p, types.NewPointer(propT), "Base")
		req, _ := d.l.sub(p, types.NewPointer(propT), "Required")
		c.holds(name == vStr(w.key), rule, construct, "the name of the property "+w.key+" is "+shortKey(name.key), d.o.Where)
		c.holds(d.madeBy(base, "makeNewShapeYAML", w.node), rule, construct, "the type of the property "+w.key+" is not made of its node", d.o.Where)
		okReq := false
		switch w.required {
		case -1:
			decl, _ := d.l.fieldT(base, d.baseT, "Required")
			okReq = decl != nil && req == d.l.deref(decl, types.Typ[types.Bool])
		default:
			b, isC := req.boolConst()
			okReq = isC && b == (w.required == 1) || d.o.St.query(req) == w.required
		}
		c.holds(okReq, rule, construct, "whether the property "+w.key+" is required: "+shortKey(req.key), d.o.Where)
	}
}

// declaredRequired tells whether the type made of the node says itself whether it is required.
func (d declaration) declaredRequired(node string) int {
	for _, e := range d.o.St.events {
		if e.named("makeNewShapeYAML") && e.takes(node) {
			v, _ := d.l.fieldT(e.Res[0], d.baseT, "Required")
			return triNot(d.o.St.nilness(v))
		}
	}
	return unknown
}

func triNot(r int) int {
	if r == unknown {
		return unknown
	}
	return 1 - r
}

// expectedProps lists the entries that the property names a, b? and /p/ give.
func (d declaration) expectedProps(rule, construct string) (want []propEntry, ok bool) {
	ra, rb := d.declaredRequired("pval0"), d.declaredRequired("pval1")
	if ra == unknown || rb == unknown {
		d.c.fail(rule, construct, "whether a property is required does not depend on its type", d.o.Where)
		return nil, false
	}
	a := propEntry{"a", "a", "pval0", 1}
	if ra == yes {
		a.required = -1
	}
	b := propEntry{"b", "b?", "pval1", 0}
	if rb == yes {
		b.key, b.required = "b?", -1
	}
	return []propEntry{a, b}, true
}

func (c *Ctx) declaredProperties(fn *ssa.Function) {
	const rule, construct = "properties", "object properties"
	obj, prop, pat := c.P.Named("ObjectShape"), c.P.Named("Property"), c.P.Named("PatternProperty")
	if obj == nil || prop == nil || pat == nil {
		c.fail("anchor", "ObjectShape", "the types of objects and properties cannot be found")
		return
	}
	outs := c.declared(fn, "object", func(st *State, nt types.Type) {
		st.wobj("p1")[".Line"] = vInt(7)
		mapping(st, vSym("val1", nt), pairs(st, nt, "p", "a", "b?", "/p/", "/")...)
	}, "properties")
	good := 0
	for i := range outs {
		o := &outs[i]
		if o.Panic != "" || !o.success() {
			continue
		}
		d, ok := c.declaration(o, fn)
		if !ok || d.kind != obj {
			continue
		}
		good++
		c.debugState = o.St
		want, ok := d.expectedProps(rule, construct)
		if !ok {
			continue
		}
		slash := propEntry{"/", "/", "pval3", 1}
		if d.declaredRequired("pval3") == yes {
			slash.required = -1
		}
		d.propsAre(rule, construct, d.facet("Properties"), prop, append(want, slash))
		got, ok := d.entries(d.facet("PatternProperties"))
		p := got["/p/"]
		if !c.holds(ok && len(got) == 1 && p != nil, rule, "object pattern properties", "the property in slashes is not the only pattern property", o.Where) {
			continue
		}
		re, _ := d.l.sub(p, types.NewPointer(pat), "Pattern")
		base, _ := d.l.sub(p, types.NewPointer(pat), "Base")
		e := d.result(re)
		c.holds(e != nil && e.named("Compile") && len(e.Args) == 1 && e.Args[0] == vStr("p"), rule, "object pattern properties", "the pattern is not the name without the slashes", o.Where)
		c.holds(d.madeBy(base, "makeNewShapeYAML", "pval2"), rule, "object pattern properties", "the type is not made of the node of the property", o.Where)
		c.holds(d.declaredRequired("pval2") == no, rule, "object pattern properties", "a pattern property that says whether it is required is accepted", o.Where)
	}
	c.holds(good > 0, "accepted", construct, "the declaration is never accepted")
}

func (c *Ctx) declaredFacets(fn *ssa.Function) {
	const rule, construct = "facet-definitions", "facets"
	prop := c.P.Named("Property")
	for _, kind := range []string{"object", "string"} {
		outs := c.declared(fn, kind, func(st *State, nt types.Type) {
			st.wobj("p1")[".Line"] = vInt(7)
			mapping(st, vSym("val1", nt), pairs(st, nt, "p", "a", "b?")...)
		}, "facets")
		good := 0
		for i := range outs {
			o := &outs[i]
			if o.Panic != "" || !o.success() {
				continue
			}
			d, ok := c.declaration(o, fn)
			if !ok {
				continue
			}
			good++
			c.debugState = o.St
			if want, ok := d.expectedProps(rule, construct); ok {
				d.propsAre(rule, construct, d.attr("CustomShapeFacetDefinitions"), prop, want)
			}
		}
		c.holds(good > 0, "accepted", kind+" "+construct, "the declaration is never accepted")
	}
}

func (c *Ctx) declaredExamples(fn *ssa.Function) {
	const rule = "examples"
	exs := c.P.Named("Examples")
	if exs == nil {
		c.fail("anchor", "Examples", "the type of example sets does not exist any more")
		return
	}
	field := func(d declaration, name string) *Val {
		v, _ := d.l.fieldT(d.attr("Examples"), types.NewPointer(exs), name)
		return v
	}
	run := func(construct string, setup func(st *State, nt types.Type), ok func(d declaration) bool, keys ...string) {
		outs := c.declared(fn, "string", setup, keys...)
		good := 0
		for i := range outs {
			o := &outs[i]
			if o.Panic != "" || !o.success() {
				continue
			}
			d, is := c.declaration(o, fn)
			if !is {
				continue
			}
			good++
			c.debugState = o.St
			c.holds(ok(d), rule, construct, "the examples are not what the keyword gives", o.Where)
		}
		c.holds(good > 0, "accepted", construct, "the declaration is never accepted")
	}
	run("examples map", func(st *State, nt types.Type) {
		st.wobj("p1")[".Line"] = vInt(7)
		mapping(st, vSym("val1", nt), pairs(st, nt, "p", "one", "two")...)
	}, func(d declaration) bool {
		if d.attr("Examples").K != KPtr {
			return false
		}
		got, ok := d.entries(field(d, "Map"))
		return ok && len(got) == 2 && d.madeBy(got["one"], "makeExample", "pval0") && d.madeBy(got["two"], "makeExample", "pval1") &&
			d.result(got["one"]).takes(vStr("one").key) && d.result(got["two"]).takes(vStr("two").key) && field(d, "Location").key == "p3" &&
			field(d, "Link") != nil && unsetVal(field(d, "Link"))
	}, "examples")
	run("examples include", func(st *State, nt types.Type) {
		st.wobj("p1")[".Line"] = vInt(7)
		scalar(st, vSym("val1", nt), "ex.raml")
		st.wobj("val1")[".Tag"] = vStr("!!include")
		st.wobj("val1")[".Tag"] = vStr("!include")
	}, func(d declaration) bool {
		if d.attr("Examples").K != KPtr {
			return false
		}
		e := d.result(field(d, "Link"))
		return e != nil && e.named("parseNamedExample") && field(d, "Location").key == "p3"
	}, "examples")
}

// exampleFacets checks how an example is decoded: as the value itself or as a map with facets of the example.
func (c *Ctx) exampleFacets() {
	const rule = "example-facets"
	fn, ex := c.method("RAML", "makeExample"), c.P.Named("Example")
	if fn == nil || ex == nil {
		return
	}
	nt := fn.Params[1].Type()
	words := map[string]string{"displayName": "DisplayName", "description": "Description", "strict": "Strict"}
	run := func(construct string, check func(o *Outcome, l look, get func(string) *Val), setup func(st *State)) {
		outs := c.explore(fn, runOpt{
			boundary: c.boundaryAll("decode", "fill", "IsCustomDomainExtensionNode", "unmarshalCustomDomainExtension"),
			setup: func(in *Interp, st *State, a []*Val) {
				st.assumeNil(a[1], false)
				setup(st)
			},
		})
		good := 0
		for i := range outs {
			o := &outs[i]
			if o.Panic != "" || !o.success() || c.anyFailed(o) {
				continue
			}
			good++
			l := c.look(o.St)
			c.debugState = o.St
			check(o, l, func(f string) *Val { v, _ := l.fieldT(o.Ret[0], types.NewPointer(ex), f); return v })
		}
		c.holds(good > 0, "accepted", construct, "the example is never accepted")
	}
	isNode := func(o *Outcome, v *Val, node string) bool {
		for _, e := range o.eventsNamed("makeRootNode") {
			if e.takes(node) && e.takes("p3") && len(e.Res) > 0 && e.Res[0] == v {
				return true
			}
		}
		return false
	}
	for _, keys := range [][]string{{"value", "displayName", "description", "strict", "(note)"}, {"strict", "description", "displayName", "value"}, {"value"}, {"description", "value"}} {
		construct := "example " + strings.Join(keys, "+")
		run(construct, func(o *Outcome, l look, get func(string) *Val) {
			for i, k := range keys {
				n := fmt.Sprintf("val%d", i)
				switch {
				case k == "value":
					c.holds(isNode(o, get("Data"), n), rule, construct, "the value is not that of the keyword", o.Where)
				case words[k] != "":
					v := get(words[k])
					c.holds(v != nil && strings.HasPrefix(v.key, "decoded<") && strings.HasSuffix(v.key, "("+n+")"), rule, construct, words[k]+" is not what its keyword gives", o.Where)
				case k == "(note)":
					d := declaration{c: c, o: o, l: l}
					got, ok := d.entries(get("CustomDomainProperties"))
					c.holds(ok && len(got) == 1, rule, construct, "the annotation is not the only one", o.Where)
					c.annotation(d, construct, "note", got["note"], n)
				}
			}
			if len(keys) == 1 {
				c.holds(get("Strict") == vBool(true), rule, construct, "an example is not strict by default", o.Where)
			}
			c.holds(get("Name").key == "p2", rule, construct, "the name is not the one given", o.Where)
		}, func(st *State) { mapping(st, vSym("p1", nt), pairs(st, nt, "", keys...)...) })
	}
	run("example that is a map", func(o *Outcome, l look, get func(string) *Val) {
		c.holds(isNode(o, get("Data"), "p1") && get("Strict") == vBool(true), rule, "example that is a map", "the value is not the node itself", o.Where)
	}, func(st *State) { mapping(st, vSym("p1", nt), pairs(st, nt, "", "displayName", "strict")...) })
	run("example that is a scalar", func(o *Outcome, l look, get func(string) *Val) {
		c.holds(isNode(o, get("Data"), "p1"), rule, "example that is a scalar", "the value is not the node itself", o.Where)
	}, func(st *State) { scalar(st, vSym("p1", nt), "x") })
}

// inferred tells which kind of type the facets of a declaration without a type stand for.
var inferred = []struct {
	words []string
	kind  string
}{
	{nil, "string"}, {[]string{"zzOther"}, "string"},
	{[]string{"minLength"}, "string"}, {[]string{"maxLength"}, "string"}, {[]string{"pattern"}, "string"}, {[]string{"minLength", "pattern"}, "string"},
	{[]string{"minimum"}, "number"}, {[]string{"maximum"}, "number"}, {[]string{"multipleOf"}, "number"}, {[]string{"minimum", "maximum"}, "number"},
	{[]string{"minItems"}, "array"}, {[]string{"maxItems"}, "array"}, {[]string{"uniqueItems"}, "array"}, {[]string{"items"}, "array"},
	{[]string{"minProperties"}, "object"}, {[]string{"maxProperties"}, "object"}, {[]string{"additionalProperties"}, "object"},
	{[]string{"discriminator"}, "object"}, {[]string{"properties"}, "object"}, {[]string{"properties", "zzOther"}, "object"},
	{[]string{"fileTypes"}, "file"}, {[]string{"fileTypes", "minLength"}, "file"}, {[]string{"maxLength", "fileTypes"}, "file"},
	{[]string{"minimum", "minLength"}, ""}, {[]string{"items", "properties"}, ""}, {[]string{"pattern", "fileTypes"}, ""}, {[]string{"fileTypes", "pattern"}, ""},
}

// undeclaredKind checks declarations without a type.
func (c *Ctx) undeclaredKind(fn *ssa.Function) {
	const rule = "inferred"
	for _, x := range inferred {
		construct := "no type: " + strings.Join(x.words, "+")
		outs := c.declared(fn, "", func(st *State, nt types.Type) {
			st.wobj("p1")[".Line"] = vInt(7)
			for i, w := range x.words {
				if w == "fileTypes" {
					sequence(st, vSym(fmt.Sprintf("val%d", i), nt))
				}
				if w == "properties" {
					mapping(st, vSym(fmt.Sprintf("val%d", i), nt), pairs(st, nt, "p", "a")...)
				}
			}
		}, x.words...)
		good := 0
		for i := range outs {
			o := &outs[i]
			if o.Panic != "" || !o.success() {
				continue
			}
			good++
			d, ok := c.declaration(o, fn)
			if !ok {
				c.fail(rule, construct, "the concrete type cannot be found", o.Where)
				continue
			}
			c.holds(d.kind.Obj().Name() == kindStruct[x.kind], rule, construct, "the concrete type is "+d.kind.Obj().Name(), o.Where)
			var words []string
			for _, w := range x.words {
				if w == "properties" {
					words = nil
					break
				}
				words = append(words, w)
			}
			if len(words) > 0 && d.kind.Obj().Name() == kindStruct[x.kind] {
				d.expect(construct, x.kind, words, func(i int) string { return fmt.Sprintf("val%d", i) })
			}
		}
		if x.kind == "" {
			c.holds(good == 0, rule, construct, "facets of different kinds of types are accepted")
		} else {
			c.holds(good > 0, "accepted", construct, "the declaration is never accepted")
		}
	}
}

// laterKind checks that the facets of a type whose kind is known later are kept and decoded then.
func (c *Ctx) laterKind(fn *ssa.Function) {
	const rule = "kept"
	unk := c.P.Named("UnknownShape")
	if unk == nil {
		c.fail("anchor", "UnknownShape", "the type of unresolved types does not exist any more")
		return
	}
	outs := c.declared(fn, "Other", func(st *State, nt types.Type) { st.wobj("p1")[".Line"] = vInt(7) }, "minLength", "zzOther", "displayName")
	good := 0
	facets := ""
	for i := range outs {
		o := &outs[i]
		if o.Panic != "" || !o.success() {
			continue
		}
		d, ok := c.declaration(o, fn)
		if !ok || !c.holds(d.kind == unk, rule, "declaration", "a type that refers to another is not left to be resolved", o.Where) {
			continue
		}
		good++
		// the field that keeps the nodes
		s := structOf(unk)
		found := false
		for j := 0; j < s.NumFields(); j++ {
			f := s.Field(j)
			if sl, ok := f.Type().Underlying().(*types.Slice); !ok || !types.Identical(sl.Elem(), fn.Params[1].Type()) {
				continue
			}
			facets = f.Name()
			v := d.facet(facets)
			var keys []string
			n, isN := d.l.in.lenOf(o.St, v).intConst()
			for k := int64(0); isN && k < n; k++ {
				if e, ok := d.l.in.listElem(v, vInt(k)); ok {
					keys = append(keys, e.key)
				} else if h := o.St.heap[v.S]; h != nil && h[fmt.Sprintf("%s[%d]", v.S2, k)] != nil {
					keys = append(keys, h[fmt.Sprintf("%s[%d]", v.S2, k)].key)
				}
			}
			found = strings.Join(keys, " ") == "key1 val1 key2 val2"
		}
		c.holds(found, rule, "declaration", "the facets of the type are not kept until it is resolved", o.Where)
	}
	c.holds(good > 0, "accepted", "declaration", "the declaration is never accepted")
	// every step that settles the kind decodes them
	for _, m := range []struct{ typ, name, shape string }{{"RAML", "resolveLink", "p2"}, {"RAML", "resolveMultipleInheritance", "p2"},
		{"RdtVisitor", "VisitPrimitive", "p2"}, {"RdtVisitor", "VisitOptional", "p2"}, {"RdtVisitor", "VisitArray", "p2"}, {"RdtVisitor", "VisitUnion", "p2"}, {"RdtVisitor", "VisitReference", "p2"}} {
		f := c.method(m.typ, m.name)
		if f == nil {
			continue
		}
		for _, o := range c.explore(f, runOpt{boundary: c.boundaryAll("Base")}) {
			if o.Panic != "" || !o.success() {
				continue
			}
			n := 0
			for _, e := range o.eventsNamed("MakeConcreteShapeYAML") {
				if e.takes(m.shape+"."+facets) && (e.takes(m.shape+".BaseShape") || e.takes("p1")) {
					n++
				}
			}
			c.holds(n == 1, rule, m.typ+"."+m.name, "the facets that were kept are not decoded", o.Where)
		}
	}
}

// nodesOf tells that the list has one data node for each member of a sequence node, in order.
func (d declaration) nodesOf(v *Val, node string) bool {
	var elems []*Val
	switch {
	case v.K == KSlice:
		for _, p := range v.A {
			if p.S != "one" {
				return false
			}
			elems = append(elems, p.A[0])
		}
	case v.K == KPtr:
		h := d.o.St.heap[v.S]
		n, ok := d.l.in.lenOf(d.o.St, v).intConst()
		if !ok {
			return false
		}
		for i := int64(0); i < n; i++ {
			elems = append(elems, h[fmt.Sprintf("%s[%d]", v.S2, i)])
		}
	}
	if len(elems) != seqLen {
		return false
	}
	for i, e := range elems {
		if e == nil || !d.madeBy(e, "makeRootNode", fmt.Sprintf("%s.%d", node, i)) {
			return false
		}
	}
	return true
}

const seqLen = 3

// sequence makes a node a sequence node with members of known number.
func sequence(st *State, n *Val) {
	var elems []*Val
	for i := 0; i < seqLen; i++ {
		e := vSym(fmt.Sprintf("%s.%d", n.key, i), n.T)
		st.assumeNil(e, false)
		st.wobj(e.key)[".Tag"] = vStr("!!str")
		elems = append(elems, e)
	}
	o := st.wobj(n.key)
	o[".Kind"] = vInt(2)
	o[".Tag"] = vStr("!!seq")
	o[".Value"] = vStr("")
	o[".Content"] = listOf(types.NewSlice(n.T), elems...)
}

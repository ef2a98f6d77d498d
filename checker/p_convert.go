package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C06", "path-sensitive abstract interpretation of the conversion of a type, once for each kind of type, dialect and facet: the keywords of the result against the facets of the type", checkC06)
}

// how a facet becomes the value of a keyword
const (
	kwSame    = "same"    // the same value
	kwNumber  = "number"  // the number as text
	kwText    = "text"    // the text of the expression
	kwValues  = "values"  // the values of the nodes
	kwFirst   = "first"   // the value of the first node
	kwValue   = "value"   // the value of the node
	kwType    = "type"    // the converted type
	kwTypes   = "types"   // the converted types
	kwProps   = "props"   // the converted types of properties
	kwPats    = "pats"    // the converted types of pattern properties
	kwConst   = "const"   // a fixed text
	kwAnyText = "anytext" // some fixed text
	kwDeref   = "deref"   // the text pointed to
	kwData    = "data"    // the value of the example
	kwDatas   = "datas"   // the values of the examples
	kwExts    = "exts"    // the values of the annotations
)

type kw struct{ keyword, form, facet string }

// keywordsOf gives, for each kind of type, the keywords that every schema of the kind has, and those that its facets give.
var keywordsOf = map[string]struct {
	fixed  map[string]string
	facets map[string][]kw
}{
	"AnyShape":    {nil, nil},
	"NilShape":    {map[string]string{"Type": "null"}, nil},
	"StringShape": {map[string]string{"Type": "string"}, map[string][]kw{"MinLength": {{"MinLength", kwSame, ""}}, "MaxLength": {{"MaxLength", kwSame, ""}}, "Pattern": {{"Pattern", kwText, ""}}, "Enum": {{"Enum", kwValues, ""}}}},
	"IntegerShape": {map[string]string{"Type": "integer"}, map[string][]kw{"Minimum": {{"Minimum", kwNumber, ""}}, "Maximum": {{"Maximum", kwNumber, ""}}, "MultipleOf": {{"MultipleOf", kwNumber, ""}},
		"Enum": {{"Enum", kwValues, ""}}, "Format": nil}},
	"NumberShape": {map[string]string{"Type": "number"}, map[string][]kw{"Minimum": {{"Minimum", kwNumber, ""}}, "Maximum": {{"Maximum", kwNumber, ""}}, "MultipleOf": {{"MultipleOf", kwNumber, ""}},
		"Enum": {{"Enum", kwValues, ""}}, "Format": nil}},
	"BooleanShape": {map[string]string{"Type": "boolean"}, map[string][]kw{"Enum": {{"Enum", kwValues, ""}}}},
	"FileShape": {map[string]string{"Type": "string", "ContentEncoding": "base64"}, map[string][]kw{"MinLength": {{"MinLength", kwSame, ""}}, "MaxLength": {{"MaxLength", kwSame, ""}},
		"FileTypes": {{"ContentMediaType", kwFirst, ""}}}},
	"DateTimeShape":     {map[string]string{"Type": "string", "Format": "date-time"}, nil},
	"DateTimeOnlyShape": {map[string]string{"Type": "string", "Pattern": ""}, nil},
	"DateOnlyShape":     {map[string]string{"Type": "string", "Format": "date"}, nil},
	"TimeOnlyShape":     {map[string]string{"Type": "string", "Format": "time"}, nil},
	"ObjectShape": {map[string]string{"Type": "object"}, map[string][]kw{"MinProperties": {{"MinProperties", kwSame, ""}}, "MaxProperties": {{"MaxProperties", kwSame, ""}},
		"AdditionalProperties": {{"AdditionalProperties", kwSame, ""}}, "Properties": {{"Properties", kwProps, ""}}, "PatternProperties": {{"PatternProperties", kwPats, ""}},
		"Discriminator": nil, "DiscriminatorValue": nil}},
	"ArrayShape": {map[string]string{"Type": "array"}, map[string][]kw{"MinItems": {{"MinItems", kwSame, ""}}, "MaxItems": {{"MaxItems", kwSame, ""}}, "UniqueItems": {{"UniqueItems", kwSame, ""}},
		"Items": {{"Items", kwType, ""}}}},
	"UnionShape": {nil, map[string][]kw{"AnyOf": {{"AnyOf", kwTypes, ""}}, "Enum": nil}},
}

var commonKeywords = map[string][]kw{
	"DisplayName": {{"Title", kwDeref, ""}}, "Description": {{"Description", kwDeref, ""}}, "Default": {{"Default", kwValue, ""}},
	"Example": {{"Examples", kwData, ""}}, "Examples": {{"Examples", kwDatas, ""}}, "Required": nil,
	"CustomDomainProperties": {{"Annotations", kwExts, ""}}, "CustomShapeFacets": {{"FacetData", kwValues, ""}}, "CustomShapeFacetDefinitions": {{"FacetDefinitions", kwProps, ""}},
}

// convWorld is the conversion of one type.
type convWorld struct {
	*typeWorld
	c      *Ctx
	schema types.Type
	fields []schemaField
	set    []string
	before *State
	mark   map[string]string // keywords that are fixed in this world
}

// nestedTypes makes the conversion of a nested type a function of it.
func nestedTypes(c *Ctx, schema types.Type) func(in *Interp, st *State, k *Call) ([]callOut, bool) {
	return func(in *Interp, st *State, k *Call) ([]callOut, bool) {
		if k.Callee == nil || !c.P.InModule(k.Callee) || k.Sig.Results().Len() != 1 || !types.Identical(k.Sig.Results().At(0).Type(), schema) {
			return nil, false
		}
		for _, a := range k.Args {
			if a.K != KSym {
				continue
			}
			n := strings.TrimSuffix(a.S, ".Shape")
			if !strings.Contains(n, "v.") || strings.HasSuffix(n, ".Schema") {
				continue
			}
			if !isShapeType(c, a.T) {
				continue
			}
			st = st.clone()
			r := vAppT(schema, "converted", vSym(n, nil))
			st.assumeNil(r, false)
			st.addEvent(&Event{Name: "converted", Args: []*Val{vSym(n, nil)}, Res: []*Val{r}, Site: "", key: "converted(" + n + ")"})
			return []callOut{{st: st, ret: []*Val{r}}}, true
		}
		return nil, false
	}
}

func isShapeType(c *Ctx, t types.Type) bool {
	if t == nil {
		return false
	}
	sh := c.P.Named("Shape")
	return types.Identical(t, c.P.PtrTo("BaseShape")) || sh != nil && types.Identical(t, sh)
}

func checkC06(c *Ctx) {
	for _, name := range []string{"JSONSchema", "JSONSchemaRAML"} {
		schema := c.P.PtrTo(name)
		visit := c.instance("JSONSchemaConverter", schema, "Visit")
		if schema == nil || visit == nil {
			continue
		}
		for _, kind := range sortedKeys(keywordsOf) {
			c.convertKind(name, schema, visit, kind)
		}
		c.convertJSON(name, schema, visit)
		c.convertRecursive(name, schema, visit)
		c.convertEntry(name, schema)
	}
	c.floor("keyword", 300)
	c.floor("other-keyword", 5000)
}

func (c *Ctx) convertKind(dialect string, schema types.Type, visit *ssa.Function, kind string) {
	k := c.P.Named(kind)
	if k == nil {
		c.fail("anchor", kind, "the type does not exist any more")
		return
	}
	spec := keywordsOf[kind]
	var all []string
	for _, f := range c.facets(k) {
		all = append(all, f.name)
		if _, ok := spec.facets[f.name]; !ok && f.name != "Format" {
			c.fail("facet", kind, "the facet "+f.name+" has no known keyword")
		}
	}
	for _, f := range sortedKeys(commonKeywords) {
		all = append(all, f)
	}
	worlds := [][]string{nil}
	var most []string
	for _, f := range all {
		worlds = append(worlds, []string{f})
		if f != "Example" {
			most = append(most, f)
		}
	}
	worlds = append(worlds, most, append(append([]string(nil), most...), "Example"))
	for _, set := range worlds {
		c.convertWorld(dialect, schema, visit, kind, set, nil)
	}
	if kind == "DateTimeShape" {
		for v, m := range map[string]map[string]string{"rfc3339": {"Type": "string", "Format": "date-time"}, "rfc2616": {"Type": "string", "Pattern": ""}} {
			v := v
			c.convertWorld(dialect, schema, visit, kind, []string{"Format"}, func(w *convWorld) {
				w.set1("Format", newVar(w.st, "v.Format", w.typeOf("Format"), vStr(v)))
				w.mark = m
			})
		}
	}
	if kind == "AnyShape" {
		c.convertWorld(dialect, schema, visit, kind, []string{"Examples"}, func(w *convWorld) {
			w.st.wobj("v.Examples")[".Map"] = vNil
			w.st.wobj("v.Examples")[".Link"] = newObj(w.st, "v.Link", c.P.PtrTo("NamedExample"))
			w.st.wobj("v.Link")[".Map"] = w.some("v.Examples:Linked", c.P.fieldType("NamedExample", "Map"))
		})
	}
	if kind == "ObjectShape" {
		c.convertWorld(dialect, schema, visit, kind, []string{"Properties", "Required"}, nil)
	}
}

func (w *convWorld) set1(f string, v *Val) { w.typeWorld.set(f, v) }

func (c *Ctx) convertWorld(dialect string, schema types.Type, visit *ssa.Function, kind string, set []string, adjust func(*convWorld)) {
	at := kind + " to " + dialect + " with " + strings.Join(set, "+")
	if len(set) > 3 {
		at = fmt.Sprintf("%s to %s with %d facets", kind, dialect, len(set))
	}
	var w *convWorld
	outs := c.explore(visit, runOpt{model: nestedTypes(c, schema), setup: func(in *Interp, st *State, a []*Val) {
		w = &convWorld{typeWorld: c.newType(st, "", kind), c: c, schema: schema, fields: schemaFields(deref(schema), ""), set: set, mark: keywordsOf[kind].fixed}
		c.setWrapper(st, schema)
		for _, f := range set {
			if f == "Format" && kind == "DateTimeShape" {
				continue
			}
			switch f {
			case "Examples":
				m := w.some("v.Examples:Map", c.P.fieldType("Examples", "Map"))
				w.set1(f, newObj(st, "v.Examples", w.typeOf(f)))
				st.wobj("v.Examples")[".Map"] = m
			default:
				w.fill(f)
			}
			if f == "FileTypes" {
				for i := 0; i < 2; i++ {
					n := fmt.Sprintf("v.FileTypes.%d", i)
					st.wobj(n)[".Value"] = vIface(types.Typ[types.String], vSym(n+".Value", types.Typ[types.String]))
				}
			}
		}
		if adjust != nil {
			adjust(w)
		}
		a[1] = vIface(types.NewPointer(w.kind), w.shape)
		w.before = st.clone()
	}})
	c.holds(len(outs) > 0, "result", at, "never returns")
	for i := range outs {
		o := &outs[i]
		c.debugState = o.St
		if o.Panic != "" {
			c.fail("panic", at, o.Panic, o.Where)
			continue
		}
		w.result(at, o)
	}
}

// expected tells which keywords the result must have.
func (w *convWorld) expected(o *Outcome) map[string]kw {
	r := map[string]kw{}
	for k, v := range w.mark {
		if v == "" {
			r[k] = kw{k, kwAnyText, ""}
		} else {
			r[k] = kw{k, kwConst, v}
		}
	}
	spec := keywordsOf[w.kind.Obj().Name()]
	for _, f := range w.set {
		l, ok := spec.facets[f]
		if !ok {
			l = commonKeywords[f]
		}
		for _, k := range l {
			k.facet = f
			if k.keyword == "Examples" && k.form == kwDatas && contains(w.set, "Example") {
				continue
			}
			r[k.keyword] = k
		}
	}
	return r
}

func contains(a []string, s string) bool {
	for _, x := range a {
		if x == s {
			return true
		}
	}
	return false
}

func (w *convWorld) result(at string, o *Outcome) {
	c := w.c
	changes := w.before.snapshot().changed(o.St)
	c.holds(len(changes) == 0, "original", at, "the type is changed: "+strings.Join(changes, ", "), o.Where)
	res := o.Ret[0]
	if !c.holds(res.K == KPtr && o.St.isFresh(res.S), "result", at, "the result is not a new schema: "+shortKey(res.key), o.Where) {
		return
	}
	l := c.look(o.St)
	want := w.expected(o)
	for _, f := range w.fields {
		v := w.in.loadPlace(o.St, res.S, res.S2+f.path, f.t)
		k, ok := want[f.name]
		if !ok {
			switch {
			case f.name == "Required" && contains(w.set, "Properties"):
				w.requiredList(at, o, l, v)
			case v == zeroVal(f.t) || unsetVal(v):
				c.ok("other-keyword", at)
			default:
				// an empty list or map is as good as none
				n, isN := l.in.lenOf(o.St, v).intConst()
				c.holds(isN && n == 0 && v.K == KPtr, "other-keyword", at, f.tag+" is set: "+shortKey(v.key), o.Where)
			}
			continue
		}
		why := w.compare(l, o, k, v, f.t)
		c.holds(why == "", "keyword", at, f.tag+" "+why, o.Where)
	}
}

func numberText(v, n *Val) bool {
	v = plain(v)
	if v == nil || v.K != KApp || len(v.A) == 0 {
		return false
	}
	switch v.S {
	case "strconv.FormatFloat":
		return v.A[0] == n && v.A[2] == vInt(-1) && v.A[3] == vInt(64)
	case "strconv.FormatInt", "strconv.FormatUint":
		return v.A[0] == n && v.A[1] == vInt(10)
	case "bigtext":
		return v.A[0].isApp("big") && v.A[0].A[0] == n || v.A[0] == n
	case "big.Int.Text":
		return v.A[0] == n && v.A[1] == vInt(10)
	}
	return false
}

// compare tells what is wrong with the value of a keyword.
func (w *convWorld) compare(l look, o *Outcome, k kw, v *Val, t types.Type) string {
	bad := "is not what " + k.facet + " says: " + shortKey(v.key)
	var fv *Val
	var ft types.Type
	if k.facet != "" && k.form != kwConst {
		_, _, ft = w.place(k.facet)
		fv = w.get(w.before, k.facet)
	}
	lb := look{w.c, w.in, w.before}
	okIf := func(b bool) string {
		if b {
			return ""
		}
		return bad
	}
	nodeValue := func(n *Val, path ...string) *Val {
		v, _ := lb.sub(n, w.c.P.PtrTo("Node"), "Value")
		return v
	}
	same := func(got, want *Val) bool {
		return got == want || plain(got) == want || got != nil && want != nil && plain(got) == plain(want)
	}
	anyT := types.NewInterfaceType(nil, nil)
	switch k.form {
	case kwConst:
		s, _ := v.strConst()
		if s != k.facet {
			return "is not " + k.facet + ": " + shortKey(v.key)
		}
	case kwAnyText:
		s, _ := v.strConst()
		return okIf(s != "")
	case kwSame:
		if p, ok := ft.Underlying().(*types.Pointer); ok && v.K == KPtr && v != fv {
			return okIf(o.St.isFresh(v.S) && l.deref(v, p.Elem()) == lb.deref(fv, p.Elem()))
		}
		return okIf(v == fv)
	case kwNumber:
		n := fv
		if p, ok := ft.Underlying().(*types.Pointer); ok {
			if _, basic := p.Elem().Underlying().(*types.Basic); basic {
				n = lb.deref(fv, p.Elem())
			}
		}
		return okIf(numberText(v, n))
	case kwText:
		return okIf(v.K == KApp && strings.HasSuffix(v.S, "Regexp.String") && v.A[0] == fv)
	case kwDeref:
		return okIf(v == lb.deref(fv, ft.Underlying().(*types.Pointer).Elem()))
	case kwValue:
		return okIf(same(v, nodeValue(fv)))
	case kwFirst:
		es, _ := lb.items(fv, w.c.P.PtrTo("Node"))
		return okIf(len(es) > 0 && same(v, plain(nodeValue(es[0]))))
	case kwType:
		return okIf(v.isApp("converted") && v.A[0].key == fv.key)
	case kwTypes:
		es, _ := lb.items(fv, w.baseT)
		got, ok := l.items(v, w.schema)
		if !ok || len(es) != len(got) {
			return bad
		}
		for i := range es {
			if !got[i].isApp("converted") || got[i].A[0].key != es[i].key {
				return fmt.Sprintf("has another member at %d: %s", i, shortKey(got[i].key))
			}
		}
	case kwProps, kwPats:
		e := orderedElem(ft)
		es, _ := lb.mapEntries(fv, e)
		got, ok := l.mapEntries(v, w.schema)
		if !ok || len(es) != len(got) {
			return bad
		}
		for i := range es {
			name := es[i].key
			if k.form == kwPats {
				name = name[1 : len(name)-1]
			}
			b, _ := lb.sub(es[i].val, e, "Base")
			if got[i].key != name || b == nil || !got[i].val.isApp("converted") || got[i].val.A[0].key != b.key {
				return fmt.Sprintf("has another entry than %s: %s %s", name, got[i].key, shortKey(got[i].val.key))
			}
		}
	case kwValues:
		if e := orderedElem(ft); e != nil {
			es, _ := lb.mapEntries(fv, e)
			got, ok := l.mapEntries(v, anyT)
			if !ok || len(es) != len(got) {
				return bad
			}
			for i := range es {
				if got[i].key != es[i].key || !same(got[i].val, nodeValue(es[i].val)) {
					return "has another entry than " + es[i].key
				}
			}
			return ""
		}
		es, _ := lb.items(fv, w.c.P.PtrTo("Node"))
		got, ok := l.items(v, anyT)
		if !ok || len(es) != len(got) {
			return bad
		}
		for i := range es {
			if !same(got[i], nodeValue(es[i])) {
				return fmt.Sprintf("has another value at %d: %s", i, shortKey(got[i].key))
			}
		}
	case kwExts:
		e := orderedElem(ft)
		es, _ := lb.mapEntries(fv, e)
		got, ok := l.mapEntries(v, anyT)
		if !ok || len(es) != len(got) {
			return bad
		}
		for i := range es {
			x, _ := lb.sub(es[i].val, e, "Extension", "Value")
			if got[i].key != es[i].key || !same(got[i].val, x) {
				return "has another entry than " + es[i].key
			}
		}
	case kwData, kwDatas:
		var es []*Val
		if k.form == kwData {
			es = []*Val{fv}
		} else {
			m, mt := lb.sub(fv, ft, "Map")
			if link, lt := lb.sub(fv, ft, "Link"); link.K == KPtr {
				m, mt = lb.sub(link, lt, "Map")
			}
			ents, _ := lb.mapEntries(m, orderedElem(mt))
			for _, e := range ents {
				es = append(es, e.val)
			}
		}
		got, ok := l.items(v, anyT)
		if !ok || len(es) != len(got) {
			return bad
		}
		for i := range es {
			x, _ := lb.sub(es[i], w.c.P.PtrTo("Example"), "Data", "Value")
			if !same(got[i], x) {
				return fmt.Sprintf("has another example at %d: %s", i, shortKey(got[i].key))
			}
		}
	}
	return ""
}

// orderedElem is the type of the values of an ordered map.
func orderedElem(t types.Type) types.Type {
	if n, ok := deref(t).(*types.Named); ok && n.Obj().Name() == "OrderedMap" && n.TypeArgs().Len() == 2 {
		return n.TypeArgs().At(1)
	}
	return nil
}

// requiredList checks the names of the required properties.
func (w *convWorld) requiredList(at string, o *Outcome, l look, v *Val) {
	c := w.c
	lb := look{c, w.in, w.before}
	_, _, ft := w.place("Properties")
	e := orderedElem(ft)
	es, _ := lb.mapEntries(w.get(w.before, "Properties"), e)
	got, ok := l.items(v, types.Typ[types.String])
	if !c.holds(ok, "keyword", at, "the list of required properties is not known: "+shortKey(v.key), o.Where) {
		return
	}
	var want, have []string
	for _, x := range es {
		r, _ := lb.sub(x.val, e, "Required")
		switch o.St.query(r) {
		case yes:
			want = append(want, x.key)
		case unknown:
			c.fail("keyword", at, "whether a property is required is not looked at", o.Where)
			return
		}
	}
	for _, g := range got {
		s, _ := plain(g).strConst()
		have = append(have, s)
	}
	sort.Strings(have)
	sort.Strings(want)
	c.holds(strings.Join(want, " ") == strings.Join(have, " "), "keyword", at, fmt.Sprintf("the required properties are %v instead of %v", have, want), o.Where)
}

func (p *Program) fieldType(typ, field string) types.Type {
	n := p.Named(typ)
	if n == nil {
		return nil
	}
	o, _, _ := types.LookupFieldOrMethod(n, true, p.Pkg.Pkg, field)
	if v, ok := o.(*types.Var); ok {
		return v.Type()
	}
	return nil
}

// convertJSON checks types that are given as a JSON schema: every keyword is kept, the attributes of the type come first.
func (c *Ctx) convertJSON(dialect string, schema types.Type, visit *ssa.Function) {
	plainT := c.P.PtrTo("JSONSchema")
	src := schemaFields(deref(plainT), "")
	over := map[string]string{"Title": "DisplayName", "Description": "Description", "Default": "Default", "Examples": "Example"}
	var all, attrs []string
	for _, f := range src {
		all = append(all, f.name)
	}
	attrs = []string{"DisplayName", "Description", "Default", "Example"}
	type world struct{ keywords, attrs []string }
	worlds := []world{{all, nil}, {all, attrs}, {nil, attrs}, {nil, nil}}
	for _, f := range src {
		worlds = append(worlds, world{[]string{f.name}, nil})
	}
	for _, a := range attrs {
		worlds = append(worlds, world{all, []string{a}})
	}
	for _, x := range worlds {
		at := "JSONShape to " + dialect + " with " + strings.Join(append(append([]string(nil), x.keywords...), x.attrs...), "+")
		if len(x.keywords) > 3 {
			at = "JSONShape to " + dialect + " with all keywords and " + strings.Join(x.attrs, "+")
		}
		sw := schemaWorld{src, plainT, map[string]bool{}, false}
		for _, k := range x.keywords {
			sw.set[k] = true
		}
		var w *convWorld
		shapes := nestedTypes(c, schema)
		outs := c.explore(visit, runOpt{
			model: func(in *Interp, st *State, k *Call) ([]callOut, bool) {
				// nested schemas
				if n := len(k.Args); k.Callee != nil && c.P.InModule(k.Callee) && k.Sig.Results().Len() == 1 && types.Identical(k.Sig.Results().At(0).Type(), schema) && n > 0 {
					if a := k.Args[n-1]; a.K == KSym && a.T != nil && types.Identical(a.T, plainT) && strings.HasPrefix(a.S, "k.") {
						st = st.clone()
						r := vAppT(schema, "nested", a)
						st.assumeNil(r, false)
						return []callOut{{st: st, ret: []*Val{r}}}, true
					} else if a == vNil && types.Identical(k.Sig.Params().At(k.Sig.Params().Len()-1).Type(), plainT) {
						return []callOut{{st: st, ret: []*Val{vNil}}}, true // decided in C07
					}
				}
				return shapes(in, st, k)
			},
			setup: func(in *Interp, st *State, a []*Val) {
				w = &convWorld{typeWorld: c.newType(st, "", "JSONShape"), c: c, schema: schema, fields: schemaFields(deref(schema), ""), set: x.attrs}
				c.setWrapper(st, schema)
				w.set1("Schema", newObj(st, "src", plainT))
				sw.build(st, "src")
				for _, f := range x.attrs {
					w.fill(f)
				}
				if contains(x.attrs, "DisplayName") {
					st.assume(eqAtom(vSym("v.DisplayName.value", types.Typ[types.String]), vStr("")), false)
				}
				if contains(x.attrs, "Description") {
					st.assume(eqAtom(vSym("v.Description.value", types.Typ[types.String]), vStr("")), false)
				}
				if contains(x.attrs, "Default") {
					st.assumeNil(vSym("v.Default.Value", c.P.fieldType("Node", "Value")), false)
				}
				a[1] = vIface(types.NewPointer(w.kind), w.shape)
				w.before = st.clone()
			},
		})
		c.holds(len(outs) > 0, "result", at, "never returns")
		for i := range outs {
			o := &outs[i]
			c.debugState = o.St
			if o.Panic != "" {
				c.fail("panic", at, o.Panic, o.Where)
				continue
			}
			changes := w.before.snapshot().changed(o.St)
			c.holds(len(changes) == 0, "original", at, "the type is changed: "+strings.Join(changes, ", "), o.Where)
			res := o.Ret[0]
			if !c.holds(res.K == KPtr && o.St.isFresh(res.S) && res.S != "src", "result", at, "the result is not a new schema: "+shortKey(res.key), o.Where) {
				continue
			}
			cmp := schemaCmp{l: c.look(o.St), w: sw, original: w.before, deep: true}
			byName := map[string]schemaField{}
			for _, f := range src {
				byName[f.name] = f
			}
			for _, f := range w.fields {
				v := w.in.loadPlace(o.St, res.S, res.S2+f.path, f.t)
				if a := over[f.name]; a != "" && contains(x.attrs, a) {
					why := w.compare(c.look(o.St), o, commonKeywords[a][0].of(a), v, f.t)
					c.holds(why == "", "keyword", at, f.tag+" "+why, o.Where)
				} else if sw.set[f.name] && f.name != "Version" {
					why := cmp.same(byName[f.name], v, f.t)
					c.holds(why == "", "keyword", at, f.tag+" "+why, o.Where)
				} else {
					n, isN := cmp.l.in.lenOf(o.St, v).intConst()
					c.holds(v == zeroVal(f.t) || unsetVal(v) || v.K == KPtr && isN && n == 0, "other-keyword", at, f.tag+" is set: "+shortKey(v.key), o.Where)
				}
			}
		}
	}
}

func (k kw) of(facet string) kw {
	k.facet = facet
	return k
}

// convertRecursive checks references to a type that is being converted.
func (c *Ctx) convertRecursive(dialect string, schema types.Type, visit *ssa.Function) {
	defT := types.NewMap(types.Typ[types.String], schema)
	for _, have := range []bool{false, true} {
		at := fmt.Sprintf("RecursiveShape to %s, definition present: %v", dialect, have)
		var w *convWorld
		shapes := nestedTypes(c, schema)
		name := vSym("v.Head.Name", types.Typ[types.String])
		outs := c.explore(visit, runOpt{
			model: func(in *Interp, st *State, k *Call) ([]callOut, bool) {
				r, ok := shapes(in, st, k)
				if ok {
					ks := st.heap["defs"]["$keys"]
					c.holds(ks != nil && strings.Contains(ks.key, "v.Head.Name"), "placeholder", at, "the definition is converted before its name is taken, so that a reference in it does not end")
				}
				return r, ok
			},
			setup: func(in *Interp, st *State, a []*Val) {
				w = &convWorld{typeWorld: c.newType(st, "", "RecursiveShape"), c: c, schema: schema, fields: schemaFields(deref(schema), "")}
				c.setWrapper(st, schema)
				w.fill("Head")
				defs := newMap(st, "defs", defT)
				if have {
					defs = newMap(st, "defs", defT, name, nonNil(st, "earlier", schema))
				}
				st.wobj("t")[".definitions"] = defs
				a[1] = vIface(types.NewPointer(w.kind), w.shape)
				w.before = st.clone()
			},
		})
		c.holds(len(outs) > 0, "result", at, "never returns")
		for i := range outs {
			o := &outs[i]
			c.debugState = o.St
			if o.Panic != "" {
				c.fail("panic", at, o.Panic, o.Where)
				continue
			}
			res := o.Ret[0]
			if !c.holds(res.K == KPtr && o.St.isFresh(res.S), "result", at, "the result is not a new schema: "+shortKey(res.key), o.Where) {
				continue
			}
			for _, f := range w.fields {
				v := w.in.loadPlace(o.St, res.S, res.S2+f.path, f.t)
				if f.name == "Ref" {
					c.holds(refTo(v, name), "reference", at, "the reference is not to the definition of the head: "+shortKey(v.key), o.Where)
					continue
				}
				c.holds(v == zeroVal(f.t) || unsetVal(v), "other-keyword", at, f.tag+" is set: "+shortKey(v.key), o.Where)
			}
			d := o.St.heap["defs"]
			def := d["{"+name.key+"}"]
			ok := d["$keys"] != nil && len(d["$keys"].A) == 1 && def != nil
			if have {
				c.holds(ok && def.key == "earlier" && len(o.eventsNamed("converted")) == 0, "definition", at, "the definition that is present is not kept", o.Where)
			} else {
				c.holds(ok && def.isApp("converted") && def.A[0].key == "v.Head", "definition", at, "the definition of the head is not in the result", o.Where)
			}
		}
	}
}

// refTo tells that the text is the reference to the definition of that name.
func refTo(v, name *Val) bool {
	if v.isApp("concat") {
		return v.key == vApp("concat", vStr("#/definitions/"), name).key
	}
	return v.isApp("fmt.Sprintf") && (strings.Contains(v.key, "#/definitions/%s,") || strings.Contains(v.key, "#/definitions/%v,")) && strings.Contains(v.key, "("+name.key+")")
}

// convertEntry checks the conversion as a whole.
func (c *Ctx) convertEntry(dialect string, schema types.Type) {
	fn := c.instance("JSONSchemaConverter", schema, "Convert")
	if fn == nil {
		return
	}
	defT := types.NewMap(types.Typ[types.String], schema)
	for _, unwrapped := range []bool{true, false} {
		at := fmt.Sprintf("Convert to %s, unwrapped: %v", dialect, unwrapped)
		var w *convWorld
		outs := c.explore(fn, runOpt{
			model: func(in *Interp, st *State, k *Call) ([]callOut, bool) {
				if k.Callee == nil || !c.P.InModule(k.Callee) || len(k.Args) < 2 || plain(k.Args[1]) != w.shape || !types.Identical(k.Sig.Results().At(0).Type(), schema) {
					return nil, false
				}
				st = st.clone()
				r := vSym("visited", schema)
				st.assumeNil(r, false)
				d := st.heap["t"][".definitions"]
				if d == nil {
					d = vNil
				}
				st.addEvent(&Event{Name: "visited", Args: []*Val{d}, Res: []*Val{r}, key: "visited(" + d.key + ")"})
				ks := st.heap[d.S]["$keys"]
				c.holds(d.K == KPtr && ks != nil && strings.Contains(ks.key, "attr.Name"), "placeholder", at, "the type is converted before its name is taken, so that a reference to it does not end")
				return []callOut{{st: st, ret: []*Val{r}}}, true
			},
			setup: func(in *Interp, st *State, a []*Val) {
				w = &convWorld{typeWorld: c.newType(st, "", "AnyShape"), c: c, schema: schema, fields: schemaFields(deref(schema), "")}
				c.setWrapper(st, schema)
				st.wobj(w.base.S)[".unwrapped"] = vBool(unwrapped)
				st.wobj("t")[".definitions"] = newMap(st, "old", defT, vStr("k"), nonNil(st, "earlier", schema))
				a[1] = vIface(types.NewPointer(w.kind), w.shape)
				w.before = st.clone()
			},
		})
		c.holds(len(outs) > 0, "result", at, "never returns")
		for i := range outs {
			o := &outs[i]
			c.debugState = o.St
			if o.Panic != "" {
				c.fail("panic", at, o.Panic, o.Where)
				continue
			}
			if !unwrapped {
				c.holds(!o.success(), "unwrapped", at, "a type that is not unwrapped is converted", o.Where)
				continue
			}
			if !c.holds(o.success(), "result", at, "the type is refused", o.Where) {
				continue
			}
			changes := w.before.snapshot()
			delete(changes, "t")
			ch := changes.changed(o.St)
			c.holds(len(ch) == 0, "original", at, "the type or an earlier result is changed: "+strings.Join(ch, ", "), o.Where)
			res := o.Ret[0]
			if !c.holds(res.K == KPtr && o.St.isFresh(res.S), "result", at, "the result is not a new schema: "+shortKey(res.key), o.Where) {
				continue
			}
			ev := o.eventsNamed("visited")
			for _, f := range w.fields {
				v := w.in.loadPlace(o.St, res.S, res.S2+f.path, f.t)
				switch f.name {
				case "Ref":
					c.holds(refTo(v, vSym("attr.Name", nil)), "reference", at, "the reference is not to the definition of the type: "+shortKey(v.key), o.Where)
				case "Version":
					s, _ := v.strConst()
					c.holds(s != "", "keyword", at, "the version is missing", o.Where)
				case "Definitions":
					h := o.St.heap[v.S]
					ok := v.K == KPtr && v.S != "old" && len(ev) == 1 && ev[0].Args[0] == v && h["{attr.Name}"] != nil && h["{attr.Name}"].key == "visited" && len(h["$keys"].A) == 1
					c.holds(ok, "definition", at, "the definitions are not those made by this conversion", o.Where)
				default:
					c.holds(v == zeroVal(f.t) || unsetVal(v), "other-keyword", at, f.tag+" is set: "+shortKey(v.key), o.Where)
				}
			}
		}
	}
}

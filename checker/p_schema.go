package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C07", "path-sensitive abstract interpretation of the copies, maps and recasts of schemas, once for each keyword: the result has the keyword, and only it", checkC07)
}

// schemaField is a keyword of the schema type.
type schemaField struct {
	name, tag, path string
	t               types.Type
}

// schemaFields lists the keywords of a schema struct with their JSON names, looking into embedded structs.
func schemaFields(t types.Type, prefix string) []schemaField {
	var out []schemaField
	s := structOf(t)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Embedded() {
			out = append(out, schemaFields(f.Type(), prefix+"."+f.Name())...)
			continue
		}
		tag := jsonTag(s.Tag(i))
		if tag == "" || tag == "-" {
			continue
		}
		out = append(out, schemaField{f.Name(), tag, prefix + "." + f.Name(), f.Type()})
	}
	return out
}

func jsonTag(tag string) string {
	const k = "json:\""
	i := strings.Index(tag, k)
	if i < 0 {
		return ""
	}
	rest := tag[i+len(k):]
	rest = rest[:strings.IndexByte(rest+"\"", '"')]
	return strings.Split(rest, ",")[0]
}

// shapeOfField tells how a keyword is represented: one value, a list or a map, and whether it holds schemas.
func shapeOfField(t, schema types.Type) (form string, elem types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return "list", u.Elem()
	case *types.Map:
		return "map", u.Elem()
	case *types.Pointer:
		if types.Identical(t, schema) {
			return "one", t
		}
		if n, ok := u.Elem().(*types.Named); ok && n.Obj().Name() == "OrderedMap" && n.TypeArgs().Len() == 2 {
			return "omap", n.TypeArgs().At(1)
		}
		return "ref", u.Elem()
	}
	return "one", t
}

// schemaWorld makes a schema with the given keywords.
type schemaWorld struct {
	fields []schemaField
	schema types.Type // of nested schemas
	set    map[string]bool
	empty  bool // lists and maps are empty
}

func (w schemaWorld) build(st *State, obj string) {
	for _, f := range w.fields {
		if !w.set[f.name] {
			st.store(obj, f.path, zeroVal(f.t), f.t)
			continue
		}
		st.wobj(obj)[f.path] = w.value(st, f)
	}
}

func (w schemaWorld) value(st *State, f schemaField) *Val {
	name := "k." + f.name
	form, elem := shapeOfField(f.t, w.schema)
	if w.empty {
		switch form {
		case "list":
			return newList(st, name, f.t)
		case "map", "omap":
			return newMap(st, name, f.t)
		}
	}
	e := func(i int) *Val { return nonNil(st, fmt.Sprintf("%s.%d", name, i), elem) }
	switch form {
	case "list":
		return newList(st, name, f.t, e(0), e(1))
	case "map", "omap":
		return newMap(st, name, f.t, vStr("k1"), e(0), vStr("k0"), e(1))
	case "ref":
		return newVar(st, name, f.t, vSym(name+".value", elem))
	}
	v := nonNil(st, name, f.t)
	if isString(f.t) {
		st.assume(eqAtom(v, vStr("")), false)
	}
	return v
}

// nestedModel makes calls of the analysed function on nested schemas functions of their argument.
func nestedModel(fn *ssa.Function) func(in *Interp, st *State, k *Call) ([]callOut, bool) {
	return func(in *Interp, st *State, k *Call) ([]callOut, bool) {
		if k.Callee != fn || len(k.Args) == 0 {
			return nil, false
		}
		x := k.Args[len(k.Args)-1]
		t := fn.Signature.Results().At(0).Type()
		switch st.nilness(x) {
		case yes:
			return []callOut{{st: st, ret: []*Val{zeroVal(t)}}}, true
		case no:
			st = st.clone()
			r := vAppT(t, "nested", x)
			st.assumeNil(r, false)
			return []callOut{{st: st, ret: []*Val{r}}}, true
		}
		return nil, false
	}
}

// same compares the value of a keyword in a result with that in the original.
type schemaCmp struct {
	l        look
	w        schemaWorld
	fresh    bool // lists and maps are new
	deep     bool // nested schemas are results of the same operation
	asMap    bool // the result is a plain map
	original *State
}

func (x schemaCmp) nested(want, elem types.Type, orig *Val, got *Val) bool {
	if x.deep && types.Identical(elem, x.w.schema) {
		return got.isApp("nested") && got.A[0] == orig
	}
	return got == orig
}

// same tells what is wrong with the value.
func (x schemaCmp) same(f schemaField, got *Val, gotT types.Type) string {
	l := x.l
	form, elem := shapeOfField(f.t, x.w.schema)
	orig := x.original.heap["t"][f.path]
	if orig == nil {
		orig = x.original.heap["src"][f.path]
	}
	lo := look{l.c, l.in, x.original}
	if x.asMap {
		got = plain(got)
	}
	gotElem := elem
	if !x.asMap {
		_, gotElem = shapeOfField(gotT, x.w.schema)
	} else {
		gotElem = types.NewInterfaceType(nil, nil)
	}
	switch form {
	case "list":
		a, _ := lo.items(orig, elem)
		b, ok := l.items(got, gotElem)
		if !ok || len(a) != len(b) {
			return "is not a list of as many elements: " + shortKey(got.key)
		}
		for i := range a {
			bi := b[i]
			if x.asMap {
				bi = plain(bi)
			}
			if !x.nested(gotElem, elem, a[i], bi) {
				return fmt.Sprintf("has another element at %d: %s", i, shortKey(bi.key))
			}
		}
		if x.fresh && len(a) > 0 && got.K == KPtr && got == orig {
			return "is shared with the original"
		}
	case "map", "omap":
		a, _ := lo.mapEntries(orig, elem)
		b, ok := l.mapEntries(got, gotElem)
		if !ok || len(a) != len(b) {
			return "is not a map of as many entries: " + shortKey(got.key)
		}
		for i := range a {
			j := i
			if x.asMap || form == "map" {
				for j = range b {
					if b[j].key == a[i].key {
						break
					}
				}
			}
			bv := b[j].val
			if x.asMap {
				bv = plain(bv)
			}
			if b[j].key != a[i].key || !x.nested(gotElem, elem, a[i].val, bv) {
				return "has another entry for " + a[i].key + ": " + b[j].key + " " + shortKey(bv.key)
			}
		}
		if x.fresh && got == orig {
			return "is shared with the original"
		}
	case "ref":
		if x.asMap {
			v := lo.deref(orig, elem)
			if got == v || got.K == KApp && strings.Contains(got.S, "Format") && got.A[0] == v && (len(got.A) == 1 || got.A[1] == vInt(10)) {
				return ""
			}
			return "is not the number or truth value: " + shortKey(got.key)
		}
		if got.K != KPtr || l.deref(got, elem) != lo.deref(orig, elem) {
			return "has another value: " + shortKey(got.key)
		}
	default:
		if !x.nested(gotT, f.t, orig, got) {
			return "has another value: " + shortKey(got.key)
		}
	}
	return ""
}

// worlds are the sets of keywords that are explored: each alone, all, and none.
func schemaWorlds(fields []schemaField, schema types.Type) map[string]schemaWorld {
	r := map[string]schemaWorld{"no keyword": {fields, schema, map[string]bool{}, false}}
	all := map[string]bool{}
	for _, f := range fields {
		all[f.name] = true
		r[f.tag] = schemaWorld{fields, schema, map[string]bool{f.name: true}, false}
	}
	r["all keywords"] = schemaWorld{fields, schema, all, false}
	return r
}

func checkC07(c *Ctx) {
	for _, name := range []string{"JSONSchema", "JSONSchemaRAML"} {
		schema := c.P.PtrTo(name)
		if schema == nil {
			c.fail("anchor", name, "the type does not exist any more")
			continue
		}
		fields := schemaFields(deref(schema), "")
		c.holds(len(fields) >= 38, "keywords", name, fmt.Sprintf("only %d keywords found", len(fields)))
		for _, m := range []string{"Map", "DeepCopy", "ShallowCopy"} {
			if fn := c.method(name, m); fn != nil {
				c.schemaOp(name+"."+m, fn, schema, schema, fields, m)
			}
		}
		if fn := c.instance("JSONSchemaConverter", schema, "recast"); fn != nil {
			c.schemaOp("recast to "+name, fn, c.P.PtrTo("JSONSchema"), schema, schemaFields(deref(c.P.PtrTo("JSONSchema")), ""), "recast")
		}
	}
	for _, r := range []string{"keyword", "other-keyword", "original", "nil"} {
		c.floor(r, map[string]int{"keyword": 300, "other-keyword": 600, "original": 300, "nil": 8}[r])
	}
}

// instance finds the method of an instance of a generic type.
func (c *Ctx) instance(generic string, arg types.Type, method string) *ssa.Function {
	n := c.P.Named(generic)
	if n == nil {
		c.fail("anchor", generic, "the type does not exist any more")
		return nil
	}
	t, err := types.Instantiate(nil, n, []types.Type{arg}, false)
	if err != nil {
		c.fail("anchor", generic, err.Error())
		return nil
	}
	fn := c.P.Method(types.NewPointer(t), method)
	if fn == nil || len(fn.Blocks) == 0 {
		c.fail("anchor", generic+"."+method, "the method does not exist any more")
		return nil
	}
	return fn
}

func (c *Ctx) schemaOp(construct string, fn *ssa.Function, src, dst types.Type, fields []schemaField, op string) {
	dstFields := map[string]schemaField{}
	for _, f := range schemaFields(deref(dst), "") {
		dstFields[f.name] = f
	}
	obj := "t"
	ws := schemaWorlds(fields, src)
	if op == "DeepCopy" || op == "ShallowCopy" {
		w := ws["all keywords"]
		w.empty = true
		ws["empty lists and maps"] = w
	}
	for _, wn := range sortedKeys(ws) {
		w := ws[wn]
		var before *State
		opt := runOpt{model: nestedModel(fn), setup: func(in *Interp, st *State, a []*Val) {
			if op == "recast" {
				obj = "src"
				c.setWrapper(st, dst)
				a[1] = newObj(st, obj, src)
			} else {
				a[0] = newObj(st, obj, src)
			}
			w.build(st, obj)
			before = st.clone()
		}}
		outs := c.explore(fn, opt)
		c.holds(len(outs) > 0, "result", construct, "never returns")
		for i := range outs {
			o := &outs[i]
			c.debugState = o.St
			at := construct + " with " + wn
			if o.Panic != "" {
				c.fail("panic", at, o.Panic, o.Where)
				continue
			}
			var changes []string
			for _, ch := range before.snapshot().changed(o.St) {
				changes = append(changes, ch)
			}
			c.holds(len(changes) == 0 && len(o.St.muts) == 0, "original", at, "the original is changed: "+strings.Join(changes, ", "), o.Where)
			x := schemaCmp{l: c.look(o.St), w: w, original: before, asMap: op == "Map", deep: op != "ShallowCopy", fresh: op == "DeepCopy"}
			res := o.Ret[0]
			if op == "Map" {
				es, ok := x.l.mapEntries(res, types.NewInterfaceType(nil, nil))
				if !c.holds(ok && res.K == KPtr, "result", at, "the result is not a new map", o.Where) {
					continue
				}
				got := map[string]*Val{}
				for _, e := range es {
					got[e.key] = e.val
				}
				for _, f := range fields {
					v := got[f.tag]
					delete(got, f.tag)
					if !w.set[f.name] {
						c.holds(v == nil, "other-keyword", at, "the keyword "+f.tag+" is not set but present", o.Where)
					} else if c.holds(v != nil, "keyword", at, f.tag+" is missing", o.Where) {
						why := x.same(f, v, nil)
						c.holds(why == "", "keyword", at, f.tag+" "+why, o.Where)
					}
				}
				for _, k := range sortedKeys(got) {
					c.fail("other-keyword", at, "the keyword "+k+" is unknown", o.Where)
				}
				continue
			}
			if !c.holds(res.K == KPtr && o.St.isFresh(res.S) && res.S != obj, "result", at, "the result is not a new schema: "+shortKey(res.key), o.Where) {
				continue
			}
			for _, f := range fields {
				g, ok := dstFields[f.name]
				if !ok {
					c.fail("keyword", at, "the result has no "+f.name, o.Where)
					continue
				}
				v := x.l.in.loadPlace(o.St, res.S, res.S2+g.path, g.t)
				if !w.set[f.name] {
					c.holds(v == zeroVal(g.t) || unsetVal(v), "other-keyword", at, f.tag+" is not set in the original: "+shortKey(v.key), o.Where)
					continue
				}
				why := x.same(f, v, g.t)
				c.holds(why == "", "keyword", at, f.tag+" "+why, o.Where)
			}
		}
	}
	// nil
	outs := c.explore(fn, runOpt{setup: func(in *Interp, st *State, a []*Val) { a[len(a)-1] = vNil }, model: func(in *Interp, st *State, k *Call) ([]callOut, bool) { return nil, false }})
	c.holds(len(outs) > 0, "nil", construct, "never returns")
	for _, o := range outs {
		c.holds(o.Panic == "" && o.Ret[0].K == KNil, "nil", construct, "nil does not give nil: "+o.Panic, o.Where)
	}
}

// setWrapper configures the converter t for the dialect.
func (c *Ctx) setWrapper(st *State, schema types.Type) {
	st.wobj("t")[".opts.wrap"] = vNil
	if n, ok := deref(schema).(*types.Named); ok && n.Obj().Name() != "JSONSchema" {
		if w := c.function("JSONSchemaWrapper"); w != nil {
			st.wobj("t")[".opts.wrap"] = mk(Val{K: KFunc, Fn: w})
		}
	}
}

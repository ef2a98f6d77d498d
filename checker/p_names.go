package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C26", "abstract interpretation of the lookups, of the resolution of references and annotations and of the visitor of type expressions on known fragments and parse trees: which type a name denotes, and which type an expression builds", checkC26)
}

// newStruct makes an object of a named struct type with some fields set.
func (c *Ctx) newStruct(st *State, name, typ string, fields map[string]*Val) *Val {
	t := c.P.PtrTo(typ)
	if t == nil {
		c.fail("anchor", typ, "the type does not exist any more")
		return vNil
	}
	v := newObj(st, name, t)
	c.setFields(st, v, deref(t), fields)
	return v
}

func (c *Ctx) setFields(st *State, v *Val, t types.Type, fields map[string]*Val) {
	s := structOf(t)
	for _, f := range sortedKeys(fields) {
		found := false
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == f {
				st.store(v.S, v.S2+"."+f, fields[f], s.Field(i).Type())
				found = true
			}
		}
		if !found {
			c.fail("anchor", t.String()+"."+f, "the field does not exist any more")
		}
	}
}

// fieldOfType finds the only field of a struct with the given type.
func (c *Ctx) fieldOfType(typ string, want func(types.Type) bool) *types.Var {
	s := structOf(deref(c.P.PtrTo(typ)))
	var r *types.Var
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if want(s.Field(i).Type()) {
			if r != nil {
				c.fail("anchor", typ, "more than one field of the expected type: "+r.Name()+", "+s.Field(i).Name())
				return nil
			}
			r = s.Field(i)
		}
	}
	if r == nil {
		c.fail("anchor", typ, "no field of the expected type")
	}
	return r
}

// fragmentsField is the field of a parser instance that holds its fragments.
func (c *Ctx) fragmentsField() *types.Var {
	frag := c.P.Named("Fragment")
	return c.fieldOfType("RAML", func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && frag != nil && types.Identical(m.Elem(), frag)
	})
}

// library is a fragment of a known world.
type library struct {
	val         *Val
	types, anns map[string]*Val
	uses        map[string]*library
}

type nameWorld struct {
	c    *Ctx
	g    *graph
	st   *State
	raml *Val
}

func (w *nameWorld) table(name, field, typ string, names []string) (*Val, map[string]*Val) {
	t := w.c.P.fieldType(typ, field)
	var kv []*Val
	m := map[string]*Val{}
	for _, n := range names {
		b := w.g.node("StringShape").base
		m[n] = b
		kv = append(kv, vStr(n), b)
	}
	return newMap(w.st, name, t, kv...), m
}

func (w *nameWorld) library(name string, typs, anns []string, uses map[string]*library) *library {
	l := &library{uses: uses}
	var tv, av *Val
	tv, l.types = w.table(name+":types", "Types", "Library", typs)
	av, l.anns = w.table(name+":anns", "AnnotationTypes", "Library", anns)
	l.val = w.c.newStruct(w.st, name, "Library", map[string]*Val{"Types": tv, "AnnotationTypes": av, "Uses": w.uses(name, "Library", uses), "Location": vStr("/dir/" + name), "raml": w.raml})
	return l
}

func (w *nameWorld) uses(name, typ string, uses map[string]*library) *Val {
	var kv []*Val
	for _, n := range sortedKeys(uses) {
		kv = append(kv, vStr(n), w.c.newStruct(w.st, name+":use:"+n, "LibraryLink", map[string]*Val{"Link": uses[n].val, "Value": vStr(n + ".raml"), "Location": vStr("/dir/" + name)}))
	}
	return newMap(w.st, name+":uses", w.c.P.fieldType(typ, "Uses"), kv...)
}

// denotes is the meaning of a name in a library (local) or a data type.
func (l *library) denotes(name string, ann, local bool) *Val {
	tab := func(l *library) map[string]*Val {
		if ann {
			return l.anns
		}
		return l.types
	}
	if local && tab(l)[name] != nil {
		return tab(l)[name]
	}
	i := strings.LastIndexByte(name, '.')
	if i < 0 || l.uses[name[:i]] == nil {
		return nil
	}
	return tab(l.uses[name[:i]])[name[i+1:]]
}

var refNames = []string{"A", "B", "x.y", "lib.T", "lib.S", "lib.A", "lib.x.y", "a.b.T", "a.b.S", "no.T", "lib.U", "lib.", ".T", "", ".", "a.b", "N", "lib.N", "lib.L", "L", "lib", "c.T"}

type lookupCase struct {
	at   string
	val  *Val
	frag *library
	kind string
}

// world makes a library, a data type and a named example with their libraries.
func (w *nameWorld) fragments() []lookupCase {
	m := w.library("lib.raml", []string{"T", "S", "A", "x.y", "L"}, []string{"T", "N", "S"}, nil)
	n := w.library("ab.raml", []string{"T", "a.b", "b"}, []string{"S"}, map[string]*library{"c": m})
	l := w.library("main.raml", []string{"A", "x.y", "lib.T", "a.b"}, []string{"B", "lib.S", "A", "N"}, map[string]*library{"lib": m, "a.b": n})
	d := &library{types: map[string]*Val{}, anns: map[string]*Val{}, uses: map[string]*library{"lib": m, "a.b": n}}
	d.val = w.c.newStruct(w.st, "data.raml", "DataType", map[string]*Val{"Uses": w.uses("data.raml", "DataType", d.uses), "Location": vStr("/dir/data.raml"), "raml": w.raml})
	e := &library{types: map[string]*Val{}, anns: map[string]*Val{}}
	e.val = w.c.newStruct(w.st, "example.raml", "NamedExample", map[string]*Val{"Location": vStr("/dir/example.raml"), "raml": w.raml})
	return []lookupCase{{"main.raml", l.val, l, "Library"}, {"lib.raml", m.val, m, "Library"}, {"ab.raml", n.val, n, "Library"}, {"data.raml", d.val, d, "DataType"}, {"example.raml", e.val, e, "NamedExample"}}
}

func (c *Ctx) newNames(st *State) (*nameWorld, []lookupCase) {
	w := &nameWorld{c: c, st: st, g: &graph{c: c, st: st}}
	w.raml = c.newStruct(st, "raml", "RAML", nil)
	cases := w.fragments()
	if f := c.fragmentsField(); f != nil {
		var kv []*Val
		for _, x := range cases {
			kv = append(kv, vStr("/dir/"+x.at), vIface(c.P.PtrTo(x.kind), x.val))
		}
		st.store(w.raml.S, "."+f.Name(), newMap(st, "fragments", f.Type(), kv...), f.Type())
	}
	return w, cases
}

// checkLookup decides what the lookups give for a name.
func (c *Ctx) checkLookups() {
	for _, ann := range []bool{false, true} {
		meth, global := "GetReferenceType", "GetReferencedType"
		if ann {
			meth, global = "GetReferenceAnnotationType", "GetReferencedAnnotationType"
		}
		for _, kind := range []string{"Library", "DataType", "NamedExample"} {
			fn := c.method(kind, meth)
			if fn == nil {
				continue
			}
			for ci := 0; ci < 5; ci++ {
				for _, name := range refNames {
					var lc lookupCase
					outs := c.explore(fn, runOpt{setup: func(in *Interp, st *State, args []*Val) {
						_, cases := c.newNames(st)
						lc = cases[ci]
						args[0], args[1] = lc.val, vStr(name)
					}})
					if lc.kind != kind {
						continue
					}
					c.lookupResult(kind+"."+meth, lc, name, ann, outs)
				}
			}
		}
		fn := c.method("RAML", global)
		if fn == nil {
			continue
		}
		for ci := 0; ci < 6; ci++ {
			for _, name := range refNames {
				var lc lookupCase
				outs := c.explore(fn, runOpt{setup: func(in *Interp, st *State, args []*Val) {
					w, cases := c.newNames(st)
					lc = lookupCase{at: "unknown.raml", frag: &library{}, kind: "NamedExample"}
					if ci < len(cases) {
						lc = cases[ci]
					}
					args[0], args[1], args[2] = w.raml, vStr(name), vStr("/dir/"+lc.at)
				}})
				c.lookupResult(global, lc, name, ann, outs)
			}
		}
	}
	c.floor("lookup", 400)
}

func (c *Ctx) lookupResult(fn string, lc lookupCase, name string, ann bool, outs []Outcome) {
	want := lc.frag.denotes(name, ann, lc.kind == "Library")
	at := fmt.Sprintf("%s(%q) in %s", fn, name, lc.at)
	if len(outs) == 0 {
		c.fail("lookup", at, "no path returns")
	}
	for i := range outs {
		o := &outs[i]
		switch {
		case o.Panic != "":
			c.fail("lookup", at, "panics: "+o.Panic)
		case want == nil:
			c.holds(o.St.nilness(o.lastErr()) == no, "lookup", at, "there is no such type, but the lookup gives "+shortKey(o.Ret[0].key), o.Where)
		default:
			c.holds(o.St.nilness(o.lastErr()) == yes && plain(o.Ret[0]) == want, "lookup", at, "gives "+shortKey(o.Ret[0].key)+" instead of "+want.S, o.Where)
		}
	}
}

// ---- annotations ----

func (c *Ctx) checkAnnotationLookup() {
	fn := c.method("RAML", "resolveDomainExtensions")
	f := c.fieldOfType("RAML", func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && types.Identical(s.Elem(), c.P.PtrTo("DomainExtension"))
	})
	if fn == nil || f == nil {
		return
	}
	for _, names := range [][]string{{"A", "lib.N"}, {"lib.S", "B"}, {"A", "L"}, {"no.N", "A"}, {"lib.S", "lib.S"}} {
		for _, frag := range []string{"main.raml", "lib.raml", "data.raml"} {
			var exts []*Val
			var lc lookupCase
			outs := c.explore(fn, runOpt{setup: func(in *Interp, st *State, args []*Val) {
				w, cases := c.newNames(st)
				for _, x := range cases {
					if x.at == frag {
						lc = x
					}
				}
				exts = nil
				for i, n := range names {
					exts = append(exts, c.newStruct(st, fmt.Sprintf("ext%d", i), "DomainExtension", map[string]*Val{"Name": vStr(n), "Location": vStr("/dir/" + lc.at), "raml": w.raml}))
				}
				st.store(w.raml.S, "."+f.Name(), newList(st, "exts", f.Type(), exts...), f.Type())
				args[0] = w.raml
			}})
			at := fmt.Sprintf("annotations %s in %s", strings.Join(names, ", "), frag)
			good := true
			var want []*Val
			for _, n := range names {
				want = append(want, lc.frag.denotes(n, true, lc.kind == "Library"))
				good = good && want[len(want)-1] != nil
			}
			if len(outs) == 0 {
				c.fail("annotation", at, "no path returns")
			}
			for i := range outs {
				o := &outs[i]
				if o.Panic != "" {
					c.fail("annotation", at, "panics: "+o.Panic)
					continue
				}
				nerr := o.St.nilness(o.lastErr())
				c.holds(good && nerr == yes || !good && nerr == no, "annotation", at, "the outcome does not tell whether all names are known", o.Where)
				for k := range names {
					v := NewInterp(c.P).loadPlace(o.St, exts[k].S, ".DefinedBy", c.P.PtrTo("BaseShape"))
					if want[k] != nil {
						c.holds(v == want[k], "annotation", at, names[k]+" is defined by "+shortKey(v.key)+" instead of "+want[k].S, o.Where)
					} else {
						c.holds(v.K == KNil, "annotation", at, names[k]+" is defined by "+shortKey(v.key), o.Where)
					}
				}
			}
		}
	}
	c.floor("annotation", 30)
}

// ---- type expressions ----

// tree is a parse tree of a type expression.
type tree struct {
	rule string // Primitive, Reference, Optional, Array, Union, Group
	text string
	subs []*tree
}

func prim(n string) *tree { return &tree{rule: "Primitive", text: n} }
func refT(n string) *tree { return &tree{rule: "Reference", text: n} }
func opt(t *tree) *tree   { return &tree{rule: "Optional", text: t.text + "?", subs: []*tree{t}} }
func arr(t *tree) *tree   { return &tree{rule: "Array", text: t.text + "[]", subs: []*tree{t}} }
func group(t *tree) *tree { return &tree{rule: "Group", text: "(" + t.text + ")", subs: []*tree{t}} }
func union(ts ...*tree) *tree {
	var n []string
	for _, t := range ts {
		n = append(n, t.text)
	}
	return &tree{rule: "Union", text: strings.Join(n, "|"), subs: ts}
}

// node makes the parse tree of the grammar: entrypoint: expression EOF; expression: type | union; type: primitive | group | ...
type treeWorld struct {
	c     *Ctx
	st    *State
	n     int
	rdt   *types.Package
	kids  map[string][]*Val // children by object
	texts map[string]string
	bad   bool
}

func (w *treeWorld) ctx(rule, text string, kids ...*Val) *Val {
	o := w.rdt.Scope().Lookup(rule + "Context")
	if o == nil {
		if !w.bad {
			w.c.fail("anchor", "rdt."+rule+"Context", "the type does not exist any more")
		}
		w.bad = true
		return vNil
	}
	w.n++
	name := fmt.Sprintf("tree%d", w.n)
	v := newObj(w.st, name, types.NewPointer(o.Type()))
	w.kids[name], w.texts[name] = kids, text
	return vIface(types.NewPointer(o.Type()), v)
}

func (w *treeWorld) token(text string) *Val {
	w.n++
	name := fmt.Sprintf("token%d", w.n)
	w.texts[name] = text
	return vSym(name, nil)
}

func (w *treeWorld) simple(t *tree) *Val { // primitive | group | reference | ...
	switch t.rule {
	case "Primitive":
		return w.ctx("Primitive", t.text, w.token(t.text))
	case "Reference":
		return w.ctx("Reference", t.text, w.token(t.text))
	case "Optional":
		return w.ctx("Optional", t.text, w.simple(t.subs[0]), w.token("?"))
	case "Array":
		return w.ctx("Array", t.text, w.simple(t.subs[0]), w.token("[]"))
	case "Group":
		return w.ctx("Group", t.text, w.token("("), w.expression(t.subs[0]), w.token(")"))
	}
	panic("no rule " + t.rule)
}

func (w *treeWorld) expression(t *tree) *Val {
	if t.rule == "Union" {
		var kids []*Val
		for i, s := range t.subs {
			if i > 0 {
				kids = append(kids, w.token("|"))
			}
			kids = append(kids, w.ctx("Type", s.text, w.simple(s)))
		}
		return w.ctx("Expression", t.text, w.ctx("Union", t.text, kids...))
	}
	return w.ctx("Expression", t.text, w.ctx("Type", t.text, w.simple(t)))
}

// model gives the operations of parse trees.
func (w *treeWorld) model(in *Interp, st *State, k *Call) ([]callOut, bool) {
	name := ""
	switch {
	case k.Callee != nil:
		name = k.Callee.Name()
	case k.Method != nil:
		name = k.Method.Name()
	}
	if len(k.Args) == 0 {
		return nil, false
	}
	recv := plain(k.Args[0])
	obj := recv.S
	if recv.K != KPtr && recv.K != KSym {
		return nil, false
	}
	text, known := w.texts[obj]
	if !known {
		return nil, false
	}
	ret := func(v *Val) ([]callOut, bool) { return []callOut{{st: st, ret: []*Val{v}}}, true }
	switch name {
	case "GetText":
		return ret(vStr(text))
	case "GetChildCount":
		return ret(vInt(int64(len(w.kids[obj]))))
	case "GetChildren":
		return ret(listOf(k.Sig.Results().At(0).Type(), w.kids[obj]...))
	case "GetChild":
		if n, ok := k.Args[1].intConst(); ok && n >= 0 && int(n) < len(w.kids[obj]) {
			return ret(w.kids[obj][n])
		}
	}
	return nil, false
}

// builtin types by name
var primKinds = map[string]string{"string": "StringShape", "integer": "IntegerShape", "number": "NumberShape", "boolean": "BooleanShape", "datetime": "DateTimeShape", "time-only": "TimeOnlyShape",
	"datetime-only": "DateTimeOnlyShape", "date-only": "DateOnlyShape", "file": "FileShape", "nil": "NilShape", "any": "AnyShape", "array": "ArrayShape", "object": "ObjectShape", "union": "UnionShape"}

type exprWorld struct {
	c      *Ctx
	o      *Outcome
	l      look
	refs   map[string]*Val // types by name
	at     string
	baseT  types.Type
	seen   map[*Val]string
	facets string
	loc    *Val
	ok     bool
}

func (e *exprWorld) wrong(format string, a ...any) {
	if e.ok {
		e.c.fail("expression", e.at, fmt.Sprintf(format, a...), e.o.Where)
	}
	e.ok = false
}

func (e *exprWorld) attr(b *Val, f string) *Val {
	v, _ := e.l.fieldT(b, e.baseT, f)
	return v
}

// built decides whether the type is what the expression says; top tells that it is the declared type itself.
func (e *exprWorld) built(t *tree, b *Val, top bool, path string) {
	if b == nil || b.K != KPtr {
		e.wrong("%s is no type", path)
		return
	}
	if was, ok := e.seen[b]; ok {
		e.wrong("%s and %s are the same type", was, path)
		return
	}
	e.seen[b] = path
	for t.rule == "Group" {
		t = t.subs[0]
	}
	sh := e.attr(b, "Shape")
	if sh == nil || sh.K != KIface {
		e.wrong("%s has no concrete type", path)
		return
	}
	kind := ""
	if n, ok := deref(sh.T).(*types.Named); ok {
		kind = n.Obj().Name()
	}
	want, typ := "", ""
	switch t.rule {
	case "Primitive":
		want, typ = primKinds[t.text], t.text
	case "Reference":
		want, typ = "NumberShape", "number"
		if strings.Contains(t.text, "Arr") {
			want, typ = "ArrayShape", "array"
		}
	case "Array":
		want, typ = "ArrayShape", "array"
	case "Optional", "Union":
		want, typ = "UnionShape", "union"
	}
	if kind != want {
		e.wrong("%s is a %s instead of a %s", path, kind, want)
		return
	}
	if v := e.attr(b, "Type"); v == nil || v != vStr(typ) {
		e.wrong("%s has the type name %s instead of %s", path, shortKey(v.key), typ)
	}
	if back, _ := e.l.fieldT(sh.A[0], sh.T, "BaseShape"); back != b {
		e.wrong("%s: the concrete type belongs to another type", path)
	}
	if v := e.attr(b, "Location"); v != e.loc {
		e.wrong("%s has the location %s", path, shortKey(v.key))
	}
	// reference
	alias, inh := e.attr(b, "Alias"), e.attr(b, "Inherits")
	parents, known := e.l.items(inh, e.baseT)
	if !known {
		e.wrong("%s: parents are not decided: %s", path, shortKey(inh.key))
		return
	}
	if t.rule == "Reference" {
		ref := e.refs[t.text]
		if top && e.facets != "none" {
			if len(parents) != 1 || parents[0] != ref || alias.K != KNil {
				e.wrong("%s is not a subtype of %s: alias %s, parents %v", path, t.text, shortKey(alias.key), parents)
			}
		} else if alias != ref || len(parents) != 0 {
			e.wrong("%s is not an alias of %s: alias %s, parents %v", path, t.text, shortKey(alias.key), parents)
		}
		return
	}
	if alias.K != KNil || len(parents) != 0 {
		e.wrong("%s has an alias or parents: alias %s, parents %v", path, shortKey(alias.key), parents)
	}
	switch t.rule {
	case "Array":
		it, _ := e.l.fieldT(sh.A[0], sh.T, "Items")
		e.built(t.subs[0], it, false, path+".items")
	case "Optional", "Union":
		m, _ := e.l.fieldT(sh.A[0], sh.T, "AnyOf")
		ms, known := e.l.items(m, e.baseT)
		wantM := append([]*tree{}, t.subs...)
		if t.rule == "Optional" {
			wantM = append(wantM, prim("nil"))
		}
		if !known || len(ms) != len(wantM) {
			e.wrong("%s has %d members instead of %d: %s", path, len(ms), len(wantM), shortKey(m.key))
			return
		}
		for i := range ms {
			e.built(wantM[i], ms[i], false, fmt.Sprintf("%s.anyOf[%d]", path, i))
		}
	}
}

func (t *tree) names(m map[string]bool) {
	if t.rule == "Reference" {
		m[t.text] = true
	}
	for _, s := range t.subs {
		s.names(m)
	}
}

func (c *Ctx) checkExpressions() {
	visit := c.method("RdtVisitor", "Visit")
	rp := c.P.Prog.ImportedPackage("github.com/acronis/go-raml/v2/rdt")
	if visit == nil || rp == nil {
		c.fail("anchor", "rdt", "the parser of type expressions is not part of the program any more")
		return
	}
	var exprs []*tree
	for _, n := range sortedKeys(primKinds) {
		exprs = append(exprs, prim(n))
	}
	A, B, Arr, X := refT("A"), refT("lib.B"), refT("Arr"), refT("Missing")
	S, I := prim("string"), prim("integer")
	exprs = append(exprs, A, B, Arr, X, group(A), group(S), group(group(A)), opt(A), opt(S), opt(group(A)), arr(A), arr(S), arr(group(B)), arr(X), opt(X),
		union(A, B), union(S, A), union(A, S, I), union(A, A), union(arr(A), opt(S)), union(X, A), union(A, X), union(B, A, Arr, S),
		arr(group(union(A, B))), opt(group(union(S, I))), arr(group(arr(A))), opt(group(arr(B))), arr(group(opt(A))), union(group(union(A, B)), S), union(arr(group(union(A, S))), group(B)), group(union(S, B)))
	for _, facets := range []string{"none", "empty"} {
		for _, t := range exprs {
			c.expression(visit, rp.Pkg, t, facets)
		}
	}
	c.floor("expression", 80)
}

func (c *Ctx) expression(visit *ssa.Function, rp *types.Package, t *tree, facets string) {
	at := t.text + " with facets: " + facets
	used := map[string]bool{}
	t.names(used)
	if d := os.Getenv("DBGE"); d != "" && d != at {
		return
	}
	e := &exprWorld{c: c, at: at, baseT: c.P.PtrTo("BaseShape"), facets: facets, refs: map[string]*Val{}, loc: vStr("/dir/here.raml")}
	w := &treeWorld{c: c, rdt: rp, kids: map[string][]*Val{}, texts: map[string]string{}}
	var target *typeWorld
	asked := map[string]bool{}
	resolved := map[*Val]bool{}
	outs := c.explore(visit, runOpt{recurse: true, budget: 400000, model: func(in *Interp, st *State, k *Call) ([]callOut, bool) {
		if k.Callee != nil {
			switch FuncName(k.Callee) {
			case "(*RAML).GetReferencedType":
				n, ok := k.Args[1].strConst()
				if !ok || k.Args[2] != e.loc {
					c.fail("expression", at, fmt.Sprintf("the name %s is looked up in %s", k.Args[1], k.Args[2]))
					return nil, false
				}
				asked[n] = true
				if e.refs[n] == nil {
					return []callOut{{st: st, ret: []*Val{vNil, nonNil(st.clone(), "global:notfound", types.Universe.Lookup("error").Type())}}}, true
				}
				return []callOut{{st: st, ret: []*Val{e.refs[n], vNil}}}, true
			case "(*RAML).resolveShape":
				resolved[k.Args[1]] = true
				return []callOut{{st: st, ret: []*Val{vNil}}}, true
			case "(*RAML).callHooks", "(*BaseShape).callRAMLHooks":
				return []callOut{{st: st, ret: []*Val{vNil}}}, true
			}
		}
		return w.model(in, st, k)
	}, setup: func(in *Interp, st *State, args []*Val) {
		w.st = st
		g := &graph{c: c, st: st}
		raml := c.newStruct(st, "raml", "RAML", nil)
		for _, n := range []string{"A", "lib.B", "Arr"} {
			kind, typ := "NumberShape", "number"
			if n == "Arr" {
				kind, typ = "ArrayShape", "array"
			}
			b := g.node(kind)
			b.set("Type", vStr(typ))
			b.set("Location", vStr("/dir/other.raml"))
			e.refs[n] = b.base
		}
		target = g.node("UnknownShape")
		target.set("Location", e.loc)
		target.set("raml", raml)
		target.set("Type", vStr(t.text))
		if facets == "empty" {
			target.set("facets", newList(st, "nofacets", target.typeOf("facets")))
		}
		args[0] = c.newStruct(st, "visitor", "RdtVisitor", map[string]*Val{"raml": raml})
		args[1] = w.ctx("Entrypoint", t.text, w.expression(t), w.token(""))
		args[2] = target.shape
	}})
	if w.bad {
		return
	}
	missing := ""
	var names []string
	for n := range used {
		names = append(names, n)
		if e.refs[n] == nil {
			missing = n
		}
	}
	sort.Strings(names)
	n := 0
	for i := range outs {
		o := &outs[i]
		e.o, e.l, e.seen, e.ok = o, c.look(o.St), map[*Val]string{}, true
		if o.Panic != "" {
			c.fail("expression", at, "panics: "+o.Panic, o.Where)
			continue
		}
		n++
		if missing != "" {
			c.holds(o.St.nilness(o.lastErr()) == no, "expression", at, missing+" is not known, but no error is returned", o.Where)
			continue
		}
		if o.St.nilness(o.lastErr()) != yes {
			c.debugState = o.St
			c.holds(false, "expression", at, "is refused: "+shortKey(o.lastErr().key), o.Where)
			continue
		}
		e.built(t, target.base, true, "type")
		sh := e.attr(target.base, "Shape")
		if e.ok && plain(o.Ret[0]) != plain(sh) {
			e.wrong("the result is not the concrete type of the declared type: %s", shortKey(o.Ret[0].key))
		}
		for _, x := range names {
			if !resolved[e.refs[x]] {
				e.wrong("%s is not resolved before it is used", x)
			}
			if !asked[x] {
				e.wrong("%s is not looked up", x)
			}
		}
		if e.ok {
			c.ok("expression", at)
		}
	}
	if n == 0 {
		c.fail("expression", at, "no path returns")
	}
}

func checkC26(c *Ctx) {
	c.checkLookups()
	c.checkAnnotationLookup()
	c.checkExpressions()
}

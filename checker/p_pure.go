package main

import (
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	divide("C10")
	register("C10", "abstract interpretation of validating, checking, converting, cloning and printing on every type of parsed documents (every way to declare a type in every place), unwrapped or not, and comparison of everything that was there before with everything that is there afterwards", checkC10)
}

func checkC10(c *Ctx) {
	c.unchanged("not unwrapped", nil, c.part(8, 0))
	c.unchanged("unwrapped", []string{"OptWithUnwrap"}, c.part(4, 1))
	if c.first() {
		c.readOnly()
	}
	c.floor("read only", 40)
	c.floor("whole document", 100)
	c.floor("check", 100)
	c.floor("validate", 300)
	c.floor("clone", 200)
	c.floor("convert", 100)
	c.floor("look up", 20)
}

// internal are the places that count instances and list the types that were made; nothing that a type says is there.
var internal = regexp.MustCompile(`^[^ ]*\.(idCounter|shapes):? `)

// unchanged runs the operations on the types of documents.
func (c *Ctx) unchanged(mode string, opts []string, pick func(pl docPlace, i, j int) bool) {
	validateAll := c.method("RAML", "ValidateShapes")
	check, validate := c.method("BaseShape", "Check"), c.method("BaseShape", "Validate")
	detached, shallow, str := c.method("BaseShape", "CloneDetached"), c.method("BaseShape", "CloneShallow"), c.method("BaseShape", "String")
	getRef := c.method("RAML", "GetReferencedType")
	schema := c.P.PtrTo("JSONSchema")
	convert := c.instance("JSONSchemaConverter", schema, "Convert")
	if validateAll == nil || check == nil || validate == nil || detached == nil || shallow == nil || str == nil || convert == nil || getRef == nil {
		return
	}
	seen := c.shards > 0 && c.shard != 0
	values := []any{
		map[string]any{"a": []any{"x", 1.0}, "p": map[string]any{"q": nil}}, []any{"x", map[string]any{"a": true}},
	}
	places := append(docPlaces(), docPlace{name: "data type", data: true, make: func(w *docWorld, b any) []any {
		l := w.st.heap[w.body.S][".Content"]
		if k, _ := w.st.heap[w.body.S][".Kind"].intConst(); k != 4 || l == nil {
			return []any{"type", b}
		}
		var r []any
		for i := 0; i+1 < len(l.A); i += 2 {
			k, _ := w.st.heap[l.A[i].A[0].S][".Value"].strConst()
			r = append(r, k, l.A[i+1].A[0])
		}
		return r
	}})
	c.documentsAt(places, opts, pick, func(at string, w *docWorld, o *Outcome, pl docPlace, b docBody) bool {
		at += ", " + mode
		if !o.success() {
			return false
		}
		inst, ok := w.asInstance(o)
		if !ok {
			return false
		}
		roots, err := inst.roots(c.look(o.St))
		if err != nil {
			c.fail("document", at, err.Error(), o.Where)
			return true
		}
		run := func(rule, what string, fn *ssa.Function, from *State, args ...*Val) {
			before := from.snapshot()
			t0 := time.Now()
			outs := c.explore(fn, runOpt{recurse: true, exact: true, depth: 60, budget: 400000, from: from, args: args,
				model: func(in *Interp, st *State, k *Call) ([]callOut, bool) { return w.model(in, st, k) }})
			if os.Getenv("DBGT") != "" {
				fmt.Println("TIME", rule, time.Since(t0).Milliseconds(), len(outs), what+" of "+at)
			}
			c.holds(len(outs) > 0, rule, what+" of "+at, "never returns")
			for i := range outs {
				if outs[i].Panic != "" {
					c.fail(rule, what+" of "+at, "panics: "+outs[i].Panic, outs[i].Where)
					continue
				}
				var ch []string
				for _, x := range before.changed(outs[i].St) {
					if !internal.MatchString(x) && !strings.HasPrefix(x, "converter.") {
						ch = append(ch, x)
					}
				}
				sort.Strings(ch)
				c.holds(len(ch) == 0, rule, what+" of "+at, "changes "+strings.Join(ch, ", "), outs[i].Where)
			}
		}
		run("whole document", "validation", validateAll, o.St, o.Ret[0])
		others := !seen // the types that are the same in all documents
		seen = true
		for _, n := range sortedKeys(roots) {
			t := plain(roots[n])
			if t.K != KPtr || !others && w.same(n) {
				continue
			}
			run("clone", "a copy of "+n, detached, o.St, t)
			run("clone", "a shallow copy of "+n, shallow, o.St, t)
			run("print", "the text of "+n, str, o.St, t)
			if len(opts) == 0 {
				continue
			}
			run("check", "check of "+n, check, o.St, t)
			for i, v := range values {
				st := o.St.clone()
				run("validate", fmt.Sprintf("validation of value %d against %s", i, n), validate, st, t, w.plainData(st, fmt.Sprintf("value%d", i), v))
			}
			if strings.Contains(b.name, "JSON") {
				continue // the schema is not known; C07 decides what becomes of it
			}
			st := o.St.clone()
			conv := newObj(st, "converter", convert.Params[0].Type())
			st.markFresh("converter")
			sh := c.look(st).in.loadPlace(st, t.S, t.S2+".Shape", convert.Params[1].Type())
			run("convert", "conversion of "+n, convert, st, conv, sh)
		}
		for _, f := range inst.files {
			if !others {
				break
			}
			for _, n := range []string{"A", "T", "l.T", "l.Nope"} {
				run("look up", n+" in "+f, getRef, o.St, o.Ret[0], vStr(n), vStr(f))
			}
		}
		return true
	})
}

// same tells that a declared type does not depend on the document.
func (w *docWorld) same(root string) bool {
	k := strings.LastIndex(root, ":Types:")
	return k >= 0 && root[k+7:] != "A"
}

// part picks the documents of the first place and every n-th of the others (all in the thorough tier).
func (c *Ctx) part(n, k int) func(pl docPlace, i, j int) bool {
	if c.Tier == "thorough" {
		return nil
	}
	return func(pl docPlace, i, j int) bool {
		return pl.name == "type" || pl.name == "data type" && j%2 == k%2 || (i+j)%n == k
	}
}

// readOnly decides that the functions by which types are checked and values validated write to nothing that was there
// before, whatever the type and the value.
func (c *Ctx) readOnly() {
	var todo []*ssa.Function
	names := map[string]bool{"validate": true, "check": true, "Validate": true, "Check": true, "String": true, "validateShapeCommons": true, "validateShapeFacets": true,
		"validateExamples": true, "validateObjectShape": true, "GetReferenceType": true, "GetReferenceAnnotationType": true, "GetReferencedType": true, "GetReferencedAnnotationType": true}
	private := map[string]bool{"UnwrapShape": true, "FindAndMarkRecursion": true, "CloneDetached": true, "callHooks": true, "GetYamlError": true}
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && f.Blocks != nil && !seen[f] && c.P.InModule(f) && f.Synthetic == "" && !private[f.Name()] {
			seen[f] = true
			todo = append(todo, f)
		}
	}
	for _, f := range c.P.Funcs {
		if names[f.Name()] && f.Signature.Recv() != nil {
			add(f)
		}
	}
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if k, ok := i.(ssa.CallInstruction); ok {
					add(k.Common().StaticCallee())
				}
			}
		}
		if f.Parent() != nil {
			continue
		}
		outs := c.exploreWide(f, runOpt{boundary: c.boundaryAll()})
		var ms []string
		where := ""
		for i := range outs {
			for _, m := range outs[i].St.muts {
				ms = append(ms, m.Obj+m.Path)
				where = outs[i].Where
			}
		}
		sort.Strings(ms)
		c.holds(len(ms) == 0, "read only", FuncName(f), "writes to "+strings.Join(ms, ", "), where)
	}
}

package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- documents: files with known content, as syntax trees, that the analysed code reads ----

// docFile is a file: its first line and its content.
type docFile struct {
	head string
	root *Val   // YAML content
	text string // any other content
}

// docWorld is a set of files. Every node has a line of its own, so that a line belongs to one file only.
type docWorld struct {
	onErr  func(st *State, k *Call, f *frame) // is told about every error that is made
	c      *Ctx
	st     *State
	raml   *Val
	nodeT  types.Type
	tree   *treeWorld
	files  map[string]*docFile
	lines  map[int64]string // file of a line
	decoys map[string]bool  // files that nothing refers to
	at     string           // file that is being written
	pre    string           // prefix of the names of types
	entry  string
	body   *Val // the declaration of a type that a document of the corpus is about
	n      int64
	done   int64                           // nodes that belong to a file
	refs   map[int64]string                // line of a reference to a file: the reference
	incs   map[int64]string                // line of a reference to a file: the file
	want   map[string]int                  // how often a file has to be opened
	fail   func(k *Call, what string) bool // makes a step fail
	hook   func(in *Interp, st *State, k *Call) ([]callOut, bool)
}

func (c *Ctx) newDocs(st *State) *docWorld {
	w := &docWorld{c: c, st: st, files: map[string]*docFile{}, lines: map[int64]string{}, incs: map[int64]string{}, decoys: map[string]bool{}, refs: map[int64]string{}, want: map[string]int{}}
	if p := c.P.Prog.ImportedPackage("gopkg.in/yaml.v3"); p != nil {
		w.nodeT = types.NewPointer(p.Pkg.Scope().Lookup("Node").Type())
	} else {
		c.fail("anchor", "yaml", "the YAML package is not part of the program any more")
	}
	w.tree = &treeWorld{c: c, st: st, kids: map[string][]*Val{}, texts: map[string]string{}}
	if rp := c.P.Prog.ImportedPackage("github.com/acronis/go-raml/v2/rdt"); rp != nil {
		w.tree.rdt = rp.Pkg
	} else {
		c.fail("anchor", "rdt", "the parser of type expressions is not part of the program any more")
	}
	return w
}

// file starts a new file.
func (w *docWorld) file(p, kind string) {
	w.at = p
	w.files[p] = &docFile{head: "#%RAML 1.0 " + kind}
	if kind == "" {
		w.files[p].head = ""
	}
}

// content sets the content of the current file.
func (w *docWorld) content(root *Val) {
	w.files[w.at].root = root
	// the nodes made since belong to the file, whichever was current when they were made
	for l := w.done + 1; l <= w.n; l++ {
		w.lines[l*10] = w.at
		if s, ok := w.refs[l*10]; ok {
			to := path.Join(path.Dir(w.at), s)
			if w.decoys[w.at] {
				continue
			}
			w.incs[l*10] = to
			w.want[to]++
		}
	}
	w.done = w.n
}

// raw adds a file that is not YAML.
func (w *docWorld) raw(p, text string) { w.files[p] = &docFile{text: text} }

func (w *docWorld) node(kind int64, tag, value string, content ...*Val) *Val {
	w.n++
	line := w.n * 10
	v := newObj(w.st, fmt.Sprintf("node%d", w.n), w.nodeT)
	o := w.st.wobj(v.S)
	o[".Kind"], o[".Tag"], o[".Value"] = vInt(kind), vStr(tag), vStr(value)
	o[".Line"], o[".Column"] = vInt(line), vInt(line+5)
	if len(content) > 0 {
		o[".Content"] = listOf(types.NewSlice(w.nodeT), content...)
	}
	return v
}

// str makes a text; @ stands for the prefix of the names of types.
func (w *docWorld) str(s string) *Val {
	return w.node(8, "!!str", strings.ReplaceAll(s, "@", w.pre))
}

func (w *docWorld) tagged(tag, s string) *Val { return w.node(8, tag, s) }

// include makes a reference to another file.
func (w *docWorld) include(s string) *Val { return w.refers(w.node(8, "!include", s), s) }

// uses makes a reference to a library.
func (w *docWorld) uses(s string) *Val { return w.refers(w.str(s), s) }

func (w *docWorld) refers(n *Val, s string) *Val {
	w.refs[w.n*10] = s
	return n
}
func (w *docWorld) num(n int64) *Val    { return w.node(8, "!!int", strconv.FormatInt(n, 10)) }
func (w *docWorld) yes() *Val           { return w.node(8, "!!bool", "true") }
func (w *docWorld) null() *Val          { return w.node(8, "!!null", "") }
func (w *docWorld) seq(xs ...*Val) *Val { return w.node(2, "!!seq", "", xs...) }

// m makes a mapping of names and nodes.
func (w *docWorld) m(kv ...any) *Val {
	var content []*Val
	for i := 0; i+1 < len(kv); i += 2 {
		k := w.str(kv[i].(string))
		content = append(content, k, w.asNode(kv[i+1]))
	}
	return w.node(4, "!!map", "", content...)
}

// asNode makes a node of a text.
func (w *docWorld) asNode(x any) *Val {
	if s, ok := x.(string); ok {
		return w.str(s)
	}
	return x.(*Val)
}

// line gives the line of a node.
func (w *docWorld) line(st *State, n *Val) int64 {
	v, _ := st.heap[n.S][".Line"].intConst()
	return v
}

// expr reads a type expression.
func exprTree(s string) *tree {
	p := &exprParser{s: strings.ReplaceAll(s, " ", "")}
	t := p.union()
	if t == nil || p.i != len(p.s) {
		return nil
	}
	return t
}

type exprParser struct {
	s string
	i int
}

func (p *exprParser) union() *tree {
	ts := []*tree{p.postfix()}
	for ts[len(ts)-1] != nil && p.i < len(p.s) && p.s[p.i] == '|' {
		p.i++
		ts = append(ts, p.postfix())
	}
	for _, t := range ts {
		if t == nil {
			return nil
		}
	}
	if len(ts) == 1 {
		return ts[0]
	}
	return union(ts...)
}

func (p *exprParser) postfix() *tree {
	var t *tree
	if p.i < len(p.s) && p.s[p.i] == '(' {
		p.i++
		in := p.union()
		if in == nil || p.i >= len(p.s) || p.s[p.i] != ')' {
			return nil
		}
		p.i++
		t = group(in)
	} else {
		j := p.i
		for j < len(p.s) && !strings.ContainsRune("|()[]?", rune(p.s[j])) {
			j++
		}
		if j == p.i {
			return nil
		}
		n := p.s[p.i:j]
		p.i = j
		if primKinds[n] != "" {
			t = prim(n)
		} else {
			t = refT(n)
		}
	}
	for p.i < len(p.s) {
		switch {
		case strings.HasPrefix(p.s[p.i:], "[]"):
			t, p.i = arr(t), p.i+2
		case p.s[p.i] == '?':
			t, p.i = opt(t), p.i+1
		default:
			return t
		}
	}
	return t
}

func (w *docWorld) fileOf(v *Val) (string, *docFile) {
	v = plain(v)
	if v == nil {
		return "", nil
	}
	for _, p := range []string{"file:", "bufio:", "decoder:"} {
		if strings.HasPrefix(v.S, p) {
			return v.S[len(p):], w.files[v.S[len(p):]]
		}
	}
	return "", nil
}

// opens lists the files that were opened on a way through the analysed code.
func (w *docWorld) opens(st *State) map[string]int {
	r := map[string]int{}
	for _, e := range st.events {
		if e.Name == "open" {
			s, _ := e.Args[0].strConst()
			r[s]++
		}
	}
	return r
}

// invoke runs a function of the program from a model.
func (w *docWorld) invoke(in *Interp, st *State, k *Call, fn *ssa.Function, id string, args ...*Val) []callOut {
	var res []callOut
	for _, o := range in.run(fn, args, nil, st.clone(), id, k.Depth+1) {
		p := o.Panic
		if p != "" && !strings.Contains(p, " at ") {
			p += " at " + o.Where
		}
		res = append(res, callOut{st: o.St, ret: o.Ret, pan: p})
	}
	return res
}

// decodeInto decodes a node into the variable that out points to.
func (w *docWorld) decodeInto(in *Interp, st *State, k *Call, n, out *Val, whole bool) ([]callOut, bool) {
	t := in.outTarget(out)
	pt := outType(out)
	if t == nil || pt == nil {
		return nil, false
	}
	et := deref(pt)
	obj, at, ok := objOf(t)
	if !ok {
		return nil, false
	}
	done := func(st *State, v *Val) ([]callOut, bool) {
		if v != nil {
			in.storePlace(st, obj, at, v, et, FuncName(k.Fn))
		}
		return []callOut{{st: st, ret: []*Val{vNil}}}, true
	}
	failed := func() ([]callOut, bool) {
		st := st.clone()
		return []callOut{{st: st, ret: []*Val{nonNil(st, "err:decode "+n.key, types.Universe.Lookup("error").Type())}}}, true
	}
	if kd, _ := st.heap[n.S][".Kind"].intConst(); kd == 16 && !types.Identical(pt, w.nodeT) {
		if to := st.heap[n.S][".Alias"]; to != nil {
			return w.decodeInto(in, st, k, to, out, whole)
		}
	}
	if types.Identical(pt, w.nodeT) {
		st := st.clone()
		for f, v := range st.heap[n.S] {
			if strings.HasPrefix(f, ".") {
				in.storePlace(st, obj, at+f, v, v.T, FuncName(k.Fn))
			}
		}
		if whole {
			// the content is below the node of the document
			in.storePlace(st, obj, at+".Kind", vInt(1), types.Typ[types.Uint32], FuncName(k.Fn))
			in.storePlace(st, obj, at+".Content", listOf(types.NewSlice(w.nodeT), n), types.NewSlice(w.nodeT), FuncName(k.Fn))
		}
		return done(st, nil)
	}
	if fn := in.p.Method(et, "UnmarshalYAML"); fn != nil {
		if tag, _ := st.heap[n.S][".Tag"].strConst(); tag == "!!null" {
			// the method is not asked
			if _, isP := et.Underlying().(*types.Pointer); isP {
				return done(st.clone(), vNil)
			}
			return done(st.clone(), nil)
		}
		v := in.loadPlace(st, obj, at, et)
		if st.nilness(v) != no {
			return nil, false
		}
		return w.invoke(in, st, k, fn, "decode:"+n.key, v, n), true
	}
	o := st.heap[n.S]
	tag, _ := o[".Tag"].strConst()
	text, _ := o[".Value"].strConst()
	kind, _ := o[".Kind"].intConst()
	if _, isI := et.Underlying().(*types.Interface); isI {
		if tag == "!!int" && kind == 8 {
			if _, err := strconv.ParseFloat(text, 64); err != nil {
				return failed()
			}
		}
		st := st.clone()
		return done(st, w.value(st, n))
	}
	dt := et
	ptrs := 0
	for {
		p, ok := dt.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		dt, ptrs = p.Elem(), ptrs+1
	}
	b, isB := dt.Underlying().(*types.Basic)
	if !isB || ptrs > 1 {
		return nil, false
	}
	if kind != 8 {
		return failed()
	}
	var v *Val
	switch {
	case tag == "!!null":
		if ptrs == 1 {
			v = vNil
		}
	case b.Info()&types.IsString != 0:
		v = vStr(text)
	case b.Info()&types.IsBoolean != 0:
		if tag != "!!bool" {
			return failed()
		}
		v = vBool(text == "true")
	case b.Info()&types.IsInteger != 0:
		i, err := strconv.ParseInt(text, 0, 64)
		if err != nil || i < 0 && b.Info()&types.IsUnsigned != 0 {
			return failed()
		}
		v = vInt(i)
	case b.Info()&types.IsFloat != 0:
		if _, err := strconv.ParseFloat(text, 64); err != nil {
			return failed()
		}
		v = vFloat(text)
	default:
		return nil, false
	}
	st = st.clone()
	if v != nil && ptrs == 1 && v != vNil {
		name := "decoded:" + n.S
		newObj(st, name, et)
		st.store(name, "", v, dt)
		v = vPtr(name, "", et)
	}
	return done(st, v)
}

// value is the value of a node as plain data.
func (w *docWorld) value(st *State, n *Val) *Val {
	o := st.heap[n.S]
	tag, _ := o[".Tag"].strConst()
	text, _ := o[".Value"].strConst()
	switch tag {
	case "!!str":
		return vIface(types.Typ[types.String], vStr(text))
	case "!!int":
		i, err := strconv.ParseInt(text, 0, 64)
		if err != nil {
			return vIface(types.Typ[types.Float64], vFloat(text))
		}
		return vIface(types.Typ[types.Int], vInt(i))
	case "!!float":
		return vIface(types.Typ[types.Float64], vFloat(text))
	case "!!bool":
		return vIface(types.Typ[types.Bool], vBool(text == "true"))
	case "!!null":
		return vNil
	}
	if k, _ := o[".Kind"].intConst(); k == 8 {
		// other tags do not change what the text is
		return vIface(types.Typ[types.String], vStr(text))
	}
	return vSym("data:"+n.key, nil)
}

// plainData gives data that was read from JSON.
func (w *docWorld) plainData(st *State, name string, x any) *Val {
	anyT := types.NewInterfaceType(nil, nil)
	switch x := x.(type) {
	case string:
		return vIface(types.Typ[types.String], vStr(x))
	case bool:
		return vIface(types.Typ[types.Bool], vBool(x))
	case float64:
		return vIface(types.Typ[types.Float64], vFloat(strconv.FormatFloat(x, 'g', -1, 64)))
	case []any:
		var l []*Val
		for i, e := range x {
			l = append(l, w.plainData(st, fmt.Sprintf("%s/%d", name, i), e))
		}
		t := types.NewSlice(anyT)
		return vIface(t, listOf(t, l...))
	case map[string]any:
		var l []*Val
		for _, k := range sortedKeys(x) {
			l = append(l, vStr(k), w.plainData(st, name+"/"+k, x[k]))
		}
		t := types.NewMap(types.Typ[types.String], anyT)
		return vIface(t, newMap(st, name, t, l...))
	}
	return vNil
}

func (w *docWorld) model(in *Interp, st *State, k *Call) ([]callOut, bool) {
	ret := func(v ...*Val) ([]callOut, bool) { return []callOut{{st: st, ret: v}}, true }
	if os.Getenv("DBGC") != "" {
		fmt.Println(strings.Repeat(" ", k.Depth), k.Name, argKeys(k.Args))
	}
	if w.hook != nil {
		if o, ok := w.hook(in, st, k); ok {
			return o, true
		}
	}
	if o, ok := noHooks(in, st, k); ok {
		return o, true
	}
	name := ""
	switch {
	case k.Callee != nil && in.p.InModule(k.Callee):
		name = FuncName(k.Callee)
	case k.Callee != nil:
		name = extName(k.Callee)
	case k.Method != nil:
		name = k.Method.Name()
	}
	resT := func(i int) types.Type { return k.Sig.Results().At(i).Type() }
	errT := types.Universe.Lookup("error").Type()
	failed := func(what string, n int) ([]callOut, bool) {
		st := st.clone()
		var r []*Val
		for i := 0; i < n-1; i++ {
			r = append(r, zeroVal(resT(i)))
		}
		return []callOut{{st: st, ret: append(r, nonNil(st, "err:"+what, errT))}}, true
	}
	fails := func(what string) bool { return w.fail != nil && w.fail(k, what) }
	a := k.Args
	switch name {
	case "path/filepath.Abs", "filepath.Abs":
		if s, ok := a[0].strConst(); ok {
			if !strings.HasPrefix(s, "/") {
				s = "/cwd/" + s
			}
			p, _ := foldText("filepath.Clean", []*Val{vStr(s)}, k)
			return ret(p[0], vNil)
		}
	case "os.OpenFile", "os.Open":
		s, ok := a[0].strConst()
		if !ok {
			in.giveUp("a file with an unknown name is opened: %s", shortKey(a[0].key))
			return nil, true
		}
		st = st.clone()
		n := 0
		for _, e := range st.events {
			if e.Name == "open" {
				n++
			}
		}
		st.addEvent(&Event{Name: "open", Args: []*Val{vStr(s)}, key: fmt.Sprintf("open %s #%d", s, n)})
		if w.files[s] == nil || fails("open "+s) {
			return failed("open "+s, 2)
		}
		return ret(nonNil(st, "file:"+s, resT(0)), vNil)
	case "os.File.Name":
		if p, f := w.fileOf(a[0]); f != nil {
			return ret(vStr(p))
		}
	case "os.File.Close", "io.Closer.Close", "Close":
		if p, f := w.fileOf(a[0]); f != nil {
			if fails("close " + p) {
				return failed("close "+p, 1)
			}
			return ret(vNil)
		}
	case "os.File.Seek", "strings.Reader.Seek", "Seek":
		if p, f := w.fileOf(a[0]); f != nil {
			if fails("seek " + p) {
				return failed("seek "+p, 2)
			}
			return ret(vInt(0), vNil)
		}
	case "strings.NewReader":
		if s, ok := a[0].strConst(); ok && w.files[s] != nil {
			st = st.clone()
			return ret(nonNil(st, "file:"+s, resT(0)))
		}
	case "bufio.NewReader", "bufio.NewReaderSize":
		if p, f := w.fileOf(a[0]); f != nil {
			st = st.clone()
			return ret(nonNil(st, "bufio:"+p, resT(0)))
		}
	case "bufio.Reader.ReadString":
		if p, f := w.fileOf(a[0]); f != nil {
			if f.root == nil || fails("read "+p) {
				return failed("read "+p, 2)
			}
			return ret(vStr(f.head+"\n"), vNil)
		}
	case "yaml.NewDecoder", "json.NewDecoder", "encoding/json.NewDecoder":
		if p, f := w.fileOf(a[0]); f != nil {
			st = st.clone()
			return ret(nonNil(st, "decoder:"+p, resT(0)))
		}
	case "yaml.Decoder.Decode", "json.Decoder.Decode":
		p, f := w.fileOf(a[0])
		if f == nil {
			break
		}
		if fails("decode " + p) {
			return failed("decode "+p, 1)
		}
		if f.root == nil {
			if strings.HasPrefix(name, "yaml") {
				return failed("decode "+p, 1)
			}
			t := in.outTarget(a[1])
			obj, at, ok := objOf(t)
			if t == nil || !ok {
				break
			}
			if !json.Valid([]byte(f.text)) {
				return failed("decode "+p, 1)
			}
			st = st.clone()
			et := deref(outType(a[1]))
			v := vSym("json:"+p, et)
			if _, isI := et.Underlying().(*types.Interface); isI {
				var x any
				_ = json.Unmarshal([]byte(f.text), &x)
				v = w.plainData(st, fmt.Sprintf("data%d", len(st.heap)), x)
			}
			in.storePlace(st, obj, at, v, et, FuncName(k.Fn))
			return ret(vNil)
		}
		if out, ok := w.decodeInto(in, st, k, f.root, a[1], true); ok {
			return out, true
		}
	case "yaml.Node.Decode":
		n := plain(a[0])
		if n.K == KPtr && st.heap[n.S] != nil && st.heap[n.S][".Kind"] != nil {
			if fails("decode " + n.key) {
				return failed("decode "+n.key, 1)
			}
			if out, ok := w.decodeInto(in, st, k, n, a[1], false); ok {
				return out, true
			}
		}
	case "json.Unmarshal":
		if fails("unmarshal") {
			return failed("unmarshal", 1)
		}
		if s, ok := textOf(a[0]); ok && !json.Valid([]byte(s)) {
			return failed("unmarshal", 1)
		}
		t := in.outTarget(a[1])
		obj, at, ok := objOf(t)
		if t == nil || !ok {
			break
		}
		st = st.clone()
		et := deref(outType(a[1]))
		if s, ok := textOf(a[0]); ok {
			if _, isI := et.Underlying().(*types.Interface); isI {
				var x any
				_ = json.Unmarshal([]byte(s), &x)
				in.storePlace(st, obj, at, w.plainData(st, fmt.Sprintf("data%d", len(st.heap)), x), et, FuncName(k.Fn))
				return ret(vNil)
			}
		}
		v := vSym("json:"+a[0].key, et)
		if _, isP := et.Underlying().(*types.Pointer); isP {
			st.assumeNil(v, false)
		}
		in.storePlace(st, obj, at, v, et, FuncName(k.Fn))
		return ret(vNil)
	case "io.ReadAll":
		if p, f := w.fileOf(a[0]); f != nil {
			if fails("read " + p) {
				return failed("read "+p, 2)
			}
			return ret(mk(Val{K: KApp, S: "bytes", T: resT(0), A: []*Val{vStr(f.text)}}), vNil)
		}
	case "regexp.Compile":
		if s, ok := a[0].strConst(); ok {
			if _, err := regexp.Compile(s); err != nil {
				return failed("compile "+s, 2)
			}
			st = st.clone()
			return ret(nonNil(st, "regexp:"+s, resT(0)), vNil)
		}
	// lists of types to be resolved
	case "list.List.PushBack", "list.List.Len", "list.List.Front", "list.List.Remove", "list.Element.Next", "list.List.PushFront":
		if o, ok := w.listOp(in, st, k, name); ok {
			return o, true
		}
	// type expressions
	case "antlr.NewInputStream":
		if s, ok := a[0].strConst(); ok {
			st = st.clone()
			return ret(nonNil(st, "antlr:"+s, resT(0)))
		}
	case "rdt.NewrdtLexer", "antlr.NewCommonTokenStream", "rdt.NewrdtParser":
		x := plain(a[0])
		if i := strings.Index(x.S, "antlr:"); i >= 0 {
			st = st.clone()
			return ret(nonNil(st, name+" antlr:"+x.S[i+6:], resT(0)))
		}
	case "antlr.NewLexerErrorListener":
	}
	if k.Callee != nil {
		switch k.Callee.Name() {
		case "NewrdtLexer", "NewCommonTokenStream", "NewrdtParser":
			x := plain(a[0])
			if i := strings.Index(x.S, "antlr:"); i >= 0 {
				st = st.clone()
				return ret(nonNil(st, k.Callee.Name()+" antlr:"+x.S[i+6:], resT(0)))
			}
		case "RemoveErrorListeners":
			return ret()
		case "AddErrorListener":
			st = st.clone()
			st.addEvent(&Event{Name: "listener", Args: []*Val{a[0], a[1]}, key: fmt.Sprintf("listener %d", len(st.events))})
			return []callOut{{st: st}}, true
		case "Entrypoint":
			x := plain(a[0])
			if i := strings.Index(x.S, "antlr:"); i >= 0 {
				t := exprTree(x.S[i+6:])
				if t == nil {
					return w.syntaxError(in, st, k, x)
				}
				st = st.clone()
				w.tree.st = st
				v := w.tree.ctx("Entrypoint", t.text, w.tree.expression(t), w.tree.token(""))
				return []callOut{{st: st, ret: []*Val{v}}}, true
			}
		}
	}
	return w.tree.model(in, st, k)
}

// textOf gives the text that was converted to bytes.
func textOf(v *Val) (string, bool) {
	for v != nil {
		if s, ok := v.strConst(); ok {
			return s, true
		}
		if len(v.A) != 1 {
			return "", false
		}
		v = v.A[0]
	}
	return "", false
}

// syntaxError reports an error to the listeners of the parser and its lexer.
func (w *docWorld) syntaxError(in *Interp, st *State, k *Call, parser *Val) ([]callOut, bool) {
	text := parser.S[strings.Index(parser.S, "antlr:"):]
	outs := []callOut{{st: st.clone()}}
	heard := false
	for i := len(st.events) - 1; i >= 0; i-- {
		e := st.events[i]
		if e.Name != "listener" || !strings.Contains(e.Args[0].key, text) {
			continue
		}
		l := e.Args[1]
		if l.K == KIface && len(l.A) > 0 {
			l = l.A[0]
		}
		fn := in.p.Method(l.T, "SyntaxError")
		if fn == nil {
			continue
		}
		heard = true
		var next []callOut
		for _, o := range outs {
			args := []*Val{l}
			for _, p := range fn.Params[1:] {
				args = append(args, vSym("syntax:"+p.Name()+text, p.Type()))
			}
			next = append(next, w.invoke(in, o.st, k, fn, fmt.Sprintf("syntax%d:%s", len(next), text), args...)...)
		}
		outs = next
		break
	}
	if !heard {
		in.giveUp("nothing listens to errors in type expressions")
		return nil, true
	}
	for i := range outs {
		if outs[i].pan == "" {
			outs[i].ret = []*Val{nonNil(outs[i].st, "broken "+text, k.Sig.Results().At(0).Type())}
		}
	}
	return outs, true
}

// listOp gives the operations of lists that are known.
func (w *docWorld) listOp(in *Interp, st *State, k *Call, name string) ([]callOut, bool) {
	ret := func(v ...*Val) ([]callOut, bool) { return []callOut{{st: st, ret: v}}, true }
	obj, path, ok := objOf(k.Args[0])
	if !ok || !st.isFresh(obj) {
		return nil, false
	}
	if name == "list.Element.Next" {
		obj, path = splitPlace(st.heap[obj]["$list"])
	}
	at := path + "$items"
	var items []*Val
	if l := st.heap[obj][at]; l != nil {
		items = append(items, l.A...)
	}
	keep := func() { st.wobj(obj)[at] = mk(Val{K: KSlice, A: items}) }
	switch name {
	case "list.List.Len":
		return ret(vInt(int64(len(items))))
	case "list.List.Front":
		if len(items) == 0 {
			return ret(vNil)
		}
		return ret(items[0])
	case "list.List.PushBack", "list.List.PushFront":
		st = st.clone()
		n := int64(0)
		if x := st.heap[obj][path+"$made"]; x != nil {
			n, _ = x.intConst()
		}
		st.wobj(obj)[path+"$made"] = vInt(n + 1)
		e := newObj(st, fmt.Sprintf("element%d of %s%s", n, obj, path), k.Sig.Results().At(0).Type())
		st.store(e.S, ".Value", k.Args[1], k.Args[1].T)
		st.wobj(e.S)["$list"] = vPtr(obj, path, nil)
		if name == "list.List.PushBack" {
			items = append(items, e)
		} else {
			items = append([]*Val{e}, items...)
		}
		keep()
		return ret(e)
	case "list.List.Remove":
		st = st.clone()
		for i, e := range items {
			if e == plain(k.Args[1]) {
				items = append(items[:i:i], items[i+1:]...)
				keep()
				break
			}
		}
		v := st.heap[plain(k.Args[1]).S][".Value"]
		if v == nil {
			v = vNil
		}
		return ret(v)
	case "list.Element.Next":
		for i, e := range items {
			if e == plain(k.Args[0]) && i+1 < len(items) {
				return ret(items[i+1])
			}
		}
		return ret(vNil)
	}
	return nil, false
}

func splitPlace(v *Val) (string, string) {
	if v == nil {
		return "", ""
	}
	return v.S, v.S2
}

package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Kind is the kind of an abstract value.
type Kind uint8

const (
	KConst  Kind = iota // S: "n:5", "s:text", "b:true", "f:1.5"
	KNil                // nil of any kind
	KSym                // unknown value named by its access path S
	KApp                // uninterpreted operation S over A
	KPtr                // address: object S, path S2
	KStruct             // struct value, fields A in order, type T
	KIface              // interface holding A[0] of dynamic type T
	KTuple              // multiple results A
	KFunc               // function Fn with bindings A
	KIdx                // position of loop S over collection A[0]: class S2, offset N
	KPair               // cursor into ordered collection A[0]: class S, phase S2
	KIter               // map iterator over A[0]: phase S2
	KSlice              // immutable list of parts A (each KPart)
	KPart               // A[0] value, S: "one", "many", "spread"
	KErr                // non-nil error: S message, A causes, attributes in M
)

// Val is an immutable, interned abstract value.
type Val struct {
	K     Kind
	S, S2 string
	N     int64
	A     []*Val
	T     types.Type
	Fn    *ssa.Function
	O     *Val // for a concrete view of an interface symbol: the interface value
	M     []*Val
	key   string
	id    int
}

func (v *Val) String() string { return v.key }

var interned = map[string]*Val{}

func mk(v Val) *Val {
	var b strings.Builder
	switch v.K {
	case KConst:
		b.WriteString(v.S)
	case KNil:
		b.WriteString("nil")
	case KSym:
		b.WriteString(v.S)
	case KApp:
		b.WriteString(v.S)
		b.WriteByte('(')
		writeArgs(&b, v.A)
		b.WriteByte(')')
	case KPtr:
		b.WriteByte('&')
		b.WriteString(v.S)
		b.WriteString(v.S2)
	case KStruct:
		b.WriteString(typeShort(v.T))
		b.WriteByte('{')
		writeArgs(&b, v.A)
		b.WriteByte('}')
	case KIface:
		b.WriteString("iface<")
		b.WriteString(typeShort(v.T))
		b.WriteString(">(")
		writeArgs(&b, v.A)
		b.WriteByte(')')
	case KTuple:
		b.WriteString("(")
		writeArgs(&b, v.A)
		b.WriteByte(')')
	case KFunc:
		b.WriteString("func:")
		b.WriteString(v.Fn.String())
		b.WriteByte('[')
		writeArgs(&b, v.A)
		b.WriteByte(']')
	case KIdx:
		b.WriteString("idx<" + v.S + ">" + v.A[0].key + ":" + v.S2 + strconv.FormatInt(v.N, 10))
	case KPair:
		b.WriteString("pair<" + v.A[0].key + ":" + v.S + ":" + v.S2 + ">")
	case KIter:
		b.WriteString("iter<" + v.A[0].key + ":" + v.S + ">")
	case KSlice:
		b.WriteString("list")
		if v.S != "" || len(v.M) > 0 {
			b.WriteString("<" + v.S + ":")
			writeArgs(&b, v.M)
			b.WriteString(">")
		}
		b.WriteString("[")
		writeArgs(&b, v.A)
		b.WriteByte(']')
	case KPart:
		switch v.S {
		case "many":
			b.WriteByte('*')
		case "spread":
			b.WriteString("...")
		default:
			b.WriteByte('=')
		}
		b.WriteString(v.A[0].key)
	case KErr:
		b.WriteString("err<" + v.S + ">(")
		writeArgs(&b, v.A)
		b.WriteByte(')')
		if len(v.M) > 0 {
			b.WriteByte('@')
			writeArgs(&b, v.M)
		}
	}
	k := b.String()
	if x, ok := interned[k]; ok {
		if x.T == nil && v.T != nil && x.K == KSym {
			x.T = v.T
		}
		return x
	}
	v.key = k
	v.id = len(interned)
	p := &v
	interned[k] = p
	return p
}

func writeArgs(b *strings.Builder, a []*Val) {
	for i, x := range a {
		if i > 0 {
			b.WriteByte(',')
		}
		if x == nil {
			b.WriteByte('_')
			continue
		}
		b.WriteString(x.key)
	}
}

func typeShort(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string {
		if strings.HasSuffix(p.Path(), "go-raml/v2") {
			return ""
		}
		return p.Name()
	})
}

var (
	vNil   = mk(Val{K: KNil})
	vTrue  = mk(Val{K: KConst, S: "b:true"})
	vFalse = mk(Val{K: KConst, S: "b:false"})
)

func vBool(b bool) *Val {
	if b {
		return vTrue
	}
	return vFalse
}
func vInt(n int64) *Val    { return mk(Val{K: KConst, S: "n:" + strconv.FormatInt(n, 10)}) }
func vStr(s string) *Val   { return mk(Val{K: KConst, S: "s:" + s}) }
func vFloat(s string) *Val { return mk(Val{K: KConst, S: "f:" + s}) }
func vSym(name string, t types.Type) *Val {
	return mk(Val{K: KSym, S: name, T: t})
}
func vApp(op string, args ...*Val) *Val { return mk(Val{K: KApp, S: op, A: args}) }
func vAppT(t types.Type, op string, args ...*Val) *Val {
	return mk(Val{K: KApp, S: op, A: args, T: t})
}
func vPtr(obj, path string, t types.Type) *Val {
	return mk(Val{K: KPtr, S: obj, S2: path, T: t})
}
func vTuple(a ...*Val) *Val { return mk(Val{K: KTuple, A: a}) }
func vIface(t types.Type, v *Val) *Val {
	return mk(Val{K: KIface, T: t, A: []*Val{v}})
}
func vPart(kind string, v *Val) *Val { return mk(Val{K: KPart, S: kind, A: []*Val{v}}) }

func (v *Val) isConst() bool { return v.K == KConst }
func (v *Val) intConst() (int64, bool) {
	if v != nil && v.K == KConst && strings.HasPrefix(v.S, "n:") {
		n, err := strconv.ParseInt(v.S[2:], 10, 64)
		return n, err == nil
	}
	return 0, false
}
func (v *Val) strConst() (string, bool) {
	if v != nil && v.K == KConst && strings.HasPrefix(v.S, "s:") {
		return v.S[2:], true
	}
	return "", false
}
func (v *Val) boolConst() (bool, bool) {
	switch v {
	case vTrue:
		return true, true
	case vFalse:
		return false, true
	}
	return false, false
}

// isApp tells whether the value is the application of the operation.
func (v *Val) isApp(op string) bool { return v != nil && v.K == KApp && v.S == op }

// objOf names the object a pointer, slice, map or ordered map value designates.
func objOf(v *Val) (obj, path string, ok bool) {
	switch v.K {
	case KPtr:
		return v.S, v.S2, true
	case KSym, KApp, KErr:
		return v.key, "", true
	case KPair:
		return v.key, "", true
	}
	return "", "", false
}

// sub replaces all occurrences of values by f (bottom up).
func (v *Val) rewrite(f func(*Val) *Val) *Val {
	if v == nil {
		return nil
	}
	changed := false
	re := func(in []*Val) []*Val {
		if len(in) == 0 {
			return in
		}
		out := make([]*Val, len(in))
		for i, a := range in {
			out[i] = a.rewrite(f)
			if out[i] != a {
				changed = true
			}
		}
		return out
	}
	a, m := re(v.A), re(v.M)
	r := v
	if changed {
		n := *v
		n.A, n.M = a, m
		r = mk(Val{K: n.K, S: n.S, S2: n.S2, N: n.N, A: a, M: m, T: n.T, Fn: n.Fn, O: n.O})
	}
	return f(r)
}

func (v *Val) contains(f func(*Val) bool) bool {
	if v == nil {
		return false
	}
	if f(v) {
		return true
	}
	for _, a := range v.A {
		if a.contains(f) {
			return true
		}
	}
	for _, a := range v.M {
		if a.contains(f) {
			return true
		}
	}
	return false
}

func sortVals(a []*Val) []*Val {
	sort.SliceStable(a, func(i, j int) bool { return a[i].key < a[j].key })
	return a
}

func dedupVals(a []*Val) []*Val {
	seen := map[*Val]bool{}
	var out []*Val
	for _, x := range a {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

// --- types ---

func deref(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// expandable tells whether values of the struct type are analysed field by field.
func expandable(t types.Type) *types.Struct {
	s := structOf(t)
	if s == nil {
		return nil
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		p := n.Obj().Pkg().Path()
		switch {
		case strings.HasSuffix(p, "go-raml/v2"):
			return s
		case strings.HasSuffix(p, "go-stacktrace") && n.Obj().Name() == "Position":
			return s
		case p == "gopkg.in/yaml.v3" && n.Obj().Name() == "Node":
			return s
		}
		return nil
	}
	return s // anonymous struct
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

func isStacktracePtr(t types.Type) bool {
	if t == nil {
		return false
	}
	e := deref(t)
	if e == nil {
		return false
	}
	n, ok := types.Unalias(e).(*types.Named)
	return ok && n.Obj().Name() == "StackTrace"
}

func zeroVal(t types.Type) *Val {
	if t == nil {
		return vNil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return vFalse
		case u.Info()&types.IsString != 0:
			return vStr("")
		case u.Info()&types.IsFloat != 0:
			return vFloat("0")
		case u.Info()&types.IsNumeric != 0:
			return vInt(0)
		}
		return vNil
	case *types.Struct:
		if s := expandable(t); s != nil {
			a := make([]*Val, s.NumFields())
			for i := range a {
				a[i] = zeroVal(s.Field(i).Type())
			}
			return mk(Val{K: KStruct, T: t, A: a})
		}
		return vAppT(t, "zero:"+typeShort(t))
	case *types.Array:
		return vAppT(t, "zero:"+typeShort(t))
	}
	return vNil
}

func isNumeric(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func must(ok bool, f string, a ...any) {
	if !ok {
		panic(fmt.Sprintf(f, a...))
	}
}

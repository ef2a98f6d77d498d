package main

import (
	"go/types"
	"strings"
)

// ---- formulas over the final state of a path ----

// form is a propositional formula over what a path knows; a path implies it if every completion of the path's
// facts with its undecided atoms makes it true.
type form struct {
	op   string // "atom", "fn", "and", "or", "not"
	kids []form
	atom *Val
	fn   func(*State) int
}

func fAtom(v *Val) form            { return form{op: "atom", atom: v} }
func fNil(v *Val) form             { return fAtom(vApp("nil", v)) }
func fNot(f form) form             { return form{op: "not", kids: []form{f}} }
func fAnd(k ...form) form          { return form{op: "and", kids: k} }
func fOr(k ...form) form           { return form{op: "or", kids: k} }
func fImp(a, b form) form          { return fOr(fNot(a), b) }
func fFn(fn func(*State) int) form { return form{op: "fn", fn: fn} }
func fConst(b bool) form           { return fFn(func(*State) int { return b2i(b) }) }
func fIs(v *Val, ts ...types.Type) form {
	var k []form
	for _, t := range ts {
		if t == nil {
			k = append(k, fNil(v))
		} else {
			k = append(k, fAtom(vIs(v, t)))
		}
	}
	return fOr(k...)
}

func (f form) eval(s *State) int {
	switch f.op {
	case "atom":
		return s.query(f.atom)
	case "fn":
		return f.fn(s)
	case "not":
		if r := f.kids[0].eval(s); r != unknown {
			return 1 - r
		}
		return unknown
	case "and":
		r := yes
		for _, k := range f.kids {
			switch k.eval(s) {
			case no:
				return no
			case unknown:
				r = unknown
			}
		}
		return r
	case "or":
		r := no
		for _, k := range f.kids {
			switch k.eval(s) {
			case yes:
				return yes
			case unknown:
				r = unknown
			}
		}
		return r
	}
	return unknown
}

// undecided finds an atom of the formula that the state leaves open.
func (f form) undecided(s *State) *Val {
	switch f.op {
	case "atom":
		if s.query(f.atom) == unknown {
			return f.atom
		}
	case "fn":
	default:
		for _, k := range f.kids {
			if k.eval(s) == unknown {
				if a := k.undecided(s); a != nil {
					return a
				}
			}
		}
	}
	return nil
}

// implies decides whether the state implies the formula, by cases on its open atoms.
func (s *State) implies(f form) bool { return s.impliesN(f, 14) }

func (s *State) impliesN(f form, n int) bool {
	switch f.eval(s) {
	case yes:
		return true
	case no:
		return false
	}
	a := f.undecided(s)
	if a == nil || n == 0 {
		return false
	}
	for _, truth := range []bool{true, false} {
		x := s.clone()
		if x.assume(a, truth) && !x.impliesN(f, n-1) {
			return false
		}
	}
	return true
}

// ---- naming places ----

type look struct {
	c  *Ctx
	in *Interp
	st *State
}

func (c *Ctx) look(st *State) look { return look{c, NewInterp(c.P), st} }

// field is the value of a (promoted) field of what the pointer points to, as it is in the state.
func (l look) field(ptr *Val, t types.Type, name string) *Val {
	v, _ := l.fieldT(ptr, t, name)
	return v
}

func (l look) fieldT(ptr *Val, t types.Type, name string) (*Val, types.Type) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	obj, idx, _ := types.LookupFieldOrMethod(t, true, l.c.P.Pkg.Pkg, name)
	if obj == nil {
		return nil, nil
	}
	o, p, ok := objOf(ptr)
	if !ok {
		o, p = ptr.key, ""
	}
	cur := t
	for n, i := range idx {
		if pt, ok := cur.Underlying().(*types.Pointer); ok {
			v := l.in.loadPlace(l.st, o, p, cur)
			o, p, ok = objOf(v)
			if !ok {
				o, p = v.key, ""
			}
			cur = pt.Elem()
		}
		st, ok := cur.Underlying().(*types.Struct)
		if !ok {
			return nil, nil
		}
		f := st.Field(i)
		p += "." + f.Name()
		cur = f.Type()
		_ = n
	}
	return l.in.loadPlace(l.st, o, p, cur), cur
}

// deref is what the pointer points to.
func (l look) deref(ptr *Val, t types.Type) *Val {
	o, p, ok := objOf(ptr)
	if !ok {
		o, p = ptr.key, ""
	}
	return l.in.loadPlace(l.st, o, p, t)
}

// elem is an element of a list or the value of an entry of a map, by its class.
func (l look) elem(coll *Val, class string, t types.Type) *Val {
	o, p, ok := objOf(coll)
	if !ok {
		o, p = coll.key, ""
	}
	return l.in.loadPlace(l.st, o, p+"["+class+"]", t)
}

func keyOf(coll *Val, class string) *Val {
	o, p, ok := objOf(coll)
	if !ok {
		o, p = coll.key, ""
	}
	return vSym(o+p+".key["+class+"]", types.Typ[types.String])
}

// fieldVal selects a field of a struct or of what a pointer points to.
func (l look) sub(v *Val, t types.Type, names ...string) (*Val, types.Type) {
	for _, n := range names {
		if v == nil {
			return nil, nil
		}
		if _, ok := t.Underlying().(*types.Pointer); ok {
			v, t = l.fieldT(v, t, n)
			continue
		}
		st := structOf(t)
		if st == nil {
			return nil, nil
		}
		found := false
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				v, t, found = fieldOf(v, t, i), st.Field(i).Type(), true
				break
			}
		}
		if !found {
			return nil, nil
		}
	}
	return v, t
}

// fSome is true if any of the atoms is known to be true, false if any is known to be false.
func fSome(atoms ...*Val) form {
	return fFn(func(s *State) int {
		r := unknown
		for _, a := range atoms {
			switch s.query(a) {
			case yes:
				return yes
			case no:
				r = no
			}
		}
		return r
	})
}

// known tells whether a fact, or one kept about some other element, has the truth value.
func (s *State) known(a *Val, truth bool) bool {
	if q := s.query(a); q != unknown {
		return (q == yes) == truth
	}
	return s.f.Ex[fact{a, truth}]
}

// some tells whether some element that was left behind satisfied all the tests together.
func (s *State) some(tests ...func(*Val) bool) int {
next:
	for _, j := range s.joints {
		for _, t := range tests {
			found := false
			for _, a := range j.v.A {
				if t(a) {
					found = true
				}
			}
			if !found {
				continue next
			}
		}
		return yes
	}
	return unknown
}

// events of the path

func (o *Outcome) call(match func(*Event) bool) *Event {
	for _, e := range o.St.events {
		if match(e) {
			return e
		}
	}
	return nil
}

// named tells whether the event is a call of the method or function.
func (e *Event) named(n string) bool { return e.Name == n || strings.HasSuffix(e.Name, "."+n) }

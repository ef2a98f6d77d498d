package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	divide("C22")
	register("C22", "abstract interpretation of the whole pipeline on documents with odd nodes and failing steps: the file and position given to every error that is made, and the causes of every error that is returned", checkC22)
}

func checkC22(c *Ctx) {
	c.newErrs = true
	look := func(w *docWorld, at string, located map[*Val]bool) {
		w.onErr = func(st *State, k *Call, f *frame) { c.errorMade(w, at, located, st, k, f) }
	}
	located := map[*Val]bool{}
	c.broken([]string{"OptWithUnwrap", "OptWithValidate"}, nil, func(at string, w *docWorld, o *Outcome) bool {
		c.errorsLocated(at, o, located)
		return true
	}, func(w *docWorld) {
		for k := range located {
			delete(located, k)
		}
		look(w, "", located)
	})
	hit := map[string]bool{}
	c.wrong([]string{"OptWithUnwrap", "OptWithValidate"}, func(w *docWorld) {
		for k := range located {
			delete(located, k)
		}
		for k := range hit {
			delete(hit, k)
		}
		w.onErr = func(st *State, k *Call, f *frame) {
			file, line := c.errorMade(w, "", located, st, k, f)
			hit[fmt.Sprintf("%s %d", file, line)] = true
		}
	}, func(at string, w *docWorld, o *Outcome, file string, lines map[int64]bool, may bool) bool {
		c.errorsLocated(at, o, located)
		if may && o.success() {
			return true
		}
		if !c.holds(!o.success(), "reported", at, "no error is returned", o.Where) {
			return true
		}
		found := false
		for l := range lines {
			found = found || hit[fmt.Sprintf("%s %d", file, l)]
		}
		c.holds(found, "reported", at, "no error has the position of the declaration that is wrong", o.Where)
		return true
	})
	c.floor("position", 500)
	c.floor("reported", 500)
	c.floor("file", 500)
	c.floor("located", 500)
}

// errorMade checks the file and the position that an error is given.
func (c *Ctx) errorMade(w *docWorld, at string, located map[*Val]bool, st *State, k *Call, f *frame) (string, int64) {
	l := k.Args[len(k.Args)-1]
	var loc, pos *Val
	for _, p := range l.A {
		if p.S != "one" {
			continue
		}
		x := p.A[0]
		switch {
		case x.isApp("opt:loc"):
			loc = x.A[0]
		case x.isApp("opt:pos"):
			pos = x.A[0]
		case x.K == KIface && len(x.A) == 1 && x.A[0].K == KStruct:
			for _, v := range x.A[0].A {
				if v.K == KPtr {
					pos = v
				}
			}
		}
	}
	who := madeIn(f.id)
	if m, ok := k.Args[0].strConst(); ok {
		who += ": " + m
	}
	file := ""
	if loc != nil {
		file, _ = loc.strConst()
	}
	if !c.holds(file != "", "file", who, "an error without a file: "+shortKey(l.key), f.id) {
		return "", 0
	}
	c.holds(w.files[file] != nil || opened(st, file), "file", who, "an error of a file that is not read: "+file, f.id)
	if len(k.Args) > 2 {
		for e := range causesOf(k.Args[1]) {
			located[e] = true
		}
	}
	if pos == nil || pos.K != KPtr {
		return "", 0
	}
	line, ok := c.look(st).in.loadPlace(st, pos.S, pos.S2+".Line", types.Typ[types.Int]).intConst()
	if !ok || line <= 1 {
		return file, line
	}
	in := w.lines[line]
	c.holds(in == file, "position", who, fmt.Sprintf("the position is in %s, the file is %s", in, file), f.id)
	return file, line
}

// opened tells if the file has been opened, or could not be.
func opened(st *State, file string) bool {
	for _, e := range st.events {
		if e.Name == "open" && len(e.Args) > 0 && e.Args[0] == vStr(file) {
			return true
		}
	}
	return false
}

// madeIn names the function that makes an error.
func madeIn(id string) string {
	s := strings.Split(id, "/")
	for i := len(s) - 1; i >= 0; i-- {
		x := s[i]
		if k := strings.LastIndex(x, "@"); k >= 0 {
			x = x[:k]
		}
		if !strings.Contains(x, "Stacktrace") {
			return x
		}
	}
	return id
}

// errorsLocated checks that every cause of the error that is returned has a file.
func (c *Ctx) errorsLocated(at string, o *Outcome, located map[*Val]bool) {
	e := o.lastErr()
	if o.success() {
		return
	}
	for x := range causesOf(e) {
		if x.K == KSym && strings.HasPrefix(x.S, "err:") && !strings.HasPrefix(x.S, "err:new:located:") {
			c.holds(located[x], "located", at, "the error is not given a file: "+shortKey(x.key), o.Where)
		} else {
			c.ok("located", at)
		}
	}
}

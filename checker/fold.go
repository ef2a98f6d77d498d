package main

import (
	"path"
	"path/filepath"
	"strings"
)

// foldText computes functions of texts that are known.
func foldText(name string, a []*Val, c *Call) ([]*Val, bool) {
	var s []string
	var n []int64
	if len(a) == 1 && a[0].K == KSlice && strings.HasSuffix(name, ".Join") {
		var parts []*Val
		for _, p := range a[0].A {
			if p.S != "one" {
				return nil, false
			}
			parts = append(parts, p.A[0])
		}
		a = parts
	}
	for _, x := range a {
		if t, ok := x.strConst(); ok {
			s = append(s, t)
			continue
		}
		if i, ok := x.intConst(); ok {
			n = append(n, i)
			continue
		}
		return nil, false
	}
	bools := func(b bool) ([]*Val, bool) { return []*Val{vBool(b)}, true }
	text := func(x ...string) ([]*Val, bool) {
		var r []*Val
		for _, t := range x {
			r = append(r, vStr(t))
		}
		return r, true
	}
	num := func(i int) ([]*Val, bool) { return []*Val{vInt(int64(i))}, true }
	list := func(x []string) ([]*Val, bool) {
		var r []*Val
		for _, t := range x {
			r = append(r, vStr(t))
		}
		return []*Val{listOf(c.Sig.Results().At(0).Type(), r...)}, true
	}
	switch {
	case len(s) == 1 && len(n) == 0:
		switch name {
		case "strings.TrimSpace":
			return text(strings.TrimSpace(s[0]))
		case "strings.ToLower":
			return text(strings.ToLower(s[0]))
		case "strings.ToUpper":
			return text(strings.ToUpper(s[0]))
		case "strings.Fields":
			return list(strings.Fields(s[0]))
		case "filepath.Dir", "path/filepath.Dir":
			return text(filepath.Dir(s[0]))
		case "filepath.Base", "path/filepath.Base":
			return text(filepath.Base(s[0]))
		case "filepath.Ext", "path/filepath.Ext":
			return text(filepath.Ext(s[0]))
		case "filepath.Clean", "path/filepath.Clean":
			return text(filepath.Clean(s[0]))
		case "filepath.IsAbs", "path/filepath.IsAbs":
			return bools(filepath.IsAbs(s[0]))
		case "path.Dir":
			return text(path.Dir(s[0]))
		case "path.Base":
			return text(path.Base(s[0]))
		case "path.Ext":
			return text(path.Ext(s[0]))
		case "path.Clean":
			return text(path.Clean(s[0]))
		}
	case len(s) == 1 && len(n) == 1:
		switch name {
		case "strings.LastIndexByte":
			return num(strings.LastIndexByte(s[0], byte(n[0])))
		case "strings.IndexByte":
			return num(strings.IndexByte(s[0], byte(n[0])))
		case "strings.IndexRune":
			return num(strings.IndexRune(s[0], rune(n[0])))
		case "strings.ContainsRune":
			return bools(strings.ContainsRune(s[0], rune(n[0])))
		}
	case len(s) == 2 && len(n) == 0:
		switch name {
		case "strings.LastIndex":
			return num(strings.LastIndex(s[0], s[1]))
		case "strings.Index":
			return num(strings.Index(s[0], s[1]))
		case "strings.IndexAny":
			return num(strings.IndexAny(s[0], s[1]))
		case "strings.LastIndexAny":
			return num(strings.LastIndexAny(s[0], s[1]))
		case "strings.Count":
			return num(strings.Count(s[0], s[1]))
		case "strings.ContainsAny":
			return bools(strings.ContainsAny(s[0], s[1]))
		case "strings.EqualFold":
			return bools(strings.EqualFold(s[0], s[1]))
		case "strings.TrimPrefix":
			return text(strings.TrimPrefix(s[0], s[1]))
		case "strings.TrimSuffix":
			return text(strings.TrimSuffix(s[0], s[1]))
		case "strings.Trim":
			return text(strings.Trim(s[0], s[1]))
		case "strings.TrimLeft":
			return text(strings.TrimLeft(s[0], s[1]))
		case "strings.TrimRight":
			return text(strings.TrimRight(s[0], s[1]))
		case "strings.Split":
			return list(strings.Split(s[0], s[1]))
		case "strings.Cut":
			x, y, ok := strings.Cut(s[0], s[1])
			return []*Val{vStr(x), vStr(y), vBool(ok)}, true
		case "strings.CutPrefix":
			x, ok := strings.CutPrefix(s[0], s[1])
			return []*Val{vStr(x), vBool(ok)}, true
		case "strings.CutSuffix":
			x, ok := strings.CutSuffix(s[0], s[1])
			return []*Val{vStr(x), vBool(ok)}, true
		case "filepath.Join", "path/filepath.Join":
			return text(filepath.Join(s...))
		}
	case len(s) == 2 && len(n) == 1:
		if name == "strings.SplitN" {
			return list(strings.SplitN(s[0], s[1], int(n[0])))
		}
	case len(s) == 3 && len(n) == 0:
		if name == "strings.ReplaceAll" {
			return text(strings.ReplaceAll(s[0], s[1], s[2]))
		}
	case len(s) == 3 && len(n) == 1:
		if name == "strings.Replace" {
			return text(strings.Replace(s[0], s[1], s[2], int(n[0])))
		}
	}
	return nil, false
}

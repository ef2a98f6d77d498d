package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "")
	dbg := flag.String("debug", "", "Type.method or function")
	bound := flag.String("bound", "", "names of functions that are not looked into")
	prop := flag.String("property", "", "property to decide")
	list := flag.Bool("functions", false, "list the functions of the library")
	verif := flag.String("verif", "/verif", "")
	flag.Parse()
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(4 << 30)
	if f := os.Getenv("CPUPROF"); f != "" {
		w, _ := os.Create(f)
		_ = pprof.StartCPUProfile(w)
	}
	if *prop != "" {
		code := runProperty(*repo, *verif, *prop)
		pprof.StopCPUProfile()
		os.Exit(code)
	}
	p, err := Load(*repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	if *list {
		seen := map[string]bool{}
		for _, f := range p.Funcs {
			if f.Parent() == nil && !seen[f.Name()] {
				seen[f.Name()] = true
				fmt.Println(f.Name())
			}
		}
	}
	if *dbg != "" {
		debugRun(p, *dbg, *bound)
	}
}

func debugRun(p *Program, name, bound string) {
	t := time.Now()
	fn := p.Func(name)
	if j := strings.IndexByte(name, '.'); j > 0 {
		fn = p.MethodOf(name[:j], name[j+1:])
	}
	in := NewInterp(p)
	if v := os.Getenv("DBGLO"); v != "" {
		fmt.Sscanf(v, "%d", &debugLo)
		debugHi = debugLo + 400
	}
	in.debug = os.Getenv("DBG") != ""
	bs := strings.Split(bound, ",")
	in.boundary = func(c *Call) bool {
		for _, b := range bs {
			if b != "" && c.Callee != nil && c.Callee.Name() == b {
				return true
			}
		}
		return false
	}
	var args []*Val
	for i, pa := range fn.Params {
		n := pa.Name()
		if i == 0 && fn.Signature.Recv() != nil {
			n = "t"
		}
		args = append(args, vSym(n, pa.Type()))
	}
	outs := in.Run(fn, args, newState())
	for i, o := range outs {
		fmt.Printf("--- %d ret=%v panic=%q at %s\n", i, o.Ret, o.Panic, o.Where)
		for _, l := range o.St.f.lines() {
			fmt.Println("   ", l)
		}
		for _, e := range o.St.events {
			fmt.Println("    event", e.key)
		}
		for _, m := range o.St.muts {
			fmt.Println("    mut", m.Obj+m.Path, ":=", m.Val)
		}
		var objs []string
		for ob := range o.St.heap {
			if o.St.isFresh(ob) {
				objs = append(objs, ob)
			}
		}
		sort.Strings(objs)
		for _, ob := range objs {
			var ps []string
			for pp, v := range o.St.heap[ob] {
				if pp != "$fresh" {
					ps = append(ps, pp+"="+v.key)
				}
			}
			sort.Strings(ps)
			fmt.Println("    obj", ob, strings.Join(ps, "; "))
		}
	}
	fmt.Println(len(outs), "outcomes", in.steps, "steps", time.Since(t), in.undecided)
}

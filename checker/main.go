package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	repo := flag.String("repo", "/repo", "")
	trace := flag.String("trace", "", "debug: rel/pkg:Type:Method")
	tpaths := flag.String("paths", "", "debug: rel/pkg:Type:Method[,rel:Type:Method watched...]")
	unroll := flag.Int("unroll", 1, "")
	prop := flag.String("property", "", "property id, or several separated by commas, or all")
	verif := flag.String("verif", "/verif", "")
	flag.Parse()
	t := time.Now()
	P, err := loadProgram(*repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if *prop != "" {
		load := time.Since(t)
		tier := os.Getenv("VERIF_TIER")
		if tier != "thorough" {
			tier = "quick"
		}
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		ids := strings.Split(*prop, ",")
		if *prop == "all" {
			ids = regOrder
			sort.Strings(ids)
		}
		rc := 0
		for _, id := range ids {
			if r := runCheck(P, id, tier, *verif, seed, load); r > rc {
				rc = r
			}
			if rc != 0 && os.Getenv("CHECKER_STOP") != "" {
				break
			}
		}
		os.Exit(rc)
	}
	if *tpaths != "" {
		fs := []*ssa.Function{}
		for _, sp := range strings.Split(*tpaths, ",") {
			p := strings.Split(sp, ":")
			f := P.method(p[0], p[1], p[2])
			if p[1] == "" {
				f = P.fn(p[0], p[2])
			}
			if f == nil {
				fmt.Println("no function", sp)
				os.Exit(2)
			}
			fs = append(fs, f)
		}
		c := &Check{P: P, seen: map[string]int{}, fns: map[*ssa.Function]bool{}, opq: map[string]int{}}
		args := []*V{}
		for i, pa := range fs[0].Params {
			if i == 0 && fs[0].Signature.Recv() != nil {
				args = append(args, Sym("keeper"))
			} else {
				args = append(args, Sym(pa.Name()))
			}
		}
		ps := c.paths(fs[0], args, pathOpts{watch: set(fs[1:]...), reads: os.Getenv("READS") != "", unroll: *unroll, iterOne: os.Getenv("ONE") != ""})
		fmt.Println(len(ps), "paths", time.Since(t))
		for i, p := range ps {
			if i > 14 {
				break
			}
			fmt.Println("--", i, "ok", p.Ok, "panic", p.O.panic, p.O.vals, p.exit(c))
			for _, e := range p.Ev {
				fmt.Println("   ", e.Kind, e.Store, shortFn(e.Fn), e.Recv, e.Args)
			}
			if os.Getenv("FACTS") != "" {
				fs := []string{}
				for f, v := range p.facts() {
					fs = append(fs, fmt.Sprint("      ", v, " ", f))
				}
				sort.Strings(fs)
				fmt.Println(strings.Join(fs, "\n"))
			}
		}
		return
	}
	if *trace == "stores" {
		fmt.Println(P.storeFields())
		return
	}
	if *trace != "" {
		p := strings.Split(*trace, ":")
		f := P.method(p[0], p[1], p[2])
		if p[1] == "" {
			f = P.fn(p[0], p[2])
		}
		if f == nil {
			fmt.Println("no such function")
			os.Exit(2)
		}
		if os.Getenv("DUMP") != "" {
			f.WriteTo(os.Stdout)
		}
		x := newExec(P, &Client{Name: "trace", Unroll: *unroll})
		outs := x.Run(f, nil, newState())
		fmt.Println("outcomes", len(outs), "steps", x.steps, "calls", x.calls, "fns", len(x.fnSeen), "give up:", x.giveUp, time.Since(t))
		for i, o := range outs {
			if i > 12 {
				break
			}
			fmt.Println("--", o.panic, o.vals, P.pos(o.pos))
			fs := []string{}
			for f, v := range o.st.facts {
				fs = append(fs, fmt.Sprint("    ", v, " ", f))
			}
			sort.Strings(fs)
			fmt.Println(strings.Join(fs, "\n"))
		}
		ops := []string{}
		for n, c := range x.opaque {
			ops = append(ops, fmt.Sprint(n, " ", c))
		}
		sort.Strings(ops)
		fmt.Println(strings.Join(ops, "\n"))
	}
}

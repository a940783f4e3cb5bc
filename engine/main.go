package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vx run|check|replay|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		cmdRun(os.Args[2:])
	case "warm":
		os.Exit(cmdWarm())
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

// cmdRun is the development entry point: explore one harness and print what happened.
func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	params := fs.String("p", "", "params k=v,...")
	budget := fs.Int("t", 30, "seconds")
	nw := fs.Int("j", 8, "workers")
	nomerge := fs.Bool("nomerge", false, "")
	steps := fs.Int64("steps", 0, "")
	alloc := fs.Int64("alloc", 0, "")
	prof := fs.String("prof", "", "")
	native := fs.Bool("native", true, "")
	repo := fs.String("repo", "/repo", "")
	ms := fs.Int("ms", 3000, "native time limit per vector")
	ns := fs.Int("samples", 0, "")
	fs.Parse(args)
	repoDir = *repo
	if os.Getenv("VX_FORKS") != "" {
		forkSites = map[string]int{}
	}
	pkg, fn := fs.Arg(0), fs.Arg(1)
	t0 := time.Now()
	li, err := load([]string{pkg})
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Printf("load %.2fs\n", time.Since(t0).Seconds())
	t0 = time.Now()
	ex := NewExplorer(li.sh, *nw, 1)
	defer ex.Close()
	fmt.Printf("init %.2fs\n", time.Since(t0).Seconds())
	for i, e := range ex.workers[0].initErrs {
		if i < 8 {
			fmt.Println("  init:", e)
		}
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	ps := parseParams(*params)
	var names []string
	if fn == "" {
		for k := range li.entries[pkg] {
			names = append(names, k)
		}
		sort.Strings(names)
	} else {
		names = strings.Split(fn, ",")
	}
	var bin, dir string
	if *native {
		dir, _ = os.MkdirTemp("", "vx")
		defer os.RemoveAll(dir)
		var all []string
		for k := range li.entries[pkg] {
			all = append(all, k)
		}
		bin, err = buildNative(dir, pkg, all)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
	}
	for _, fn := range names {
		f := li.entries[pkg][fn]
		if f == nil {
			fmt.Println("no such harness", fn)
			os.Exit(2)
		}
		cfg := &RunCfg{Pkg: pkg, Fn: fn, NoMerge: *nomerge, Steps: *steps, Alloc: *alloc, Samples: *ns}
		st := ex.Run(cfg, f, ps, time.Duration(*budget)*time.Second, 0, 20000)
		fmt.Printf("%s %v: paths=%d complete=%v left=%d %.2fs steps=%d forks=%d merges=%d\n  outcomes=%v\n  covers=%v\n", fn, ps, st.Paths, st.Complete, st.Left, st.Seconds, st.Steps, st.Forks, st.Merges, st.Outcomes, st.Covers)
		fmt.Printf("  solver: z3=%d (%.2fs, max %.0fms) dom=%d model=%d cache=%d asserts=%d unsat=%d\n", st.Solver.Z3Queries, float64(st.Solver.Nanos)/1e9, float64(st.Solver.MaxQueryNanos)/1e6, st.Solver.DomainHits, st.Solver.ModelHits, st.Solver.CacheHits, st.Solver.AssertQueries, st.Solver.AssertUnsat)
		fmt.Printf("  fns: %s\n", strings.Join(st.Functions, " "))
		for k, v := range st.Unsupported {
			fmt.Printf("  UNSUPPORTED %dx %s\n", v, k)
		}
		for k, v := range st.Unknown {
			fmt.Printf("  UNKNOWN %dx %s\n", v, k)
		}
		for _, e := range st.Errs {
			fmt.Println("  ERR", e)
		}
		if bin != "" {
			var vs []Vector
			for _, s := range st.Samples {
				vs = append(vs, Vector{Fn: fn, In: s.In, Params: ps, MS: *ms})
			}
			rs := runNative(bin, dir, vs, false)
			bad := 0
			for i, r := range rs {
				if r.Out != "ok" || strings.Join(r.Obs, ";") != strings.Join(st.Samples[i].Obs, ";") {
					bad++
					if bad <= 3 {
						fmt.Printf("  MISMATCH sample %d: native %s %s\n   model  obs=%v\n   native obs=%v\n   in=%s\n%s\n", i, r.Out, r.Msg, st.Samples[i].Obs, r.Obs, renderIn(st.Samples[i].In), clip(r.Stack, 1500))
					}
				}
			}
			fmt.Printf("  samples replayed natively: %d, agreeing %d\n", len(rs), len(rs)-bad)
		}
		for _, v := range st.Viol {
			fmt.Printf("  VIOL x%d %s %q at %s\n     in=%s\n", v.Count, v.V.Kind, v.V.Msg, v.V.Where, renderIn(v.V.Inputs))
			if bin != "" {
				r := runNative(bin, dir, []Vector{{Fn: fn, In: v.V.Inputs, Params: ps, MS: *ms}}, true)
				ac := *alloc
				if ac == 0 {
					ac = 1 << 24
				}
				fmt.Printf("     native: %s %q alloc=%d confirmed=%v\n", r[0].Out, r[0].Msg, r[0].Alloc, confirms(&v.V, r[0], ac))
			}
		}
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	for k, n := range forkSites {
		fmt.Printf("forks %6d %s\n", n, k)
	}
	fmt.Printf("mem %d MB\n", m.Sys>>20)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func renderIn(in []ReplayVal) string {
	var sb strings.Builder
	for i := 0; i < len(in); i++ {
		if in[i].K == "Byte" {
			sb.WriteString("[")
			for ; i < len(in) && in[i].K == "Byte"; i++ {
				fmt.Fprintf(&sb, "%02x ", in[i].V)
			}
			i--
			sb.WriteString("] ")
			continue
		}
		fmt.Fprintf(&sb, "%s:%d ", in[i].K, int64(in[i].V))
	}
	return sb.String()
}

func parseParams(s string) map[string]int {
	m := map[string]int{}
	for _, kv := range strings.Split(s, ",") {
		if kv == "" {
			continue
		}
		k, v, _ := strings.Cut(kv, "=")
		var n int
		fmt.Sscanf(v, "%d", &n)
		m[k] = n
	}
	return m
}

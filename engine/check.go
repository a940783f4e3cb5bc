package main

// The registered checks: explore the harnesses of one property, confirm counterexamples natively, write evidence.

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type PropCfg struct {
	Runs        []*RunCfg `json:"runs"`
	Bounds      string    `json:"bounds"`
	Outside     string    `json:"outside"`
	Assumptions []string  `json:"assumptions"`
}

// Finding is one line of known-findings.txt that is a JSON object; the other lines record repaired defects.
type Finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known | fixed
	Harness  string `json:"harness"`
	Kind     string `json:"kind"`
	Msg      string `json:"msg"`
	Func     string `json:"func"` // function in which it fails, for panics
	Text     string `json:"text"`
}

type ReplayFile struct {
	Property string         `json:"property"`
	Pkg      string         `json:"pkg"`
	Fn       string         `json:"fn"`
	Kind     string         `json:"kind"`
	Msg      string         `json:"msg"`
	Where    string         `json:"where"`
	Params   map[string]int `json:"params,omitempty"`
	MS       int            `json:"ms,omitempty"`
	Alloc    int64          `json:"alloc,omitempty"`
	In       []ReplayVal    `json:"in"`
	Native   *NativeResult  `json:"native,omitempty"`
	Rendered string         `json:"rendered"`
}

func fail(f string, a ...any) int {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	return 2
}

func loadFindings() ([]Finding, error) {
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var fs []Finding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "{") {
			continue
		}
		var f Finding
		if err := json.Unmarshal([]byte(l), &f); err != nil {
			return nil, err
		}
		fs = append(fs, f)
	}
	return fs, nil
}

func shortFn(s string) string { return strings.ReplaceAll(s, modPath+"/", "") }

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	nw := fs.Int("j", 8, "")
	only := fs.String("only", "", "run only this harness")
	verbose := fs.Bool("v", false, "")
	repo := fs.String("repo", repoDir, "check this copy of the repository (development)")
	outDir := fs.String("out", verifDir, "where evidence and replay files go (development)")
	fs.Parse(args)
	repoDir = *repo
	t00 := time.Now()
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if os.Getenv("VERIF_SEED") == "" {
		seed = 1
	}
	raw, err := os.ReadFile(filepath.Join(verifDir, "harness", "checks.json"))
	if err != nil {
		return fail("%v", err)
	}
	props := map[string]*PropCfg{}
	if err := json.Unmarshal(raw, &props); err != nil {
		return fail("checks.json: %v", err)
	}
	pc := props[*prop]
	if pc == nil {
		return fail("no such property %s", *prop)
	}
	findings, err := loadFindings()
	if err != nil {
		return fail("known findings: %v", err)
	}
	pkgSet := map[string]bool{}
	for _, r := range pc.Runs {
		pkgSet[r.Pkg] = true
	}
	var pkgs []string
	for p := range pkgSet {
		pkgs = append(pkgs, p)
	}
	sort.Strings(pkgs)

	dir, err := os.MkdirTemp("", "vxcheck")
	if err != nil {
		return fail("%v", err)
	}
	defer os.RemoveAll(dir)
	// native builds run alongside loading
	type nb struct {
		bin string
		err error
	}
	natives := map[string]*nb{}
	var nwg sync.WaitGroup
	fnsOf := map[string][]string{}
	for _, r := range pc.Runs {
		dup := false
		for _, f := range fnsOf[r.Pkg] {
			dup = dup || f == r.Fn
		}
		if !dup {
			fnsOf[r.Pkg] = append(fnsOf[r.Pkg], r.Fn)
		}
	}
	for _, p := range pkgs {
		n := &nb{}
		natives[p] = n
		nwg.Add(1)
		go func(p string) {
			defer nwg.Done()
			n.bin, n.err = buildNative(dir, p, fnsOf[p])
		}(p)
	}
	li, err := load(pkgs)
	nwg.Wait()
	for _, p := range pkgs {
		if natives[p].err != nil {
			return fail("%v", natives[p].err)
		}
	}
	if err != nil {
		return fail("%v", err)
	}
	ex := NewExplorer(li.sh, *nw, seed)
	defer ex.Close()

	var stats []*RunStats
	var confirmed []*ReplayFile
	knownHit := map[string]string{}
	var inconclusive []string
	broken := false
	deadline := time.Now().Add(700 * time.Second)
	if *tier == "thorough" {
		deadline = time.Now().Add(12 * time.Hour)
	}
	for _, r := range pc.Runs {
		if *only != "" && r.Fn != *only {
			continue
		}
		if *tier == "quick" && r.Quick != nil && !*r.Quick {
			continue
		}
		f := li.entries[r.Pkg][r.Fn]
		if f == nil {
			return fail("no harness %s in %s", r.Fn, r.Pkg)
		}
		sets := r.Tiers
		if *tier == "thorough" && r.SweepT != nil {
			sets = r.SweepT
		}
		if len(sets) == 0 {
			sets = []map[string]int{{}}
		}
		covers := map[string]int64{}
		incomplete := false
		found := false
		for _, set := range sets {
			ps := map[string]int{}
			for k, v := range r.Params {
				ps[k] = v
			}
			if *tier == "thorough" {
				for k, v := range r.Thorough {
					ps[k] = v
				}
			}
			for k, v := range set {
				ps[k] = v
			}
			budget := r.Budget
			if budget == 0 {
				budget = 60
			}
			if *tier == "thorough" {
				budget = r.BudgetT
				if budget == 0 {
					budget = 900
				}
			}
			b := time.Duration(budget) * time.Second
			if left := time.Until(deadline); left < b {
				b = left
			}
			if b < time.Second {
				inconclusive = append(inconclusive, fmt.Sprintf("%s %v not run: out of time", r.Fn, ps))
				incomplete = true
				continue
			}
			st := runOne(ex, r, f, ps, b, *tier)
			stats = append(stats, st)
			if *verbose {
				fmt.Fprintf(os.Stderr, "%s %v paths=%d complete=%v %.2fs covers=%v outcomes=%v viol=%d\n", r.Fn, ps, st.Paths, st.Complete, st.Seconds, st.Covers, st.Outcomes, len(st.Viol))
			}
			for k, v := range st.Covers {
				covers[k] += v
			}
			if !st.Complete {
				incomplete = true
				inconclusive = append(inconclusive, fmt.Sprintf("%s %v: bound not exhausted (%d prefixes left, outcomes %v, unsupported %v, unknown %v)", r.Fn, ps, st.Left, st.Outcomes, st.Unsupported, st.Unknown))
			}
			if st.Outcomes["ok"] == 0 && len(st.Viol) == 0 {
				fmt.Fprintf(os.Stderr, "ERROR: %s %v: no path completed: %v %v %v\n", r.Fn, ps, st.Outcomes, st.Unsupported, st.Errs)
				broken = true
			}
			if len(st.Errs) > 0 {
				fmt.Fprintf(os.Stderr, "ERROR: solver: %v\n", st.Errs)
				broken = true
			}
			// 1. counterexamples are confirmed against the real code
			for _, v := range st.Viol {
				rf := confirmViol(natives[r.Pkg].bin, dir, *prop, r, ps, v)
				if rf == nil {
					if v.V.Kind == "hang" {
						inconclusive = append(inconclusive, fmt.Sprintf("%s %v: unwinding bound exceeded at %s", r.Fn, ps, v.V.Where))
						continue
					}
					fmt.Fprintf(os.Stderr, "ERROR: counterexample did not reproduce: %s %v %s %q at %s in=%s\n", r.Fn, ps, v.V.Kind, v.V.Msg, shortFn(v.V.Where), renderIn(v.V.Inputs))
					broken = true
					continue
				}
				found = true
				if fd := matchFinding(findings, *prop, rf); fd != nil {
					knownHit[fd.Text] = rf.Rendered
					continue
				}
				confirmed = append(confirmed, rf)
			}
			// 2. sampled paths must behave natively as in the encoding
			vs := make([]Vector, len(st.Samples))
			for i, s := range st.Samples {
				vs[i] = Vector{Fn: r.Fn, In: s.In, Params: ps, MS: r.MS}
			}
			res := runNative(natives[r.Pkg].bin, dir, vs, false)
			st.SampleN = len(res)
			for i, nr := range res {
				want := strings.Join(st.Samples[i].Obs, ";")
				if nr.Out == "ok" && strings.Join(nr.Obs, ";") == want {
					st.SampleOK++
					continue
				}
				// once more, alone, with a longer limit
				v := vs[i]
				v.MS = max(20000, v.MS)
				nr2 := runNative(natives[r.Pkg].bin, dir, []Vector{v}, true)[0]
				if nr2.Out != "panic" && nr2.Out != "crash" && !(nr2.Out == "ok" && strings.Join(nr2.Obs, ";") == want) {
					time.Sleep(300 * time.Millisecond) // the machine may have been busy
					nr2 = runNative(natives[r.Pkg].bin, dir, []Vector{v}, true)[0]
				}
				if nr2.Out == "ok" && strings.Join(nr2.Obs, ";") == want {
					st.SampleOK++
					continue
				}
				if nr2.Out == "assert" || nr2.Out == "panic" || nr2.Out == "hang" || nr2.Out == "crash" {
					// the real code fails on this input, whatever the encoding says
					kind := nr2.Out
					if kind == "crash" {
						kind = "panic"
					}
					rf := &ReplayFile{Property: *prop, Pkg: r.Pkg, Fn: r.Fn, Kind: kind, Msg: nr2.Msg, Params: ps, MS: v.MS, In: v.In, Native: &nr2, Rendered: renderIn(v.In)}
					found = true
					if fd := matchFinding(findings, *prop, rf); fd != nil {
						knownHit[fd.Text] = rf.Rendered
						continue
					}
					fmt.Fprintf(os.Stderr, "note: sampled path of %s fails natively (%s %s)\n", r.Fn, nr2.Out, nr2.Msg)
					confirmed = append(confirmed, rf)
					continue
				}
				fmt.Fprintf(os.Stderr, "ERROR: encoding and real code disagree: %s %v native %s %q obs=%v model obs=%v in=%s\n", r.Fn, ps, nr2.Out, nr2.Msg, nr2.Obs, st.Samples[i].Obs, renderIn(v.In))
				broken = true
			}
		}
		for _, c := range r.Covers {
			if covers[c] == 0 && !found {
				if incomplete {
					inconclusive = append(inconclusive, fmt.Sprintf("%s: witness %q not reached", r.Fn, c))
				} else {
					fmt.Fprintf(os.Stderr, "ERROR: vacuous: %s never reaches %q\n", r.Fn, c)
					broken = true
				}
			}
		}
	}
	// one report per distinct failure
	seen := map[string]bool{}
	var out []*ReplayFile
	for _, rf := range confirmed {
		k := rf.Fn + "|" + rf.Kind + "|" + rf.Msg + "|" + rf.Where
		if !seen[k] {
			seen[k] = true
			out = append(out, rf)
		}
	}
	for _, t := range sortedKeys(knownHit) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, t)
	}
	rd := filepath.Join(*outDir, "replay")
	os.MkdirAll(rd, 0o755)
	old, _ := filepath.Glob(filepath.Join(rd, *prop+"-*.json"))
	for _, o := range old {
		os.Remove(o)
	}
	for i, rf := range out {
		p := filepath.Join(rd, fmt.Sprintf("%s-%d.json", *prop, i+1))
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(p, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, p)
		fmt.Printf("  %s: %s %q at %s\n  input: %s\n", rf.Fn, rf.Kind, rf.Msg, shortFn(rf.Where), clip(rf.Rendered, 600))
	}
	for _, s := range inconclusive {
		fmt.Printf("note: %s\n", s)
	}
	if err := writeEvidence(*outDir, *prop, *tier, seed, pc, stats, len(out), inconclusive, time.Since(t00)); err != nil {
		return fail("evidence: %v", err)
	}
	switch {
	case len(out) > 0:
		return 1
	case broken:
		return 2
	}
	paths := int64(0)
	for _, s := range stats {
		paths += s.Paths
	}
	fmt.Printf("OK property=%s tier=%s paths=%d wall=%.1fs\n", *prop, *tier, paths, time.Since(t00).Seconds())
	return 0
}

func sortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func runOne(ex *Explorer, r *RunCfg, f *ssa.Function, ps map[string]int, b time.Duration, tier string) *RunStats {
	cross, to := 200, 20000
	if tier == "thorough" {
		cross, to = 40, 120000
	}
	return ex.Run(r, f, ps, b, cross, to)
}

func confirmViol(bin, dir, prop string, r *RunCfg, ps map[string]int, v *FoundViol) *ReplayFile {
	ac := r.Alloc
	if ac == 0 {
		ac = 1 << 24
	}
	ms := r.MS
	if ms == 0 {
		ms = 5000
	}
	for _, c := range append([]Violation{v.V}, v.Alts...) {
		nr := runNative(bin, dir, []Vector{{Fn: r.Fn, In: c.Inputs, Params: ps, MS: ms}}, true)[0]
		if confirms(&c, nr, ac) {
			return &ReplayFile{Property: prop, Pkg: r.Pkg, Fn: r.Fn, Kind: c.Kind, Msg: c.Msg, Where: c.Where, Params: ps, MS: ms, Alloc: ac, In: c.Inputs, Native: &nr, Rendered: renderIn(c.Inputs)}
		}
	}
	// The real code may fail on the same input in another way, for instance a later assertion; it has to do so every time.
	for _, c := range append([]Violation{v.V}, v.Alts...) {
		var nr NativeResult
		same := true
		for i := 0; i < 3 && same; i++ {
			time.Sleep(100 * time.Millisecond)
			again := runNative(bin, dir, []Vector{{Fn: r.Fn, In: c.Inputs, Params: ps, MS: ms}}, true)[0]
			same = (again.Out == "assert" || again.Out == "panic" || again.Out == "crash") && (i == 0 || again.Out == nr.Out && again.Msg == nr.Msg)
			nr = again
		}
		if same {
			kind := nr.Out
			if kind == "crash" {
				kind = "panic"
			}
			return &ReplayFile{Property: prop, Pkg: r.Pkg, Fn: r.Fn, Kind: kind, Msg: nr.Msg, Where: c.Where, Params: ps, MS: ms, Alloc: ac, In: c.Inputs, Native: &nr, Rendered: renderIn(c.Inputs)}
		}
	}
	return nil
}

func matchFinding(fs []Finding, prop string, rf *ReplayFile) *Finding {
	for i := range fs {
		f := &fs[i]
		if f.Status != "known" || f.Property != prop || f.Harness != rf.Fn || f.Kind != rf.Kind {
			continue
		}
		if f.Msg != "" && f.Msg != rf.Msg {
			continue
		}
		if f.Func != "" && !strings.HasPrefix(shortFn(rf.Where), f.Func) {
			continue
		}
		return f
	}
	return nil
}

func writeEvidence(outDir, prop, tier string, seed int64, pc *PropCfg, stats []*RunStats, nviol int, inconclusive []string, wall time.Duration) error {
	var paths, forks, steps, merges, traces int64
	var sv SolverStats
	fns := map[string]bool{}
	lib := map[string]bool{}
	complete := true
	var samples []string
	var solverS float64
	for _, s := range stats {
		paths += s.Paths
		forks += s.Forks
		merges += s.Merges
		steps += s.Steps
		traces += int64(s.SampleOK)
		sv.add(&s.Solver)
		complete = complete && s.Complete
		for _, f := range s.Functions {
			switch {
			case strings.Contains(f, modPath) && !strings.Contains(f, ".Verif") && !strings.Contains(f, "/verif"):
				fns[shortFn(f)] = true
			case !strings.Contains(f, modPath):
				lib[f] = true
			}
		}
		for i, sm := range s.Samples {
			if i < 2 {
				samples = append(samples, fmt.Sprintf("%s %v: in=%s obs=%s", s.Fn, s.Params, clip(renderIn(sm.In), 200), clip(strings.Join(sm.Obs, ";"), 200)))
			}
		}
	}
	solverS = float64(sv.Nanos) / 1e9
	keys := func(m map[string]bool) []string {
		ks := []string{}
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		return ks
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": wall.Seconds(), "violations": nviol,
		"assumptions": append([]string{"bounds: " + pc.Bounds, "outside the claim: " + pc.Outside}, pc.Assumptions...),
		"coverage": map[string]any{
			"states":                           paths,
			"transitions":                      steps,
			"traces_validated_against_impl":    traces,
			"samples":                          samples,
			"exhaustive":                       complete,
			"states_meaning":                   "symbolic paths explored to their end; each stands for every input satisfying its path condition",
			"transitions_meaning":              "SSA instructions executed symbolically",
			"bounds":                           pc.Bounds,
			"functions_encoded":                keys(fns),
			"library_functions_encoded":        keys(lib),
			"branch_forks":                     forks,
			"state_merges":                     merges,
			"assertion_queries":                sv.AssertQueries,
			"assertion_queries_unsat":          sv.AssertUnsat,
			"smt_queries":                      sv.Z3Queries,
			"smt_sat":                          sv.Z3Sat,
			"smt_unsat":                        sv.Z3Unsat,
			"smt_unknown":                      sv.Z3Unknown,
			"solver_s":                         solverS,
			"max_query_s":                      float64(sv.MaxQueryNanos) / 1e9,
			"decided_by_byte_domain":           sv.DomainHits,
			"decided_by_model_reuse":           sv.ModelHits,
			"decided_by_query_cache":           sv.CacheHits,
			"unsat_verdicts_rechecked_by_cvc5": sv.CrossChecked,
			"runs":                             stats,
			"inconclusive":                     inconclusive,
		},
	}
	os.MkdirAll(filepath.Join(outDir, "evidence"), 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(outDir, "evidence", prop+".json"), b, 0o644)
}

func cmdReplay(args []string) int {
	if len(args) != 1 {
		return fail("usage: vx replay FILE")
	}
	raw, err := os.ReadFile(args[0])
	if err != nil {
		return fail("%v", err)
	}
	var rf ReplayFile
	if err := json.Unmarshal(raw, &rf); err != nil {
		return fail("%v", err)
	}
	dir, err := os.MkdirTemp("", "vxreplay")
	if err != nil {
		return fail("%v", err)
	}
	defer os.RemoveAll(dir)
	bin, err := buildNative(dir, rf.Pkg, []string{rf.Fn})
	if err != nil {
		return fail("%v", err)
	}
	nr := runNative(bin, dir, []Vector{{Fn: rf.Fn, In: rf.In, Params: rf.Params, MS: rf.MS}}, true)[0]
	fmt.Printf("%s: %s\nexpected: %s %q\nnative:   %s %q\n%s\n", rf.Fn, rf.Rendered, rf.Kind, rf.Msg, nr.Out, nr.Msg, nr.Stack)
	if confirms(&Violation{Kind: rf.Kind, Msg: rf.Msg}, nr, rf.Alloc) {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, args[0])
		return 1
	}
	fmt.Println("does not reproduce on the current tree")
	return 0
}

// cmdWarm fills the build cache: replay binaries of all packages and the packages the encoder loads.
func cmdWarm() int {
	raw, err := os.ReadFile(filepath.Join(verifDir, "harness", "checks.json"))
	if err != nil {
		return fail("%v", err)
	}
	props := map[string]*PropCfg{}
	if err := json.Unmarshal(raw, &props); err != nil {
		return fail("checks.json: %v", err)
	}
	fns := map[string]map[string]bool{}
	for _, pc := range props {
		for _, r := range pc.Runs {
			if fns[r.Pkg] == nil {
				fns[r.Pkg] = map[string]bool{}
			}
			fns[r.Pkg][r.Fn] = true
		}
	}
	dir, err := os.MkdirTemp("", "vxwarm")
	if err != nil {
		return fail("%v", err)
	}
	defer os.RemoveAll(dir)
	rc := 0
	for p, m := range fns {
		var l []string
		for f := range m {
			l = append(l, f)
		}
		if _, err := buildNative(dir, p, l); err != nil {
			rc = fail("%v", err)
		}
		if _, err := load([]string{p}); err != nil {
			rc = fail("%v", err)
		}
	}
	return rc
}

package main

// Native replay: the same harness compiled with the real code, fed concrete inputs.

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

type ReplayVal struct {
	K string `json:"k"`
	V uint64 `json:"v"`
}

type Vector struct {
	Fn     string         `json:"fn"`
	In     []ReplayVal    `json:"in"`
	Params map[string]int `json:"params,omitempty"`
	MS     int            `json:"ms,omitempty"`
}

type NativeResult struct {
	Idx   int      `json:"idx"`
	Out   string   `json:"out"`
	Msg   string   `json:"msg"`
	Obs   []string `json:"obs"`
	Alloc uint64   `json:"alloc"`
	Stack string   `json:"stack"`
}

type Native struct {
	dir  string
	bins map[string]string
}

// buildNative compiles the replay binary for a package with the harness overlay. race adds the race detector.
func buildNative(dir, pkg string, fns []string) (string, error) {
	ov, err := overlayFiles()
	if err != nil {
		return "", err
	}
	sort.Strings(fns)
	var sb strings.Builder
	name := pkg
	if strings.HasPrefix(pkgDir(pkg), "cmd/") {
		name = "main"
	}
	fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"testing\"\n\n\t\"%s/net/verifnd\"\n)\n\nfunc TestVerifReplay(t *testing.T) {\n\tverifnd.RunAll(map[string]func(){\n", name, modPath)
	for _, f := range fns {
		fmt.Fprintf(&sb, "\t\t%q: %s,\n", f, f)
	}
	sb.WriteString("\t})\n}\n")
	tf := filepath.Join(dir, pkg+"_verif_run_test.go")
	if err := os.WriteFile(tf, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	ov[filepath.Join(repoDir, pkgDir(pkg), "zz_verif_run_test.go")] = tf
	// the repository's own tests are not part of the replay binary
	ts, _ := filepath.Glob(filepath.Join(repoDir, pkgDir(pkg), "*_test.go"))
	for _, t := range ts {
		ov[t] = ""
	}
	oj := filepath.Join(dir, pkg+"_overlay.json")
	b, _ := json.Marshal(map[string]any{"Replace": ov})
	if err := os.WriteFile(oj, b, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(dir, pkg+".test")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", oj, "-o", bin, "./"+pkgDir(pkg))
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build of %s: %v\n%s", pkg, err, out)
	}
	return bin, nil
}

// runNative executes vectors; every vector gets a result (missing ones are reported as crash).
func runNative(bin, dir string, vs []Vector, isolate bool) []NativeResult {
	res := make([]NativeResult, len(vs))
	for i := range res {
		res[i] = NativeResult{Idx: i, Out: "missing"}
	}
	if len(vs) == 0 {
		return res
	}
	vf, err := os.CreateTemp(dir, "vec*.json")
	if err != nil {
		return res
	}
	json.NewEncoder(vf).Encode(vs)
	vf.Close()
	of := vf.Name() + ".out"
	start := 0
	budget := 0
	for start < len(vs) && budget < 40 {
		budget++
		total := 20 * time.Second
		for _, v := range vs[start:] {
			if v.MS > 0 {
				total += time.Duration(v.MS) * time.Millisecond
			} else {
				total += 200 * time.Millisecond
			}
		}
		ctx, cancel := context.WithTimeout(context.Background(), total)
		cmd := exec.CommandContext(ctx, "/bin/sh", "-c", `ulimit -v 16000000; exec "$0" -test.run '^TestVerifReplay$' -test.timeout 0`, bin)
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
		cmd.Dir = dir
		cmd.Env = append(goEnv(), "VERIF_VEC="+vf.Name(), "VERIF_OUT="+of, fmt.Sprintf("VERIF_START=%d", start))
		var eb bytes.Buffer
		cmd.Stderr = &eb
		cmd.Stdout = &eb
		cmd.Run()
		cancel()
		last := start - 1
		if f, err := os.Open(of); err == nil {
			sc := bufio.NewScanner(f)
			sc.Buffer(make([]byte, 1<<20), 1<<26)
			for sc.Scan() {
				var r NativeResult
				if json.Unmarshal(sc.Bytes(), &r) == nil && r.Idx >= 0 && r.Idx < len(res) {
					res[r.Idx] = r
					if r.Idx > last {
						last = r.Idx
					}
				}
			}
			f.Close()
		}
		if last+1 >= len(vs) {
			break
		}
		if last >= start && res[last].Out == "hang" {
			start = last + 1
			continue
		}
		// the process died on vector last+1
		s := eb.String()
		if len(s) > 4000 {
			s = s[:4000]
		}
		res[last+1] = NativeResult{Idx: last + 1, Out: "crash", Msg: firstLine(s), Stack: s}
		start = last + 2
	}
	return res
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime:") {
			return l
		}
	}
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// confirms reports whether the native outcome reproduces the violation.
func confirms(v *Violation, r NativeResult, allocCap int64) bool {
	switch v.Kind {
	case "assert":
		return r.Out == "assert" && r.Msg == v.Msg
	case "panic":
		return r.Out == "panic" || r.Out == "crash"
	case "hang", "deadlock":
		return r.Out == "hang" || r.Out == "crash"
	case "alloc":
		return r.Out == "crash" || int64(r.Alloc) > allocCap
	}
	return false
}

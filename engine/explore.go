package main

// Parallel exploration of the path tree.

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type RunCfg struct {
	Pkg      string           `json:"pkg"`
	Fn       string           `json:"fn"`
	Params   map[string]int   `json:"params"`
	Thorough map[string]int   `json:"thorough"`
	Steps    int64            `json:"steps"`
	Alloc    int64            `json:"alloc"`
	Covers   []string         `json:"covers"`
	Budget   int              `json:"budget"`  // seconds, quick
	BudgetT  int              `json:"budgetT"` // seconds, thorough
	Samples  int              `json:"samples"`
	MS       int              `json:"ms"` // native time limit per vector
	Quick    *bool            `json:"quick"`
	NoMerge  bool             `json:"nomerge"`
	Seq      bool             `json:"seq"`
	Tiers    []map[string]int `json:"sweep"` // parameter sets run one after another
	SweepT   []map[string]int `json:"sweepT"`
}

type RunStats struct {
	Fn          string           `json:"harness"`
	Pkg         string           `json:"package"`
	Params      map[string]int   `json:"params,omitempty"`
	Paths       int64            `json:"paths_completed"`
	Outcomes    map[string]int64 `json:"outcomes"`
	Steps       int64            `json:"ssa_instructions"`
	Forks       int64            `json:"forks"`
	Merges      int64            `json:"state_merges"`
	Complete    bool             `json:"exhaustive_within_bounds"`
	Left        int              `json:"unexplored_prefixes"`
	Seconds     float64          `json:"seconds"`
	Solver      SolverStats      `json:"solver"`
	Covers      map[string]int64 `json:"covers"`
	Unknown     map[string]int64 `json:"unknown,omitempty"`
	Unsupported map[string]int64 `json:"unsupported,omitempty"`
	Functions   []string         `json:"-"`
	Samples     []Sample         `json:"-"`
	Viol        []*FoundViol     `json:"-"`
	SampleN     int              `json:"sampled_paths_replayed"`
	SampleOK    int              `json:"sampled_paths_agreeing"`
	Errs        []string         `json:"errors,omitempty"`
}

type Sample struct {
	In  []ReplayVal
	Obs []string
}

type FoundViol struct {
	V     Violation
	Key   string
	Run   *RunStats
	Cfg   *RunCfg
	Count int64
	Alts  []Violation
}

type workQ struct {
	mu    sync.Mutex
	cond  *sync.Cond
	stack []pending
	idle  int
	n     int
	stop  bool
}

type Explorer struct {
	sh      *Shared
	workers []*Exec
	seed    int64
}

func NewExplorer(sh *Shared, n int, seed int64) *Explorer {
	e := &Explorer{sh: sh, seed: seed, workers: make([]*Exec, n)}
	var wg sync.WaitGroup
	for i := range e.workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.workers[i] = NewExec(sh)
		}()
	}
	wg.Wait()
	return e
}

func (e *Explorer) Close() {
	for _, w := range e.workers {
		w.sol.close()
	}
}

func (e *Explorer) Run(cfg *RunCfg, entry *ssa.Function, params map[string]int, budget time.Duration, cross int, timeoutMS int) *RunStats {
	st := &RunStats{Fn: cfg.Fn, Pkg: cfg.Pkg, Params: params, Outcomes: map[string]int64{}, Covers: map[string]int64{}, Unknown: map[string]int64{}, Unsupported: map[string]int64{}}
	q := &workQ{n: len(e.workers)}
	q.cond = sync.NewCond(&q.mu)
	q.stack = []pending{{}}
	t0 := time.Now()
	deadline := t0.Add(budget)
	var mu sync.Mutex
	viol := map[string]*FoundViol{}
	fns := map[string]bool{}
	rng := rand.New(rand.NewSource(e.seed))
	maxSamples := cfg.Samples
	if maxSamples == 0 {
		maxSamples = 48
	}
	okSeen := int64(0)
	var firstViol time.Time
	var wg sync.WaitGroup
	timer := time.AfterFunc(budget, func() {
		q.mu.Lock()
		q.stop = true
		q.cond.Broadcast()
		q.mu.Unlock()
	})
	defer timer.Stop()
	for wi := range e.workers {
		wg.Add(1)
		go func(wi int) {
			defer wg.Done()
			x := e.workers[wi]
			x.P.noMerge = cfg.NoMerge
			x.params = params
			x.maxSteps = cfg.Steps
			if x.maxSteps == 0 {
				x.maxSteps = 3_000_000
			}
			x.allocCap = cfg.Alloc
			if x.allocCap == 0 {
				x.allocCap = 1 << 24
			}
			x.hit = map[string]int64{}
			x.forks, x.merges = 0, 0
			x.fnSeen = map[*CFn]bool{}
			x.fork = func(p pending) {
				q.mu.Lock()
				q.stack = append(q.stack, p)
				if q.idle > 0 {
					q.cond.Signal()
				}
				q.mu.Unlock()
			}
			x.sol.st = SolverStats{}
			x.sol.timeout = timeoutMS
			x.sol.cross = cross
			for {
				q.mu.Lock()
				for len(q.stack) == 0 && !q.stop {
					q.idle++
					if q.idle == q.n {
						q.stop = true
						q.cond.Broadcast()
						break
					}
					q.cond.Wait()
					q.idle--
				}
				if q.stop {
					q.mu.Unlock()
					break
				}
				p := q.stack[len(q.stack)-1]
				q.stack = q.stack[:len(q.stack)-1]
				q.mu.Unlock()
				var res PathResult
				func() {
					defer func() {
						if r := recover(); r != nil {
							res.Out = outUnsupported
							res.Msg = fmt.Sprintf("engine: %v", r)
							if os.Getenv("VX_DEBUG") != "" {
								panic(r)
							}
						}
					}()
					res = x.RunPath(entry, p)
				}()
				if x.tt.n > 4_000_000 {
					x.sol.close()
					old := x.sol
					x.tt = NewTermTable()
					x.sol = NewSolver(x.tt)
					x.sol.st, x.sol.timeout, x.sol.cross, x.sol.errs = old.st, old.timeout, old.cross, old.errs
				}
				mu.Lock()
				st.Paths++
				st.Outcomes[outcomeName[res.Out]]++
				if res.Out == outUnsupported || res.Out == outUnknown {
					st.Unsupported[res.Msg]++
				}
				for _, c := range res.Covers {
					st.Covers[c]++
				}
				for _, v := range res.Violations {
					key := v.Kind + "|" + v.Msg + "|" + v.Where
					f := viol[key]
					if f == nil {
						f = &FoundViol{V: v, Key: key, Run: st, Cfg: cfg}
						viol[key] = f
						st.Viol = append(st.Viol, f)
						if firstViol.IsZero() {
							firstViol = time.Now()
						}
					} else if len(f.Alts) < 6 {
						f.Alts = append(f.Alts, v)
					}
					f.Count++
				}
				if res.Out == outOK {
					okSeen++
					if len(st.Samples) < maxSamples {
						st.Samples = append(st.Samples, Sample{res.Inputs, res.Obs})
					} else if k := rng.Int63n(okSeen); k < int64(maxSamples) {
						st.Samples[k] = Sample{res.Inputs, res.Obs}
					}
				}
				if !firstViol.IsZero() {
					lim := 15 * time.Second
					if time.Since(firstViol) > lim {
						q.mu.Lock()
						q.stop = true
						q.cond.Broadcast()
						q.mu.Unlock()
					}
				}
				mu.Unlock()
				if time.Now().After(deadline) {
					q.mu.Lock()
					q.stop = true
					q.cond.Broadcast()
					q.mu.Unlock()
				}
			}
			mu.Lock()
			st.Forks += x.forks
			st.Merges += x.merges
			st.Steps += x.totalSteps
			x.totalSteps = 0
			st.Solver.add(&x.sol.st)
			for k, v := range x.hit {
				st.Unknown[k] += v
			}
			for f := range x.fnSeen {
				fns[f.name] = true
			}
			if len(x.sol.errs) > 0 {
				st.Errs = append(st.Errs, x.sol.errs...)
				x.sol.errs = nil
			}
			mu.Unlock()
		}(wi)
	}
	wg.Wait()
	st.Left = len(q.stack)
	st.Complete = st.Left == 0 && st.Outcomes[outcomeName[outUnsupported]] == 0 && st.Outcomes[outcomeName[outUnknown]] == 0 && len(st.Unknown) == 0 && st.Outcomes[outcomeName[outStepLimit]] == 0
	st.Seconds = time.Since(t0).Seconds()
	for f := range fns {
		st.Functions = append(st.Functions, f)
	}
	sort.Strings(st.Functions)
	return st
}

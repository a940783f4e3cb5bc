package main

// Path-constraint solving: cached models, per-variable domain tables, independence slicing and z3 over a pipe.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type SolverStats struct {
	Z3Queries, Z3Sat, Z3Unsat, Z3Unknown int64
	DomainHits, ModelHits, CacheHits     int64
	AssertQueries, AssertUnsat           int64
	CrossChecked, CrossDisagree          int64
	Nanos                                int64
	MaxQueryNanos                        int64
}

func (a *SolverStats) add(b *SolverStats) {
	a.Z3Queries += b.Z3Queries
	a.Z3Sat += b.Z3Sat
	a.Z3Unsat += b.Z3Unsat
	a.Z3Unknown += b.Z3Unknown
	a.DomainHits += b.DomainHits
	a.ModelHits += b.ModelHits
	a.CacheHits += b.CacheHits
	a.AssertQueries += b.AssertQueries
	a.AssertUnsat += b.AssertUnsat
	a.CrossChecked += b.CrossChecked
	a.CrossDisagree += b.CrossDisagree
	a.Nanos += b.Nanos
	if b.MaxQueryNanos > a.MaxQueryNanos {
		a.MaxQueryNanos = b.MaxQueryNanos
	}
}

type Z3 struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	gen     uint32
	queries int
	inPipe  io.WriteCloser
	log     *os.File
}

var z3Path = "z3-new"

func NewZ3(gen uint32, timeoutMS int) (*Z3, error) {
	cmd := exec.Command(z3Path, "-in", "-smt2")
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	z := &Z3{cmd: cmd, in: bufio.NewWriterSize(in, 1<<16), out: bufio.NewReaderSize(out, 1<<16), gen: gen, inPipe: in}
	fmt.Fprintf(z.in, "(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout %d)\n(set-logic QF_BV)\n", timeoutMS)
	return z, nil
}

func (z *Z3) Close() {
	z.inPipe.Close()
	z.cmd.Process.Kill()
	z.cmd.Wait()
}

// Query checks the conjunction of cs. On sat, returns values of vars.
func (z *Z3) Query(cs []*Term, vars []*Term) (res string, vals []uint64, err error) {
	var sb strings.Builder
	for _, c := range cs {
		c.defs(&sb, z.gen, nil)
	}
	sb.WriteString("(push 1)\n")
	for _, c := range cs {
		sb.WriteString("(assert ")
		sb.WriteString(c.ref())
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	z.in.WriteString(sb.String())
	if err = z.in.Flush(); err != nil {
		return
	}
	line, err := z.out.ReadString('\n')
	if err != nil {
		return
	}
	res = strings.TrimSpace(line)
	if strings.HasPrefix(res, "(error") {
		return "", nil, fmt.Errorf("solver: %s\nquery:\n%s", res, sb.String())
	}
	z.queries++
	if res == "sat" && len(vars) > 0 {
		z.in.WriteString("(get-value (")
		for _, v := range vars {
			z.in.WriteString(v.varName())
			z.in.WriteByte(' ')
		}
		z.in.WriteString("))\n")
	}
	z.in.WriteString("(pop 1)\n")
	if err = z.in.Flush(); err != nil {
		return
	}
	if res == "sat" && len(vars) > 0 {
		// read balanced s-expr
		depth := 0
		var txt strings.Builder
		for {
			b, e := z.out.ReadByte()
			if e != nil {
				return res, nil, e
			}
			txt.WriteByte(b)
			if b == '(' {
				depth++
			} else if b == ')' {
				depth--
				if depth == 0 {
					break
				}
			}
		}
		z.out.ReadString('\n')
		s := txt.String()
		if strings.HasPrefix(s, "(error") {
			return "", nil, fmt.Errorf("solver: %s", s)
		}
		vals = parseValues(s, len(vars))
		if len(vals) != len(vars) {
			return "", nil, fmt.Errorf("solver: cannot parse model %q", s)
		}
	}
	return
}

// parses ((x #x00) (y true) ...)
func parseValues(s string, n int) []uint64 {
	out := make([]uint64, 0, n)
	i := 1
	for i < len(s) {
		j := strings.IndexByte(s[i:], '(')
		if j < 0 {
			break
		}
		i += j + 1
		sp := strings.IndexByte(s[i:], ' ')
		i += sp + 1
		e := strings.IndexByte(s[i:], ')')
		tok := s[i : i+e]
		switch {
		case tok == "true":
			out = append(out, 1)
		case tok == "false":
			out = append(out, 0)
		case strings.HasPrefix(tok, "#x"):
			v, _ := strconv.ParseUint(tok[2:], 16, 64)
			out = append(out, v)
		case strings.HasPrefix(tok, "#b"):
			v, _ := strconv.ParseUint(tok[2:], 2, 64)
			out = append(out, v)
		default:
			return nil
		}
		i += e + 1
	}
	return out
}

// Solver belongs to one worker.
type Solver struct {
	tt      *TermTable
	z       *Z3
	gen     uint32
	st      SolverStats
	cache   map[string]cacheEnt
	timeout int
	cross   int // cross-check every n-th unsat assertion query with cvc5 (0 = off)
	crossN  int
	errs    []string
}

type cacheEnt struct {
	sat  int8 // 1 sat, 0 unsat, -1 unknown
	vars []int32
	vals []uint64
}

func NewSolver(tt *TermTable) *Solver {
	return &Solver{tt: tt, cache: map[string]cacheEnt{}, timeout: 20000}
}

func (s *Solver) close() {
	if s.z != nil {
		s.z.Close()
		s.z = nil
	}
}

// PathCond is the constraint store of one path.
type PathCond struct {
	tt    *TermTable
	cs    []*Term
	byVar map[int32][]int32 // var -> constraint indices
	dom   map[int32]*[4]uint64
	multi map[int32]bool // var occurs in a constraint that is not unary-tabled
	vars  []*Term
	model []uint64
	extra []*Term
}

func NewPathCond(tt *TermTable) *PathCond {
	return &PathCond{tt: tt, byVar: map[int32][]int32{}, dom: map[int32]*[4]uint64{}, multi: map[int32]bool{}}
}

func fullDom(w uint8) *[4]uint64 {
	var r [4]uint64
	for x := 0; x < 1<<w; x++ {
		r[x>>6] |= 1 << (x & 63)
	}
	return &r
}

func (p *PathCond) unary(t *Term) bool {
	return len(t.sup) == 1 && p.vars[t.sup[0]].w <= 8 && p.vars[t.sup[0]].w > 0
}

// Add records a constraint (no feasibility check).
func (p *PathCond) Add(t *Term) {
	if t.op == OConst {
		return
	}
	if t.op == OBAnd {
		p.Add(t.a)
		p.Add(t.b)
		return
	}
	if p.unary(t) {
		v := t.sup[0]
		tab := p.tt.TT(t, p.vars[v])
		d := p.dom[v]
		if d == nil {
			d = fullDom(p.vars[v].w)
		}
		n := *d
		for i := range n {
			n[i] &= tab[i]
		}
		p.dom[v] = &n
	} else {
		for _, v := range t.sup {
			p.multi[v] = true
		}
	}
	i := int32(len(p.cs))
	p.cs = append(p.cs, t)
	for _, v := range t.sup {
		p.byVar[v] = append(p.byVar[v], i)
	}
}

// relevant returns the constraints connected to t's variables.
func (p *PathCond) relevant(t *Term) ([]*Term, []int32) {
	seenV := map[int32]bool{}
	seenC := map[int32]bool{}
	work := append([]int32{}, t.sup...)
	for _, v := range work {
		seenV[v] = true
	}
	var cs []*Term
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		for _, ci := range p.byVar[v] {
			if seenC[ci] {
				continue
			}
			seenC[ci] = true
			c := p.cs[ci]
			cs = append(cs, c)
			for _, u := range c.sup {
				if !seenV[u] {
					seenV[u] = true
					work = append(work, u)
				}
			}
		}
	}
	vs := make([]int32, 0, len(seenV))
	for v := range seenV {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
	return cs, vs
}

// Check decides satisfiability of pc ∧ t. 1 sat (with updated model), 0 unsat, -1 unknown.
func (s *Solver) Check(p *PathCond, t *Term) (int, []uint64) {
	if isC(t) {
		return int(t.val & 1), p.model
	}
	if s.tt.Eval(t, p.model) != 0 {
		s.st.ModelHits++
		return 1, p.model
	}
	if p.unary(t) {
		v := t.sup[0]
		tab := *s.tt.TT(t, p.vars[v])
		if d := p.dom[v]; d != nil {
			for i := range tab {
				tab[i] &= d[i]
			}
		}
		if tab == [4]uint64{} {
			s.st.DomainHits++
			return 0, nil
		}
		if !p.multi[v] {
			s.st.DomainHits++
			m := append([]uint64{}, p.model...)
			for int(v) >= len(m) {
				m = append(m, 0)
			}
			for x := 0; x < 256; x++ {
				if tab[x>>6]>>(x&63)&1 != 0 {
					m[v] = uint64(x)
					break
				}
			}
			return 1, m
		}
	}
	return s.query(p, t, false)
}

func (s *Solver) query(p *PathCond, t *Term, isAssert bool) (int, []uint64) {
	cs, vs := p.relevant(t)
	ids := make([]int, 0, len(cs)+1)
	for _, c := range cs {
		ids = append(ids, int(c.id))
	}
	sort.Ints(ids)
	kb := make([]byte, 0, 4*len(ids)+4)
	for _, i := range ids {
		kb = append(kb, byte(i), byte(i>>8), byte(i>>16), byte(i>>24))
	}
	kb = append(kb, '|', byte(t.id), byte(t.id>>8), byte(t.id>>16), byte(t.id>>24))
	key := string(kb)
	e, ok := s.cache[key]
	if ok {
		s.st.CacheHits++
	} else {
		all := append(append([]*Term{}, cs...), t)
		vts := make([]*Term, len(vs))
		for i, v := range vs {
			vts[i] = p.vars[v]
		}
		res, vals := s.run(all, vts)
		e = cacheEnt{sat: -1}
		switch res {
		case "sat":
			e = cacheEnt{sat: 1, vars: vs, vals: vals}
		case "unsat":
			e = cacheEnt{sat: 0}
			if isAssert && s.cross > 0 {
				s.crossN++
				if s.crossN%s.cross == 0 {
					s.crossCheck(all)
				}
			}
		}
		if len(s.cache) > 400000 {
			s.cache = map[string]cacheEnt{}
		}
		s.cache[key] = e
	}
	if e.sat == 1 {
		m := append([]uint64{}, p.model...)
		for i, v := range e.vars {
			for int(v) >= len(m) {
				m = append(m, 0)
			}
			m[v] = e.vals[i]
		}
		return 1, m
	}
	return int(e.sat), nil
}

func (s *Solver) run(cs []*Term, vars []*Term) (string, []uint64) {
	for attempt := 0; attempt < 2; attempt++ {
		if s.z == nil || s.z.queries > 200000 {
			s.close()
			s.gen++
			z, err := NewZ3(s.gen, s.timeout)
			if err != nil {
				s.errs = append(s.errs, err.Error())
				return "unknown", nil
			}
			s.z = z
		}
		t0 := time.Now()
		res, vals, err := s.z.Query(cs, vars)
		d := time.Since(t0).Nanoseconds()
		s.st.Nanos += d
		s.st.Z3Queries++
		if d > s.st.MaxQueryNanos {
			s.st.MaxQueryNanos = d
		}
		if err != nil {
			s.errs = append(s.errs, err.Error())
			s.close()
			continue
		}
		switch res {
		case "sat":
			s.st.Z3Sat++
		case "unsat":
			s.st.Z3Unsat++
		default:
			s.st.Z3Unknown++
			res = "unknown"
		}
		return res, vals
	}
	return "unknown", nil
}

// standalone renders an SMT-LIB2 script for the conjunction of cs.
func standalone(cs []*Term, gen uint32) string {
	var sb strings.Builder
	sb.WriteString("(set-logic QF_BV)\n")
	for _, c := range cs {
		c.defs(&sb, gen, nil)
	}
	for _, c := range cs {
		sb.WriteString("(assert " + c.ref() + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

// crossCheck re-decides an unsat assertion query with cvc5.
func (s *Solver) crossCheck(cs []*Term) {
	// definitions must be re-emitted: use a scratch generation, then force z3 restart marks by bumping back
	saved := map[*Term]uint32{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if t == nil {
			return
		}
		if _, ok := saved[t]; ok {
			return
		}
		saved[t] = t.defined
		mark(t.a)
		mark(t.b)
		mark(t.c)
	}
	for _, c := range cs {
		mark(c)
	}
	txt := standalone(cs, ^uint32(0))
	for t, g := range saved {
		t.defined = g
	}
	cmd := exec.Command("cvc5", "--lang=smt2", "--tlimit=20000", "-")
	cmd.Stdin = strings.NewReader(txt)
	out, _ := cmd.Output()
	r := strings.TrimSpace(string(out))
	if r == "unsat" {
		s.st.CrossChecked++
	} else if r == "sat" {
		s.st.CrossDisagree++
		s.errs = append(s.errs, "cvc5 disagrees with z3 on an unsat query")
	}
}

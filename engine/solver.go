package main

import (
	"bufio"
	"fmt"
	"io"
	"math/bits"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Solver drives one z3 process over SMT-LIB2.
type Solver struct {
	ts        *TermStore
	cmd       *exec.Cmd
	in        io.WriteCloser
	out       *bufio.Reader
	Queries   int64
	Sat       int64
	Unsat     int64
	Unknown   int64
	CacheHits int64
	Domain    int64 // feasibility decided on an exact byte domain
	Time      time.Duration
	cache     map[string]*qres
	timeout   int
	gen       int64
}

type qres struct {
	sat  int // 1 sat, 0 unsat, -1 unknown
	vals map[int32]uint64
}

func NewSolver(ts *TermStore, timeoutMs int) (*Solver, error) {
	s := &Solver{ts: ts, cache: map[string]*qres{}, timeout: timeoutMs}
	return s, s.start()
}

func (s *Solver) start() error {
	bin := "z3"
	if p, err := exec.LookPath("z3-new"); err == nil {
		bin = p
	}
	cmd := exec.Command(bin, "-in", "-smt2")
	in, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := cmd.Start(); err != nil {
		return err
	}
	s.cmd, s.in, s.out = cmd, in, bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(in, "(set-option :print-success false)\n(set-option :timeout %d)\n", s.timeout)
	return nil
}

// Restart begins a new solver session.
func (s *Solver) Restart() {
	s.Close()
	s.start()
	s.gen = s.ts.NewGen()
	s.ts.ndef = 0
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Check decides satisfiability of pc ∧ extra, where only the part of pc that
// shares variables (transitively) with extra is sent; base is a model of pc.
// With prune set (path feasibility, never assertions) predicates over a single
// byte are decided on its exact domain instead of by the solver.
// Returns 1/0/-1 and, when sat, a model of the whole conjunction.
func (s *Solver) Check(pc []*Term, extra *Term, base *Model, prune bool) (int, *Model) {
	if extra == s.ts.False {
		return 0, nil
	}
	// independence slicing
	need := map[int32]bool{}
	for _, v := range s.ts.varsOf(extra) {
		need[v] = true
	}
	var rel []*Term
	used := make([]bool, len(pc))
	for changed := true; changed; {
		changed = false
		for i := len(pc) - 1; i >= 0; i-- {
			if used[i] {
				continue
			}
			vs := s.ts.varsOf(pc[i])
			hit := false
			for _, v := range vs {
				if need[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				rel = append(rel, pc[i])
				for _, v := range vs {
					if !need[v] {
						need[v] = true
						changed = true
					}
				}
			}
		}
	}
	if prune && len(need) == 1 {
		// one byte: the feasible set is known exactly
		var v int32
		for v = range need {
		}
		if w := varWidth(v); w <= 8 {
			d := *s.ts.domain(extra, v, w)
			for _, t := range rel {
				e := s.ts.domain(t, v, w)
				for i := range d {
					d[i] &= e[i]
				}
			}
			s.Domain++
			for i := range d {
				if d[i] != 0 {
					m := &Model{vals: make([]uint64, varCount())}
					if base != nil {
						copy(m.vals, base.vals)
					}
					m.vals[v] = uint64(i*64 + bits.TrailingZeros64(d[i]))
					return 1, m
				}
			}
			return 0, nil
		}
	}
	if prune && len(need) > 1 {
		// a byte whose own constraints already exclude every value
		if vs := s.ts.varsOf(extra); len(vs) == 1 {
			v := vs[0]
			if w := varWidth(v); w <= 8 {
				d := *s.ts.domain(extra, v, w)
				for _, t := range rel {
					if tv := s.ts.varsOf(t); len(tv) == 1 && tv[0] == v {
						e := s.ts.domain(t, v, w)
						for i := range d {
							d[i] &= e[i]
						}
					}
				}
				if d == [4]uint64{} {
					s.Domain++
					return 0, nil
				}
			}
		}
	}
	ids := make([]int, 0, len(rel)+1)
	for _, t := range rel {
		ids = append(ids, int(t.id))
	}
	sort.Ints(ids)
	var kb strings.Builder
	for i, id := range ids {
		if i > 0 && ids[i-1] == id {
			continue
		}
		kb.WriteString(strconv.Itoa(id))
		kb.WriteByte(',')
	}
	kb.WriteByte('|')
	kb.WriteString(strconv.Itoa(int(extra.id)))
	key := kb.String()
	r, ok := s.cache[key]
	if ok {
		s.CacheHits++
	} else {
		r = s.query(rel, extra, need)
		if len(s.cache) > 200000 {
			s.cache = map[string]*qres{}
		}
		s.cache[key] = r
	}
	if r.sat != 1 {
		return r.sat, nil
	}
	m := &Model{vals: make([]uint64, varCount())}
	if base != nil {
		copy(m.vals, base.vals)
	}
	for k, v := range r.vals {
		m.vals[k] = v
	}
	return 1, m
}

func (s *Solver) query(rel []*Term, extra *Term, need map[int32]bool) *qres {
	t0 := time.Now()
	s.Queries++
	var sb strings.Builder
	// terms are defined once per solver session, at the outermost level
	if s.gen == 0 || s.ts.ndef > 150000 {
		s.Restart()
	}
	for _, t := range rel {
		s.ts.emit(&sb, t, s.gen)
	}
	s.ts.emit(&sb, extra, s.gen)
	sb.WriteString("(push)\n")
	for _, t := range rel {
		sb.WriteString("(assert " + s.ts.ref(t) + ")\n")
	}
	sb.WriteString("(assert " + s.ts.ref(extra) + ")\n(check-sat)\n")
	var vs []int32
	for v := range need {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
	io.WriteString(s.in, sb.String())
	if dumpAll != nil {
		dumpAll.WriteString(sb.String() + "(pop)\n")
	}
	line := s.readLine()
	res := &qres{}
	switch line {
	case "sat":
		s.Sat++
		res.sat = 1
		res.vals = map[int32]uint64{}
		if len(vs) > 0 {
			var q strings.Builder
			q.WriteString("(get-value (")
			for _, v := range vs {
				fmt.Fprintf(&q, "v%d ", v)
			}
			q.WriteString("))\n")
			io.WriteString(s.in, q.String())
			txt := s.readSexp()
			parseValues(txt, res.vals)
		}
	case "unsat":
		s.Unsat++
	default:
		s.Unknown++
		res.sat = -1
		if line == "" || strings.HasPrefix(line, "(error") {
			// protocol trouble: restart the process
			s.Restart()
			s.Time += time.Since(t0)
			return res
		}
	}
	io.WriteString(s.in, "(pop)\n")
	d := time.Since(t0)
	s.Time += d
	if slowDir != "" && d > 2*time.Second {
		os.WriteFile(fmt.Sprintf("%s/q%d-%d-%s.smt2", slowDir, os.Getpid(), time.Now().UnixNano(), strings.Fields(line + " ?")[0]), []byte(sb.String()), 0o644)
	}
	return res
}

var dumpAll = func() *os.File {
	if p := os.Getenv("SYMGO_DUMP"); p != "" {
		f, _ := os.Create(p)
		return f
	}
	return nil
}()

var slowDir = os.Getenv("SYMGO_SLOW")

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		return ""
	}
	return strings.TrimSpace(l)
}

func (s *Solver) readSexp() string {
	var sb strings.Builder
	depth := 0
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return sb.String()
		}
		for _, c := range l {
			if c == '(' {
				depth++
			} else if c == ')' {
				depth--
			}
		}
		sb.WriteString(l)
		if depth <= 0 {
			return sb.String()
		}
	}
}

// parseValues parses ((v1 #x0a) (v2 true) ...).
func parseValues(txt string, out map[int32]uint64) {
	txt = strings.NewReplacer("(", " ", ")", " ", "\n", " ").Replace(txt)
	f := strings.Fields(txt)
	for i := 0; i+1 < len(f); i++ {
		if f[i][0] != 'v' {
			continue
		}
		ix, err := strconv.Atoi(f[i][1:])
		if err != nil {
			continue
		}
		v := f[i+1]
		var x uint64
		switch {
		case v == "true":
			x = 1
		case v == "false":
			x = 0
		case strings.HasPrefix(v, "#x"):
			x, _ = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			x, _ = strconv.ParseUint(v[2:], 2, 64)
		}
		out[int32(ix)] = x
		i++
	}
}

package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type result int

const (
	resUnsat result = iota
	resSat
	resUnknown
)

// Solver drives one SMT solver process over a pipe.
type Solver struct {
	x       *Exec
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	emitted map[*Term]bool
	cache   map[string]cacheEnt
	sb      strings.Builder
	nEmit   int
}

type cacheEnt struct {
	r    result
	vars []int
	vals []uint64
}

func newSolver(x *Exec) *Solver {
	return &Solver{x: x, emitted: map[*Term]bool{}, cache: map[string]cacheEnt{}}
}

// slowQuery: queries which take longer are shown (for debugging)
var slowQuery, _ = time.ParseDuration(os.Getenv("VERIF_SLOWQ"))

var solverBin = "z3-new"
var solverArgs = []string{"-in", "-smt2"}

func (s *Solver) start() {
	s.cmd = exec.Command(solverBin, solverArgs...)
	var err error
	s.in, err = s.cmd.StdinPipe()
	if err != nil {
		fatalf("solver: %v", err)
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		fatalf("solver: %v", err)
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		fatalf("solver: %v", err)
	}
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :timeout %d)\n(set-logic QF_BV)\n", s.x.S.queryTimeout.Milliseconds())
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
		s.emitted = map[*Term]bool{}
	}
}

// check: is pc ∧ neg satisfiable?  On sat, returns a model of the whole pc.
func (s *Solver) check(neg *Term) (result, Model) {
	x := s.x
	if neg.isC() {
		if neg.k == 0 {
			return resUnsat, nil
		}
		return resSat, x.model
	}
	// independence slicing
	vs := neg.vars
	sel := make([]bool, len(x.pc))
	var lits []*Term
	for changed := true; changed; {
		changed = false
		for i, p := range x.pc {
			if !sel[i] && p.vars.intersects(vs) {
				sel[i] = true
				changed = true
				vs = unionVars(vs, p.vars)
				lits = append(lits, p)
			}
		}
	}
	ids := make([]int, 0, len(lits)+1)
	for _, l := range lits {
		ids = append(ids, int(l.id))
	}
	sort.Ints(ids)
	var kb strings.Builder
	for _, i := range ids {
		kb.WriteString(strconv.Itoa(i))
		kb.WriteByte(',')
	}
	kb.WriteByte('|')
	kb.WriteString(strconv.Itoa(int(neg.id)))
	key := kb.String()
	ent, ok := s.cache[key]
	if !ok {
		lits = append(lits, neg)
		ent = s.query(lits, vs)
		s.cache[key] = ent
	} else {
		x.S.cacheHits.Add(1)
	}
	if ent.r != resSat {
		return ent.r, nil
	}
	m := make(Model, len(x.model))
	copy(m, x.model)
	for i, v := range ent.vars {
		for len(m) <= v {
			m = append(m, 0)
		}
		m[v] = ent.vals[i]
	}
	return resSat, m
}

func varsOf(vs *varSet) []int {
	var r []int
	for i, b := range vs.bits {
		for j := 0; b != 0; j++ {
			if b&1 != 0 {
				r = append(r, i*64+j)
			}
			b >>= 1
		}
	}
	return r
}

func (s *Solver) query(lits []*Term, vs *varSet) cacheEnt {
	x := s.x
	t0 := time.Now()
	defer func() {
		x.S.queries.Add(1)
		x.S.solverNanos.Add(int64(time.Since(t0)))
		if slowQuery > 0 && time.Since(t0) > slowQuery {
			var b strings.Builder
			for _, l := range lits {
				b.WriteString("  " + l.String() + "\n")
			}
			fmt.Fprintf(os.Stderr, "SLOW %v\n%s", time.Since(t0), b.String())
		}
	}()
	if s.cmd == nil {
		s.start()
	}
	sb := &s.sb
	sb.Reset()
	for _, l := range lits {
		emitDefs(sb, l, func(t *Term) bool { return s.emitted[t] }, func(t *Term) { s.emitted[t] = true; s.nEmit++ })
	}
	vars := varsOf(vs)
	for _, v := range vars {
		t := x.tt.varList[v]
		if !s.emitted[t] {
			emitDefs(sb, t, func(t *Term) bool { return s.emitted[t] }, func(t *Term) { s.emitted[t] = true })
		}
	}
	sb.WriteString("(push 1)\n")
	for _, l := range lits {
		sb.WriteString("(assert ")
		sb.WriteString(ref(l))
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.close()
		return cacheEnt{r: resUnknown}
	}
	line := s.readLine()
	var ent cacheEnt
	switch line {
	case "sat":
		ent.r = resSat
		x.S.sat.Add(1)
		if len(vars) > 0 {
			sb.Reset()
			sb.WriteString("(get-value (")
			for _, v := range vars {
				fmt.Fprintf(sb, "v%d ", v)
			}
			sb.WriteString("))\n")
			io.WriteString(s.in, sb.String())
			txt := s.readSexp()
			ent.vars = vars
			ent.vals = make([]uint64, len(vars))
			parseValues(txt, vars, ent.vals)
		}
	case "unsat":
		ent.r = resUnsat
		x.S.unsat.Add(1)
	default:
		ent.r = resUnknown
		if strings.Contains(line, "error") || line == "" {
			x.S.solverErr.Store(line)
			s.close()
			return ent
		}
	}
	io.WriteString(s.in, "(pop 1)\n")
	if x.S.crossN > 0 && ent.r != resUnknown && x.S.queries.Load()%int64(x.S.crossN) == 0 {
		x.S.crossCheck(lits, vars, x, ent.r)
	}
	return ent
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return ""
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

func (s *Solver) readSexp() string {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return sb.String()
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
			started = true
		}
		if b == ')' {
			depth--
		}
		if started && depth == 0 {
			return sb.String()
		}
	}
}

func parseValues(txt string, vars []int, vals []uint64) {
	pos := map[int]int{}
	for i, v := range vars {
		pos[v] = i
	}
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' })
	for i := 0; i+1 < len(f); i++ {
		if f[i][0] != 'v' {
			continue
		}
		n, err := strconv.Atoi(f[i][1:])
		if err != nil {
			continue
		}
		var val uint64
		t := f[i+1]
		switch {
		case strings.HasPrefix(t, "#x"):
			val, _ = strconv.ParseUint(t[2:], 16, 64)
		case strings.HasPrefix(t, "#b"):
			val, _ = strconv.ParseUint(t[2:], 2, 64)
		case t == "true":
			val = 1
		case t == "false":
			val = 0
		case t == "_" && i+2 < len(f): // (_ bvN w)
			val, _ = strconv.ParseUint(strings.TrimPrefix(f[i+2], "bv"), 10, 64)
		}
		if p, ok := pos[n]; ok {
			vals[p] = val
		}
		i++
	}
}

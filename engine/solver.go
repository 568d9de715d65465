package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver is one long-lived z3 process.
type Solver struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	bin   string
	args  []string
	tmo   time.Duration
	sent  time.Duration // timeout the solver process was told
	stats *SolverStats
	log   io.Writer
}

type SolverStats struct {
	Queries, Sat, Unsat, Unknown, CacheHits, ModelHits, Portfolio int
	Time                                              time.Duration
	MaxTime                                           time.Duration
}

func (s *SolverStats) add(o *SolverStats) {
	s.Queries += o.Queries
	s.Sat += o.Sat
	s.Unsat += o.Unsat
	s.Unknown += o.Unknown
	s.CacheHits += o.CacheHits
	s.ModelHits += o.ModelHits
	s.Portfolio += o.Portfolio
	s.Time += o.Time
	if o.MaxTime > s.MaxTime {
		s.MaxTime = o.MaxTime
	}
}

func NewSolver(bin string, tmo time.Duration, stats *SolverStats) (*Solver, error) {
	s := &Solver{bin: bin, tmo: tmo, stats: stats}
	return s, s.start()
}

func (s *Solver) start() error {
	var args []string
	if strings.Contains(s.bin, "cvc5") {
		args = []string{"--incremental", "--produce-models", fmt.Sprintf("--tlimit-per=%d", s.tmo.Milliseconds())}
	} else {
		args = []string{"-in"}
	}
	s.cmd = exec.Command(s.bin, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	if err := s.cmd.Start(); err != nil {
		return err
	}
	if strings.Contains(s.bin, "cvc5") {
		fmt.Fprintf(s.in, "(set-logic QF_BVFP)\n")
	} else {
		s.sent = 0
		fmt.Fprintf(s.in, "(set-option :global-declarations true)\n")
	}
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

// Check decides the conjunction of the given terms; on Sat, returns values of vars.
func (s *Solver) Check(conj []*Term, vars []*Term) (SatResult, map[int]uint64, error) {
	var sb strings.Builder
	for _, c := range conj {
		c.emit(&sb)
	}
	for _, v := range vars {
		v.emit(&sb)
	}
	if s.tmo != s.sent && !strings.Contains(s.bin, "cvc5") {
		s.sent = s.tmo
		fmt.Fprintf(&sb, "(set-option :timeout %d)\n", max(s.tmo/4, time.Second).Milliseconds())
	}
	sb.WriteString("(push)\n")
	for _, c := range conj {
		fmt.Fprintf(&sb, "(assert %s)\n", c.ref())
	}
	sb.WriteString("(check-sat)\n")
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.stats.Time += d
		if d > s.stats.MaxTime {
			s.stats.MaxTime = d
		}
		if slowDir != "" && d > time.Second {
			os.WriteFile(fmt.Sprintf("%s/%d-%dms.smt2", slowDir, time.Now().UnixNano(), d.Milliseconds()), []byte(fresh(conj, vars)), 0o644)
		}
	}()
	s.stats.Queries++
	if s.log != nil {
		io.WriteString(s.log, sb.String())
	}
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		return Unknown, nil, err
	}
	line, err := s.line()
	if err != nil {
		return Unknown, nil, err
	}
	switch line {
	case "unsat":
		s.stats.Unsat++
		io.WriteString(s.in, "(pop)\n")
		return Unsat, nil, nil
	case "sat":
		s.stats.Sat++
		res := map[int]uint64{}
		if len(vars) > 0 {
			var q strings.Builder
			q.WriteString("(get-value (")
			for _, v := range vars {
				q.WriteString(v.ref())
				q.WriteString(" ")
			}
			q.WriteString("))\n(pop)\n")
			io.WriteString(s.in, q.String())
			sx, err := s.sexpr()
			if err != nil {
				return Unknown, nil, err
			}
			if err := parseValues(sx, vars, res); err != nil {
				return Unknown, nil, err
			}
		} else {
			io.WriteString(s.in, "(pop)\n")
		}
		return Sat, res, nil
	case "unknown", "timeout":
		io.WriteString(s.in, "(pop)\n")
		r, m := portfolio(conj, vars, s.tmo)
		switch r {
		case Sat:
			s.stats.Sat++
		case Unsat:
			s.stats.Unsat++
		default:
			s.stats.Unknown++
		}
		s.stats.Portfolio++
		return r, m, nil
	}
	return Unknown, nil, fmt.Errorf("solver said %q", line)
}

func (s *Solver) line() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

// sexpr reads one balanced s-expression.
func (s *Solver) sexpr() (string, error) {
	var sb strings.Builder
	depth, started, inBar := 0, false, false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(b)
		if b == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if b == '(' {
			depth++
			started = true
		}
		if b == ')' {
			depth--
			if started && depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

type sx struct {
	atom string
	list []sx
}

func parseSx(s string) sx {
	pos := 0
	var rec func() sx
	rec = func() sx {
		for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n' || s[pos] == '\t' || s[pos] == '\r') {
			pos++
		}
		if pos >= len(s) {
			return sx{}
		}
		if s[pos] == '(' {
			pos++
			r := sx{list: []sx{}}
			for {
				for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n') {
					pos++
				}
				if pos >= len(s) || s[pos] == ')' {
					pos++
					return r
				}
				r.list = append(r.list, rec())
			}
		}
		st := pos
		if s[pos] == '|' {
			pos++
			for s[pos] != '|' {
				pos++
			}
			pos++
			return sx{atom: s[st:pos]}
		}
		for pos < len(s) && s[pos] != ' ' && s[pos] != ')' && s[pos] != '(' && s[pos] != '\n' {
			pos++
		}
		return sx{atom: s[st:pos]}
	}
	return rec()
}

func parseValues(str string, vars []*Term, res map[int]uint64) error {
	e := parseSx(str)
	if len(e.list) != len(vars) {
		return fmt.Errorf("bad get-value reply %q", str)
	}
	for i, p := range e.list {
		if len(p.list) != 2 {
			return fmt.Errorf("bad get-value pair in %q", str)
		}
		v, err := parseVal(p.list[1], vars[i].sort)
		if err != nil {
			return err
		}
		res[vars[i].id] = v
	}
	return nil
}

func parseBits(a string) (uint64, int, error) {
	if strings.HasPrefix(a, "#x") {
		v, err := strconv.ParseUint(a[2:], 16, 64)
		return v, 4 * (len(a) - 2), err
	}
	if strings.HasPrefix(a, "#b") {
		v, err := strconv.ParseUint(a[2:], 2, 64)
		return v, len(a) - 2, err
	}
	return 0, 0, fmt.Errorf("bad bits %q", a)
}

func parseVal(e sx, s Sort) (uint64, error) {
	if e.list == nil {
		switch e.atom {
		case "true":
			return 1, nil
		case "false":
			return 0, nil
		}
		v, _, err := parseBits(e.atom)
		return v, err
	}
	if len(e.list) >= 3 && e.list[0].atom == "_" {
		eb, sbn := uint(8), uint(23)
		if s == SF64 {
			eb, sbn = 11, 52
		}
		switch e.list[1].atom {
		case "NaN":
			return canonF(s, fbits(s, nan())), nil
		case "+oo":
			return ((1 << eb) - 1) << sbn, nil
		case "-oo":
			return (1<<(eb+sbn) | ((1<<eb)-1)<<sbn), nil
		case "+zero":
			return 0, nil
		case "-zero":
			return 1 << (eb + sbn), nil
		}
		if strings.HasPrefix(e.list[1].atom, "bv") {
			return strconv.ParseUint(e.list[1].atom[2:], 10, 64)
		}
	}
	if len(e.list) == 4 && e.list[0].atom == "fp" {
		var v uint64
		for _, x := range e.list[1:] {
			b, n, err := parseBits(x.atom)
			if err != nil {
				return 0, err
			}
			v = v<<uint(n) | b
		}
		return v, nil
	}
	return 0, fmt.Errorf("cannot parse value %+v", e)
}

// portfolio asks other solvers, from scratch and side by side, what the first one could not decide.
func portfolio(conj []*Term, vars []*Term, tmo time.Duration) (SatResult, map[int]uint64) {
	text := fresh(conj, vars)
	ctx, cancel := context.WithTimeout(context.Background(), tmo)
	defer cancel()
	type answer struct {
		r SatResult
		m map[int]uint64
	}
	cmds := [][]string{{"cvc5", "--lang=smt2"}, {"z3-new", "-in"}}
	ch := make(chan answer, len(cmds))
	for _, args := range cmds {
		go func() {
			c := exec.CommandContext(ctx, args[0], args[1:]...)
			c.Stdin = strings.NewReader(text)
			out, _ := c.Output()
			head, rest, _ := strings.Cut(string(out), "\n")
			switch strings.TrimSpace(head) {
			case "unsat":
				ch <- answer{Unsat, nil}
				return
			case "sat":
				m := map[int]uint64{}
				if len(vars) == 0 || parseValues(strings.TrimSpace(rest), vars, m) == nil {
					ch <- answer{Sat, m}
					return
				}
			}
			ch <- answer{Unknown, nil}
		}()
	}
	for range cmds {
		if a := <-ch; a.r != Unknown {
			return a.r, a.m
		}
	}
	return Unknown, nil
}

// slowDir gets the queries that take long, for debugging.
var slowDir = os.Getenv("GOSYM_SLOW")

// fresh is the query by itself.
func fresh(conj, vars []*Term) string {
	var sb strings.Builder
	seen := map[int]bool{}
	sb.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	for _, c := range conj {
		c.emitFresh(&sb, seen)
	}
	for _, v := range vars {
		v.emitFresh(&sb, seen)
	}
	for _, c := range conj {
		fmt.Fprintf(&sb, "(assert %s)\n", c.ref())
	}
	sb.WriteString("(check-sat)\n")
	if len(vars) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString(v.ref() + " ")
		}
		sb.WriteString("))\n")
	}
	return sb.String()
}

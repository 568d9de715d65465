package main

import (
	"fmt"
	"io"
	"math"
	"strconv"
	"strings"
	"time"
)

// Linear integer encoding. When the bounds show that no operation of a query wraps around, its bit-vectors are the
// integers they stand for and the query is given to the solver in linear integer arithmetic, which decides sums and
// comparisons of times and lengths much faster than bit-blasting does.

type liaSolver struct {
	*Solver
	emitted map[int]bool
}

// linear is whether x and everything below it means the same over the integers.
func (t *TermTable) linear(x *Term) bool {
	if v, ok := t.lin[x.id]; ok {
		return v
	}
	ok := t.linear1(x)
	for i := 0; ok && i < int(x.n); i++ {
		ok = t.linear(x.args[i])
	}
	t.lin[x.id] = ok
	return ok
}

func (t *TermTable) linear1(x *Term) bool {
	a, b := x.args[0], x.args[1]
	fits := func(lo, hi int64, ok1, ok2 bool) bool { return ok1 && ok2 && lo == x.lo && hi == x.hi }
	switch x.op {
	case OConst, OVar, ONot, OAnd, OOr, OIte, OSLt, OSLe, OEq, OSext:
		return true
	case OFLt, OFLe, OFEq, OFNaN, OFAdd, OFSub, OFNeg, OFAbs, OFMul, OFToF:
		return true
	case OULt, OULe:
		return a.lo >= 0 && b.lo >= 0
	case OAdd:
		lo, ok1 := addOK(a.lo, b.lo)
		hi, ok2 := addOK(a.hi, b.hi)
		return fits(lo, hi, ok1, ok2)
	case OSub:
		lo, ok1 := subOK(a.lo, b.hi)
		hi, ok2 := subOK(a.hi, b.lo)
		return fits(lo, hi, ok1, ok2)
	case OMul:
		if b.op != OConst {
			return false
		}
		lo, ok1 := mulOK(a.lo, b.lo)
		hi, ok2 := mulOK(a.hi, b.lo)
		if b.lo < 0 {
			lo, hi = hi, lo
		}
		return fits(lo, hi, ok1, ok2)
	case OSDiv, OSRem:
		return b.op == OConst && b.lo > 0
	case OUDiv, OURem:
		return b.op == OConst && b.lo > 0 && a.lo >= 0
	case OZext:
		return a.lo >= 0
	case OExtract:
		flo, fhi := full(x.sort)
		return x.p1 == 0 && a.lo >= flo && a.hi <= fhi
	}
	return false
}

// arith is whether there is arithmetic in x that makes the integer encoding worthwhile.
func (t *TermTable) arith(x *Term) bool {
	if v, ok := t.ari[x.id]; ok {
		return v
	}
	r := false
	switch x.op {
	case OAdd, OSub, OMul, OSDiv, OSRem, OUDiv, OURem:
		r = x.sort >= 32
	}
	for i := 0; !r && i < int(x.n); i++ {
		r = t.arith(x.args[i])
	}
	t.ari[x.id] = r
	return r
}

func (s *liaSolver) ref(x *Term) string {
	if x.op == OConst {
		if isBV(x.sort) {
			return intLit(x.lo)
		}
		return x.ref()
	}
	return fmt.Sprintf("i%d", x.id)
}

func intLit(v int64) string {
	switch {
	case v == math.MinInt64:
		return "(- 9223372036854775808)"
	case v < 0:
		return fmt.Sprintf("(- %d)", -v)
	}
	return fmt.Sprint(v)
}

func liaSort(s Sort) string {
	if isBV(s) {
		return "Int"
	}
	return s.String()
}

func (s *liaSolver) emit(x *Term, sb *strings.Builder) {
	if x.op == OConst || s.emitted[x.id] {
		return
	}
	s.emitted[x.id] = true
	for i := 0; i < int(x.n); i++ {
		s.emit(x.args[i], sb)
	}
	if x.op == OVar {
		fmt.Fprintf(sb, "(declare-const i%d %s)\n", x.id, liaSort(x.sort))
		return
	}
	fmt.Fprintf(sb, "(define-fun i%d () %s ", x.id, liaSort(x.sort))
	op := ""
	switch x.op {
	case OSDiv, OSRem:
		if a := s.ref(x.args[0]); x.args[0].lo < 0 { // rounds to zero, unlike div and mod
			f := map[Op]string{OSDiv: "div", OSRem: "mod"}[x.op]
			fmt.Fprintf(sb, "(ite (<= 0 %s) (%s %s %s) (- (%s (- %s) %s))))\n", a, f, a, s.ref(x.args[1]), f, a, s.ref(x.args[1]))
			return
		}
	}
	switch x.op {
	case OSLt, OULt:
		op = "<"
	case OSLe, OULe:
		op = "<="
	case OAdd:
		op = "+"
	case OSub:
		op = "-"
	case OMul:
		op = "*"
	case OSDiv, OUDiv:
		op = "div"
	case OSRem, OURem:
		op = "mod"
	case OSext, OZext, OExtract:
		fmt.Fprintf(sb, "%s)\n", s.ref(x.args[0]))
		return
	case OFToF:
		fmt.Fprintf(sb, "((_ to_fp %s) RNE %s))\n", fpw(x.sort), s.ref(x.args[0]))
		return
	default:
		op = opNames[x.op]
	}
	sb.WriteString("(" + op)
	for i := 0; i < int(x.n); i++ {
		sb.WriteString(" " + s.ref(x.args[i]))
	}
	sb.WriteString("))\n")
}

// check decides the conjunction, Unknown when it could not.
func (s *liaSolver) check(conj, vars []*Term) (SatResult, map[int]uint64, error) {
	var sb strings.Builder
	if s.tmo != s.sent {
		s.sent = s.tmo
		fmt.Fprintf(&sb, "(set-option :timeout %d)\n", max(s.tmo/4, time.Second).Milliseconds())
	}
	for _, c := range conj {
		s.emit(c, &sb)
	}
	for _, v := range vars {
		s.emit(v, &sb)
	}
	sb.WriteString("(push)\n")
	for _, v := range vars {
		if isBV(v.sort) {
			lo, hi := full(v.sort)
			fmt.Fprintf(&sb, "(assert (and (<= %s i%d) (<= i%d %s)))\n", intLit(lo), v.id, v.id, intLit(hi))
		}
	}
	for _, c := range conj {
		fmt.Fprintf(&sb, "(assert %s)\n", s.ref(c))
	}
	sb.WriteString("(check-sat)\n")
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.stats.Time += d
		s.stats.MaxTime = max(s.stats.MaxTime, d)
	}()
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		return Unknown, nil, err
	}
	line, err := s.line()
	if err != nil {
		return Unknown, nil, err
	}
	switch line {
	case "unsat":
		s.stats.Queries++
		s.stats.Unsat++
		io.WriteString(s.in, "(pop)\n")
		return Unsat, nil, nil
	case "sat":
		res := map[int]uint64{}
		if len(vars) > 0 {
			var q strings.Builder
			q.WriteString("(get-value (")
			for _, v := range vars {
				q.WriteString(s.ref(v) + " ")
			}
			q.WriteString("))\n(pop)\n")
			io.WriteString(s.in, q.String())
			text, err := s.sexpr()
			if err != nil {
				return Unknown, nil, err
			}
			e := parseSx(text)
			if len(e.list) != len(vars) {
				return Unknown, nil, fmt.Errorf("bad get-value reply %q", text)
			}
			for i, p := range e.list {
				if len(p.list) != 2 {
					return Unknown, nil, fmt.Errorf("bad get-value pair in %q", text)
				}
				v := vars[i]
				if !isBV(v.sort) {
					if res[v.id], err = parseVal(p.list[1], v.sort); err != nil {
						return Unknown, nil, err
					}
					continue
				}
				n, err := parseInt(p.list[1])
				if err != nil {
					return Unknown, nil, err
				}
				res[v.id] = mask(v.sort, uint64(n))
			}
		} else {
			io.WriteString(s.in, "(pop)\n")
		}
		s.stats.Queries++
		s.stats.Sat++
		return Sat, res, nil
	case "unknown", "timeout":
		io.WriteString(s.in, "(pop)\n")
		return Unknown, nil, nil
	}
	return Unknown, nil, fmt.Errorf("solver said %q", line)
}

func parseInt(e sx) (int64, error) {
	if e.list == nil {
		return strconv.ParseInt(e.atom, 10, 64)
	}
	if len(e.list) == 2 && e.list[0].atom == "-" {
		return strconv.ParseInt("-"+e.list[1].atom, 10, 64)
	}
	return 0, fmt.Errorf("cannot parse integer %+v", e)
}

// checkLinear tries the integer encoding.
func (vm *VM) checkLinear(conj, vars []*Term) (SatResult, map[int]uint64) {
	any := false
	for _, c := range conj {
		if !vm.tt.linear(c) {
			return Unknown, nil
		}
		any = any || vm.tt.arith(c)
	}
	if !any {
		return Unknown, nil
	}
	if vm.lia == nil {
		s, err := NewSolver("z3", vm.ex.solverTmo, &vm.stats)
		if err != nil {
			return Unknown, nil
		}
		vm.lia = &liaSolver{s, map[int]bool{}}
	}
	vm.lia.tmo = vm.getSolver().tmo
	r, m, err := vm.lia.check(conj, vars)
	if err != nil {
		vm.lia.Close()
		vm.lia = nil
		return Unknown, nil
	}
	if r == Sat {
		// what is said must hold for the real terms
		mm := vm.merged(m)
		for _, c := range conj {
			if vm.tt.Eval(c, mm) == 0 {
				panic(engineError{"the integer encoding disagrees with the term"})
			}
		}
	}
	return r, m
}

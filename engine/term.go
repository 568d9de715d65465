package main

// Terms: hash-consed SMT terms over Bool, bit-vectors and IEEE floats, with a
// simplifier, a concrete evaluator and an SMT-LIB printer.

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

type Sort uint8

const (
	SBool Sort = 0
	// 1..64: bit-vector of that width
	SF32 Sort = 101
	SF64 Sort = 102
)

func (s Sort) String() string {
	switch s {
	case SBool:
		return "Bool"
	case SF32:
		return "(_ FloatingPoint 8 24)"
	case SF64:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", s)
}

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	OULt
	OSLt
	OULe
	OSLe
	OExtract // p0=hi p1=lo
	OZext    // to sort
	OSext
	OConcat
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFLt
	OFLe
	OFEq
	OFNaN
	OFToF   // float to float of sort
	OSToF   // signed bv to float
	OUToF   // unsigned bv to float
	OFToS   // float to signed bv (rtz)
	OFToU   // float to unsigned bv (rtz)
	OBitsToF
	OFRound // p0: 0 floor 1 ceil 2 trunc
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OULt: "bvult", OSLt: "bvslt", OULe: "bvule", OSLe: "bvsle", OConcat: "concat",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFNeg: "fp.neg", OFAbs: "fp.abs",
	OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq", OFNaN: "fp.isNaN"}

type Term struct {
	op     Op
	sort   Sort
	p0, p1 uint16
	args   [3]*Term
	n      uint8
	val    uint64 // constants: bv value, bool 0/1, float bits (f32: 32 bit)
	name   string
	id     int
	vars   []int // sorted ids of variables
	lo, hi int64 // bit-vectors: bounds of the signed value
	emitted bool
}

type tkey struct {
	op         Op
	sort       Sort
	p0, p1     uint16
	a, b, c    int
	val        uint64
	name       string
}

type TermTable struct {
	tab  map[tkey]*Term
	next int
	vars []*Term
	ranges []rng
	lin, ari map[int]bool
	itn map[int]int
	True, False *Term
}

func NewTermTable() *TermTable {
	t := &TermTable{tab: map[tkey]*Term{}, lin: map[int]bool{}, ari: map[int]bool{}, itn: map[int]int{}}
	t.True = t.Const(SBool, 1)
	t.False = t.Const(SBool, 0)
	return t
}

func (t *TermTable) mk(op Op, sort Sort, p0, p1 uint16, val uint64, name string, args ...*Term) *Term {
	k := tkey{op: op, sort: sort, p0: p0, p1: p1, val: val, name: name, a: -1, b: -1, c: -1}
	if len(args) > 0 {
		k.a = args[0].id
	}
	if len(args) > 1 {
		k.b = args[1].id
	}
	if len(args) > 2 {
		k.c = args[2].id
	}
	if x, ok := t.tab[k]; ok {
		return x
	}
	x := &Term{op: op, sort: sort, p0: p0, p1: p1, val: val, name: name, n: uint8(len(args)), id: t.next}
	t.next++
	copy(x.args[:], args)
	if op == OVar {
		x.vars = []int{x.id}
		t.vars = append(t.vars, x)
	} else {
		for _, a := range args {
			x.vars = mergeSorted(x.vars, a.vars)
		}
	}
	t.tab[k] = x
	t.bound(x)
	return x
}

func mergeSorted(a, b []int) []int {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset checks are common
	i, j := 0, 0
	out := make([]int, 0, len(a)+len(b))
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			out = append(out, a[i])
			i++
		case a[i] > b[j]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	if len(out) == len(a) {
		return a
	}
	return out
}

func (t *TermTable) Const(s Sort, v uint64) *Term {
	return t.mk(OConst, s, 0, 0, mask(s, v), "")
}
func (t *TermTable) Bool(b bool) *Term {
	if b {
		return t.True
	}
	return t.False
}
func (t *TermTable) Var(name string, s Sort) *Term { return t.mk(OVar, s, 0, 0, 0, name) }

// VarIn is a variable whose signed value is within lo..hi, which the caller adds to the path condition.
func (t *TermTable) VarIn(name string, s Sort, lo, hi int64) *Term {
	r := rng{lo, hi}
	for i, x := range t.ranges {
		if x == r {
			return t.mk(OVar, s, 0, 0, uint64(i+1), name)
		}
	}
	t.ranges = append(t.ranges, r)
	return t.mk(OVar, s, 0, 0, uint64(len(t.ranges)), name)
}

func mask(s Sort, v uint64) uint64 {
	switch {
	case s == SBool:
		return v & 1
	case s <= 64:
		if s == 64 {
			return v
		}
		return v & (1<<s - 1)
	case s == SF32:
		return v & 0xffffffff
	}
	return v
}

func sext(s Sort, v uint64) int64 {
	if s >= 64 {
		return int64(v)
	}
	sh := 64 - uint(s)
	return int64(v<<sh) >> sh
}

func fval(s Sort, v uint64) float64 {
	if s == SF32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}
func fbits(s Sort, f float64) uint64 {
	if s == SF32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

// evalOp computes the value of an operator on concrete arguments. ok=false when unspecified.
func evalOp(op Op, sort, as Sort, p0, p1 uint16, a, b, c uint64) (uint64, bool) {
	bl := func(x bool) (uint64, bool) {
		if x {
			return 1, true
		}
		return 0, true
	}
	m := func(v uint64) (uint64, bool) { return mask(sort, v), true }
	switch op {
	case ONot:
		return a ^ 1, true
	case OAnd:
		return a & b, true
	case OOr:
		return a | b, true
	case OIte:
		if a != 0 {
			return b, true
		}
		return c, true
	case OEq:
		return bl(a == b)
	case OAdd:
		return m(a + b)
	case OSub:
		return m(a - b)
	case OMul:
		return m(a * b)
	case OUDiv:
		if b == 0 {
			return m(^uint64(0))
		}
		return m(a / b)
	case OURem:
		if b == 0 {
			return a, true
		}
		return m(a % b)
	case OSDiv:
		x, y := sext(as, a), sext(as, b)
		if y == 0 {
			if x < 0 {
				return m(1)
			}
			return m(^uint64(0))
		}
		if y == -1 {
			return m(uint64(-x))
		}
		return m(uint64(x / y))
	case OSRem:
		x, y := sext(as, a), sext(as, b)
		if y == 0 {
			return a, true
		}
		if y == -1 {
			return 0, true
		}
		return m(uint64(x % y))
	case OBAnd:
		return a & b, true
	case OBOr:
		return a | b, true
	case OBXor:
		return a ^ b, true
	case OShl:
		if b >= uint64(as) {
			return 0, true
		}
		return m(a << b)
	case OLShr:
		if b >= uint64(as) {
			return 0, true
		}
		return m(a >> b)
	case OAShr:
		x := sext(as, a)
		if b >= uint64(as) {
			b = uint64(as) - 1
		}
		return m(uint64(x >> b))
	case OULt:
		return bl(a < b)
	case OSLt:
		return bl(sext(as, a) < sext(as, b))
	case OULe:
		return bl(a <= b)
	case OSLe:
		return bl(sext(as, a) <= sext(as, b))
	case OExtract:
		return m(a >> p1)
	case OZext:
		return a, true
	case OSext:
		return m(uint64(sext(as, a)))
	case OConcat:
		return m(a<<p0 | b)
	case OFAdd, OFSub, OFMul, OFDiv:
		x, y := fval(as, a), fval(as, b)
		var r float64
		if as == SF32 {
			x32, y32 := float32(x), float32(y)
			var r32 float32
			switch op {
			case OFAdd:
				r32 = x32 + y32
			case OFSub:
				r32 = x32 - y32
			case OFMul:
				r32 = x32 * y32
			case OFDiv:
				r32 = x32 / y32
			}
			r = float64(r32)
		} else {
			switch op {
			case OFAdd:
				r = x + y
			case OFSub:
				r = x - y
			case OFMul:
				r = x * y
			case OFDiv:
				r = x / y
			}
		}
		return canonF(sort, fbits(sort, r)), true
	case OFNeg:
		if as == SF32 {
			return canonF(as, a^0x80000000), true
		}
		return canonF(as, a^(1<<63)), true
	case OFAbs:
		if as == SF32 {
			return canonF(as, a&^0x80000000), true
		}
		return canonF(as, a&^(1<<63)), true
	case OFLt:
		return bl(fval(as, a) < fval(as, b))
	case OFLe:
		return bl(fval(as, a) <= fval(as, b))
	case OFEq:
		return bl(fval(as, a) == fval(as, b))
	case OFNaN:
		return bl(math.IsNaN(fval(as, a)))
	case OFToF:
		return canonF(sort, fbits(sort, fval(as, a))), true
	case OSToF:
		if sort == SF32 {
			return uint64(math.Float32bits(float32(sext(as, a)))), true
		}
		return math.Float64bits(float64(sext(as, a))), true
	case OUToF:
		if sort == SF32 {
			return uint64(math.Float32bits(float32(a))), true
		}
		return math.Float64bits(float64(a)), true
	case OFToS:
		f := math.Trunc(fval(as, a))
		lim := math.Ldexp(1, int(sort)-1)
		if math.IsNaN(f) || f < -lim || f >= lim {
			return 0, false
		}
		return m(uint64(int64(f)))
	case OFToU:
		f := math.Trunc(fval(as, a))
		if math.IsNaN(f) || f < 0 || f >= math.Ldexp(1, int(sort)) {
			return 0, false
		}
		return m(uint64(f))
	case OBitsToF:
		return canonF(sort, a), true
	case OFRound:
		f := fval(as, a)
		switch p0 {
		case 0:
			f = math.Floor(f)
		case 1:
			f = math.Ceil(f)
		case 2:
			f = math.Trunc(f)
		case 3:
			f = math.Round(f)
		case 4:
			f = math.RoundToEven(f)
		}
		return canonF(sort, fbits(sort, f)), true
	}
	panic("evalOp")
}

// canonF maps every NaN to one bit pattern (SMT-LIB has a single NaN).
func canonF(s Sort, v uint64) uint64 {
	if math.IsNaN(fval(s, v)) {
		if s == SF32 {
			return 0x7fc00000
		}
		return 0x7ff8000000000001
	}
	return v
}

func (t *TermTable) Not(a *Term) *Term {
	if a.op == OConst {
		return t.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return t.mk(ONot, SBool, 0, 0, 0, "", a)
}
func (t *TermTable) And(a, b *Term) *Term {
	if a == t.False || b == t.False {
		return t.False
	}
	if a == t.True || a == b {
		return b
	}
	if b == t.True {
		return a
	}
	if (a.op == ONot && a.args[0] == b) || (b.op == ONot && b.args[0] == a) {
		return t.False
	}
	return t.mk(OAnd, SBool, 0, 0, 0, "", a, b)
}
func (t *TermTable) Or(a, b *Term) *Term {
	if a == t.True || b == t.True {
		return t.True
	}
	if a == t.False || a == b {
		return b
	}
	if b == t.False {
		return a
	}
	if (a.op == ONot && a.args[0] == b) || (b.op == ONot && b.args[0] == a) {
		return t.True
	}
	return t.mk(OOr, SBool, 0, 0, 0, "", a, b)
}
func (t *TermTable) Ite(c, a, b *Term) *Term {
	if c.op == OConst {
		if c.val != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		c, a, b = c.args[0], b, a
	}
	if a.sort == SBool {
		if a == t.True {
			return t.Or(c, b)
		}
		if a == t.False {
			return t.And(t.Not(c), b)
		}
		if b == t.False {
			return t.And(c, a)
		}
		if b == t.True {
			return t.Or(t.Not(c), a)
		}
	}
	// x == k ? k : x  =>  x
	if c.op == OEq && a.op == OConst {
		if (c.args[0] == a && c.args[1] == b) || (c.args[1] == a && c.args[0] == b) {
			return b
		}
	}
	return t.mk(OIte, a.sort, 0, 0, 0, "", c, a, b)
}

func commut(op Op) bool {
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor, OEq, OFAdd, OFMul, OFEq:
		return true
	}
	return false
}

// Bin builds any 2-argument operator.
func (t *TermTable) Bin(op Op, a, b *Term) *Term {
	sort := a.sort
	switch op {
	case OAnd:
		return t.And(a, b)
	case OOr:
		return t.Or(a, b)
	case OEq, OULt, OSLt, OULe, OSLe, OFLt, OFLe, OFEq:
		sort = SBool
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("term sort mismatch op %d: %v %v", op, a.sort, b.sort))
	}
	if a.op == OConst && b.op == OConst {
		if v, ok := evalOp(op, sort, a.sort, 0, 0, a.val, b.val, 0); ok {
			return t.Const(sort, v)
		}
	}
	if commut(op) && (a.op == OConst && b.op != OConst || (a.op != OConst && b.op != OConst && a.id > b.id)) {
		a, b = b, a
	}
	switch op {
	case OEq:
		if a == b {
			return t.True
		}
		if a.sort == SBool {
			if b == t.True {
				return a
			}
			if b == t.False {
				return t.Not(a)
			}
		}
		if b.op == OConst {
			if a.op == OIte && a.args[1].op == OConst && a.args[2].op == OConst {
				x, y := a.args[1].val == b.val, a.args[2].val == b.val
				switch {
				case x && y:
					return t.True
				case x:
					return a.args[0]
				case y:
					return t.Not(a.args[0])
				default:
					return t.False
				}
			}
			if a.op == OZext {
				if b.val > mask(a.args[0].sort, ^uint64(0)) {
					return t.False
				}
				return t.Bin(OEq, a.args[0], t.Const(a.args[0].sort, b.val))
			}
			if a.op == OSext {
				small := t.Const(a.args[0].sort, b.val)
				if mask(a.sort, uint64(sext(small.sort, small.val))) != b.val {
					return t.False
				}
				return t.Bin(OEq, a.args[0], small)
			}
			if a.op == OAdd && a.args[1].op == OConst {
				return t.Bin(OEq, a.args[0], t.Const(a.sort, b.val-a.args[1].val))
			}
		}
	case OAdd:
		if b.op == OConst {
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.args[1].op == OConst {
				return t.Bin(OAdd, a.args[0], t.Const(a.sort, a.args[1].val+b.val))
			}
		}
	case OSub:
		if a == b {
			return t.Const(sort, 0)
		}
		if b.op == OConst {
			return t.Bin(OAdd, a, t.Const(sort, -b.val))
		}
	case OMul:
		if b.op == OConst {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		}
	case OUDiv, OSDiv:
		if b.op == OConst && b.val == 1 {
			return a
		}
		if b.op == OConst && op == OUDiv && b.val != 0 && b.val&(b.val-1) == 0 {
			return t.Bin(OLShr, a, t.Const(sort, uint64(bits.TrailingZeros64(b.val))))
		}
	case OURem:
		if b.op == OConst && b.val != 0 && b.val&(b.val-1) == 0 {
			return t.Bin(OBAnd, a, t.Const(sort, b.val-1))
		}
	case OBAnd:
		if a == b {
			return a
		}
		if b.op == OConst {
			if b.val == 0 {
				return b
			}
			if b.val == mask(sort, ^uint64(0)) {
				return a
			}
		}
	case OBOr:
		if a == b {
			return a
		}
		if b.op == OConst && b.val == 0 {
			return a
		}
	case OBXor:
		if a == b {
			return t.Const(sort, 0)
		}
		if b.op == OConst && b.val == 0 {
			return a
		}
	case OShl, OLShr, OAShr:
		if b.op == OConst && b.val == 0 {
			return a
		}
		if b.op == OConst && b.val >= uint64(sort) && op != OAShr {
			return t.Const(sort, 0)
		}
	case OULt:
		if a == b {
			return t.False
		}
		if b.op == OConst && b.val == 0 {
			return t.False
		}
		if a.op == OZext && b.op == OConst {
			if b.val > mask(a.args[0].sort, ^uint64(0)) {
				return t.True
			}
			return t.Bin(OULt, a.args[0], t.Const(a.args[0].sort, b.val))
		}
	case OFLt:
		if a == b {
			return t.False
		}
	case OSLt:
		if a == b {
			return t.False
		}
		if a.op == OSext && b.op == OSext && a.args[0].sort == b.args[0].sort {
			return t.Bin(OSLt, a.args[0], b.args[0])
		}
	case OULe, OSLe:
		if a == b {
			return t.True
		}
	}
	if x := t.pushFloat(op, a, b); x != nil {
		return x
	}
	if x := t.binBounds(op, sort, a, b); x != nil {
		return x
	}
	return t.mk(op, sort, 0, 0, 0, "", a, b)
}

func (t *TermTable) Un(op Op, sort Sort, a *Term, p0, p1 uint16) *Term {
	if a.op == OConst {
		if v, ok := evalOp(op, sort, a.sort, p0, p1, a.val, 0, 0); ok {
			return t.Const(sort, v)
		}
	}
	switch op {
	case OZext, OSext:
		if a.sort == sort {
			return a
		}
		if op == OZext && a.op == OZext {
			return t.Un(OZext, sort, a.args[0], 0, 0)
		}
		if op == OSext && a.op == OExtract && a.p1 == 0 && a.args[0].sort == sort && a.lo == a.args[0].lo && a.hi == a.args[0].hi {
			return a.args[0] // nothing was cut off
		}
		if op == OSext && a.op == OSext {
			return t.Un(OSext, sort, a.args[0], 0, 0)
		}
		if op == OSext && a.op == OZext && a.args[0].sort < a.sort {
			return t.Un(OZext, sort, a.args[0], 0, 0)
		}
	case OExtract:
		if p1 == 0 && Sort(p0)+1 == a.sort {
			return a
		}
		if (a.op == OZext || a.op == OSext) && p1 == 0 {
			in := a.args[0]
			if Sort(p0)+1 == in.sort {
				return in
			}
			if Sort(p0)+1 < in.sort {
				return t.Un(OExtract, sort, in, p0, 0)
			}
			return t.Un(a.op, sort, in, 0, 0)
		}
		if a.op == OIte && a.args[1].op == OConst && a.args[2].op == OConst {
			return t.Ite(a.args[0], t.Un(op, sort, a.args[1], p0, p1), t.Un(op, sort, a.args[2], p0, p1))
		}
		if a.op == OConcat && p1 == 0 && Sort(p0)+1 == a.args[1].sort {
			return a.args[1]
		}
	case OFToF:
		if a.sort == sort {
			return a
		}
		if sort == SF32 && a.op == OFToF && a.args[0].sort == SF32 {
			return a.args[0] // widening then narrowing is exact
		}
	case OFAbs:
		if a.op == OFNeg || a.op == OFAbs {
			return t.Un(OFAbs, sort, a.args[0], 0, 0)
		}
		if a.op == OFSub && a.args[0].id > a.args[1].id {
			a = t.Bin(OFSub, a.args[1], a.args[0])
		}
	case OFNaN:
		if a.op == OSToF || a.op == OUToF {
			return t.False
		}
		if a.op == OFToF {
			return t.Un(OFNaN, SBool, a.args[0], 0, 0)
		}
	}
	return t.mk(op, sort, p0, p1, 0, "", a)
}

// Resize converts a bit-vector to another width.
func (t *TermTable) Resize(a *Term, to Sort, signed bool) *Term {
	switch {
	case a.sort == to:
		return a
	case a.sort > to:
		return t.Un(OExtract, to, a, uint16(to)-1, 0)
	case signed:
		return t.Un(OSext, to, a, 0, 0)
	default:
		return t.Un(OZext, to, a, 0, 0)
	}
}

func (t *TermTable) Concat(hi, lo *Term) *Term {
	s := hi.sort + lo.sort
	if hi.op == OConst && lo.op == OConst {
		return t.Const(s, hi.val<<lo.sort|lo.val)
	}
	return t.mk(OConcat, s, uint16(lo.sort), 0, 0, "", hi, lo)
}

// Model assigns concrete values to variable ids (0 when absent).
type Model map[int]uint64

// Eval computes the value of a term under a model. The memo is per call.
func (t *TermTable) Eval(x *Term, m Model) uint64 {
	memo := map[int]uint64{}
	return t.eval(x, m, memo)
}

func (t *TermTable) eval(x *Term, m Model, memo map[int]uint64) uint64 {
	switch x.op {
	case OConst:
		return x.val
	case OVar:
		return m[x.id]
	}
	if v, ok := memo[x.id]; ok {
		return v
	}
	var v uint64
	switch x.op {
	case OAnd:
		v = t.eval(x.args[0], m, memo)
		if v != 0 {
			v = t.eval(x.args[1], m, memo)
		}
	case OOr:
		v = t.eval(x.args[0], m, memo)
		if v == 0 {
			v = t.eval(x.args[1], m, memo)
		}
	case OIte:
		if t.eval(x.args[0], m, memo) != 0 {
			v = t.eval(x.args[1], m, memo)
		} else {
			v = t.eval(x.args[2], m, memo)
		}
	default:
		var a, b, c uint64
		a = t.eval(x.args[0], m, memo)
		if x.n > 1 {
			b = t.eval(x.args[1], m, memo)
		}
		if x.n > 2 {
			c = t.eval(x.args[2], m, memo)
		}
		v, _ = evalOp(x.op, x.sort, x.args[0].sort, x.p0, x.p1, a, b, c)
	}
	memo[x.id] = v
	return v
}

func constLit(s Sort, v uint64) string {
	switch s {
	case SBool:
		if v != 0 {
			return "true"
		}
		return "false"
	case SF32:
		if math.IsNaN(fval(s, v)) {
			return "(_ NaN 8 24)"
		}
		return fmt.Sprintf("(fp #b%01b #b%08b #b%023b)", v>>31, (v>>23)&0xff, v&(1<<23-1))
	case SF64:
		if math.IsNaN(fval(s, v)) {
			return "(_ NaN 11 53)"
		}
		return fmt.Sprintf("(fp #b%01b #b%011b #b%052b)", v>>63, (v>>52)&0x7ff, v&(1<<52-1))
	}
	return fmt.Sprintf("(_ bv%d %d)", v, s)
}

func (x *Term) ref() string {
	switch x.op {
	case OConst:
		return constLit(x.sort, x.val)
	case OVar:
		return x.varName()
	}
	return fmt.Sprintf("t%d", x.id)
}

func (x *Term) varName() string { return fmt.Sprintf("|v%d:%s|", x.id, x.name) }

// emit writes declarations/definitions needed for x (each term once per solver process).
func (x *Term) emit(sb *strings.Builder) {
	if x.emitted || x.op == OConst {
		return
	}
	for i := 0; i < int(x.n); i++ {
		x.args[i].emit(sb)
	}
	x.emitted = true
	x.define(sb)
}

// emitFresh writes the definitions x needs that are not in seen.
func (x *Term) emitFresh(sb *strings.Builder, seen map[int]bool) {
	if seen[x.id] || x.op == OConst {
		return
	}
	seen[x.id] = true
	for i := 0; i < int(x.n); i++ {
		x.args[i].emitFresh(sb, seen)
	}
	x.define(sb)
}

func (x *Term) define(sb *strings.Builder) {
	if x.op == OVar {
		fmt.Fprintf(sb, "(declare-const %s %s)\n", x.varName(), x.sort)
		return
	}
	fmt.Fprintf(sb, "(define-fun t%d () %s ", x.id, x.sort)
	a := x.args[0].ref()
	switch x.op {
	case OExtract:
		fmt.Fprintf(sb, "((_ extract %d %d) %s)", x.p0, x.p1, a)
	case OZext:
		fmt.Fprintf(sb, "((_ zero_extend %d) %s)", x.sort-x.args[0].sort, a)
	case OSext:
		fmt.Fprintf(sb, "((_ sign_extend %d) %s)", x.sort-x.args[0].sort, a)
	case OFToF, OSToF:
		fmt.Fprintf(sb, "((_ to_fp %s) RNE %s)", fpw(x.sort), a)
	case OUToF:
		fmt.Fprintf(sb, "((_ to_fp_unsigned %s) RNE %s)", fpw(x.sort), a)
	case OFToS:
		fmt.Fprintf(sb, "((_ fp.to_sbv %d) RTZ %s)", x.sort, a)
	case OFToU:
		fmt.Fprintf(sb, "((_ fp.to_ubv %d) RTZ %s)", x.sort, a)
	case OBitsToF:
		fmt.Fprintf(sb, "((_ to_fp %s) %s)", fpw(x.sort), a)
	case OFRound:
		fmt.Fprintf(sb, "(fp.roundToIntegral %s %s)", [...]string{"RTN", "RTP", "RTZ", "RNA", "RNE"}[x.p0], a)
	default:
		sb.WriteString("(")
		sb.WriteString(opNames[x.op])
		for i := 0; i < int(x.n); i++ {
			sb.WriteString(" ")
			sb.WriteString(x.args[i].ref())
		}
		sb.WriteString(")")
	}
	sb.WriteString(")\n")
}

func fpw(s Sort) string {
	if s == SF32 {
		return "8 24"
	}
	return "11 53"
}

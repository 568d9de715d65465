package main

import "math/bits"

// Interval reasoning: every bit-vector term carries bounds of its signed value, from the ranges that inputs are
// declared with. Comparisons that the bounds decide and divisions that they make trivial are simplified away.

type rng struct{ lo, hi int64 }

func full(s Sort) (int64, int64) {
	if s >= 64 {
		return -1 << 63, 1<<63 - 1
	}
	return -1 << (s - 1), 1<<(s-1) - 1
}

func isBV(s Sort) bool { return s >= 1 && s <= 64 }

func (t *TermTable) bound(x *Term) {
	if !isBV(x.sort) {
		return
	}
	flo, fhi := full(x.sort)
	x.lo, x.hi = flo, fhi
	a, b, c := x.args[0], x.args[1], x.args[2]
	set := func(lo, hi int64, ok bool) {
		if ok && lo >= flo && hi <= fhi && lo <= hi {
			x.lo, x.hi = lo, hi
		}
	}
	switch x.op {
	case OConst:
		v := sext(x.sort, x.val)
		set(v, v, true)
	case OVar:
		if x.val > 0 {
			r := t.ranges[x.val-1]
			set(r.lo, r.hi, true)
		}
	case OIte:
		set(min(b.lo, c.lo), max(b.hi, c.hi), true)
	case OAdd:
		lo, ok1 := addOK(a.lo, b.lo)
		hi, ok2 := addOK(a.hi, b.hi)
		set(lo, hi, ok1 && ok2)
	case OSub:
		lo, ok1 := subOK(a.lo, b.hi)
		hi, ok2 := subOK(a.hi, b.lo)
		set(lo, hi, ok1 && ok2)
	case OMul:
		lo, hi, ok := int64(0), int64(0), true
		for i, p := range [4][2]int64{{a.lo, b.lo}, {a.lo, b.hi}, {a.hi, b.lo}, {a.hi, b.hi}} {
			v, o := mulOK(p[0], p[1])
			ok = ok && o
			if i == 0 || v < lo {
				lo = v
			}
			if i == 0 || v > hi {
				hi = v
			}
		}
		set(lo, hi, ok)
	case OSDiv:
		if b.op == OConst && b.lo > 0 {
			set(a.lo/b.lo, a.hi/b.lo, true)
		}
	case OUDiv:
		if b.op == OConst && b.lo > 0 && a.lo >= 0 {
			set(a.lo/b.lo, a.hi/b.lo, true)
		}
	case OSRem:
		if b.op == OConst && b.lo > 0 {
			lo, hi := -(b.lo - 1), b.lo-1
			if a.lo >= 0 {
				lo = 0
			}
			if a.hi <= 0 {
				hi = 0
			}
			set(lo, hi, true)
		}
	case OURem:
		if b.op == OConst && b.lo > 0 {
			set(0, b.lo-1, true)
		}
	case OBAnd:
		if b.op == OConst && b.lo >= 0 {
			set(0, b.lo, true)
		}
	case OSext:
		set(a.lo, a.hi, true)
	case OZext:
		if a.lo >= 0 {
			set(a.lo, a.hi, true)
		} else if a.sort < 63 {
			set(0, 1<<a.sort-1, true)
		}
	case OExtract:
		if x.p1 == 0 {
			set(a.lo, a.hi, true) // fits, so nothing is cut off
		}
	}
}

func addOK(a, b int64) (int64, bool) {
	s := a + b
	return s, (s > a) == (b > 0) || b == 0
}

func subOK(a, b int64) (int64, bool) {
	s := a - b
	return s, (s < a) == (b > 0) || b == 0
}

func mulOK(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	if a == -1<<63 || b == -1<<63 {
		return 0, false
	}
	neg := (a < 0) != (b < 0)
	hi, lo := bits.Mul64(uint64(max(a, -a)), uint64(max(b, -b)))
	if hi != 0 || lo > 1<<63-1 {
		return 0, false
	}
	if neg {
		return -int64(lo), true
	}
	return int64(lo), true
}

// binBounds is what the bounds make of the operation, nil if nothing.
func (t *TermTable) binBounds(op Op, sort Sort, a, b *Term) *Term {
	if !isBV(a.sort) {
		return nil
	}
	switch op {
	case OSLt, OULt:
		if op == OULt && (a.lo < 0 || b.lo < 0) {
			return nil
		}
		if a.hi < b.lo {
			return t.True
		}
		if a.lo >= b.hi {
			return t.False
		}
	case OSLe, OULe:
		if op == OULe && (a.lo < 0 || b.lo < 0) {
			return nil
		}
		if a.hi <= b.lo {
			return t.True
		}
		if a.lo > b.hi {
			return t.False
		}
	case OEq:
		if a.hi < b.lo || b.hi < a.lo {
			return t.False
		}
	case OSDiv, OUDiv:
		if op == OUDiv && a.lo < 0 {
			return nil
		}
		if b.op == OConst && b.lo > 0 && a.lo > -b.lo && a.hi < b.lo {
			return t.Const(sort, 0)
		}
		if op == OSDiv && b.op == OConst && b.lo > 0 && a.op == OMul && a.args[1] == b && t.linear1(a) {
			return a.args[0]
		}
	case OSRem, OURem:
		if op == OURem && a.lo < 0 {
			return nil
		}
		if b.op == OConst && b.lo > 0 && a.lo > -b.lo && a.hi < b.lo {
			return a
		}
	case OBAnd:
		if b.op == OConst && b.lo >= 0 && b.lo&(b.lo+1) == 0 && a.lo >= 0 && a.hi <= b.lo {
			return a
		}
	case OAdd:
		// x/c*c + x%c
		for _, p := range [2][2]*Term{{a, b}, {b, a}} {
			q, r := p[0], p[1]
			if q.op == OMul && r.op == OSRem && q.args[0].op == OSDiv && q.args[1].op == OConst &&
				q.args[1] == r.args[1] && q.args[0].args[1] == r.args[1] && q.args[0].args[0] == r.args[0] {
				return r.args[0]
			}
		}
		// (x - y) + y
		for _, p := range [2][2]*Term{{a, b}, {b, a}} {
			if p[0].op == OSub && p[0].args[1] == p[1] {
				return p[0].args[0]
			}
		}
	case OSub:
		// x - x/c*c
		if b.op == OMul && b.args[0].op == OSDiv && b.args[0].args[0] == a && b.args[1].op == OConst && b.args[0].args[1] == b.args[1] {
			return t.Bin(OSRem, a, b.args[1])
		}
		// x - (x - y)
		if b.op == OSub && b.args[0] == a {
			return b.args[1]
		}
		// (x + c) - x and x - (x + c)
		if a.op == OAdd && a.args[0] == b {
			return a.args[1]
		}
		if a.op == OAdd && a.args[1] == b {
			return a.args[0]
		}
	}
	return nil
}

// iteNodes counts the nodes of a float term that only selects between constants, 0 for other terms.
func (t *TermTable) iteNodes(x *Term) int {
	if x.op == OConst {
		return 1
	}
	if x.op != OIte {
		return 0
	}
	if n, ok := t.itn[x.id]; ok {
		return n
	}
	a, b := t.iteNodes(x.args[1]), t.iteNodes(x.args[2])
	n := 0
	if a > 0 && b > 0 {
		n = min(a+b, 1<<10)
	}
	t.itn[x.id] = n
	return n
}

// pushFloat moves float operations on selected constants to the constants.
func (t *TermTable) pushFloat(op Op, a, b *Term) *Term {
	if a.sort != SF32 && a.sort != SF64 || op == OEq || a.op == OConst && b.op == OConst {
		return nil
	}
	na, nb := t.iteNodes(a), t.iteNodes(b)
	if na == 0 || nb == 0 || na*nb > 256 {
		return nil
	}
	if a.op == OIte {
		return t.Ite(a.args[0], t.Bin(op, a.args[1], b), t.Bin(op, a.args[2], b))
	}
	return t.Ite(b.args[0], t.Bin(op, a, b.args[1]), t.Bin(op, a, b.args[2]))
}

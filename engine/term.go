package main

// Terms: quantifier-free bit-vector / boolean expressions over the symbolic
// inputs of one path.

import (
	"fmt"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpEq
	OpUlt
	OpSlt
	OpUle
	OpSle
	OpAdd
	OpSub
	OpMul
	OpUdiv
	OpSdiv
	OpUrem
	OpSrem
	OpBand
	OpBor
	OpBxor
	OpShl
	OpLshr
	OpAshr
	OpIte
	OpZext
	OpSext
	OpTrunc
)

var opNames = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpUlt: "bvult", OpSlt: "bvslt",
	OpUle: "bvule", OpSle: "bvsle", OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul",
	OpUdiv: "bvudiv", OpSdiv: "bvsdiv", OpUrem: "bvurem", OpSrem: "bvsrem",
	OpBand: "bvand", OpBor: "bvor", OpBxor: "bvxor", OpShl: "bvshl", OpLshr: "bvlshr",
	OpAshr: "bvashr", OpIte: "ite",
}

// Var is a symbolic input. set (for 8-bit variables) is the a-priori domain.
type Var struct {
	name string
	w    uint8
	id   int
	set  *[256]bool
	lo   uint64
	hi   uint64
	rng  bool
}

// Term of width w; w==0 means Bool.
type Term struct {
	op   Op
	w    uint8
	val  uint64
	a    []*Term
	v    *Var
	size int
	def  string     // name once defined in the solver (per path)
	one  *Var       // the only variable occurring, if exactly one
	many bool       // more than one variable occurs
	bits *[4]uint64 // memo: truth table when Bool over one 8-bit variable
}

var (
	tTrue  = &Term{op: OpConst, w: 0, val: 1, size: 1}
	tFalse = &Term{op: OpConst, w: 0, val: 0, size: 1}
)

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func bvc(w uint8, v uint64) *Term { return &Term{op: OpConst, w: w, val: v & mask(w), size: 1} }

func boolc(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func (t *Term) isConst() bool { return t.op == OpConst }

func mk(op Op, w uint8, args ...*Term) *Term {
	t := &Term{op: op, w: w, a: args, size: 1}
	for _, x := range args {
		t.size += x.size
		if x.many {
			t.many = true
		} else if x.one != nil {
			if t.one == nil {
				t.one = x.one
			} else if t.one != x.one {
				t.many = true
			}
		}
	}
	if t.many {
		t.one = nil
	}
	return t
}

func mkVar(v *Var) *Term {
	return &Term{op: OpVar, w: v.w, v: v, size: 1, one: v}
}

func tNot(x *Term) *Term {
	if x.isConst() {
		return boolc(x.val == 0)
	}
	if x.op == OpNot {
		return x.a[0]
	}
	return mk(OpNot, 0, x)
}

func tAnd(xs ...*Term) *Term {
	var out []*Term
	for _, x := range xs {
		if x.isConst() {
			if x.val == 0 {
				return tFalse
			}
			continue
		}
		out = append(out, x)
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return simp1(mk(OpAnd, 0, out...))
}

func tOr(xs ...*Term) *Term {
	var out []*Term
	for _, x := range xs {
		if x.isConst() {
			if x.val != 0 {
				return tTrue
			}
			continue
		}
		out = append(out, x)
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return simp1(mk(OpOr, 0, out...))
}

// simp1 folds a Bool term over one byte variable with a restricted domain when
// it is constant on the whole domain.
func simp1(t *Term) *Term {
	if t.w != 0 || t.one == nil || t.one.w != 8 || t.size > 200 {
		return t
	}
	bs := truth(t)
	all, none := true, true
	for i := 0; i < 256; i++ {
		if t.one.set != nil && !t.one.set[i] {
			continue
		}
		if bs[i>>6]&(1<<(uint(i)&63)) != 0 {
			none = false
		} else {
			all = false
		}
	}
	if none {
		return tFalse
	}
	if all {
		return tTrue
	}
	return t
}

// truth returns the truth table of a Bool term over a single byte variable.
func truth(t *Term) *[4]uint64 {
	if t.bits != nil {
		return t.bits
	}
	var r [4]uint64
	switch t.op {
	case OpNot:
		b := truth(t.a[0])
		for i := range r {
			r[i] = ^b[i]
		}
	case OpAnd:
		for i := range r {
			r[i] = ^uint64(0)
		}
		for _, x := range t.a {
			b := truth(x)
			for i := range r {
				r[i] &= b[i]
			}
		}
	case OpOr:
		for _, x := range t.a {
			b := truth(x)
			for i := range r {
				r[i] |= b[i]
			}
		}
	default:
		m := map[*Var]uint64{}
		for i := 0; i < 256; i++ {
			m[t.one] = uint64(i)
			if eval(t, func(v *Var) uint64 { return m[v] }, nil) != 0 {
				r[i>>6] |= 1 << (uint(i) & 63)
			}
		}
	}
	t.bits = &r
	return t.bits
}

func tEq(x, y *Term) *Term {
	if x == y {
		return tTrue
	}
	if x.isConst() && y.isConst() {
		return boolc(x.val == y.val)
	}
	if x.w == 0 {
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			if y.val != 0 {
				return x
			}
			return tNot(x)
		}
		return mk(OpEq, 0, x, y)
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		switch x.op {
		case OpZext:
			if y.val > mask(x.a[0].w) {
				return tFalse
			}
			return tEq(x.a[0], bvc(x.a[0].w, y.val))
		case OpSext:
			if int64(sext(y.val, x.w)) != sext(y.val&mask(x.a[0].w), x.a[0].w) {
				return tFalse
			}
			return tEq(x.a[0], bvc(x.a[0].w, y.val))
		case OpIte:
			if x.a[1].isConst() && x.a[2].isConst() {
				e1, e2 := x.a[1].val == y.val, x.a[2].val == y.val
				switch {
				case e1 && e2:
					return tTrue
				case e1:
					return x.a[0]
				case e2:
					return tNot(x.a[0])
				default:
					return tFalse
				}
			}
		}
	}
	return simp1(mk(OpEq, 0, x, y))
}

func rangeOf(t *Term) (lo, hi uint64, ok bool) {
	switch t.op {
	case OpConst:
		return t.val, t.val, true
	case OpVar:
		if t.v.rng {
			return t.v.lo, t.v.hi, true
		}
		return 0, mask(t.w), true
	case OpZext:
		if lo, hi, ok := rangeOf(t.a[0]); ok {
			return lo, hi, true
		}
		return 0, mask(t.a[0].w), true
	case OpIte:
		a, b, o1 := rangeOf(t.a[1])
		c, d, o2 := rangeOf(t.a[2])
		if o1 && o2 {
			if c < a {
				a = c
			}
			if d > b {
				b = d
			}
			return a, b, true
		}
	}
	return 0, 0, false
}

func tUlt(x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		return boolc(x.val < y.val)
	}
	if a, b, ok := rangeOf(x); ok {
		if c, d, ok := rangeOf(y); ok {
			if b < c {
				return tTrue
			}
			if a >= d {
				return tFalse
			}
		}
	}
	if x.op == OpZext && y.isConst() {
		if y.val > mask(x.a[0].w) {
			return tTrue
		}
		return tUlt(x.a[0], bvc(x.a[0].w, y.val))
	}
	if y.op == OpZext && x.isConst() {
		if x.val >= mask(y.a[0].w) {
			return tFalse
		}
		return tUlt(bvc(y.a[0].w, x.val), y.a[0])
	}
	return simp1(mk(OpUlt, 0, x, y))
}

func tUle(x, y *Term) *Term { return tNot(tUlt(y, x)) }

func nonNeg(t *Term) bool {
	_, hi, ok := rangeOf(t)
	return ok && t.w > 0 && hi <= mask(t.w)>>1
}

func tSlt(x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		return boolc(sext(x.val, x.w) < sext(y.val, y.w))
	}
	if nonNeg(x) && nonNeg(y) {
		return tUlt(x, y)
	}
	if nonNeg(x) && y.isConst() && sext(y.val, y.w) < 0 {
		return tFalse
	}
	if nonNeg(y) && x.isConst() && sext(x.val, x.w) < 0 {
		return tTrue
	}
	return simp1(mk(OpSlt, 0, x, y))
}

func tIte(c, x, y *Term) *Term {
	if c.isConst() {
		if c.val != 0 {
			return x
		}
		return y
	}
	if x == y || (x.isConst() && y.isConst() && x.val == y.val) {
		return x
	}
	if x.w == 0 {
		if x.isConst() && y.isConst() {
			if x.val != 0 {
				return c
			}
			return tNot(c)
		}
		return tOr(tAnd(c, x), tAnd(tNot(c), y))
	}
	return mk(OpIte, x.w, c, x, y)
}

func tZext(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.isConst() {
		return bvc(w, x.val)
	}
	if x.op == OpZext {
		return tZext(x.a[0], w)
	}
	return mk(OpZext, w, x)
}

func tSext(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.isConst() {
		return bvc(w, uint64(sext(x.val, x.w)))
	}
	if x.op == OpZext && x.w > x.a[0].w {
		return tZext(x.a[0], w)
	}
	if nonNeg(x) {
		return tZext(x, w)
	}
	return mk(OpSext, w, x)
}

func tTrunc(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.isConst() {
		return bvc(w, x.val)
	}
	if x.op == OpZext || x.op == OpSext {
		if x.a[0].w == w {
			return x.a[0]
		}
		if x.a[0].w < w {
			if x.op == OpZext {
				return tZext(x.a[0], w)
			}
			return tSext(x.a[0], w)
		}
		return tTrunc(x.a[0], w)
	}
	if x.op == OpIte && x.size < 1000 {
		return tIte(x.a[0], tTrunc(x.a[1], w), tTrunc(x.a[2], w))
	}
	return mk(OpTrunc, w, x)
}

func tBin(op Op, x, y *Term) *Term {
	w := x.w
	if x.isConst() && y.isConst() {
		return bvc(w, evalBin(op, w, x.val, y.val))
	}
	switch op {
	case OpAdd, OpBor, OpBxor:
		if x.isConst() && x.val == 0 {
			return y
		}
		if y.isConst() && y.val == 0 {
			return x
		}
	case OpSub, OpShl, OpLshr, OpAshr:
		if y.isConst() && y.val == 0 {
			return x
		}
	case OpMul:
		if x.isConst() && x.val == 1 {
			return y
		}
		if y.isConst() && y.val == 1 {
			return x
		}
	}
	return mk(op, w, x, y)
}

func evalBin(op Op, w uint8, a, b uint64) uint64 {
	switch op {
	case OpAdd:
		return a + b
	case OpSub:
		return a - b
	case OpMul:
		return a * b
	case OpUdiv:
		if b == 0 {
			return mask(w)
		}
		return a / b
	case OpUrem:
		if b == 0 {
			return a
		}
		return a % b
	case OpSdiv:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return mask(w)
		}
		if y == -1 {
			return uint64(-x)
		}
		return uint64(x / y)
	case OpSrem:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x % y)
	case OpBand:
		return a & b
	case OpBor:
		return a | b
	case OpBxor:
		return a ^ b
	case OpShl:
		if b >= uint64(w) {
			return 0
		}
		return a << b
	case OpLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OpAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext(a, w) >> b)
	}
	panic("evalBin")
}

// eval evaluates t under an assignment.
func eval(t *Term, m func(*Var) uint64, memo map[*Term]uint64) uint64 {
	if t.op == OpConst {
		return t.val
	}
	if t.op == OpVar {
		if t.w == 0 {
			return m(t.v) & 1
		}
		return m(t.v) & mask(t.w)
	}
	big := memo != nil && t.size > 8
	if big {
		if r, ok := memo[t]; ok {
			return r
		}
	}
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	var r uint64
	switch t.op {
	case OpNot:
		r = 1 - eval(t.a[0], m, memo)
	case OpAnd:
		r = 1
		for _, x := range t.a {
			if eval(x, m, memo) == 0 {
				r = 0
				break
			}
		}
	case OpOr:
		r = 0
		for _, x := range t.a {
			if eval(x, m, memo) != 0 {
				r = 1
				break
			}
		}
	case OpEq:
		r = b2u(eval(t.a[0], m, memo) == eval(t.a[1], m, memo))
	case OpUlt:
		r = b2u(eval(t.a[0], m, memo) < eval(t.a[1], m, memo))
	case OpSlt:
		w := t.a[0].w
		r = b2u(sext(eval(t.a[0], m, memo), w) < sext(eval(t.a[1], m, memo), w))
	case OpIte:
		if eval(t.a[0], m, memo) != 0 {
			r = eval(t.a[1], m, memo)
		} else {
			r = eval(t.a[2], m, memo)
		}
	case OpZext:
		r = eval(t.a[0], m, memo)
	case OpSext:
		r = uint64(sext(eval(t.a[0], m, memo), t.a[0].w)) & mask(t.w)
	case OpTrunc:
		r = eval(t.a[0], m, memo) & mask(t.w)
	default:
		r = evalBin(t.op, t.w, eval(t.a[0], m, memo), eval(t.a[1], m, memo)) & mask(t.w)
	}
	if big {
		memo[t] = r
	}
	return r
}

// smt prints t; sub-terms above a size threshold get solver definitions
// through def (which must return a symbol).
func smt(t *Term, sb *strings.Builder, def func(*Term) string) {
	if t.def != "" {
		sb.WriteString(t.def)
		return
	}
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.val != 0 {
				sb.WriteString("true")
			} else {
				sb.WriteString("false")
			}
		} else {
			fmt.Fprintf(sb, "(_ bv%d %d)", t.val, t.w)
		}
		return
	case OpVar:
		sb.WriteString(t.v.name)
		return
	}
	if t.size > 24 && def != nil {
		sb.WriteString(def(t))
		return
	}
	smtNode(t, sb, def)
}

func smtNode(t *Term, sb *strings.Builder, def func(*Term) string) {
	switch t.op {
	case OpZext:
		fmt.Fprintf(sb, "((_ zero_extend %d) ", t.w-t.a[0].w)
	case OpSext:
		fmt.Fprintf(sb, "((_ sign_extend %d) ", t.w-t.a[0].w)
	case OpTrunc:
		fmt.Fprintf(sb, "((_ extract %d 0) ", t.w-1)
	default:
		sb.WriteString("(" + opNames[t.op] + " ")
	}
	for i, x := range t.a {
		if i > 0 {
			sb.WriteByte(' ')
		}
		smt(x, sb, def)
	}
	sb.WriteByte(')')
}

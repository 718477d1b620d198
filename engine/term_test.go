package main

import (
	"math/rand"
	"testing"
)

// TestSimplify compares the simplifying constructors with plain evaluation.
func TestSimplify(t *testing.T) {
	rng := rand.New(rand.NewSource(1))
	for round := 0; round < 200000; round++ {
		var set [256]bool
		set['a'], set['0'], set[255], set[128] = true, true, true, true
		vars := []*Var{{name: "a", w: 8, set: &set}, {name: "b", w: 8}, {name: "c", w: 16, rng: true, lo: 3, hi: 300}, {name: "d", w: 0}}
		vals := []uint64{[]uint64{'a', '0', 255, 128}[rng.Intn(4)], uint64(rng.Intn(256)), uint64(3 + rng.Intn(298)), uint64(rng.Intn(2))}
		m := func(v *Var) uint64 {
			for i := range vars {
				if vars[i] == v {
					return vals[i]
				}
			}
			panic("var")
		}
		consts := []uint64{0, 1, 127, 128, 255, 256, 1 << 15, 1<<16 - 1, 1 << 31, 1 << 63, ^uint64(0), '0', 'a'}
		var build func(w uint8, depth int) (*Term, uint64)
		var boolean func(depth int) (*Term, uint64)
		b2u := func(b bool) uint64 {
			if b {
				return 1
			}
			return 0
		}
		boolean = func(depth int) (*Term, uint64) {
			if depth == 0 {
				return mkVar(vars[3]), vals[3]
			}
			switch rng.Intn(7) {
			case 0:
				x, v := boolean(depth - 1)
				return tNot(x), 1 - v
			case 1:
				x, v := boolean(depth - 1)
				y, u := boolean(depth - 1)
				return tAnd(x, y), v & u
			case 2:
				x, v := boolean(depth - 1)
				y, u := boolean(depth - 1)
				return tOr(x, y), v | u
			case 3:
				x, v := boolean(depth - 1)
				y, u := boolean(depth - 1)
				return tEq(x, y), b2u(v == u)
			}
			w := []uint8{8, 16, 32, 64}[rng.Intn(4)]
			x, v := build(w, depth-1)
			y, u := build(w, depth-1)
			switch rng.Intn(3) {
			case 0:
				return tEq(x, y), b2u(v == u)
			case 1:
				return tUlt(x, y), b2u(v < u)
			}
			return tSlt(x, y), b2u(sext(v, w) < sext(u, w))
		}
		build = func(w uint8, depth int) (*Term, uint64) {
			if depth <= 0 || rng.Intn(6) == 0 {
				if w == 8 && rng.Intn(2) == 0 {
					i := rng.Intn(2)
					return mkVar(vars[i]), vals[i]
				}
				if w == 16 && rng.Intn(2) == 0 {
					return mkVar(vars[2]), vals[2]
				}
				c := consts[rng.Intn(len(consts))] & mask(w)
				return bvc(w, c), c
			}
			switch rng.Intn(5) {
			case 0:
				c, cv := boolean(depth - 1)
				x, v := build(w, depth-1)
				y, u := build(w, depth-1)
				if cv == 0 {
					v = u
				}
				return tIte(c, x, y), v
			case 1:
				if w == 8 {
					x, v := build(16, depth-1)
					return tTrunc(x, 8), v & 255
				}
				x, v := build(w/2, depth-1)
				if rng.Intn(2) == 0 {
					return tZext(x, w), v
				}
				return tSext(x, w), uint64(sext(v, w/2)) & mask(w)
			case 2:
				if w < 64 {
					x, v := build(w*2, depth-1)
					return tTrunc(x, w), v & mask(w)
				}
			}
			ops := []Op{OpAdd, OpSub, OpMul, OpUdiv, OpSdiv, OpUrem, OpSrem, OpBand, OpBor, OpBxor, OpShl, OpLshr, OpAshr}
			op := ops[rng.Intn(len(ops))]
			x, v := build(w, depth-1)
			y, u := build(w, depth-1)
			return tBin(op, x, y), evalBin(op, w, v, u) & mask(w)
		}
		x, want := boolean(4)
		if got := eval(x, m, nil); got != want {
			t.Fatalf("round %d: got %d want %d", round, got, want)
		}
	}
}

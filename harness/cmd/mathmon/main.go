// mathmon watches the saturating arithmetic (P25).
package main

import (
	"math/big"

	logger "github.com/ElrondNetwork/elrond-go-logger"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	amath "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/math"
	"verif/harness/run"
)

var (
	u64max = new(big.Int).SetUint64(^uint64(0))
	i64max = big.NewInt(1<<63 - 1)
	i64min = big.NewInt(-1 << 63)
	i32max = big.NewInt(1<<31 - 1)
	i32min = big.NewInt(-1 << 31)
)

func clamp(v, lo, hi *big.Int) (*big.Int, bool) {
	if v.Cmp(lo) < 0 {
		return lo, true
	}
	if v.Cmp(hi) > 0 {
		return hi, true
	}
	return v, false
}

// interesting 64-bit values: near powers of two and near bounds of partners
func pick(c *run.Case) uint64 {
	switch c.R.Intn(6) {
	case 0:
		return uint64(c.R.Intn(5)) - 2
	case 1:
		return uint64(1)<<uint(c.R.Intn(64)) + uint64(c.R.Intn(5)) - 2
	case 2:
		return ^uint64(0) - uint64(c.R.Intn(4))
	case 3:
		return c.R.Uint64() >> uint(c.R.Intn(64))
	case 4:
		return -(c.R.Uint64() >> uint(c.R.Intn(64)))
	}
	return c.R.Uint64()
}

func pair(c *run.Case) (uint64, uint64) {
	a := pick(c)
	switch c.R.Intn(4) {
	case 0: // sum at the bound
		return a, ^a + uint64(c.R.Intn(5)) - 2
	case 1: // product at the bound
		if a > 1 {
			return a, ^uint64(0)/a + uint64(c.R.Intn(3)) - 1
		}
	case 2:
		return a, a + uint64(c.R.Intn(5)) - 2
	}
	return a, pick(c)
}

func check(c *run.Case, a, b uint64) {
	z := big.NewInt(0)
	A, B := new(big.Int).SetUint64(a), new(big.Int).SetUint64(b)
	sa, sb := big.NewInt(int64(a)), big.NewInt(int64(b))
	ta, tb := big.NewInt(int64(int32(a))), big.NewInt(int64(int32(b)))
	test := func(name string, exact, lo, hi, got *big.Int) {
		w, over := clamp(exact, lo, hi)
		c.Count("evaluated", 1)
		k := "exact"
		if over {
			k = "saturated"
		}
		c.Count(k, 1)
		c.Distinct(name, k, exact.BitLen(), A.BitLen(), B.BitLen())
		if w.Cmp(got) != 0 {
			c.Failf(name+" "+k+" result is wrong", "%s(%d, %d) = %s, expected %s", name, a, b, got, w)
		}
	}
	testErr := func(name string, exact, lo, hi, got *big.Int, err error) {
		_, over := clamp(exact, lo, hi)
		c.Count("evaluated", 1)
		c.Distinct(name, over, A.BitLen(), B.BitLen())
		if over != (err != nil) || (!over && exact.Cmp(got) != 0) {
			c.Failf(name+" reports overflow wrongly or a wrong result", "%s(%d, %d) = %s, %v; exact %s", name, a, b, got, err, exact)
		}
	}
	U := func(x uint64) *big.Int { return new(big.Int).SetUint64(x) }
	sum, diff, prod := new(big.Int).Add(A, B), new(big.Int).Sub(A, B), new(big.Int).Mul(A, B)
	test("AddUint64", sum, z, u64max, U(amath.AddUint64(a, b)))
	test("SubUint64", diff, z, u64max, U(amath.SubUint64(a, b)))
	test("MulUint64", prod, z, u64max, U(amath.MulUint64(a, b)))
	r, err := amath.AddUint64WithErr(a, b)
	testErr("AddUint64WithErr", sum, z, u64max, U(r), err)
	r, err = amath.MulUint64WithErr(a, b)
	testErr("MulUint64WithErr", prod, z, u64max, U(r), err)
	test("AddInt64", new(big.Int).Add(sa, sb), i64min, i64max, big.NewInt(amath.AddInt64(int64(a), int64(b))))
	test("SubInt", new(big.Int).Sub(sa, sb), i64min, i64max, big.NewInt(int64(amath.SubInt(int(a), int(b)))))
	s32 := new(big.Int).Add(ta, tb)
	test("AddInt32", s32, i32min, i32max, big.NewInt(int64(amath.AddInt32(int32(a), int32(b)))))
	q, err := amath.AddInt32WithError(int32(a), int32(b))
	testErr("AddInt32WithError", s32, i32min, i32max, big.NewInt(int64(q)), err)
}

// chain of operations never turns a huge cost into a small one
func sequence(c *run.Case) {
	acc := pick(c)
	exact := new(big.Int).SetUint64(acc)
	for i := 0; i < 12; i++ {
		v := pick(c)
		if c.R.Intn(2) == 0 {
			acc = amath.AddUint64(acc, v)
			exact.Add(exact, new(big.Int).SetUint64(v))
		} else if v > 0 {
			acc = amath.MulUint64(acc, v)
			exact.Mul(exact, new(big.Int).SetUint64(v))
		}
		w, _ := clamp(exact, big.NewInt(0), u64max)
		exact = new(big.Int).Set(w)
		c.Count("sequence_steps", 1)
		if new(big.Int).SetUint64(acc).Cmp(w) != 0 {
			c.Failf("sequence of cost operations wraps", "step %d gives %d, expected %s", i, acc, w)
			return
		}
	}
}

// the helpers which slice memory with this arithmetic
func slices(c *run.Case) {
	data := make([]byte, c.R.Intn(40))
	c.R.Read(data)
	off, ln := int32(pick(c)), int32(pick(c))
	if c.R.Intn(2) == 0 {
		off, ln = int32(c.R.Intn(50)-5), int32(c.R.Intn(50)-5)
	}
	got, err := arwen.GuardedGetBytesSlice(data, off, ln)
	ok := off >= 0 && ln >= 0 && int64(off)+int64(ln) <= int64(len(data))
	c.Count("slices", 1)
	if ok != (err == nil) || (ok && string(got) != string(data[off:int64(off)+int64(ln)])) {
		c.Failf("GuardedGetBytesSlice accepts or returns a wrong range", "len %d off %d length %d: %v %v", len(data), off, ln, got, err)
	}
	size := int(int32(pick(c)))
	if size > 4096 {
		size %= 4096
	}
	p := arwen.PadBytesLeft(data, size)
	want := append([]byte{}, data...)
	for len(data) > 0 && len(want) < size {
		want = append([]byte{0}, want...)
	}
	if string(p) != string(want) {
		c.Failf("PadBytesLeft", "data %x size %d gives %x", data, size, p)
	}
}

func main() {
	logger.SetLogLevel("*:NONE")
	bounds := run.Fixed{Name: "all pairs of boundary values", Fn: func(c *run.Case) {
		var vs []uint64
		for i := uint(0); i < 64; i++ {
			for d := -2; d <= 2; d++ {
				vs = append(vs, uint64(1)<<i+uint64(d))
			}
		}
		for _, a := range vs {
			for _, b := range vs {
				check(c, a, b)
			}
		}
		c.Sample("AddInt64(%d,%d)=%d", int64(-1<<63), int64(-1), amath.AddInt64(-1<<63, -1))
	}}
	run.Main([]*run.Prop{{
		ID: "P25", Quick: 4000, Thorough: 400000,
		Rule:  "operand pairs are boundary values of every bit width and random values aimed at the sum/product bound; every operation is compared with arbitrary-precision arithmetic; distinct = (operation, exact or saturated, bit lengths)",
		Fixed: []run.Fixed{bounds},
		Need:  map[string]int64{"exact": 100000, "saturated": 100000, "sequence_steps": 1000, "slices": 1000},
		Case: func(c *run.Case) {
			for i := 0; i < 50; i++ {
				a, b := pair(c)
				check(c, a, b)
			}
			a, b := pair(c)
			c.Sample("a=%d b=%d AddUint64=%d MulUint64=%d AddInt64=%d", a, b, amath.AddUint64(a, b), amath.MulUint64(a, b), amath.AddInt64(int64(a), int64(b)))
			sequence(c)
			slices(c)
		},
	}})
}

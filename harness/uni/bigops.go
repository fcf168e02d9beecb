package uni

import "math/big"

func (fr *Fr) handle() int64 {
	switch fr.u.R.Intn(10) {
	case 0:
		return int64(fr.u.R.Intn(8))
	case 1:
		if fr.u.R.Intn(4) == 0 {
			return []int64{-1, -1 << 31, 1<<31 - 1, 1000}[fr.u.R.Intn(4)]
		}
	}
	return int64(fr.u.R.Intn(5))
}

// getBig reads a handle; reading an unknown handle makes it zero.
func (fr *Fr) getBig(h int64) *big.Int {
	v := fr.big[int32(h)]
	if v == nil {
		v = new(big.Int)
		fr.big[int32(h)] = v
	}
	return v
}

// peekBig reads a handle for deciding what to do, without touching it.
func (fr *Fr) peekBig(h int64) *big.Int {
	if v := fr.big[int32(h)]; v != nil {
		return v
	}
	return new(big.Int)
}
func (fr *Fr) setBig(h int64, v *big.Int) { fr.big[int32(h)] = new(big.Int).Set(v) }

func (fr *Fr) extraBig(vs ...*big.Int) uint64 {
	c := uint64(0)
	for _, v := range vs {
		if n := v.BitLen() / 8; n > 32 {
			c += fr.u.G.copyB(n)
		}
	}
	return c
}

// see checks a handle through its bytes.
func (fr *Fr) see(h int64) {
	v := fr.getBig(h)
	b := toTwos(v)
	o := fr.out(len(b))
	fr.calli("bigIntGetSignedBytes", fr.u.G.big("BigIntGetSignedBytes")+fr.u.G.copyB(len(b)), int32(len(b)), h, o)
	fr.got("bigIntGetSignedBytes", o, len(b), b)
}

func (u *U) bigBytes() []byte {
	switch u.R.Intn(6) {
	case 0:
		return u.rbytes(3)
	case 1:
		return u.rbytes(33)
	case 2:
		return append([]byte{0xff}, u.rbytes(8)...)
	case 3:
		return append([]byte{0x80}, make([]byte, u.R.Intn(40))...)
	case 4:
		b := make([]byte, 30+u.R.Intn(60))
		u.R.Read(b)
		return b
	}
	return u.rbytes(10)
}

func init() {
	big1 := t("P16")
	reg("big", "bigIntNew", 3, big1, func(fr *Fr) {
		x := fr.u.i64()
		h := int32(len(fr.big))
		for fr.big[h] != nil {
			h++
		}
		fr.calli("bigIntNew", fr.u.G.big("BigIntNew"), h, x)
		fr.big[h] = big.NewInt(x)
		fr.see(int64(h))
	})
	reg("big", "bigIntSetInt64", 2, big1, func(fr *Fr) {
		h, x := fr.handle(), fr.u.i64()
		fr.call("bigIntSetInt64", fr.u.G.big("BigIntSetInt64"), h, x)
		fr.setBig(h, big.NewInt(x))
		fr.see(h)
	})
	reg("big", "bigIntGetInt64", 2, big1, func(fr *Fr) {
		h := fr.handle()
		v := fr.getBig(h)
		w := int32(0)
		if v.IsInt64() {
			w = 1
		}
		fr.calli("bigIntIsInt64", fr.u.G.big("BigIntIsInt64"), w, h)
		if v.IsInt64() {
			fr.calll("bigIntGetInt64", fr.u.G.big("BigIntGetInt64"), v.Int64(), h)
		} else {
			fr.call("bigIntGetInt64", fr.u.G.big("BigIntGetInt64"), h) // undefined result
		}
	})
	reg("big", "bigIntSetUnsignedBytes", 4, big1, func(fr *Fr) {
		h, b := fr.handle(), fr.u.bigBytes()
		fr.call("bigIntSetUnsignedBytes", fr.u.G.big("BigIntSetUnsignedBytes")+fr.u.G.copyB(len(b)), h, fr.put(b), int64(len(b)))
		fr.setBig(h, new(big.Int).SetBytes(b))
		fr.see(h)
	})
	reg("big", "bigIntSetSignedBytes", 5, big1, func(fr *Fr) {
		h, b := fr.handle(), fr.u.bigBytes()
		fr.call("bigIntSetSignedBytes", fr.u.G.big("BigIntSetSignedBytes")+fr.u.G.copyB(len(b)), h, fr.put(b), int64(len(b)))
		fr.setBig(h, fromTwos(b))
		fr.see(h)
	})
	reg("big", "bigIntGetUnsignedBytes", 2, big1, func(fr *Fr) {
		h := fr.handle()
		b := fr.getBig(h).Bytes()
		o := fr.out(len(b))
		fr.calli("bigIntUnsignedByteLength", fr.u.G.big("BigIntUnsignedByteLength"), int32(len(b)), h)
		fr.calli("bigIntGetUnsignedBytes", fr.u.G.big("BigIntGetUnsignedBytes")+fr.u.G.copyB(len(b)), int32(len(b)), h, o)
		fr.got("bigIntGetUnsignedBytes", o, len(b), b)
	})
	reg("big", "bigIntGetSignedBytes", 3, big1, func(fr *Fr) {
		h := fr.handle()
		fr.calli("bigIntSignedByteLength", fr.u.G.big("BigIntSignedByteLength"), int32(len(toTwos(fr.getBig(h)))), h)
		fr.see(h)
	})
	reg("big", "look", 3, big1, func(fr *Fr) {
		for h := int64(0); h < 5; h++ {
			fr.see(h)
		}
	})
	bin := func(name, price string, destCounts bool, f func(a, b *big.Int) *big.Int) {
		reg("big", name, 2, big1, func(fr *Fr) {
			d, x, y := fr.handle(), fr.handle(), fr.handle()
			dv, a, b := fr.peekBig(d), fr.peekBig(x), fr.peekBig(y)
			r := f(a, b)
			if r == nil {
				if fr.u.R.Intn(12) == 0 {
					fr.fault(name, "undefined operation", d, x, y)
				}
				return
			}
			if r.BitLen() > 60000 {
				return
			}
			c := fr.u.G.big(price)
			if destCounts {
				c += fr.extraBig(dv, a, b)
			} else {
				c += fr.extraBig(a, b)
			}
			fr.call(name, c, d, x, y)
			fr.setBig(d, r)
			fr.see(d)
			if x != d {
				fr.see(x)
			}
			if y != d {
				fr.see(y)
			}
		})
	}
	n := func() *big.Int { return new(big.Int) }
	bin("bigIntAdd", "BigIntAdd", true, func(a, b *big.Int) *big.Int { return n().Add(a, b) })
	bin("bigIntSub", "BigIntSub", true, func(a, b *big.Int) *big.Int { return n().Sub(a, b) })
	bin("bigIntMul", "BigIntMul", true, func(a, b *big.Int) *big.Int { return n().Mul(a, b) })
	// truncated and Euclidean division, written out
	quo := func(a, b *big.Int) (*big.Int, *big.Int) {
		q, r := n().DivMod(n().Abs(a), n().Abs(b), n())
		if a.Sign()*b.Sign() < 0 {
			q.Neg(q)
		}
		if a.Sign() < 0 {
			r.Neg(r)
		}
		return q, r
	}
	div := func(a, b *big.Int) (*big.Int, *big.Int) {
		q, r := quo(a, b)
		if r.Sign() < 0 {
			if b.Sign() > 0 {
				q.Sub(q, big.NewInt(1))
				r.Add(r, b)
			} else {
				q.Add(q, big.NewInt(1))
				r.Sub(r, b)
			}
		}
		return q, r
	}
	z := func(f func(a, b *big.Int) (*big.Int, *big.Int), second bool) func(a, b *big.Int) *big.Int {
		return func(a, b *big.Int) *big.Int {
			if b.Sign() == 0 {
				return nil
			}
			q, r := f(a, b)
			if second {
				return r
			}
			return q
		}
	}
	bin("bigIntTDiv", "BigIntTDiv", true, z(quo, false))
	bin("bigIntTMod", "BigIntTMod", true, z(quo, true))
	bin("bigIntEDiv", "BigIntEDiv", true, z(div, false))
	bin("bigIntEMod", "BigIntEMod", true, z(div, true))
	bits := func(f func(x, y uint) uint) func(a, b *big.Int) *big.Int {
		return func(a, b *big.Int) *big.Int {
			if a.Sign() < 0 || b.Sign() < 0 {
				return nil
			}
			r := n()
			for i := 0; i < a.BitLen() || i < b.BitLen(); i++ {
				r.SetBit(r, i, f(a.Bit(i), b.Bit(i)))
			}
			return r
		}
	}
	bin("bigIntAnd", "BigIntAnd", false, bits(func(x, y uint) uint { return x & y }))
	bin("bigIntOr", "BigIntOr", false, bits(func(x, y uint) uint { return x | y }))
	bin("bigIntXor", "BigIntXor", false, bits(func(x, y uint) uint { return x ^ y }))
	un := func(name, price string, f func(a *big.Int) *big.Int) {
		reg("big", name, 2, big1, func(fr *Fr) {
			d, x := fr.handle(), fr.handle()
			dv, a := fr.peekBig(d), fr.peekBig(x)
			r := f(a)
			if r == nil {
				if fr.u.R.Intn(12) == 0 {
					fr.fault(name, "undefined operation", d, x)
				}
				return
			}
			fr.call(name, fr.u.G.big(price)+fr.extraBig(dv, a), d, x)
			fr.setBig(d, r)
			fr.see(d)
			fr.see(x)
		})
	}
	un("bigIntAbs", "BigIntAbs", func(a *big.Int) *big.Int {
		if a.Sign() < 0 {
			return n().Neg(a)
		}
		return n().Set(a)
	})
	un("bigIntNeg", "BigIntNeg", func(a *big.Int) *big.Int { return n().Sub(n(), a) })
	un("bigIntNot", "BigIntNot", func(a *big.Int) *big.Int {
		if a.Sign() < 0 {
			return nil
		}
		return n().Sub(n().Neg(a), big.NewInt(1))
	})
	reg("big", "bigIntSign", 1, big1, func(fr *Fr) {
		h := fr.handle()
		v := fr.getBig(h)
		fr.calli("bigIntSign", fr.u.G.big("BigIntSign")+fr.extraBig(v), int32(v.Sign()), h)
	})
	reg("big", "bigIntCmp", 2, big1, func(fr *Fr) {
		x, y := fr.handle(), fr.handle()
		a, b := fr.getBig(x), fr.getBig(y)
		w := n().Sub(a, b).Sign()
		fr.calli("bigIntCmp", fr.u.G.big("BigIntCmp")+fr.extraBig(a, b), int32(w), x, y)
	})
	sh := func(name, price string, f func(a *big.Int, s uint) *big.Int) {
		reg("big", name, 2, big1, func(fr *Fr) {
			d, x := fr.handle(), fr.handle()
			a := fr.peekBig(x)
			s := []int64{0, 1, 7, 8, 9, 63, 64, 65, 255, 256, 300, 2000}[fr.u.R.Intn(12)]
			if fr.u.R.Intn(15) == 0 {
				s = -1 - int64(fr.u.R.Intn(3))
			}
			if a.Sign() < 0 || s < 0 {
				if fr.u.R.Intn(12) == 0 {
					fr.fault(name, "undefined operation", d, x, s)
				}
				return
			}
			r := f(a, uint(s))
			if r.BitLen() > 60000 {
				return
			}
			fr.call(name, fr.u.G.big(price)+fr.extraBig(a)+fr.extraBig(r), d, x, s)
			fr.setBig(d, r)
			fr.see(d)
			if x != d {
				fr.see(x)
			}
		})
	}
	sh("bigIntShl", "BigIntShl", func(a *big.Int, s uint) *big.Int {
		return n().Mul(a, n().Exp(big.NewInt(2), big.NewInt(int64(s)), nil))
	})
	sh("bigIntShr", "BigIntShr", func(a *big.Int, s uint) *big.Int {
		return n().Div(a, n().Exp(big.NewInt(2), big.NewInt(int64(s)), nil))
	})
}

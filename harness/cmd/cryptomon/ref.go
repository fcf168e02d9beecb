package main

// Independent reference implementations: secp256k1 ECDSA and Ed25519
// verification on math/big, Keccak-256 and RIPEMD-160 from their descriptions.

import (
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"math/big"
	"math/bits"
)

func hx(s string) *big.Int { v, _ := new(big.Int).SetString(s, 16); return v }

var (
	kP  = hx("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")
	kN  = hx("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
	kGx = hx("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")
	kGy = hx("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")
	one = big.NewInt(1)
)

type kpt struct{ x, y *big.Int } // nil x = infinity

func kadd(a, b kpt) kpt {
	if a.x == nil {
		return b
	}
	if b.x == nil {
		return a
	}
	var l *big.Int
	if a.x.Cmp(b.x) == 0 {
		if a.y.Cmp(b.y) != 0 || a.y.Sign() == 0 {
			return kpt{}
		}
		l = new(big.Int).Mul(a.x, a.x)
		l.Mul(l, big.NewInt(3))
		l.Mul(l, new(big.Int).ModInverse(new(big.Int).Lsh(a.y, 1), kP))
	} else {
		d := new(big.Int).Sub(b.x, a.x)
		l = new(big.Int).Sub(b.y, a.y)
		l.Mul(l, new(big.Int).ModInverse(d.Mod(d, kP), kP))
	}
	l.Mod(l, kP)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, a.x).Sub(x, b.x).Mod(x, kP)
	y := new(big.Int).Sub(a.x, x)
	y.Mul(y, l).Sub(y, a.y).Mod(y, kP)
	return kpt{x, y}
}
func kmul(p kpt, n *big.Int) kpt {
	r := kpt{}
	for i := n.BitLen() - 1; i >= 0; i-- {
		r = kadd(r, r)
		if n.Bit(i) == 1 {
			r = kadd(r, p)
		}
	}
	return r
}

var kG = kpt{kGx, kGy}

func konCurve(p kpt) bool {
	l := new(big.Int).Mul(p.y, p.y)
	r := new(big.Int).Mul(p.x, p.x)
	r.Mul(r, p.x).Add(r, big.NewInt(7))
	return l.Mod(l, kP).Cmp(r.Mod(r, kP)) == 0
}

// kparse reads a public key: compressed, uncompressed or hybrid.
func kparse(b []byte) (kpt, bool) {
	if len(b) == 33 && (b[0] == 2 || b[0] == 3) {
		x := new(big.Int).SetBytes(b[1:])
		if x.Cmp(kP) >= 0 {
			return kpt{}, false
		}
		r := new(big.Int).Mul(x, x)
		r.Mul(r, x).Add(r, big.NewInt(7)).Mod(r, kP)
		y := new(big.Int).ModSqrt(r, kP)
		if y == nil {
			return kpt{}, false
		}
		if byte(y.Bit(0)) != b[0]&1 {
			y.Sub(kP, y)
		}
		return kpt{x, y}, true
	}
	if len(b) == 65 && (b[0] == 4 || b[0] == 6 || b[0] == 7) {
		p := kpt{new(big.Int).SetBytes(b[1:33]), new(big.Int).SetBytes(b[33:])}
		if p.x.Cmp(kP) >= 0 || p.y.Cmp(kP) >= 0 || !konCurve(p) {
			return kpt{}, false
		}
		if b[0] != 4 && byte(p.y.Bit(0)) != b[0]&1 {
			return kpt{}, false
		}
		return p, true
	}
	return kpt{}, false
}

// kparseSig reads SEQUENCE{INTEGER, INTEGER} with single-byte lengths; the
// integers are read as unsigned and may be padded.
func kparseSig(b []byte) (r, s *big.Int, ok bool) {
	if len(b) < 8 || b[0] != 0x30 || int(b[1])+2 > len(b) || int(b[1])+2 > 255 {
		return
	}
	b = b[2 : int(b[1])+2]
	rd := func() *big.Int {
		if len(b) < 2 || b[0] != 2 || b[1] == 0 || int(b[1])+2 > len(b) {
			return nil
		}
		v := new(big.Int).SetBytes(b[2 : 2+int(b[1])])
		b = b[2+int(b[1]):]
		if v.Sign() == 0 || v.Cmp(kN) >= 0 {
			return nil
		}
		return v
	}
	r = rd()
	if r == nil {
		return
	}
	s = rd()
	return r, s, s != nil && len(b) == 0
}

func khash(msg []byte) *big.Int {
	h := sha256.Sum256(msg)
	h = sha256.Sum256(h[:])
	return new(big.Int).SetBytes(h[:])
}

func refSecp(key, msg, sig []byte) bool {
	q, ok := kparse(key)
	if !ok {
		return false
	}
	r, s, ok := kparseSig(sig)
	if !ok {
		return false
	}
	w := new(big.Int).ModInverse(s, kN)
	u1 := new(big.Int).Mul(khash(msg), w)
	u2 := new(big.Int).Mul(r, w)
	p := kadd(kmul(kG, u1.Mod(u1, kN)), kmul(q, u2.Mod(u2, kN)))
	return p.x != nil && new(big.Int).Mod(p.x, kN).Cmp(r) == 0
}

func pad32(v *big.Int) []byte { b := v.Bytes(); return append(make([]byte, 32-len(b)), b...) }

func ksign(d, k *big.Int, msg []byte) (r, s *big.Int) {
	p := kmul(kG, k)
	r = new(big.Int).Mod(p.x, kN)
	s = new(big.Int).Mul(r, d)
	s.Add(s, khash(msg)).Mul(s, new(big.Int).ModInverse(k, kN)).Mod(s, kN)
	return
}

func derInt(v *big.Int, pad int) []byte {
	b := v.Bytes()
	if len(b) == 0 || b[0]&0x80 != 0 {
		b = append([]byte{0}, b...)
	}
	b = append(make([]byte, pad), b...)
	return append([]byte{2, byte(len(b))}, b...)
}
func der(r, s *big.Int, pr, ps int) []byte {
	b := append(derInt(r, pr), derInt(s, ps)...)
	return append([]byte{0x30, byte(len(b))}, b...)
}

// Ed25519
var (
	eP = new(big.Int).Sub(new(big.Int).Lsh(one, 255), big.NewInt(19))
	eL = new(big.Int).Add(new(big.Int).Lsh(one, 252), hx("14def9dea2f79cd65812631a5cf5d3ed"))
	eD = new(big.Int).Mod(new(big.Int).Mul(big.NewInt(-121665), new(big.Int).ModInverse(big.NewInt(121666), eP)), eP)
	eG ept
)

type ept struct{ x, y, z, t *big.Int }

func mulp(a, b *big.Int) *big.Int { r := new(big.Int).Mul(a, b); return r.Mod(r, eP) }
func subp(a, b *big.Int) *big.Int { r := new(big.Int).Sub(a, b); return r.Mod(r, eP) }
func addp(a, b *big.Int) *big.Int { r := new(big.Int).Add(a, b); return r.Mod(r, eP) }

func eadd(p, q ept) ept {
	a := mulp(subp(p.y, p.x), subp(q.y, q.x))
	b := mulp(addp(p.y, p.x), addp(q.y, q.x))
	c := mulp(mulp(p.t, q.t), addp(eD, eD))
	d := mulp(p.z, addp(q.z, q.z))
	e, f, g, h := subp(b, a), subp(d, c), addp(d, c), addp(b, a)
	return ept{mulp(e, f), mulp(g, h), mulp(f, g), mulp(e, h)}
}
func emul(p ept, n *big.Int) ept {
	r := ept{new(big.Int), big.NewInt(1), big.NewInt(1), new(big.Int)}
	for i := n.BitLen() - 1; i >= 0; i-- {
		r = eadd(r, r)
		if n.Bit(i) == 1 {
			r = eadd(r, p)
		}
	}
	return r
}
func le(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}
func tole(v *big.Int) []byte {
	b := pad32(v)
	for i := 0; i < 16; i++ {
		b[i], b[31-i] = b[31-i], b[i]
	}
	return b
}
func edec(b []byte) (ept, bool) {
	c := append([]byte{}, b...)
	sign := uint(c[31] >> 7)
	c[31] &= 0x7f
	y := new(big.Int).Mod(le(c), eP)
	yy := mulp(y, y)
	xx := mulp(subp(yy, one), new(big.Int).ModInverse(addp(mulp(eD, yy), one), eP))
	x := new(big.Int).ModSqrt(xx, eP)
	if x == nil {
		return ept{}, false
	}
	if x.Bit(0) != sign {
		x.Sub(eP, x).Mod(x, eP)
	}
	return ept{x, y, big.NewInt(1), mulp(x, y)}, true
}
func eenc(p ept) []byte {
	zi := new(big.Int).ModInverse(p.z, eP)
	x, y := mulp(p.x, zi), mulp(p.y, zi)
	b := tole(y)
	b[31] |= byte(x.Bit(0)) << 7
	return b
}
func init() {
	y := mulp(big.NewInt(4), new(big.Int).ModInverse(big.NewInt(5), eP))
	eG, _ = edec(tole(y))
}
func refEd(key, msg, sig []byte) bool {
	if len(key) != 32 || len(sig) != 64 {
		return false
	}
	a, ok := edec(key)
	if !ok {
		return false
	}
	s := le(sig[32:])
	if s.Cmp(eL) >= 0 {
		return false
	}
	h := sha512.New()
	h.Write(sig[:32])
	h.Write(key)
	h.Write(msg)
	k := new(big.Int).Mod(le(h.Sum(nil)), eL)
	na := ept{subp(new(big.Int), a.x), a.y, a.z, subp(new(big.Int), a.t)}
	r := eadd(emul(eG, s), emul(na, k))
	return string(eenc(r)) == string(sig[:32])
}

// Keccak-256 (original padding)
func refKeccak(msg []byte) []byte {
	var st [25]uint64
	const rate = 136
	m := append(append([]byte{}, msg...), 1)
	for len(m)%rate != 0 {
		m = append(m, 0)
	}
	m[len(m)-1] |= 0x80
	for ; len(m) > 0; m = m[rate:] {
		for i := 0; i < rate/8; i++ {
			st[i] ^= binary.LittleEndian.Uint64(m[8*i:])
		}
		keccakF(&st)
	}
	out := make([]byte, 32)
	for i := 0; i < 4; i++ {
		binary.LittleEndian.PutUint64(out[8*i:], st[i])
	}
	return out
}
func keccakF(a *[25]uint64) {
	lfsr := byte(1)
	for round := 0; round < 24; round++ {
		var c [5]uint64
		for x := 0; x < 5; x++ {
			c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20]
		}
		for x := 0; x < 5; x++ {
			d := c[(x+4)%5] ^ bits.RotateLeft64(c[(x+1)%5], 1)
			for y := 0; y < 25; y += 5 {
				a[x+y] ^= d
			}
		}
		x, y, cur := 1, 0, a[1]
		for t := 0; t < 24; t++ {
			x, y = y, (2*x+3*y)%5
			cur, a[x+5*y] = a[x+5*y], bits.RotateLeft64(cur, (t+1)*(t+2)/2%64)
		}
		for y := 0; y < 25; y += 5 {
			var r [5]uint64
			copy(r[:], a[y:y+5])
			for x := 0; x < 5; x++ {
				a[y+x] = r[x] ^ (^r[(x+1)%5] & r[(x+2)%5])
			}
		}
		for j := uint(0); j < 7; j++ {
			if lfsr&1 != 0 {
				a[0] ^= 1 << ((1 << j) - 1)
			}
			if lfsr&0x80 != 0 {
				lfsr = lfsr<<1 ^ 0x71
			} else {
				lfsr <<= 1
			}
		}
	}
}

// RIPEMD-160
func refRipemd(msg []byte) []byte {
	m := append(append([]byte{}, msg...), 0x80)
	for len(m)%64 != 56 {
		m = append(m, 0)
	}
	var l [8]byte
	binary.LittleEndian.PutUint64(l[:], uint64(len(msg))*8)
	m = append(m, l[:]...)
	h := [5]uint32{0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}
	kl := [5]uint32{0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e}
	kr := [5]uint32{0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0}
	rho := [16]int{7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8}
	var rl, rr [80]int
	for i := 0; i < 16; i++ {
		rl[i] = i
		rr[i] = (9*i + 5) % 16
	}
	for i := 16; i < 80; i++ {
		rl[i], rr[i] = rho[rl[i-16]], rho[rr[i-16]]
	}
	sh := [5][16]int{{11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8}, {12, 13, 11, 15, 6, 9, 9, 7, 12, 15, 11, 13, 7, 8, 7, 7},
		{13, 15, 14, 11, 7, 7, 6, 8, 13, 14, 13, 12, 5, 5, 6, 9}, {14, 11, 12, 14, 8, 6, 5, 5, 15, 12, 15, 14, 9, 9, 8, 6}, {15, 12, 13, 13, 9, 5, 8, 6, 14, 11, 12, 11, 8, 6, 5, 5}}
	f := func(j int, x, y, z uint32) uint32 {
		switch j {
		case 0:
			return x ^ y ^ z
		case 1:
			return x&y | ^x&z
		case 2:
			return (x | ^y) ^ z
		case 3:
			return x&z | y&^z
		}
		return x ^ (y | ^z)
	}
	for ; len(m) > 0; m = m[64:] {
		var w [16]uint32
		for i := range w {
			w[i] = binary.LittleEndian.Uint32(m[4*i:])
		}
		run := func(r [80]int, k [5]uint32, rev bool) [5]uint32 {
			a, b, c, d, e := h[0], h[1], h[2], h[3], h[4]
			for i := 0; i < 80; i++ {
				j := i / 16
				fj := j
				if rev {
					fj = 4 - j
				}
				t := bits.RotateLeft32(a+f(fj, b, c, d)+w[r[i]]+k[j], sh[j][r[i]]) + e
				a, e, d, c, b = e, d, bits.RotateLeft32(c, 10), b, t
			}
			return [5]uint32{a, b, c, d, e}
		}
		x, y := run(rl, kl, false), run(rr, kr, true)
		t := h[1] + x[2] + y[3]
		h[1] = h[2] + x[3] + y[4]
		h[2] = h[3] + x[4] + y[0]
		h[3] = h[4] + x[0] + y[1]
		h[4] = h[0] + x[1] + y[2]
		h[0] = t
	}
	out := make([]byte, 20)
	for i, v := range h {
		binary.LittleEndian.PutUint32(out[4*i:], v)
	}
	return out
}

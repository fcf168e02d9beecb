// cryptomon watches the hashes and signature checks contracts use (P19).
package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha256"
	"encoding/hex"
	"math/big"
	"sync"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/crypto/factory"
	"github.com/herumi/bls-go-binary/bls"
	"verif/harness/chain"
	"verif/harness/kit"
	"verif/harness/run"
)

// check is one question to the crypto functions with its only right answer.
type check struct {
	kind           string // sha256 keccak256 ripemd160 verifyBLS verifyEd25519 verifySecp256k1
	how            string // how the inputs were made
	key, msg, sig  []byte
	hash           []byte
	valid, apiOnly bool
}

func rb(c *run.Case, n int) []byte { b := make([]byte, n); c.R.Read(b); return b }

func message(c *run.Case) []byte {
	switch c.R.Intn(8) {
	case 0:
		return nil
	case 1:
		return rb(c, 1+c.R.Intn(3))
	case 2: // block boundaries of the hash functions
		return rb(c, []int{20, 31, 32, 33, 48, 55, 56, 57, 63, 64, 65, 96, 111, 112, 119, 127, 128, 129, 135, 136, 137, 271, 272, 273}[c.R.Intn(24)])
	case 3:
		return rb(c, 1+c.R.Intn(5000))
	case 4:
		return make([]byte, 1+c.R.Intn(300))
	}
	return rb(c, 1+c.R.Intn(200))
}

func hashCheck(c *run.Case) check {
	m := message(c)
	switch c.R.Intn(3) {
	case 0:
		h := sha256.Sum256(m)
		return check{kind: "sha256", msg: m, hash: h[:]}
	case 1:
		return check{kind: "keccak256", msg: m, hash: refKeccak(m)}
	}
	return check{kind: "ripemd160", msg: m, hash: refRipemd(m)}
}

// alter makes a different byte string.
func alter(c *run.Case, b []byte) []byte {
	o := append([]byte{}, b...)
	switch {
	case len(o) == 0:
		return rb(c, 1)
	case c.R.Intn(4) == 0:
		i := c.R.Intn(len(o))
		o[i] = byte(int(o[i]) + 1 + c.R.Intn(255))
	default:
		i := c.R.Intn(len(o))
		o[i] ^= 1 << uint(c.R.Intn(8))
	}
	return o
}

func alterMsg(c *run.Case, m []byte) []byte {
	switch c.R.Intn(4) {
	case 0:
		return append(append([]byte{}, m...), 0)
	case 1:
		if len(m) > 0 {
			return m[:len(m)-1]
		}
	case 2:
		return append([]byte{0}, m...)
	}
	return alter(c, m)
}

func edCheck(c *run.Case) check {
	seed := rb(c, 32)
	priv := ed25519.NewKeyFromSeed(seed)
	k := check{kind: "verifyEd25519", msg: message(c), key: append([]byte{}, priv[32:]...)}
	k.sig = ed25519.Sign(priv, k.msg)
	switch c.R.Intn(12) {
	case 0, 1, 2, 3:
		k.how = "valid"
	case 4:
		k.how, k.sig = "altered signature", alter(c, k.sig)
	case 5:
		k.how, k.msg = "altered message", alterMsg(c, k.msg)
	case 6:
		k.how, k.key = "altered key", alter(c, k.key)
	case 7:
		s := new(big.Int).Add(le(k.sig[32:]), eL)
		k.how, k.sig = "S+L", append(append([]byte{}, k.sig[:32]...), tole(s)...)
	case 8:
		k.how, k.sig = "zero key or signature", make([]byte, 64)
		if c.R.Intn(2) == 0 {
			k.key = make([]byte, 32)
		}
	case 9:
		k.how, k.key = "random key", rb(c, 32)
	case 10:
		k.how, k.apiOnly, k.key = "key length", true, rb(c, []int{0, 1, 31, 33, 64}[c.R.Intn(5)])
	case 11:
		n := []int{0, 1, 32, 63, 65, 96}[c.R.Intn(6)]
		k.how, k.apiOnly, k.sig = "signature length", true, append(append([]byte{}, k.sig...), make([]byte, 40)...)[:n]
	}
	k.valid = refEd(k.key, k.msg, k.sig)
	return k
}

func scalar(c *run.Case) *big.Int {
	if c.R.Intn(6) == 0 {
		return big.NewInt(int64(1 + c.R.Intn(5)))
	}
	if c.R.Intn(6) == 0 {
		return new(big.Int).Sub(kN, big.NewInt(int64(1+c.R.Intn(5))))
	}
	v := new(big.Int).SetBytes(rb(c, 32))
	return v.Mod(v, new(big.Int).Sub(kN, one)).Add(v, one)
}

func kkey(p kpt, form byte) []byte {
	switch form {
	case 2:
		return append([]byte{2 + byte(p.y.Bit(0))}, pad32(p.x)...)
	case 4:
		return append(append([]byte{4}, pad32(p.x)...), pad32(p.y)...)
	}
	return append(append([]byte{6 + byte(p.y.Bit(0))}, pad32(p.x)...), pad32(p.y)...)
}

func secpCheck(c *run.Case) check {
	d := scalar(c)
	q := kmul(kG, d)
	m := message(c)
	r, s := ksign(d, scalar(c), m)
	k := check{kind: "verifySecp256k1", msg: m, how: "valid"}
	k.key = kkey(q, []byte{2, 2, 4, 4, 6}[c.R.Intn(5)])
	k.sig = der(r, s, 0, 0)
	switch c.R.Intn(17) {
	case 0, 1, 2, 3:
	case 4:
		k.how, k.sig = "n-s", der(r, new(big.Int).Sub(kN, s), 0, 0)
	case 5:
		k.how, k.sig = "altered signature", alter(c, k.sig)
	case 6:
		k.how, k.msg = "altered message", alterMsg(c, m)
	case 7:
		for {
			k.how, k.key = "altered key", alter(c, kkey(q, []byte{2, 4, 6}[c.R.Intn(3)]))
			// btcec accepts the undefined prefix 5 and coordinates of
			// compressed keys outside the field: not judged
			if k.key[0] != 5 && new(big.Int).SetBytes(k.key[1:33]).Cmp(kP) < 0 {
				break
			}
		}
	case 8:
		k.how, k.sig = "padded integers", der(r, s, c.R.Intn(3), c.R.Intn(3))
	case 9:
		k.how, k.sig = "r+n", der(new(big.Int).Add(r, kN), s, 0, 0)
	case 10:
		k.how, k.sig = "s+n", der(r, new(big.Int).Add(s, kN), 0, 0)
	case 11:
		k.how, k.sig = "zero r or s", der(new(big.Int), s, 0, 0)
		if c.R.Intn(2) == 0 {
			k.sig = der(r, new(big.Int), 0, 0)
		}
	case 12:
		k.how, k.key = "other key", kkey(kmul(kG, scalar(c)), []byte{2, 4, 6}[c.R.Intn(3)])
	case 13:
		k.how = "wrong parity"
		k.key[0] ^= 1
		if k.key[0] == 5 {
			k.key = kkey(q, 6)
			k.key[0] ^= 1
		}
	case 14:
		k.how, k.key = "point off the curve", kkey(kpt{q.x, new(big.Int).Mod(new(big.Int).Add(q.y, one), kP)}, []byte{4, 6}[c.R.Intn(2)])
	case 15:
		k.how, k.key[0] = "key format", []byte{0, 1, 8, 9, 0x42, 0xff}[c.R.Intn(6)]
	case 16:
		k.how, k.sig = "random signature bytes", append([]byte{0x30, byte(c.R.Intn(256))}, rb(c, 70)...)
	}
	k.valid = refSecp(k.key, k.msg, k.sig)
	return k
}

func blsCheck(c *run.Case) check {
	var sk bls.SecretKey
	if sk.SetLittleEndianMod(rb(c, 32)) != nil {
		panic("secret key")
	}
	m := message(c)
	if len(m) == 0 {
		m = []byte{7} // the empty message cannot be signed
	}
	k := check{kind: "verifyBLS", msg: m, how: "valid", valid: true}
	k.key = sk.GetPublicKey().Serialize()
	good := sk.Sign(string(m))
	k.sig = good.Serialize()
	n := c.R.Intn(16)
	if n < 5 {
		return k
	}
	k.valid = false
	switch n {
	case 5, 6:
		k.how, k.sig = "altered signature", alter(c, k.sig)
	case 7:
		k.how, k.msg = "altered message", alterMsg(c, m)
	case 8:
		k.how, k.key = "altered key", alter(c, k.key)
	case 9:
		k.how = "negated signature"
		k.sig[47] ^= 0x80
	case 10:
		k.how, k.key, k.sig = "zero points", make([]byte, 96), make([]byte, 48)
	case 11, 12: // points of the curves outside the prime-order groups
		v := outside[c.R.Intn(len(outside))]
		k.how = v[0]
		k.key, _ = hex.DecodeString(v[1])
		k.msg, _ = hex.DecodeString(v[2])
		k.sig, _ = hex.DecodeString(v[3])
		return k
	case 13:
		k.how, k.key = "random key", rb(c, 96)
	case 14:
		k.how, k.sig = "random signature", rb(c, 48)
	case 15:
		k.apiOnly = true
		if c.R.Intn(2) == 0 {
			k.how, k.key = "key length", append(append([]byte{}, k.key...), make([]byte, 40)...)[:[]int{0, 1, 48, 95}[c.R.Intn(4)]]
		} else {
			k.how, k.sig = "signature length", append(append([]byte{}, k.sig...), make([]byte, 60)...)[:[]int{0, 1, 24, 47}[c.R.Intn(4)]]
		}
	}
	if bytes.Equal(k.msg, m) && bytes.Equal(k.sig, good.Serialize()) && bytes.Equal(k.key, sk.GetPublicKey().Serialize()) {
		k.valid = true
	}
	return k
}

func pick(c *run.Case) check {
	switch c.R.Intn(8) {
	case 0, 1:
		return hashCheck(c)
	case 2, 3:
		return edCheck(c)
	case 4, 5:
		return secpCheck(c)
	}
	return blsCheck(c)
}

// direct asks the crypto objects themselves.
func direct(k check) (bad string) {
	v := factory.NewVMCrypto()
	var h []byte
	var err error
	switch k.kind {
	case "sha256":
		h, err = v.Sha256(k.msg)
	case "keccak256":
		h, err = v.Keccak256(k.msg)
	case "ripemd160":
		h, err = v.Ripemd160(k.msg)
	case "verifyBLS":
		err = v.VerifyBLS(k.key, k.msg, k.sig)
	case "verifyEd25519":
		err = v.VerifyEd25519(k.key, k.msg, k.sig)
	case "verifySecp256k1":
		err = v.VerifySecp256k1(k.key, k.msg, k.sig)
	}
	if k.hash != nil {
		if err != nil || !bytes.Equal(h, k.hash) {
			return "wrong hash"
		}
		return ""
	}
	if (err == nil) != k.valid {
		if k.valid {
			return "rejects a valid signature"
		}
		return "accepts an invalid signature"
	}
	return ""
}

func desc(k check) string {
	return k.kind + " (" + k.how + ") key=" + hex.EncodeToString(k.key) + " msg=" + hex.EncodeToString(k.msg) + " sig=" + hex.EncodeToString(k.sig)
}

// api asks through the host functions, with the inputs placed anywhere in
// guest memory.
func api(c *run.Case, ks []check) {
	w := kit.New()
	a := w.Contract(1, 0, "go")
	done := 0
	w.On("c1", "go", func(f *kit.F) {
		for _, k := range ks {
			if k.apiOnly {
				continue
			}
			f.Reset()
			for i := c.R.Intn(200); i > 0; i-- {
				f.Alloc(c.R.Intn(50))
			}
			m := f.Put(k.msg)
			if len(k.msg) > 0 && c.R.Intn(4) == 0 { // the last bytes of the memory
				m = int64(len(f.Mem()) - len(k.msg))
				copy(f.Mem()[m:], k.msg)
			}
			bad := ""
			if k.hash != nil {
				out := f.Alloc(40)
				if c.R.Intn(8) == 0 && len(k.msg) > 0 {
					out = m // in place
				}
				if out+40 > int64(len(f.Mem())) {
					out = f.Alloc(40)
				}
				before := f.Get(out, 40)
				r := f.I(k.kind, m, int64(len(k.msg)), out)
				after := f.Get(out, 40)
				if r != 0 || !bytes.Equal(after[:len(k.hash)], k.hash) {
					bad = "wrong hash"
				} else if !bytes.Equal(after[len(k.hash):], before[len(k.hash):]) {
					bad = "writes behind the hash"
				}
			} else {
				key, sig := f.Put(k.key), f.Put(append(append([]byte{}, k.sig...), rb(c, 200)...))
				var r int32
				if k.kind == "verifySecp256k1" {
					r = f.I(k.kind, key, int64(len(k.key)), m, int64(len(k.msg)), sig)
				} else {
					r = f.I(k.kind, key, m, int64(len(k.msg)), sig)
				}
				valid := k.valid
				if k.kind == "verifySecp256k1" { // the contract gives no length
					n := int(k.sig[1]) + 2
					valid = refSecp(k.key, k.msg, append(append([]byte{}, k.sig...), f.Get(sig+int64(len(k.sig)), 260)...)[:n])
				}
				if valid && r != 0 {
					bad = "rejects a valid signature"
				} else if !valid && r == 0 {
					bad = "accepts an invalid signature"
				} else if !valid && r != -1 {
					bad = "unexpected return value"
				}
			}
			done++
			if bad != "" {
				c.Failf("host function: "+k.kind+" "+bad, "%s", desc(k))
			}
		}
	})
	o := w.Call(chain.User(1), a, "go", 1<<40, 0)
	want := 0
	for _, k := range ks {
		if !k.apiOnly {
			want++
		}
	}
	if done != want || o.ReturnCode != 0 {
		c.Failf("a crypto check ended the execution", "%d of %d checks done, %v %s; next: %s", done, want, o.ReturnCode, o.ReturnMessage, desc(ks[min(done, len(ks)-1)]))
	}
	c.Count("host function checks", int64(done))
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func one19(c *run.Case) {
	var ks []check
	for i := 0; i < 6; i++ {
		k := pick(c)
		ks = append(ks, k)
		if b := direct(k); b != "" {
			c.Failf("crypto object: "+k.kind+" "+b, "%s", desc(k))
		}
		v := "hash"
		if k.hash == nil {
			v = "invalid"
			if k.valid {
				v = "valid"
			}
		}
		c.Count(k.kind+" "+v, 1)
		c.Count("direct checks", 1)
		c.Distinct(k.kind, k.how, v, len(k.msg)/8)
	}
	c.Sample("%s", desc(ks[0]))
	api(c, ks)
	if c.Index%4 == 0 { // several VMs of one node at once
		var wg sync.WaitGroup
		bad := make([]string, len(ks))
		for g := range ks {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for j := 0; j < 3; j++ {
					if b := direct(ks[(g+j)%len(ks)]); b != "" {
						bad[g] = ks[(g+j)%len(ks)].kind + " " + b
					}
				}
			}(g)
		}
		wg.Wait()
		for _, b := range bad {
			if b != "" {
				c.Failf("concurrent use: "+b, "%s", b)
			}
		}
		c.Count("concurrent checks", int64(3*len(ks)))
	}
}

func kat(c *run.Case) {
	un := func(s string) []byte { b, _ := hex.DecodeString(s); return b }
	for _, k := range []check{
		{kind: "sha256", msg: []byte("abc"), hash: un("ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad")},
		{kind: "sha256", hash: un("e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855")},
		{kind: "keccak256", hash: un("c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470")},
		{kind: "keccak256", msg: []byte("abc"), hash: un("4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45")},
		{kind: "ripemd160", hash: un("9c1185a5c5e9fc54612808977ee8f548b2258d31")},
		{kind: "ripemd160", msg: []byte("abc"), hash: un("8eb208f7e05d987a9b044a8e98c6b087f15a0bfc")},
		{kind: "verifyEd25519", how: "RFC 8032 test 1", key: un("d75a980182b10ab7d54bfed3c964073a0ee172f3daa62325af021a68f707511a"), sig: un("e5564300c360ac729086e2cc806e828a84877f1eb8e5d974d873e065224901555fb8821590a33bacc61e39701cf9b46bd25bf5f0595bbe24655141438e7a100b"), valid: true},
		{kind: "verifyEd25519", how: "RFC 8032 test 2", key: un("3d4017c3e843895a92b70aa74d1b7ebc9c982ccf2ec4968cc0cd55f12af4660c"), msg: []byte{0x72}, sig: un("92a009a9f0d4cab8720e820b5f642540a2b27b5416503f8fb3762223ebdb69da085ac1e43e15996e458f3613d0f11d8c387b2eaeb4302aeeb00d291612bb0c00"), valid: true},
		{kind: "verifyBLS", how: "repository vector", valid: false, key: make([]byte, 96), msg: []byte{1}, sig: make([]byte, 48)},
	} {
		if b := direct(k); b != "" {
			c.Failf("crypto object: "+k.kind+" "+b, "known answer: %s", desc(k))
		}
		// the references must agree with the known answers
		if k.kind == "keccak256" && !bytes.Equal(refKeccak(k.msg), k.hash) || k.kind == "ripemd160" && !bytes.Equal(refRipemd(k.msg), k.hash) || k.kind == "verifyEd25519" && !refEd(k.key, k.msg, k.sig) {
			panic("reference implementation")
		}
		c.Distinct("kat", k.kind, k.how)
		c.Count("known answers", 1)
	}
}

func main() {
	run.Main([]*run.Prop{{ID: "P19", Quick: 1200, Thorough: 60000,
		Rule:        "case i makes six questions (hashes of messages around block sizes; signatures valid, altered in key, message or signature, with S+L, n-s, r+n, padding, foreign keys, points off the curve or outside the group, wrong lengths) with their right answers from independent implementations, and asks the crypto objects, the host functions from a contract with inputs anywhere in memory, and several objects concurrently (race detector); distinct = (function, kind of input, outcome, message size class)",
		Fixed:       []run.Fixed{{Name: "known answers", Fn: kat}},
		Need:        map[string]int64{"verifyBLS valid": 200, "verifyBLS invalid": 400, "verifyEd25519 valid": 200, "verifyEd25519 invalid": 400, "verifySecp256k1 valid": 200, "verifySecp256k1 invalid": 400, "host function checks": 5000, "concurrent checks": 1000},
		Assumptions: []string{"a BLS signature is unique, so the only valid one is the library's own signature for the key", "secp256k1: padded integers in DER are read as by btcec; the undefined key prefix 5 is not judged", "the BLS empty message is not judged"},
		Case:        one19}})
}

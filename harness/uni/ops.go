package uni

import (
	"bytes"
	"math/big"
	"sort"

	"verif/harness/chain"
)

type opDef struct {
	group, name string
	tags        []string
	w           int
	fn          func(fr *Fr)
}

var groups = map[string][]*opDef{}

func reg(group, name string, w int, tags []string, fn func(fr *Fr)) {
	groups[group] = append(groups[group], &opDef{group, name, tags, w, fn})
}

func t(s ...string) []string { return s }

// DefaultWeights draws every kind of operation.
func DefaultWeights() Weights {
	return Weights{"burn": 3, "env": 6, "args": 5, "ret": 5, "storage": 14, "lock": 2, "big": 12, "small": 5, "log": 5, "xfer": 6, "esdt": 5, "tokens": 2, "exec": 16, "create": 3, "async": 3, "upgrade": 2, "end": 1, "bad": 1, "mem": 1, "crypto": 1}
}

func (u *U) pickGroup() string {
	var ks []string
	n := 0
	for k, w := range u.W {
		if len(groups[k]) > 0 && w > 0 {
			ks = append(ks, k)
			n += w
		}
	}
	sort.Strings(ks)
	x := u.R.Intn(n)
	for _, k := range ks {
		x -= u.W[k]
		if x < 0 {
			return k
		}
	}
	return ks[0]
}

func pickOp(u *U, g string) *opDef {
	n := 0
	for _, d := range groups[g] {
		n += d.w
	}
	x := u.R.Intn(n)
	for _, d := range groups[g] {
		x -= d.w
		if x < 0 {
			return d
		}
	}
	return groups[g][0]
}

func (u *U) randomPlay(fr *Fr) {
	n := 1 + u.R.Intn(u.MaxOps)
	if fr.depth == 0 {
		n += 2
	}
	for i := 0; i < n; i++ {
		fr.step(pickOp(u, u.pickGroup()))
	}
	opTags = nil
}

// skipOp ends an operation of a calm transaction which could only fail.
type skipOp struct{}

func (fr *Fr) try(d *opDef) {
	used := fr.used
	known := map[int32]bool{}
	for h := range fr.big {
		known[h] = true
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(skipOp); !ok {
				panic(r)
			}
			fr.used = used
			for h := range fr.big {
				if !known[h] {
					delete(fr.big, h)
				}
			}
		}
	}()
	if d.group == "end" {
		return
	}
	d.fn(fr)
}

func (fr *Fr) step(d *opDef) {
	u := fr.u
	m := fr.f.Mark()
	opTags = d.tags
	if fr.ro {
		opTags = tagsOf("P09")
	}
	if fr.same {
		opTags = tagsOf("P28")
	}
	u.opsDone++
	fr.ops++
	if u.calm {
		fr.try(d)
	} else {
		d.fn(fr)
	}
	opTags = nil
	fr.f.Release(m)
	if fr.used > fr.limit && u.R.Intn(8) > 0 {
		fr.burn(1)
	}
}

// ---- random values

func (u *U) rbytes(max int) []byte {
	b := make([]byte, u.R.Intn(max+1))
	u.R.Read(b)
	return b
}

func (u *U) key() []byte { return u.Keys[u.R.Intn(len(u.Keys))] }

func (u *U) val() []byte {
	switch u.R.Intn(8) {
	case 0:
		return nil
	case 1:
		return []byte{byte(1 + u.R.Intn(3))}
	case 2:
		return bytes.Repeat([]byte{byte(1 + u.R.Intn(2))}, 1+u.R.Intn(6))
	case 3:
		return u.rbytes(200)
	case 4:
		return append([]byte{0}, u.rbytes(3)...)
	default:
		return u.rbytes(12)
	}
}

// account draws an address of the world.
func (u *U) account() []byte {
	switch u.R.Intn(10) {
	case 0, 1, 2, 3, 4:
		return u.CS[u.R.Intn(len(u.CS))].Addr
	case 5:
		return u.Remote[u.R.Intn(len(u.Remote))]
	case 6:
		return chain.User(900 + u.R.Intn(3))
	default:
		return u.Users[u.R.Intn(len(u.Users))]
	}
}

func (u *U) arg() []byte {
	switch u.R.Intn(6) {
	case 0:
		return []byte{}
	case 1:
		return []byte{byte(u.R.Intn(256))}
	case 2:
		b := make([]byte, 8)
		u.R.Read(b)
		return b
	case 3:
		return append([]byte{0xff}, u.rbytes(9)...)
	case 4:
		return u.rbytes(40)
	default:
		return u.rbytes(6)
	}
}

func (u *U) args(max int) [][]byte {
	a := make([][]byte, u.R.Intn(max+1))
	for i := range a {
		a[i] = u.arg()
	}
	return a
}

// amount draws an amount the owner mostly can pay.
func (u *U) amount(own *big.Int) *big.Int {
	if u.calm && u.R.Intn(3) == 0 {
		return big.NewInt(0)
	}
	if u.calm {
		v := big.NewInt(int64(1 + u.R.Intn(20)))
		if v.Cmp(own) > 0 {
			v.Set(own)
		}
		return v
	}
	switch u.R.Intn(12) {
	case 0, 1, 2, 3:
		return big.NewInt(0)
	case 4:
		return new(big.Int).Set(own)
	case 5:
		if u.R.Intn(3) == 0 {
			return new(big.Int).Add(own, big.NewInt(1+int64(u.R.Intn(3))))
		}
		return big.NewInt(1)
	default:
		v := big.NewInt(int64(1 + u.R.Intn(20)))
		if v.Cmp(own) > 0 && u.R.Intn(6) > 0 {
			return new(big.Int).Set(own)
		}
		return v
	}
}

// ---- basics

func init() {
	reg("burn", "instructions", 3, t("P02"), func(fr *Fr) {
		l := fr.left()
		c := uint64(1 + fr.u.R.Intn(100))
		if fr.u.R.Intn(12) == 0 && l > 0 {
			c = l/2 + 1
		}
		if fr.u.R.Intn(40) == 0 {
			c = l + uint64(fr.u.R.Intn(3)) // exactly all, or just too much
		}
		fr.burn(c)
	})
	reg("mem", "grow", 1, t("P10"), func(fr *Fr) {
		if len(fr.f.Mem()) < 6*65536 {
			fr.f.Grow(1)
		}
	})

	// ---- environment
	i64 := func(name, price string, want func(u *U) int64) {
		reg("env", name, 1, t("P18"), func(fr *Fr) { fr.calll(name, fr.u.G.api(price), want(fr.u)) })
	}
	i64("getBlockTimestamp", "GetBlockTimeStamp", func(u *U) int64 { return int64(u.Ch.Cur.Time) })
	i64("getBlockNonce", "GetBlockNonce", func(u *U) int64 { return int64(u.Ch.Cur.Nonce) })
	i64("getBlockRound", "GetBlockRound", func(u *U) int64 { return int64(u.Ch.Cur.Round) })
	i64("getBlockEpoch", "GetBlockEpoch", func(u *U) int64 { return int64(u.Ch.Cur.Epoch) })
	i64("getPrevBlockTimestamp", "GetBlockTimeStamp", func(u *U) int64 { return int64(u.Ch.Last.Time) })
	i64("getPrevBlockNonce", "GetBlockNonce", func(u *U) int64 { return int64(u.Ch.Last.Nonce) })
	i64("getPrevBlockRound", "GetBlockRound", func(u *U) int64 { return int64(u.Ch.Last.Round) })
	i64("getPrevBlockEpoch", "GetBlockEpoch", func(u *U) int64 { return int64(u.Ch.Last.Epoch) })
	blob := func(name, price string, want func(fr *Fr) []byte) {
		reg("env", name, 1, t("P18"), func(fr *Fr) {
			w := want(fr)
			o := fr.out(len(w))
			fr.call(name, fr.u.G.api(price), o)
			fr.got(name, o, len(w), w)
		})
	}
	blob("getBlockRandomSeed", "GetBlockRandomSeed", func(fr *Fr) []byte { return fr.u.Ch.Cur.Seed })
	blob("getPrevBlockRandomSeed", "GetBlockRandomSeed", func(fr *Fr) []byte { return fr.u.Ch.Last.Seed })
	blob("getStateRootHash", "GetStateRootHash", func(fr *Fr) []byte { return fr.u.Ch.Root })
	blob("getSCAddress", "GetSCAddress", func(fr *Fr) []byte { return fr.self })
	blob("getCaller", "GetCaller", func(fr *Fr) []byte { return fr.caller })
	blob("getOriginalTxHash", "GetBlockHash", func(fr *Fr) []byte { return fr.orig })
	reg("env", "getOwnerAddress", 1, t("P18"), func(fr *Fr) {
		a := acct(fr.u.base, fr.self)
		if a == nil || len(a.Code) == 0 {
			return
		}
		o := fr.out(len(a.Owner))
		fr.call("getOwnerAddress", fr.u.G.api("GetOwnerAddress"), o)
		fr.got("getOwnerAddress", o, len(a.Owner), a.Owner)
	})
	reg("env", "getGasLeft", 2, t("P18", "P01", "P02"), func(fr *Fr) {
		c := fr.u.G.api("GetGasLeft")
		r := uint64(fr.call("getGasLeft", c))
		if r != fr.left() {
			fr.diverge("result:getGasLeft", "getGasLeft returned %d, expected %d", r, fr.left())
		}
	})
	reg("env", "getShardOfAddress", 1, t("P18"), func(fr *Fr) {
		a := fr.u.account()
		fr.calli("getShardOfAddress", fr.u.G.api("GetShardOfAddress"), int32(fr.u.shard(a)), fr.put(a))
	})
	reg("env", "isSmartContract", 1, t("P18"), func(fr *Fr) {
		a := fr.u.account()
		w := int32(0)
		if fr.u.isSC(a) {
			w = 1
		}
		fr.calli("isSmartContract", fr.u.G.api("IsSmartContract"), w, fr.put(a))
	})
	reg("env", "getExternalBalance", 4, t("P18", "P03", "P06"), func(fr *Fr) {
		a := fr.u.account()
		if fr.u.R.Intn(2) == 0 {
			a = fr.self
		}
		w := fr.u.balance(a).Bytes()
		o := fr.out(len(w))
		fr.call("getExternalBalance", fr.u.G.api("GetExternalBalance"), fr.put(a), o)
		fr.got("getExternalBalance", o, len(w), w)
	})
	reg("env", "getBlockHash", 1, t("P18"), func(fr *Fr) {
		n := int64(fr.u.R.Intn(6)) - 1
		var w []byte
		if n >= 0 {
			w = fr.u.Ch.Hashes[uint64(n)]
		}
		o := fr.out(len(w))
		fr.calli("getBlockHash", fr.u.G.api("GetBlockHash"), 0, n, o)
		fr.got("getBlockHash", o, len(w), w)
	})
	reg("env", "getCallValue", 2, t("P18", "P03"), func(fr *Fr) {
		w := val32z(fr.value)
		o := fr.out(len(w))
		fr.calli("getCallValue", fr.u.G.api("GetCallValue"), int32(len(w)), o)
		fr.got("getCallValue", o, len(w), w)
	})
	reg("env", "bigIntGetCallValue", 1, t("P18", "P03", "P16"), func(fr *Fr) {
		h := fr.handle()
		fr.call("bigIntGetCallValue", fr.u.G.big("BigIntGetCallValue"), h)
		fr.setBig(h, fr.value)
	})
	reg("env", "bigIntGetExternalBalance", 2, t("P18", "P03", "P16", "P06"), func(fr *Fr) {
		h, a := fr.handle(), fr.u.account()
		fr.call("bigIntGetExternalBalance", fr.u.G.big("BigIntGetExternalBalance"), fr.put(a), h)
		fr.setBig(h, fr.u.balance(a))
	})

	// ---- token payment
	tk := func(fr *Fr) *Tok {
		if fr.tok == nil {
			return &Tok{Value: new(big.Int)}
		}
		return fr.tok
	}
	reg("tokens", "getESDTValue", 2, t("P18", "P04"), func(fr *Fr) {
		k := tk(fr)
		var w []byte
		if k.Value.Sign() > 0 {
			w = val32(k.Value)
		}
		o := fr.out(len(w))
		fr.calli("getESDTValue", fr.u.G.api("GetCallValue"), int32(len(w)), o)
		fr.got("getESDTValue", o, len(w), w)
	})
	reg("tokens", "getESDTTokenName", 2, t("P18", "P04"), func(fr *Fr) {
		k := tk(fr)
		o := fr.out(len(k.Name))
		fr.calli("getESDTTokenName", fr.u.G.api("GetCallValue"), int32(len(k.Name)), o)
		fr.got("getESDTTokenName", o, len(k.Name), k.Name)
	})
	reg("tokens", "getCallValueTokenName", 2, t("P18", "P04"), func(fr *Fr) {
		k := tk(fr)
		v := fr.value
		if len(k.Name) > 0 {
			v = k.Value
		}
		w := val32z(v)
		ov := fr.out(len(w))
		on := fr.out(len(k.Name))
		fr.calli("getCallValueTokenName", fr.u.G.api("GetCallValue"), int32(len(k.Name)), ov, on)
		fr.got("getCallValueTokenName", ov, len(w), w)
		fr.got("getCallValueTokenName", on, len(k.Name), k.Name)
	})
	reg("tokens", "getESDTTokenNonce", 1, t("P18", "P04"), func(fr *Fr) {
		fr.calll("getESDTTokenNonce", fr.u.G.api("GetCallValue"), int64(tk(fr).Nonce))
	})
	reg("tokens", "getESDTTokenType", 1, t("P18", "P04"), func(fr *Fr) {
		fr.calli("getESDTTokenType", fr.u.G.api("GetCallValue"), int32(tk(fr).Type))
	})
	reg("tokens", "bigIntGetESDTCallValue", 1, t("P18", "P04", "P16"), func(fr *Fr) {
		h := fr.handle()
		fr.call("bigIntGetESDTCallValue", fr.u.G.big("BigIntGetCallValue"), h)
		fr.setBig(h, tk(fr).Value)
	})
	reg("tokens", "checkNoPayment", 1, t("P18", "P04", "P03"), func(fr *Fr) {
		if fr.value.Sign() > 0 || fr.tok != nil {
			if fr.u.R.Intn(4) == 0 {
				fr.fault("checkNoPayment", "payment")
			}
			return
		}
		fr.call("checkNoPayment", fr.u.G.api("GetCallValue"))
	})
	reg("tokens", "getESDTBalance", 6, t("P04", "P18", "P06"), func(fr *Fr) {
		u := fr.u
		a := u.account()
		if u.R.Intn(2) == 0 {
			a = fr.self
		}
		id, n := u.token()
		w := u.tokens(a, id, n).Bytes()
		o := fr.out(len(w))
		fr.calli("getESDTBalance", u.G.api("GetExternalBalance"), int32(len(w)), fr.put(a), fr.put(id), int64(len(id)), int64(n), o)
		fr.got("getESDTBalance", o, len(w), w)
	})
	reg("tokens", "bigIntGetESDTExternalBalance", 3, t("P04", "P18", "P16", "P06"), func(fr *Fr) {
		u := fr.u
		a := u.account()
		id, n := u.token()
		h := fr.handle()
		fr.call("bigIntGetESDTExternalBalance", u.G.big("BigIntGetExternalBalance")+u.G.api("GetExternalBalance"), fr.put(a), fr.put(id), int64(len(id)), int64(n), h)
		fr.setBig(h, u.tokens(a, id, n))
	})
	meta := func(name string, length func(n, at, uri int) int) {
		reg("tokens", name, 1, t("P18", "P04"), func(fr *Fr) {
			u := fr.u
			a := u.account()
			id, n := u.token()
			e, err := u.Ch.Token(a, id, n)
			if err != nil {
				return
			}
			w := 0
			if m := e.TokenMetaData; m != nil {
				uri := 0
				if len(m.URIs) > 0 {
					uri = len(m.URIs[0])
				}
				w = length(len(m.Name), len(m.Attributes), uri)
			}
			fr.calli(name, u.G.api("GetExternalBalance"), int32(w), fr.put(a), fr.put(id), int64(len(id)), int64(n))
		})
	}
	meta("getESDTNFTNameLength", func(n, at, uri int) int { return n })
	meta("getESDTNFTAttributeLength", func(n, at, uri int) int { return at })
	meta("getESDTNFTURILength", func(n, at, uri int) int { return uri })
	reg("tokens", "getESDTTokenData", 2, t("P18", "P04", "P16"), func(fr *Fr) {
		u := fr.u
		a := u.account()
		id, n := u.token()
		e, err := u.Ch.Token(a, id, n)
		if err != nil {
			return
		}
		var fields [6][]byte // properties hash name attributes creator uri
		fields[0] = e.Properties
		vh, rh := fr.handle(), fr.handle()
		if m := e.TokenMetaData; m != nil {
			fields[1], fields[2], fields[3], fields[4] = m.Hash, m.Name, m.Attributes, m.Creator
			if len(m.URIs) > 0 {
				fields[5] = m.URIs[0]
			}
		}
		var o [6]int64
		for i := range fields {
			o[i] = fr.out(len(fields[i]))
		}
		v := u.tokens(a, id, n)
		fr.calli("getESDTTokenData", u.G.api("GetExternalBalance"), int32(len(v.Bytes())), fr.put(a), fr.put(id), int64(len(id)), int64(n),
			vh, o[0], o[1], o[2], o[3], o[4], rh, o[5])
		fr.setBig(vh, v)
		if m := e.TokenMetaData; m != nil {
			fr.setBig(rh, new(big.Int).SetUint64(uint64(m.Royalties)))
		}
		for i := range fields {
			fr.got("getESDTTokenData", o[i], len(fields[i]), fields[i])
		}
	})
	reg("tokens", "getCurrentESDTNFTNonce", 1, t("P18", "P04"), func(fr *Fr) {
		u := fr.u
		a := u.account()
		id, _ := u.token()
		k := append([]byte(chain.ProtectedPrefix+"nonce"), id...)
		v, extra := fr.readOf(a, k)
		fr.calll("getCurrentESDTNFTNonce", u.G.api("StorageLoad")+extra, int64(new(big.Int).SetBytes(v).Uint64()), fr.put(a), fr.put(id), int64(len(id)))
	})

	// ---- arguments
	reg("args", "getNumArguments", 1, t("P17"), func(fr *Fr) {
		fr.calli("getNumArguments", fr.u.G.api("GetNumArguments"), int32(len(fr.args)))
	})
	reg("args", "getFunction", 1, t("P17", "P18"), func(fr *Fr) {
		fn := []byte(fr.fnSeen())
		o := fr.out(len(fn))
		fr.calli("getFunction", fr.u.G.api("GetFunction"), int32(len(fn)), o)
		fr.got("getFunction", o, len(fn), fn)
	})
	argID := func(fr *Fr) int {
		if len(fr.args) > 0 && fr.u.R.Intn(5) > 0 {
			return fr.u.R.Intn(len(fr.args))
		}
		switch fr.u.R.Intn(6) {
		case 0:
			return -1
		case 1:
			return -1 << 31
		case 2:
			return 1<<31 - 1
		}
		return len(fr.args)
	}
	reg("args", "getArgumentLength", 2, t("P17"), func(fr *Fr) {
		id := argID(fr)
		w := int32(-1)
		if id >= 0 && id < len(fr.args) {
			w = int32(len(fr.args[id]))
		}
		fr.calli("getArgumentLength", fr.u.G.api("GetArgument"), w, int64(id))
	})
	reg("args", "getArgument", 4, t("P17"), func(fr *Fr) {
		id := argID(fr)
		w := int32(-1)
		var b []byte
		if id >= 0 && id < len(fr.args) {
			b = fr.args[id]
			w = int32(len(b))
		}
		o := fr.out(len(b))
		fr.calli("getArgument", fr.u.G.api("GetArgument"), w, int64(id), o)
		fr.got("getArgument", o, len(b), b)
	})
	small := func(name string, signed bool) {
		reg("args", name, 2, t("P17"), func(fr *Fr) {
			id := argID(fr)
			if id < 0 || id >= len(fr.args) {
				if fr.u.R.Intn(8) == 0 {
					fr.fault(name, "no such argument", int64(id))
				}
				return
			}
			var v *big.Int
			ok := false
			var w int64
			if signed {
				v = fromTwos(fr.args[id])
				ok = v.IsInt64()
				w = v.Int64()
			} else {
				v = new(big.Int).SetBytes(fr.args[id])
				ok = v.IsUint64()
				w = int64(v.Uint64())
			}
			if !ok {
				if fr.u.R.Intn(4) == 0 {
					fr.fault(name, "argument does not fit", int64(id))
				}
				return
			}
			fr.calll(name, fr.u.G.api("Int64GetArgument"), w, int64(id))
		})
	}
	small("smallIntGetUnsignedArgument", false)
	small("smallIntGetSignedArgument", true)
	small("int64getArgument", true)
	bigArg := func(name, price string, signed bool) {
		reg("args", name, 2, t("P17", "P16"), func(fr *Fr) {
			id := argID(fr)
			h := fr.handle()
			fr.call(name, fr.u.G.big(price), int64(id), h)
			if id >= 0 && id < len(fr.args) {
				if signed {
					fr.setBig(h, fromTwos(fr.args[id]))
				} else {
					fr.setBig(h, new(big.Int).SetBytes(fr.args[id]))
				}
			}
		})
	}
	bigArg("bigIntGetUnsignedArgument", "BigIntGetUnsignedArgument", false)
	bigArg("bigIntGetSignedArgument", "BigIntGetSignedArgument", true)

	// ---- returned data
	reg("ret", "finish", 6, t("P17"), func(fr *Fr) {
		v := fr.u.val()
		fr.call("finish", fr.u.G.api("Finish")+fr.u.G.persB(len(v)), fr.put(v), int64(len(v)))
		fr.ret(v)
	})
	fin := func(name string, signed bool) {
		reg("ret", name, 2, t("P17"), func(fr *Fr) {
			x := fr.u.i64()
			b := new(big.Int).SetUint64(uint64(x)).Bytes()
			if signed {
				b = toTwos(big.NewInt(x))
			}
			fr.call(name, fr.u.G.api("Int64Finish"), x)
			fr.ret(b)
		})
	}
	fin("smallIntFinishUnsigned", false)
	fin("smallIntFinishSigned", true)
	fin("int64finish", true)
	bfin := func(name, price string, signed bool) {
		reg("ret", name, 2, t("P17", "P16"), func(fr *Fr) {
			h := fr.handle()
			v := fr.getBig(h)
			b := v.Bytes()
			if signed {
				b = toTwos(v)
			}
			fr.call(name, fr.u.G.big(price)+fr.u.G.persB(len(b)), h)
			fr.ret(b)
		})
	}
	bfin("bigIntFinishUnsigned", "BigIntFinishUnsigned", false)
	bfin("bigIntFinishSigned", "BigIntFinishSigned", true)
	reg("ret", "getNumReturnData", 2, t("P17", "P06"), func(fr *Fr) {
		fr.calli("getNumReturnData", fr.u.G.api("GetNumReturnData"), int32(len(fr.u.M.Ret)))
	})
	rid := func(fr *Fr) int64 {
		if n := len(fr.u.M.Ret); n > 0 && fr.u.R.Intn(6) > 0 {
			return int64(fr.u.R.Intn(n))
		}
		switch fr.u.R.Intn(5) {
		case 0:
			return -1
		case 1:
			return -1 << 31
		}
		return int64(len(fr.u.M.Ret))
	}
	reg("ret", "getReturnDataSize", 2, t("P17", "P06"), func(fr *Fr) {
		id := rid(fr)
		w := 0
		if id >= 0 && int(id) < len(fr.u.M.Ret) {
			w = len(fr.u.M.Ret[id])
		}
		fr.calli("getReturnDataSize", fr.u.G.api("GetReturnDataSize"), int32(w), id)
	})
	reg("ret", "getReturnData", 3, t("P17", "P06"), func(fr *Fr) {
		id := rid(fr)
		var w []byte
		if id >= 0 && int(id) < len(fr.u.M.Ret) {
			w = fr.u.M.Ret[id]
		}
		o := fr.out(len(w))
		fr.calli("getReturnData", fr.u.G.api("GetReturnData"), int32(len(w)), id, o)
		fr.got("getReturnData", o, len(w), w)
	})

	// ---- storage
	store := func(name string, w int, tags []string, base func(fr *Fr) uint64, value func(fr *Fr) ([]byte, []int64)) {
		reg("storage", name, w, tags, func(fr *Fr) {
			k := fr.u.key()
			v, rest := value(fr)
			a := append([]int64{fr.put(k), int64(len(k))}, rest...)
			fr.storeOp(name, base(fr), k, v, false, a)
		})
	}
	store("storageStore", 8, t("P07", "P08"), func(fr *Fr) uint64 { return fr.u.G.api("StorageStore") }, func(fr *Fr) ([]byte, []int64) {
		v := fr.u.val()
		return v, []int64{fr.put(v), int64(len(v))}
	})
	i64s := func(name string, signed bool) {
		store(name, 1, t("P07", "P08", "P17"), func(fr *Fr) uint64 { return fr.u.G.api("Int64StorageStore") }, func(fr *Fr) ([]byte, []int64) {
			x := fr.u.i64()
			if signed {
				return toTwos(big.NewInt(x)), []int64{x}
			}
			return new(big.Int).SetUint64(uint64(x)).Bytes(), []int64{x}
		})
	}
	i64s("smallIntStorageStoreUnsigned", false)
	i64s("smallIntStorageStoreSigned", true)
	i64s("int64storageStore", false)
	store("bigIntStorageStoreUnsigned", 2, t("P07", "P08", "P16"), func(fr *Fr) uint64 { return fr.u.G.big("BigIntStorageStoreUnsigned") }, func(fr *Fr) ([]byte, []int64) {
		h := fr.handle()
		return fr.getBig(h).Bytes(), []int64{h}
	})
	reg("storage", "storageLoad", 6, t("P07", "P06"), func(fr *Fr) {
		k := fr.u.key()
		v, extra := fr.read(k)
		o := fr.out(len(v))
		fr.calli("storageLoad", fr.u.G.api("StorageLoad")+extra, int32(len(v)), fr.put(k), int64(len(k)), o)
		fr.got("storageLoad", o, len(v), v)
	})
	reg("storage", "storageLoadLength", 2, t("P07", "P06"), func(fr *Fr) {
		k := fr.u.key()
		v, _ := fr.read(k)
		fr.calli("storageLoadLength", fr.u.G.api("StorageLoad"), int32(len(v)), fr.put(k), int64(len(k)))
	})
	reg("storage", "storageLoadFromAddress", 3, t("P07", "P06"), func(fr *Fr) {
		k, a := fr.u.key(), fr.u.account()
		v, extra := fr.readOf(a, k)
		o := fr.out(len(v))
		fr.calli("storageLoadFromAddress", fr.u.G.api("StorageLoad")+extra, int32(len(v)), fr.put(a), fr.put(k), int64(len(k)), o)
		fr.got("storageLoadFromAddress", o, len(v), v)
	})
	reg("storage", "bigIntStorageLoadUnsigned", 2, t("P07", "P16", "P06"), func(fr *Fr) {
		k := fr.u.key()
		v, extra := fr.read(k)
		h := fr.handle()
		fr.calli("bigIntStorageLoadUnsigned", fr.u.G.big("BigIntStorageLoadUnsigned")+extra, int32(len(v)), fr.put(k), int64(len(k)), h)
		fr.setBig(h, new(big.Int).SetBytes(v))
	})
	i64l := func(name string, signed bool) {
		reg("storage", name, 1, t("P07", "P17", "P06"), func(fr *Fr) {
			k := fr.u.key()
			v, extra := fr.read(k)
			var ok bool
			var w int64
			if signed {
				x := fromTwos(v)
				ok, w = x.IsInt64(), x.Int64()
			} else {
				x := new(big.Int).SetBytes(v)
				ok, w = x.IsUint64(), int64(x.Uint64())
			}
			if !ok {
				if fr.u.R.Intn(8) == 0 {
					fr.fault(name, "stored value does not fit", fr.put(k), int64(len(k)))
				}
				return
			}
			fr.calll(name, fr.u.G.api("Int64StorageLoad")+extra, w, fr.put(k), int64(len(k)))
		})
	}
	i64l("smallIntStorageLoadUnsigned", false)
	i64l("smallIntStorageLoadSigned", true)
	i64l("int64storageLoad", false)

	// ---- time locks
	lockKey := func(k []byte) []byte { return append(append([]byte{}, k...), "ARWEN@TIMELOCK"...) }
	plain := func(fr *Fr) []byte {
		for {
			if k := fr.u.key(); !arwenKey(k) {
				return k
			}
		}
	}
	reg("lock", "setStorageLock", 3, t("P07", "P08"), func(fr *Fr) {
		k := plain(fr)
		ts := int64(fr.u.Ch.Cur.Time) + int64(fr.u.R.Intn(5)) - 2
		if fr.u.R.Intn(4) == 0 {
			ts = int64(fr.u.R.Intn(3))
		}
		fr.storeOp("setStorageLock", fr.u.G.api("Int64StorageStore"), lockKey(k), new(big.Int).SetInt64(ts).Bytes(), true, []int64{fr.put(k), int64(len(k)), ts})
	})
	reg("lock", "clearStorageLock", 1, t("P07", "P08"), func(fr *Fr) {
		k := plain(fr)
		fr.storeOp("clearStorageLock", fr.u.G.api("Int64StorageStore"), lockKey(k), nil, true, []int64{fr.put(k), int64(len(k))})
	})
	reg("lock", "getStorageLock", 2, t("P07"), func(fr *Fr) {
		k := plain(fr)
		v, extra := fr.read(lockKey(k))
		fr.calll("getStorageLock", fr.u.G.api("StorageLoad")+extra, new(big.Int).SetBytes(v).Int64(), fr.put(k), int64(len(k)))
	})
	reg("lock", "isStorageLocked", 3, t("P07"), func(fr *Fr) {
		k := plain(fr)
		v, extra := fr.read(lockKey(k))
		x := new(big.Int).SetBytes(v).Int64()
		w := int32(0)
		if x > int64(fr.u.Ch.Cur.Time) {
			w = 1
		}
		fr.calli("isStorageLocked", fr.u.G.api("StorageLoad")+extra+fr.u.G.api("GetBlockTimeStamp"), w, fr.put(k), int64(len(k)))
	})

	// ---- logs
	reg("log", "writeLog", 2, t("P26", "P06"), func(fr *Fr) {
		u := fr.u
		d := u.val()
		var ts [][]byte
		var flat []byte
		for i := u.R.Intn(4); i > 0; i-- {
			x := make([]byte, 32)
			u.R.Read(x)
			ts = append(ts, x)
			flat = append(flat, x...)
		}
		fr.call("writeLog", u.G.api("Log")+u.G.persB(len(flat)+len(d)), fr.put(d), int64(len(d)), fr.put(flat), int64(len(ts)))
		fr.log(ts, d)
	})
	reg("log", "writeEventLog", 4, t("P26", "P06"), func(fr *Fr) {
		u := fr.u
		d, ts := u.val(), u.args(4)
		n := 0
		for _, x := range ts {
			n += len(x)
		}
		c, l, off := fr.f.PutArgs(ts)
		fr.call("writeEventLog", u.G.api("Log")+u.G.copyB(n+len(d)), c, l, off, fr.put(d), int64(len(d)))
		fr.log(ts, d)
	})

	// ---- ends
	reg("end", "signalError", 2, t("P05", "P06"), func(fr *Fr) {
		msg := fr.u.rbytes(20)
		fr.u.lastOp = "signalError"
		_, tr := fr.f.Try("signalError", fr.put(msg), int64(len(msg)))
		if !tr {
			fr.diverge("signalError continues", "signalError did not stop the execution")
		}
		fr.cause = "signal"
		fr.msg = string(msg)
		fr.failed, fr.ended = true, true
		fr.stop()
	})
	reg("end", "trap", 1, t("P05", "P06", "P11"), func(fr *Fr) {
		fr.u.lastOp = "trap"
		fr.end("trap", 0)
	})
	reg("end", "out of gas", 1, t("P02", "P05", "P06"), func(fr *Fr) {
		fr.burn(fr.left() + 1 + uint64(fr.u.R.Intn(100)))
	})
	reg("end", "return", 2, nil, func(fr *Fr) {})
	// refused memory ranges
	reg("bad", "bad range", 1, t("P10", "P05"), func(fr *Fr) {
		if fr.u.R.Intn(3) > 0 {
			return
		}
		big := int64(len(fr.f.Mem())) + 1 + int64(fr.u.R.Intn(70000))
		switch fr.u.R.Intn(6) {
		case 0:
			fr.fault("storageStore", "key outside", big, 4, 0, 0)
		case 1:
			fr.fault("finish", "negative offset", -1, 4)
		case 2:
			fr.fault("getSCAddress", "negative result", -5)
		case 3:
			fr.fault("writeEventLog", "negative count", -1, 0, 0, 0, 0)
		case 4:
			fr.fault("storageLoad", "key outside", big, 1, 0)
		case 5:
			fr.fault("finish", "negative length", 64, -4)
		}
	})
}

func (fr *Fr) fnSeen() string {
	if fr.shown == "-" {
		return ""
	}
	if fr.shown != "" {
		return fr.shown
	}
	return fr.fn
}

func (u *U) i64() int64 {
	switch u.R.Intn(8) {
	case 0:
		return 0
	case 1:
		return -1
	case 2:
		return int64(u.R.Uint64())
	case 3:
		return -1 << 63
	case 4:
		return 1<<63 - 1
	case 5:
		return int64(1) << uint(u.R.Intn(64))
	case 6:
		return -(int64(1) << uint(u.R.Intn(63)))
	}
	return int64(u.R.Intn(300)) - 150
}

func (fr *Fr) ret(b []byte) {
	fr.u.M.Ret = append(fr.u.M.Ret, append([]byte{}, b...))
}

func (fr *Fr) log(topics [][]byte, data []byte) {
	if fr.ro {
		return
	}
	e := LogEntry{Addr: fr.self, Data: data}
	if len(topics) > 0 {
		e.ID, e.Topics = topics[0], topics[1:]
	}
	fr.u.M.Logs = append(fr.u.M.Logs, e)
	fr.u.Stats["logs"]++
}

func extraKey(k []byte) int {
	if len(k) > 32 {
		return len(k) - 32
	}
	return 0
}

// read is a read of own storage: value and extra cost.
func (fr *Fr) read(k []byte) ([]byte, uint64) {
	v := fr.u.stored(fr.store, k)
	return v, fr.u.G.copyB(extraKey(k)) + fr.u.G.copyB(len(v))
}

// readOf is a read of another account's storage.
func (fr *Fr) readOf(a, k []byte) ([]byte, uint64) {
	u := fr.u
	if bytes.Equal(a, fr.store) {
		return fr.read(k)
	}
	x := acct(u.Ch, a)
	if u.shard(a) != 0 || x == nil || len(x.Meta) == 0 || x.Meta[0]&4 == 0 {
		return nil, u.G.copyB(extraKey(k))
	}
	v := u.stored(a, k)
	return v, u.G.copyB(extraKey(k)) + u.G.copyB(len(v))
}

// storeOp is a storage write through any function.
func (fr *Fr) storeOp(name string, base uint64, k, v []byte, protected bool, args []int64) {
	u, g := fr.u, fr.u.G
	if fr.ro {
		fr.calli(name, base, 0, args...)
		u.Stats["refused read-only writes"]++
		return
	}
	if elrondKey(k) || (arwenKey(k) && !protected) {
		u.Stats["refused protected writes"]++
		fr.fault(name, "protected key", args...)
	}
	old := u.stored(fr.store, k)
	cost := base + g.copyB(extraKey(k))
	var st int32
	switch {
	case bytes.Equal(old, v):
		st = 0
		cost += g.copyB(len(v))
	case len(old) == 0:
		st = 2
		cost += g.base("StorePerByte") * uint64(len(v))
	case len(v) == 0:
		st = 3
		u.M.Refund += g.base("ReleasePerByte") * uint64(len(old))
	default:
		st = 1
		if d := len(v) - len(old); d > 0 {
			cost += g.persB(len(old)) + g.base("StorePerByte")*uint64(d)
		} else if d < 0 {
			cost += g.persB(len(v))
			u.M.Refund += g.base("ReleasePerByte") * uint64(-d)
		}
	}
	if st != 0 {
		u.write(fr.store, k, v)
		u.Stats["writes"]++
	}
	fr.calli(name, cost, st, args...)
}

// ---- two's complement

func fromTwos(b []byte) *big.Int {
	v := new(big.Int).SetBytes(b)
	if len(b) > 0 && b[0]&0x80 != 0 {
		v.Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(8*len(b))))
	}
	return v
}

func toTwos(v *big.Int) []byte {
	switch v.Sign() {
	case 0:
		return []byte{}
	case 1:
		b := v.Bytes()
		if b[0]&0x80 != 0 {
			b = append([]byte{0}, b...)
		}
		return b
	}
	n := 1
	for {
		lim := new(big.Int).Lsh(big.NewInt(-1), uint(8*n-1))
		if v.Cmp(lim) >= 0 {
			break
		}
		n++
	}
	x := new(big.Int).Add(v, new(big.Int).Lsh(big.NewInt(1), uint(8*n)))
	b := x.Bytes()
	for len(b) < n {
		b = append([]byte{0}, b...)
	}
	return b
}

func (u *U) token() ([]byte, uint64) {
	id := u.Tokens[u.R.Intn(len(u.Tokens))]
	if bytes.HasPrefix(id, []byte("NFT")) {
		return id, uint64(1 + u.R.Intn(3))
	}
	return id, 0
}

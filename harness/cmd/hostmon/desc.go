package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"math/big"
	"strings"

	"verif/harness/chain"

	"golang.org/x/crypto/ripemd160"
	"golang.org/x/crypto/sha3"
)

// desc tells what memory a host function is given by its arguments. The
// signature has one token per parameter:
//
//	$      scalar        h  big integer (read)   H  big integer (written)
//	G      gas           #  argument number      N A D  count, lengths and data of arguments
//	T Q    topics of 32 bytes: address, count
//	rN:kind  address of N bytes to read
//	pX:kind lX  address and length of bytes to read
//	wX:cap   address of a result of at most cap bytes (0: not known)
type desc struct {
	sig  string
	want map[string]func(x *exec, c *call) []byte // exact results by output
	chk  func(x *exec, c *call)                   // judges a call which was accepted
	soft bool                                     // ranges which do not fit need not be refused when the function has another reason to return
	end  bool                                     // the call always ends the execution
	must bool                                     // never refused when the ranges fit
	nest bool                                     // runs other contracts
}

type wants = map[string]func(x *exec, c *call) []byte

func fixedOut(b []byte) wants {
	return wants{"o": func(*exec, *call) []byte { return b }}
}

func out(f func(x *exec, c *call) []byte) wants { return wants{"o": f} }

func val32z(v *big.Int) []byte {
	if v.Sign() == 0 {
		return nil
	}
	o := make([]byte, 32)
	b := v.Bytes()
	copy(o[32-len(b):], b)
	return o
}

func retLen(n string) func(x *exec, c *call) {
	return func(x *exec, c *call) {
		if w, ok := c.want[n]; ok && int(int32(c.ret)) != len(w) {
			x.bad("length:"+c.name, "%s returned the length %d for %d bytes of data", c.name, int32(c.ret), len(w))
		}
	}
}

func (x *exec) argAt(c *call, i int) []byte {
	n := int(int32(c.args[i]))
	if n < 0 || n >= len(x.w.args) {
		return nil
	}
	return x.w.args[n]
}

func (x *exec) retAt(c *call) []byte {
	if x.rets == nil {
		return nil
	}
	n := int(int32(c.args[0]))
	if n < 0 || n >= len(x.rets) {
		return nil
	}
	return x.rets[n]
}

func (x *exec) big(h int64) *big.Int { return x.bigs[int32(h)] }

func twos(v *big.Int) []byte {
	if v.Sign() == 0 {
		return nil
	}
	n := 1
	for {
		lim := new(big.Int).Lsh(big.NewInt(1), uint(8*n-1))
		if v.Cmp(lim) < 0 && v.Cmp(new(big.Int).Neg(lim)) >= 0 {
			break
		}
		n++
	}
	m := new(big.Int).Lsh(big.NewInt(1), uint(8*n))
	m.Add(m, v)
	b := m.Bytes()
	return b[len(b)-n:]
}

func hashOf(name string, d []byte) []byte {
	switch name {
	case "sha256":
		h := sha256.Sum256(d)
		return h[:]
	case "keccak256":
		h := sha3.NewLegacyKeccak256()
		h.Write(d)
		return h.Sum(nil)
	}
	h := ripemd160.New()
	h.Write(d)
	return h.Sum(nil)
}

func hasher(name string) desc {
	return desc{sig: "pd:any ld wo:32", must: true, want: out(func(x *exec, c *call) []byte { return hashOf(name, c.in["d"]) })}
}

func (x *exec) storage(addr, key []byte) ([]byte, bool) {
	k := storeKey(key)
	if bytes.Equal(addr, x.w.self) {
		v, ok := x.store[k]
		return v, ok
	}
	if bytes.Equal(addr, x.w.other) {
		return x.w.ch.Accts[string(addr)].Storage[k], true
	}
	return nil, false
}

// storeKey is a key as the chain stores it.
func storeKey(k []byte) string { return string(k) }

func loader(x *exec, c *call) []byte {
	v, ok := x.storage(x.w.self, c.in["k"])
	if !ok {
		return nil
	}
	return v
}

func execDesc(withValue bool) desc {
	s := "G r32:addr r32:val pf:fn lf N A D"
	if !withValue {
		s = "G r32:addr pf:fn lf N A D"
	}
	return desc{sig: s, nest: true, chk: func(x *exec, c *call) { x.checkCallee(c) }}
}

func setBig(signed bool) desc {
	return desc{sig: "H pd:any ld", must: true, chk: func(x *exec, c *call) {
		v := new(big.Int).SetBytes(c.in["d"])
		if d := c.in["d"]; signed && len(d) > 0 && d[0] >= 0x80 {
			v.Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(8*len(d))))
		}
		x.bigs[int32(c.args[0])] = v
	}}
}

var two = []byte{2}

var descs = map[string]desc{}

func init() {
	plain := func(sig string, names ...string) {
		for _, n := range names {
			descs[n] = desc{sig: sig, soft: true}
		}
	}
	plain("", "getGasLeft", "getNumArguments", "getBlockTimestamp", "getBlockNonce", "getBlockRound", "getBlockEpoch", "getPrevBlockTimestamp", "getPrevBlockNonce", "getPrevBlockRound", "getPrevBlockEpoch",
		"getESDTTokenType", "getESDTTokenNonce", "getNumReturnData", "checkNoPayment")
	plain("H $", "bigIntSetInt64")
	plain("$", "bigIntNew", "int64finish", "smallIntFinishSigned", "smallIntFinishUnsigned")
	plain("H h h", "bigIntAdd", "bigIntSub", "bigIntMul", "bigIntTDiv", "bigIntTMod", "bigIntEDiv", "bigIntEMod", "bigIntAnd", "bigIntOr", "bigIntXor")
	plain("H h s", "bigIntShl", "bigIntShr")
	plain("H h", "bigIntAbs", "bigIntNeg", "bigIntNot")
	plain("h", "bigIntUnsignedByteLength", "bigIntSignedByteLength", "bigIntIsInt64", "bigIntGetInt64", "bigIntSign")
	plain("h h", "bigIntCmp")
	plain("H", "bigIntGetCallValue", "bigIntGetESDTCallValue")
	plain("#", "int64getArgument", "smallIntGetSignedArgument", "smallIntGetUnsignedArgument", "getArgumentLength", "getReturnDataSize")
	plain("# H", "bigIntGetUnsignedArgument", "bigIntGetSignedArgument")

	d := func(n string, x desc) { descs[n] = x }
	d("bigIntFinishUnsigned", desc{sig: "h", soft: true, chk: func(x *exec, c *call) { x.rets = nil }})
	d("bigIntFinishSigned", desc{sig: "h", soft: true, chk: func(x *exec, c *call) { x.rets = nil }})
	for _, n := range []string{"int64finish", "smallIntFinishSigned", "smallIntFinishUnsigned"} {
		d(n, desc{sig: "$", soft: true, chk: func(x *exec, c *call) { x.rets = nil }})
	}
	d("sha256", hasher("sha256"))
	d("keccak256", hasher("keccak256"))
	d("ripemd160", func() desc { h := hasher("ripemd160"); h.sig = "pd:any ld wo:20"; return h }())
	d("verifyBLS", desc{sig: "r96 pd:any ld r48"})
	d("verifyEd25519", desc{sig: "r32 pd:any ld r64"})
	d("verifySecp256k1", desc{sig: "pk:pub lk pd:any ld S", soft: true})

	d("int64storageLoad", desc{sig: "pk:key lk"})
	d("smallIntStorageLoadSigned", desc{sig: "pk:key lk"})
	d("smallIntStorageLoadUnsigned", desc{sig: "pk:key lk"})
	for _, n := range []string{"int64storageStore", "smallIntStorageStoreSigned", "smallIntStorageStoreUnsigned"} {
		d(n, desc{sig: "pk:key lk $", chk: func(x *exec, c *call) { delete(x.store, storeKey(c.in["k"])) }})
	}
	d("bigIntStorageStoreUnsigned", desc{sig: "pk:key lk h", chk: func(x *exec, c *call) {
		delete(x.store, storeKey(c.in["k"]))
		if v := x.big(c.args[2]); v != nil && x.writable(c.in["k"]) {
			x.store[storeKey(c.in["k"])] = v.Bytes()
		}
	}})
	d("bigIntStorageLoadUnsigned", desc{sig: "pk:key lk H"})
	d("storageLoadLength", desc{sig: "pk:key lk", chk: func(x *exec, c *call) {
		if v, ok := x.storage(x.w.self, c.in["k"]); ok && int(int32(c.ret)) != len(v) {
			x.bad("storage:"+c.name, "storageLoadLength(%x) = %d, the value has %d bytes", c.in["k"], int32(c.ret), len(v))
		}
	}})
	d("storageLoad", desc{sig: "pk:key lk wo:0", want: wants{"o": loader}, chk: retLen("o")})
	d("storageLoadFromAddress", desc{sig: "r32:addr pk:key lk wo:0", want: out(func(x *exec, c *call) []byte {
		a := c.in["0"]
		if !bytes.Equal(a, x.w.self) && !bytes.Equal(a, x.w.other) {
			return nil
		}
		v, _ := x.storage(a, c.in["k"])
		return v
	})})
	d("storageStore", desc{sig: "pk:key lk pv:any lv", chk: func(x *exec, c *call) {
		k := c.in["k"]
		if !x.writable(k) {
			delete(x.store, storeKey(k))
			return
		}
		x.store[storeKey(k)] = c.in["v"]
		x.expect("storage "+hex.EncodeToString(k), c.in["v"])
	}})
	d("getStorageLock", desc{sig: "pk:key lk"})
	d("isStorageLocked", desc{sig: "pk:key lk"})
	d("setStorageLock", desc{sig: "pk:key lk $", chk: func(x *exec, c *call) { delete(x.store, storeKey(c.in["k"])) }})
	d("clearStorageLock", desc{sig: "pk:key lk", chk: func(x *exec, c *call) { delete(x.store, storeKey(c.in["k"])) }})

	d("bigIntSetUnsignedBytes", setBig(false))
	d("bigIntSetSignedBytes", setBig(true))
	d("bigIntGetUnsignedBytes", desc{sig: "h wo:0", must: true, chk: retLen("o"), want: out(func(x *exec, c *call) []byte {
		if v := x.big(c.args[0]); v != nil {
			return v.Bytes()
		}
		return nil
	})})
	d("bigIntGetSignedBytes", desc{sig: "h wo:0", must: true, chk: retLen("o"), want: out(func(x *exec, c *call) []byte {
		if v := x.big(c.args[0]); v != nil {
			return twos(v)
		}
		return nil
	})})
	d("bigIntGetExternalBalance", desc{sig: "r32:addr H", must: true})
	d("getExternalBalance", desc{sig: "r32:addr wo:32"})
	d("bigIntGetESDTExternalBalance", desc{sig: "r32:addr pt:tok lt $ H"})
	d("getCurrentESDTNFTNonce", desc{sig: "r32:addr pt:tok lt", soft: true})
	for _, n := range []string{"getESDTNFTNameLength", "getESDTNFTAttributeLength", "getESDTNFTURILength"} {
		d(n, desc{sig: "r32:addr pt:tok lt $", soft: true})
	}
	d("getESDTBalance", desc{sig: "r32:addr pt:tok lt n wo:32"})
	d("getESDTTokenData", desc{sig: "r32:addr pt:tok lt n H wp:0 wh:0 wm:0 wa:0 wc:0 H wu:0", want: wants{
		"p": func(x *exec, c *call) []byte { return x.token(c, func(t *tokenData) []byte { return t.props }) },
		"h": func(x *exec, c *call) []byte { return x.token(c, func(t *tokenData) []byte { return t.hash }) },
		"m": func(x *exec, c *call) []byte { return x.token(c, func(t *tokenData) []byte { return t.name }) },
		"a": func(x *exec, c *call) []byte { return x.token(c, func(t *tokenData) []byte { return t.attr }) },
		"c": func(x *exec, c *call) []byte { return x.token(c, func(t *tokenData) []byte { return t.creator }) },
		"u": func(x *exec, c *call) []byte { return x.token(c, func(t *tokenData) []byte { return t.uri }) },
	}})

	own := func(f func(x *exec) []byte) wants { return out(func(x *exec, _ *call) []byte { return f(x) }) }
	d("getSCAddress", desc{sig: "wo:32", must: true, want: own(func(x *exec) []byte { return x.w.self })})
	d("getOwnerAddress", desc{sig: "wo:32", must: true, want: own(func(x *exec) []byte { return chain.User(1) })})
	d("getCaller", desc{sig: "wo:32", must: true, want: own(func(x *exec) []byte { return x.w.caller })})
	d("getOriginalTxHash", desc{sig: "wo:32", must: true, want: own(func(x *exec) []byte { return bytes.Repeat([]byte{0xaa}, 32) })})
	d("getFunction", desc{sig: "wo:0", must: true, want: own(func(x *exec) []byte { return []byte(x.w.fn) }), chk: retLen("o")})
	d("getStateRootHash", desc{sig: "wo:32", must: true, want: own(func(x *exec) []byte { return x.w.ch.Root })})
	d("getBlockRandomSeed", desc{sig: "wo:48", must: true, want: own(func(x *exec) []byte { return x.w.ch.Cur.Seed })})
	d("getPrevBlockRandomSeed", desc{sig: "wo:48", must: true, want: own(func(x *exec) []byte { return x.w.ch.Last.Seed })})
	d("getBlockHash", desc{sig: "$ wo:32"})
	d("getArgument", desc{sig: "# wo:0", want: out(func(x *exec, c *call) []byte { return x.argAt(c, 0) }), chk: func(x *exec, c *call) {
		if n := int(int32(c.args[0])); n >= 0 && n < len(x.w.args) {
			retLen("o")(x, c)
		}
	}})
	d("getReturnData", desc{sig: "# wo:0", want: out(func(x *exec, c *call) []byte { return x.retAt(c) })})
	d("getCallValue", desc{sig: "wo:32", must: true, want: own(func(x *exec) []byte { return val32z(x.w.value) }), chk: retLen("o")})
	d("getESDTValue", desc{sig: "wo:32", must: true, want: own(func(x *exec) []byte { return val32z(x.w.tokValue) }), chk: retLen("o")})
	d("getESDTTokenName", desc{sig: "wo:0", want: own(func(x *exec) []byte { return x.w.tokName }), chk: retLen("o")})
	d("getCallValueTokenName", desc{sig: "wv:32 wo:0", want: wants{
		"v": func(x *exec, _ *call) []byte {
			if len(x.w.tokName) > 0 {
				return val32z(x.w.tokValue)
			}
			return val32z(x.w.value)
		},
		"o": func(x *exec, _ *call) []byte { return x.w.tokName }}, chk: retLen("o")})
	d("isSmartContract", desc{sig: "r32:addr", must: true})
	d("getShardOfAddress", desc{sig: "r32:addr", must: true})

	d("finish", desc{sig: "pd:any ld", must: true, chk: func(x *exec, c *call) {
		if x.rets != nil {
			x.rets = append(x.rets, c.in["d"])
		}
		x.finished = append(x.finished, c.in["d"])
	}})
	d("signalError", desc{sig: "pd:any ld", end: true, chk: func(x *exec, c *call) { x.signal, x.signalled = c.in["d"], true }})
	d("writeLog", desc{sig: "pd:any ld T Q", chk: func(x *exec, c *call) { x.logs = append(x.logs, logRec{c.topics, c.in["d"]}) }})
	d("writeEventLog", desc{sig: "N A D pd:any ld", chk: func(x *exec, c *call) { x.logs = append(x.logs, logRec{c.list, c.in["d"]}) }})

	d("transferValue", desc{sig: "r32:addr r32:val pd:data ld", chk: func(x *exec, c *call) {
		if int32(c.ret) == 0 {
			x.transfers = append(x.transfers, transferRec{c.in["0"], c.in["1"], c.in["d"]})
		}
	}})
	d("transferESDT", desc{sig: "r32:addr pt:tok lt r32:val G pd:data ld", soft: true, nest: true})
	d("transferValueExecute", desc{sig: "r32:addr r32:val G pf:fn lf N A D", soft: true, nest: true, chk: func(x *exec, c *call) { x.checkCallee(c) }})
	d("transferESDTExecute", desc{sig: "r32:addr pt:tok lt r32:val G pf:fn lf N A D", soft: true, nest: true, chk: func(x *exec, c *call) { x.checkCallee(c) }})
	d("transferESDTNFTExecute", desc{sig: "r32:addr pt:tok lt r32:val n G pf:fn lf N A D", soft: true, nest: true, chk: func(x *exec, c *call) { x.checkCallee(c) }})
	for _, n := range []string{"executeOnDestContext", "executeOnDestContextByCaller", "executeOnSameContext"} {
		d(n, execDesc(true))
	}
	for _, n := range []string{"executeReadOnly", "delegateExecution"} {
		d(n, execDesc(false))
	}
	d("asyncCall", desc{sig: "r32:addr r32:val pd:data ld", end: true, nest: true})
	d("createContract", desc{sig: "G r32:val pc:code r2 lc wo:32 N A D", nest: true, chk: func(x *exec, c *call) { x.checkCallee(c) }})
	d("deployFromSourceContract", desc{sig: "G r32:val r32:addr r2 wo:32 N A D", nest: true, chk: func(x *exec, c *call) { x.checkCallee(c) }})
	d("upgradeContract", desc{sig: "r32:addr G r32:val pc:code r2 lc N A D", end: true, nest: true})
	d("upgradeFromSourceContract", desc{sig: "r32:addr G r32:val r32:addr r2 N A D", end: true, nest: true})
}

// writable tells whether a contract may store under a key.
func (x *exec) writable(k []byte) bool {
	return !strings.HasPrefix(string(k), chain.ProtectedPrefix)
}

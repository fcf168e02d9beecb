package main

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"math/rand"

	"verif/harness/chain"
	"verif/harness/mw"

	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

// The contracts of the differential runs: what they do follows from their
// first argument alone, so that they do the same in any process.

const nSC = 4

var tok = []byte("TOK-123456")

func code(n int) []byte {
	return (&mw.Module{ID: fmt.Sprintf("s%d", n), Exports: []string{"init", "callBack", "f", "g"}, MemMin: 1}).Bytes()
}

// buildChain makes the chain of a differential run.
func buildChain(seed int64, gas map[string]map[string]uint64) *chain.Chain {
	r := rand.New(rand.NewSource(seed))
	c := chain.New()
	c.EnableBuiltIns(gas)
	for i := 0; i < nSC; i++ {
		c.AddContract(chain.SC(i), int64(1000+r.Intn(1000)), code(i), chain.User(1), byte(r.Intn(2)*4+1), byte(r.Intn(2)*2))
		c.SetToken(chain.SC(i), tok, 0, int64(r.Intn(1000)), nil, nil)
		for k := 0; k < 4; k++ {
			v := make([]byte, r.Intn(60))
			r.Read(v)
			_ = c.Accts[string(chain.SC(i))].SaveKeyValue([]byte(fmt.Sprintf("key\xff%d", k)), v)
		}
	}
	for i := 1; i < 4; i++ {
		a := c.Add(chain.User(i), 1<<40)
		a.Nonce = uint64(r.Intn(100))
		a.Name = []byte{byte(i), 0xff, 0xfe}
	}
	for n := uint64(90); n < 100; n++ {
		h := make([]byte, 32)
		r.Read(h)
		c.Hashes[n] = h
	}
	c.Cur.Nonce, c.Cur.Time, c.Last.Round = r.Uint64()>>1, r.Uint64()>>1, r.Uint64()>>1
	c.Log = true
	return c
}

func seedArg(s uint64) []byte { b := make([]byte, 8); binary.BigEndian.PutUint64(b, s); return b }

// script is the body of every function.
func script(f *mw.Frame) {
	if f.Func == "callBack" {
		for i := int64(0); i < int64(f.I("getNumArguments")) && i < 5; i++ {
			n := f.I("getArgumentLength", i)
			if n >= 0 && n < 500 {
				o := f.Alloc(int(n) + 8)
				f.I("getArgument", i, o)
				f.Call("finish", o, int64(n))
			}
		}
		return
	}
	if f.I("getNumArguments") < 1 {
		return
	}
	o := f.Alloc(600)
	n := f.I("getArgument", 0, o)
	seed := uint64(n)
	for _, b := range f.Get(o, int(n)) {
		seed = seed<<8 ^ uint64(b) ^ seed>>56*31
	}
	depth := int(seed & 3)
	r := rand.New(rand.NewSource(int64(seed)))
	rb := func(max int) []byte { b := make([]byte, r.Intn(max+1)); r.Read(b); return b }
	put := func(b []byte) (int64, int64) { return f.Put(b), int64(len(b)) }
	fin := func(b []byte) { p, l := put(b); f.Call("finish", p, l) }
	num := func(v int64) { fin(seedArg(uint64(v))) }
	addr := func() []byte {
		switch r.Intn(6) {
		case 0:
			return chain.User(1 + r.Intn(4))
		case 1:
			return chain.RemoteUser(1)
		case 2:
			return chain.RemoteSC(2)
		}
		return chain.SC(r.Intn(nSC + 1))
	}
	key := func() []byte { return []byte(fmt.Sprintf("key\xff%d", r.Intn(6))) }
	val := func() []byte { return big.NewInt(int64(r.Intn(20))).FillBytes(make([]byte, 32)) }
	f.Reset()
	for k := 2 + r.Intn(8); k > 0; k-- {
		f.Reset()
		switch r.Intn(26) {
		case 0, 1:
			kp, kl := put(key())
			vp, vl := put(rb(80))
			num(int64(f.I("storageStore", kp, kl, vp, vl)))
		case 2, 3:
			kp, kl := put(key())
			q := f.Alloc(200)
			m := f.I("storageLoad", kp, kl, q)
			fin(f.Get(q, int(m)))
		case 4:
			kp, kl := put(key())
			q := f.Alloc(200)
			num(int64(f.I("storageLoadFromAddress", f.Put(addr()), kp, kl, q)))
			fin(f.Get(q, 80))
		case 5:
			fin(rb(200))
		case 6:
			a, b, c := f.PutArgs([][]byte{rb(40), rb(40), rb(10)})
			p, l := put(rb(100))
			f.Call("writeEventLog", a, b, c, p, l)
		case 7:
			q := f.Alloc(64)
			num(int64(f.I("getBlockHash", int64(88+r.Intn(12)), q)))
			fin(f.Get(q, 32))
		case 8:
			for _, h := range []string{"getBlockTimestamp", "getBlockNonce", "getBlockRound", "getBlockEpoch", "getPrevBlockTimestamp", "getPrevBlockNonce", "getPrevBlockRound", "getPrevBlockEpoch"} {
				num(f.Call(h))
			}
		case 9:
			q := f.Alloc(200)
			f.Call("getStateRootHash", q)
			f.Call("getBlockRandomSeed", q+40)
			f.Call("getPrevBlockRandomSeed", q+90)
			fin(f.Get(q, 150))
		case 10:
			q := f.Alloc(64)
			f.Call("getExternalBalance", f.Put(addr()), q)
			fin(f.Get(q, 32))
		case 11:
			a := addr()
			num(int64(f.I("isSmartContract", f.Put(a))))
			num(int64(f.I("getShardOfAddress", f.Put(a))))
		case 12, 13:
			p, l := put(rb(20))
			num(int64(f.I("transferValue", f.Put(addr()), f.Put(val()), p, l)))
		case 14:
			p, l := put(rb(20))
			t, tl := put(tok)
			num(int64(f.I("transferESDT", f.Put(addr()), t, tl, f.Put(val()), 1000, p, l)))
		case 15:
			t, tl := put(tok)
			q := f.Alloc(64)
			num(int64(f.I("getESDTBalance", f.Put(addr()), t, tl, 0, q)))
			fin(f.Get(q, 32))
		case 16, 17, 18:
			if depth == 0 {
				continue
			}
			a, b, c := f.PutArgs([][]byte{seedArg(r.Uint64()&^3 | uint64(depth-1)), rb(30)})
			p, l := put([]byte([]string{"f", "g", "nope", "f"}[r.Intn(4)]))
			op := []string{"executeOnDestContext", "executeOnSameContext", "executeOnDestContextByCaller"}[r.Intn(3)]
			num(int64(f.I(op, int64(20000+r.Intn(2000000)), f.Put(chain.SC(r.Intn(nSC))), f.Put(make([]byte, 32)), p, l, a, b, c)))
		case 19:
			t := big.NewInt(int64(r.Intn(30))).Bytes()
			a, b, c := f.PutArgs([][]byte{tok, t})
			p, l := put([]byte("ESDTTransfer"))
			num(int64(f.I("executeOnDestContext", 3000000, f.Put(addr()), f.Put(make([]byte, 32)), p, l, a, b, c)))
		case 20:
			if depth == 0 {
				continue
			}
			a, b, c := f.PutArgs([][]byte{seedArg(r.Uint64() &^ 3)})
			p, l := put(code(r.Intn(nSC)))
			q := f.Alloc(40)
			num(int64(f.I("createContract", 3000000, f.Put(make([]byte, 32)), p, f.Put([]byte{5, 2}), l, q, a, b, c)))
			fin(f.Get(q, 32))
		case 21:
			if depth == 0 || r.Intn(3) > 0 {
				continue
			}
			d := fmt.Sprintf("f@%x", seedArg(r.Uint64()&^3|uint64(depth-1)))
			p, l := put([]byte(d))
			f.Call("asyncCall", f.Put(addr()), f.Put(make([]byte, 32)), p, l)
		case 22:
			p, l := put(rb(20))
			num(int64(f.I("transferValueExecute", f.Put(addr()), f.Put(val()), int64(r.Intn(2)*100000), p, l, 0, 0, 0)))
		case 23:
			if r.Intn(8) == 0 {
				p, l := put(rb(60))
				f.Call("signalError", p, l)
			}
		case 24:
			if r.Intn(8) == 0 {
				f.Trap()
			}
		case 25:
			q := f.Alloc(64)
			f.Call("getCaller", q)
			fin(f.Get(q, 32))
			f.Call("getOwnerAddress", q)
			fin(f.Get(q, 32))
		}
	}
}

// randRun makes a random transaction.
func randRun(r *rand.Rand) interface{} {
	in := vmcommon.VMInput{CallerAddr: chain.User(1 + r.Intn(3)), CallValue: big.NewInt(int64(r.Intn(3) * r.Intn(50))), GasPrice: r.Uint64() >> 1, GasProvided: uint64(500000 + r.Intn(30000000)),
		OriginalTxHash: rbytes(r, 32), CurrentTxHash: rbytes(r, 32), PrevTxHash: rbytes(r, 32), Arguments: [][]byte{seedArg(r.Uint64()), rbytes(r, r.Intn(100))}}
	if r.Intn(6) == 0 {
		in.GasProvided = uint64(r.Intn(200000))
	}
	if r.Intn(7) == 0 {
		c := code(r.Intn(nSC))
		if r.Intn(5) == 0 {
			c = rbytes(r, r.Intn(100))
		}
		return &vmcommon.ContractCreateInput{VMInput: in, ContractCode: c, ContractCodeMetadata: []byte{byte(r.Intn(8)), byte(r.Intn(4))}}
	}
	if r.Intn(6) == 0 {
		in.CallType = vmcommon.AsynchronousCall
		in.CallerAddr = chain.RemoteSC(1)
		in.GasLocked = uint64(r.Intn(1000000))
	}
	fn := []string{"f", "g", "f", "g", "f", "nope", "callBack", "init", "f\xff%d"}[r.Intn(9)]
	to := chain.SC(r.Intn(nSC))
	if r.Intn(20) == 0 {
		to = chain.SC(nSC)
	}
	return &vmcommon.ContractCallInput{VMInput: in, RecipientAddr: to, Function: fn}
}

func rbytes(r *rand.Rand, n int) []byte { b := make([]byte, n); r.Read(b); return b }

// runOn runs a transaction on a VM.
func runOn(vm vmcommon.VMExecutionHandler, tx interface{}) (*vmcommon.VMOutput, error) {
	if d, ok := tx.(*vmcommon.ContractCreateInput); ok {
		return vm.RunSmartContractCreate(d)
	}
	return vm.RunSmartContractCall(tx.(*vmcommon.ContractCallInput))
}

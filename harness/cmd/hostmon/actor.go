package main

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	hashfnv "hash/fnv"
	"math/big"
	"math/rand"
	"strings"

	"verif/harness/chain"
	"verif/harness/kit"
	"verif/harness/mw"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
)

// stage is a world of contracts whose behaviour is a function of the
// transaction's seed and of what the host calls return, so that a transaction
// can be played again.
type stage struct {
	ch    *chain.Chain
	cs    [][]byte
	users [][]byte
	codes [][]byte // codes to deploy
	fns   []string
}

func newStage(r *rand.Rand) *stage {
	s := &stage{ch: chain.New(), fns: []string{"init", "callBack", "a", "b", "c"}}
	ch := s.ch
	ch.EnableBuiltIns(config.MakeGasMapForTests())
	for i := 0; i < 3; i++ {
		a := chain.SC(i)
		fns := s.fns
		if i == 2 {
			fns = fns[:3+r.Intn(3)]
		}
		var owner []byte
		if i > 0 {
			owner = s.cs[0]
		} else {
			owner = chain.User(1)
		}
		ch.AddContract(a, 100000, (&mw.Module{ID: "actor" + string(rune('0'+i)), Exports: fns, MemMin: 1, Pad: r.Intn(300)}).Bytes(), owner)
		s.cs = append(s.cs, a)
		for k := 0; k < 4; k++ {
			v := make([]byte, r.Intn(40))
			r.Read(v)
			ch.Accts[string(a)].Storage["k"+string(rune('0'+k))] = v
		}
		ch.SetToken(a, []byte("TOK-1"), 0, 5000, nil, nil)
		ch.SetToken(a, []byte("NFT-1"), 1, 40, &esdt.MetaData{Nonce: 1, Name: []byte("n"), Creator: chain.User(1), URIs: [][]byte{[]byte("u")}}, nil)
	}
	for i := 1; i < 4; i++ {
		ch.Add(chain.User(i), 1000000)
		s.users = append(s.users, chain.User(i))
	}
	for i := 0; i < 3; i++ {
		s.codes = append(s.codes, (&mw.Module{ID: "new" + string(rune('0'+i)), Exports: s.fns[:5-i], MemMin: 1, Pad: i * 50}).Bytes())
	}
	return s
}

// tx is a transaction with everything needed to play it again.
type tx struct {
	seed   int64
	call   *vmcommon.ContractCallInput
	create *vmcommon.ContractCreateInput
	fault  int // hook call number which fails, 0 = none
	panics bool
}

func (s *stage) tx(r *rand.Rand) *tx {
	t := &tx{seed: r.Int63()}
	var args [][]byte
	for i := r.Intn(4); i > 0; i-- {
		b := make([]byte, r.Intn(40))
		r.Read(b)
		args = append(args, b)
	}
	gas := uint64(5000000 + r.Intn(100000000))
	if r.Intn(6) == 0 {
		gas = uint64(r.Intn(30000))
	}
	value := int64(0)
	if r.Intn(3) == 0 {
		value = int64(r.Intn(1000))
	}
	to := s.cs[r.Intn(len(s.cs))]
	in := kit.Input(s.users[r.Intn(len(s.users))], to, s.fns[2+r.Intn(3)], gas, value, args...)
	h := make([]byte, 32)
	r.Read(h)
	in.OriginalTxHash, in.CurrentTxHash = h, h
	if r.Intn(6) == 0 {
		in.ESDTTransfers = []*vmcommon.ESDTTransfer{{ESDTValue: big.NewInt(int64(1 + r.Intn(50))), ESDTTokenName: []byte("TOK-1")}}
	}
	t.call = in
	switch r.Intn(12) {
	case 0:
		t.call = nil
		t.create = &vmcommon.ContractCreateInput{VMInput: in.VMInput, ContractCode: s.codes[r.Intn(len(s.codes))], ContractCodeMetadata: []byte{byte(r.Intn(8)), byte(r.Intn(4))}}
	case 1:
		in.Function = arwen.UpgradeFunctionName
		in.Arguments = append([][]byte{s.codes[r.Intn(len(s.codes))], {5, 2}}, args...)
	case 2:
		in.CallType = vmcommon.AsynchronousCall
		in.GasLocked = uint64(r.Intn(1000))
		in.CallerAddr = chain.RemoteSC(8)
	case 3:
		in.CallType = vmcommon.AsynchronousCallBack
		in.Function = "callBack"
		in.CallerAddr = chain.RemoteSC(8)
		in.GasLocked = uint64(r.Intn(100000))
		in.Arguments = append([][]byte{{}}, args...)
	case 4:
		in.Function = []string{"missing", "init", "callBack", "", "ESDTTransfer", "memory"}[r.Intn(6)]
	}
	return t
}

// player plays the contracts of a transaction.
type player struct {
	s       *stage
	seed    int64
	frames  int
	depth   int
	hostile bool
	probe   func(f *mw.Frame, name string)
	shape   []byte
	log     string
}

func (p *player) behave(f *mw.Frame) {
	p.frames++
	h := hashfnv.New64a()
	binary.Write(h, binary.LittleEndian, p.seed)
	binary.Write(h, binary.LittleEndian, int64(p.frames))
	r := rand.New(rand.NewSource(int64(h.Sum64())))
	p.depth++
	defer func() { p.depth-- }()
	if p.frames > 60 {
		f.Trap()
	}
	p.shape = append(p.shape, byte('0'+p.depth))
	steps := 2 + r.Intn(9)
	if r.Intn(6) == 0 {
		d := p.callData(r)
		f.Call("finish", f.Put([]byte(d)), int64(len(d)))
		steps = r.Intn(2)
	}
	for i := 0; i < steps; i++ {
		f.Reset()
		p.op(f, r)
		if r.Intn(3) == 0 {
			f.Burn(uint64(r.Intn(200)))
		} else {
			f.Burn(1)
		}
	}
	switch r.Intn(16) {
	case 0:
		f.Trap()
	case 1:
		f.Call("signalError", f.Put([]byte("signalled")), 9)
	}
}

func (p *player) addr(r *rand.Rand) []byte {
	s := p.s
	switch r.Intn(20) {
	case 0:
		return s.users[r.Intn(len(s.users))]
	case 1:
		return chain.RemoteSC(5)
	case 2:
		return chain.SC(50)
	}
	return s.cs[r.Intn(len(s.cs))]
}

func (p *player) args(r *rand.Rand) [][]byte {
	var a [][]byte
	for i := r.Intn(3); i > 0; i-- {
		b := make([]byte, r.Intn(20))
		r.Read(b)
		a = append(a, b)
	}
	return a
}

func (p *player) fn(r *rand.Rand) []byte {
	if r.Intn(24) == 0 {
		return []byte([]string{"missing", "init", "callBack", "upgradeContract", "ESDTTransfer"}[r.Intn(5)])
	}
	return []byte(p.s.fns[2+r.Intn(3)])
}

func (p *player) key(r *rand.Rand) []byte { return []byte("k" + string(rune('0'+r.Intn(6)))) }

// must makes a host call and stops the frame when it is refused.
// callData makes text which reads as a call, often one to a built-in function.
func (p *player) callData(r *rand.Rand) string {
	d := []string{"ESDTTransfer", "ESDTNFTTransfer", "callBack", "upgradeContract", "a", ""}[r.Intn(6)]
	for i := r.Intn(6); i > 0; i-- {
		d += "@" + hex.EncodeToString([][]byte{[]byte("TOK-1"), []byte("NFT-1"), {1}, {0xff, 2}, {}, p.addr(r)}[r.Intn(6)])
	}
	return d + []string{"", "", "", "@", "z", "@0"}[r.Intn(6)]
}

func (p *player) op(f *mw.Frame, r *rand.Rand) {
	call := func(name string, args ...int64) int64 {
		if p.probe != nil {
			p.probe(f, name)
		}
		p.log += fmt.Sprintf(" %d:%s", p.depth, name)
		return f.Call(name, args...)
	}
	gas := func() int64 { return call("getGasLeft") / int64(2+r.Intn(6)) }
	s := p.s
	deep := p.depth < 5
	switch k := r.Intn(30); {
	case k < 4:
		v := make([]byte, r.Intn(50))
		r.Read(v)
		key := p.key(r)
		call("storageStore", f.Put(key), int64(len(key)), f.Put(v), int64(len(v)))
	case k < 6:
		key := p.key(r)
		o := f.Alloc(400)
		n := call("storageLoad", f.Put(key), int64(len(key)), o)
		if n >= 0 && n < 300 {
			call("finish", o, n)
		}
	case k < 8:
		d := make([]byte, r.Intn(30))
		r.Read(d)
		if r.Intn(3) == 0 {
			d = []byte(p.callData(r))
		}
		call("finish", f.Put(d), int64(len(d)))
	case k < 10:
		var t [][]byte
		for i := 1 + r.Intn(3); i > 0; i-- {
			t = append(t, []byte{byte(r.Intn(256)), 7})
		}
		n, l, d := f.PutArgs(t)
		call("writeEventLog", n, l, d, f.Put([]byte("log")), 3)
	case k < 12:
		call("transferValue", f.Put(p.addr(r)), f.Put(kit.Val32(int64(r.Intn(300)))), f.Put([]byte("d@01")), int64(r.Intn(5)))
	case k < 14:
		a := p.addr(r)
		n, l, d := f.PutArgs(nil)
		tok, nonce := "TOK-1", int64(0)
		if r.Intn(2) == 0 {
			tok, nonce = "NFT-1", 1
		}
		var fn []byte
		if deep && r.Intn(2) == 0 {
			fn = p.fn(r)
		}
		call("transferESDTNFTExecute", f.Put(a), f.Put([]byte(tok)), 5, f.Put(kit.Val32(int64(r.Intn(20)))), nonce, gas(), f.Put(fn), int64(len(fn)), n, l, d)
	case k < 20 && deep:
		op := []string{"executeOnDestContext", "executeOnDestContext", "executeOnDestContextByCaller", "executeOnSameContext", "executeReadOnly", "delegateExecution", "transferValueExecute"}[r.Intn(7)]
		n, l, d := f.PutArgs(p.args(r))
		fn := p.fn(r)
		a, v := f.Put(p.addr(r)), f.Put(kit.Val32(int64(r.Intn(3)*r.Intn(3)*r.Intn(100))))
		switch op {
		case "executeReadOnly", "delegateExecution":
			call(op, gas(), a, f.Put(fn), int64(len(fn)), n, l, d)
		case "transferValueExecute":
			call(op, a, v, gas(), f.Put(fn), int64(len(fn)), n, l, d)
		default:
			call(op, gas(), a, v, f.Put(fn), int64(len(fn)), n, l, d)
		}
	case k == 20 && deep:
		a := p.addr(r)
		data := string(p.fn(r))
		for _, x := range p.args(r) {
			data += "@" + hex.EncodeToString(x)
		}
		call("asyncCall", f.Put(a), f.Put(kit.Val32(int64(r.Intn(50)))), f.Put([]byte(data)), int64(len(data)))
	case k == 21 && deep:
		code := s.codes[r.Intn(len(s.codes))]
		n, l, d := f.PutArgs(p.args(r))
		call("createContract", gas(), f.Put(kit.Val32(int64(r.Intn(20)))), f.Put(code), f.Put([]byte{5, 2}), int64(len(code)), f.Alloc(32), n, l, d)
	case k == 22 && deep:
		n, l, d := f.PutArgs(p.args(r))
		call("deployFromSourceContract", gas(), f.Put(kit.Val32(0)), f.Put(p.addr(r)), f.Put([]byte{5, 2}), f.Alloc(32), n, l, d)
	case k == 23 && deep:
		code := s.codes[r.Intn(len(s.codes))]
		n, l, d := f.PutArgs(p.args(r))
		if r.Intn(2) == 0 {
			call("upgradeContract", f.Put(p.addr(r)), gas(), f.Put(kit.Val32(0)), f.Put(code), f.Put([]byte{5, 2}), int64(len(code)), n, l, d)
		} else {
			call("upgradeFromSourceContract", f.Put(p.addr(r)), gas(), f.Put(kit.Val32(0)), f.Put(p.addr(r)), f.Put([]byte{5, 2}), n, l, d)
		}
	case k == 24:
		h := int64(r.Intn(4))
		call("bigIntSetInt64", h, int64(r.Uint64()))
		if r.Intn(2) == 0 {
			h = int64(r.Intn(4)) // perhaps one not set yet
		}
		call("bigIntMul", h, h, int64(r.Intn(4)))
		call("bigIntFinishSigned", h)
	case k == 25:
		o := f.Alloc(64)
		n := []string{"getCaller", "getSCAddress", "getOriginalTxHash", "getBlockRandomSeed"}[r.Intn(4)]
		call(n, o)
		call("finish", o, 32)
	case k == 26:
		call("int64finish", call("getGasLeft"))
	case k == 27:
		f.Grow(1)
	case k == 28:
		call("bigIntGetExternalBalance", f.Put(p.addr(r)), 1)
		call("bigIntFinishUnsigned", 1)
	default:
		o := f.Alloc(600)
		m := call("getNumReturnData")
		call("int64finish", m)
		if m > 0 {
			i := int64(r.Intn(int(m)))
			if n := call("getReturnDataSize", i); n < 500 {
				call("getReturnData", i, o)
				call("finish", o, n)
			}
		}
		call("getNumArguments")
	}
}

// play runs a transaction on a VM which belongs to the chain.
func (s *stage) play(vm vmcommon.VMExecutionHandler, t *tx) (out *vmcommon.VMOutput, err error, p *player) {
	p = &player{s: s, seed: t.seed}
	mw.SetBehaviour(p.behave)
	if t.create != nil {
		c := *t.create
		out, err = vm.RunSmartContractCreate(&c)
	} else {
		c := *t.call
		out, err = vm.RunSmartContractCall(&c)
	}
	return
}

func describe(t *tx) string {
	if t.create != nil {
		return "deployment"
	}
	return strings.TrimSpace(t.call.Function)
}

package uni

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"
	"sort"

	"verif/harness/chain"
	"verif/harness/mw"
	"verif/harness/run"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/host"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
)

// Options configure a universe.
type Options struct {
	W        Weights
	Filter   func(tags map[string]bool) bool
	MaxDepth int
	MaxOps   int
	Tight    int
	AOT      int // -1 off, 1 on, 0 random
	Warm     bool
	Flat     bool // contracts without their own code variety
}

// Only accepts divergences which concern one property.
func Only(id string) func(map[string]bool) bool {
	return func(m map[string]bool) bool { return m[id] }
}

var exportPool = []string{"f1", "f2", "f3", "doSomething", "claimAll"}

func (u *U) newCode(r *rand.Rand, n int, exports []string) *Contract {
	id := fmt.Sprintf("code%d", n)
	m := &mw.Module{ID: id, Exports: exports, MemMin: uint32(1 + r.Intn(2)), Pad: r.Intn(900)}
	if r.Intn(4) == 0 {
		m.Pad += r.Intn(6000)
	}
	c := &Contract{Code: m.Bytes(), ID: id, Exports: exports}
	u.codes[string(c.Code)] = c
	return c
}

// New makes a random universe.
func New(c *run.Case, o Options) *U {
	r := c.R
	u := &U{C: c, R: r, W: o.W, MaxDepth: o.MaxDepth, MaxOps: o.MaxOps, Tight: o.Tight, Filter: o.Filter, codes: map[string]*Contract{}, nonces: map[string]uint64{}, Stats: map[string]int64{}, opBudget: 150}
	if u.W == nil {
		u.W = DefaultWeights()
	}
	if u.MaxDepth == 0 {
		u.MaxDepth = 4
	}
	if u.MaxOps == 0 {
		u.MaxOps = 9
	}
	u.G = RandGas(r)
	u.AOT = r.Intn(2) == 0
	if o.AOT != 0 {
		u.AOT = o.AOT > 0
	}
	u.DynLock = r.Intn(2) == 0
	u.Warm = o.Warm
	u.Ch = chain.New()
	ch := u.Ch
	ch.Log = true
	ch.Cur = chain.Block{Nonce: uint64(r.Intn(1000)) + 50, Round: uint64(r.Intn(2000)) + 60, Time: uint64(r.Intn(100000)) + 1000, Epoch: uint32(r.Intn(50) + 1), Seed: bytes.Repeat([]byte{byte(r.Intn(255) + 1)}, 48)}
	ch.Last = chain.Block{Nonce: ch.Cur.Nonce - 1, Round: ch.Cur.Round - 2, Time: ch.Cur.Time - 7, Epoch: ch.Cur.Epoch - 1, Seed: bytes.Repeat([]byte{byte(r.Intn(255))}, 48)}
	ch.Root = make([]byte, 32)
	r.Read(ch.Root)
	for i := uint64(0); i < 5; i++ {
		h := make([]byte, 32)
		r.Read(h)
		ch.Hashes[i] = h
	}
	n := 4 + r.Intn(3)
	for i := 0; i < 2; i++ {
		u.Users = append(u.Users, chain.User(i+1))
		ch.Add(u.Users[i], int64(r.Intn(1000000)))
	}
	u.Users = append(u.Users, chain.RemoteUser(7))
	u.Remote = [][]byte{chain.RemoteSC(50), chain.RemoteSC(51)}
	if r.Intn(2) == 0 {
		ch.NonPayable[string(u.Remote[1])] = true
	}
	if r.Intn(3) == 0 {
		ch.NonPayable[string(u.Users[1])] = true
	}
	// keys
	pool := [][]byte{[]byte("a"), []byte("b"), []byte("key1"), []byte("key2"), {0}, bytes.Repeat([]byte("k"), 32), bytes.Repeat([]byte("L"), 33), bytes.Repeat([]byte("M"), 70), {}, []byte("ELROND"), []byte("ELRONDx"), []byte("ELRONDesdtTOK"), []byte("ARWEN@x"), []byte("ELRON"), []byte("xELROND"), []byte("elrond")}
	for _, i := range r.Perm(9)[:3+r.Intn(4)] {
		u.Keys = append(u.Keys, pool[i])
	}
	if r.Intn(3) == 0 {
		u.Keys = append(u.Keys, pool[9+r.Intn(7)])
	}
	u.Tokens = [][]byte{[]byte("TOK-1"), []byte("NFT-9"), []byte("TOK-22")}
	used := map[int]bool{}
	for i := 0; i < n; i++ {
		var k *Contract
		if i > 1 && r.Intn(4) == 0 {
			k = u.CS[r.Intn(i)] // the same code at two addresses
		} else {
			ex := append([]string{}, exportPool[:2+r.Intn(4)]...)
			if r.Intn(2) == 0 {
				ex = append(ex, "callBack")
			}
			if r.Intn(2) == 0 {
				ex = append(ex, "init")
			}
			sort.Strings(ex)
			k = u.newCode(r, i, ex)
		}
		a := &Contract{Addr: chain.SC(i + 1), Code: k.Code, ID: k.ID, Exports: k.Exports}
		a.Meta = []byte{byte(r.Intn(2))*1 | byte(r.Intn(2))*4, byte(r.Intn(2) * 2)}
		if r.Intn(2) == 0 {
			a.Meta = []byte{5, 2}
		}
		owner := u.Users[r.Intn(2)]
		if i > 0 && r.Intn(2) == 0 {
			owner = u.CS[r.Intn(i)].Addr
		}
		ch.AddContract(a.Addr, int64(r.Intn(3)*r.Intn(300)), a.Code, owner, a.Meta...)
		for j := r.Intn(4); j > 0; j-- {
			key := u.Keys[r.Intn(len(u.Keys))]
			if v := u.val(); len(v) > 0 && !bytes.HasPrefix(key, []byte("ELRONDesdt")) {
				ch.Accts[string(a.Addr)].Storage[string(key)] = v
			}
		}
		used[i] = true
		u.CS = append(u.CS, a)
	}
	for _, c := range append(append([]*Contract{}, u.CS...), &Contract{Addr: u.Users[0]}) {
		for _, id := range u.Tokens {
			for k := uint64(1); k <= 3; k++ {
				if r.Intn(3) > 0 {
					continue
				}
				if id[0] == 'N' {
					md := &esdt.MetaData{Nonce: k, Name: u.rbytes(8), Creator: u.Users[0], Royalties: uint32(r.Intn(10000)), Hash: u.rbytes(8), Attributes: u.rbytes(12)}
					if r.Intn(2) == 0 {
						md.URIs = [][]byte{u.rbytes(12)}
					}
					ch.SetToken(c.Addr, id, k, int64(1+r.Intn(50)), md, nil)
				} else if k == 1 {
					ch.SetToken(c.Addr, id, 0, int64(1+r.Intn(5000)), nil, u.rbytes(3))
				}
			}
		}
	}
	for _, id := range u.Tokens {
		if r.Intn(2) == 0 {
			ch.Accts[string(u.CS[0].Addr)].Storage[chain.ProtectedPrefix+"nonce"+string(id)] = []byte{byte(1 + r.Intn(250))}
		}
	}
	ch.EnableBuiltIns(u.G.Copy())
	for i := 0; i < 4; i++ {
		ex := append([]string{}, exportPool[:1+r.Intn(5)]...)
		if r.Intn(2) == 0 {
			ex = append(ex, "callBack")
		}
		if i != 1 {
			ex = append(ex, "init")
		}
		sort.Strings(ex)
		u.pool = append(u.pool, u.newCode(r, 50+i, ex))
	}
	good := u.pool[0].Code
	u.junk = [][]byte{nil, {1, 2, 3}, u.rbytes(60), good[:9+r.Intn(9)], (&mw.Module{ID: "nomem", Exports: []string{"f1", "init"}, NoMemory: true}).Bytes(), (&mw.Module{ID: "bi", Exports: []string{"ESDTTransfer", "init"}, MemMin: 1}).Bytes()}
	u.M, u.base = newState(), ch
	u.VM = u.NewVM(ch)
	return u
}

// Params are the VM parameters of the universe.
func (u *U) Params(ch *chain.Chain) *arwen.VMHostParameters {
	p := &arwen.VMHostParameters{VMType: []byte{5, 0}, BlockGasLimit: 1 << 40, GasSchedule: u.G.Copy(), BuiltInFuncContainer: ch.BI, ElrondProtectedKeyPrefix: []byte(chain.ProtectedPrefix), UseWarmInstance: u.Warm}
	if !u.AOT {
		p.AheadOfTimeEnableEpoch = 1 << 30
	}
	if !u.DynLock {
		p.DynGasLockEnableEpoch = 1 << 30
	}
	return p
}

// NewVM makes a VM.
func (u *U) NewVM(ch *chain.Chain) vmcommon.VMExecutionHandler {
	h, err := host.NewArwenVM(ch, u.Params(ch))
	if err != nil {
		panic(err)
	}
	return h
}

// Tx is a top-level transaction.
type Tx struct {
	Kind   byte // c call, d deploy, u upgrade
	Caller []byte
	To     []byte
	Fn     string
	Args   [][]byte
	Value  *big.Int
	Gas    uint64
	Locked uint64
	Tok    *Tok
	Type   vmcommon.CallType
	Code   []byte
	Meta   []byte
	Play   func(fr *Fr)
	Orig   []byte
}

// RandTx draws a call.
func (u *U) RandTx() *Tx {
	r := u.R
	k := u.CS[r.Intn(len(u.CS))]
	t := &Tx{Kind: 'c', Caller: u.Users[r.Intn(len(u.Users))], To: k.Addr, Args: u.args(4), Value: new(big.Int), Gas: 1000000 + uint64(r.Intn(20000000))}
	if r.Intn(6) == 0 {
		t.Caller = u.CS[r.Intn(len(u.CS))].Addr
	}
	t.Fn = u.function(t.To)
	if r.Intn(3) == 0 {
		t.Value = big.NewInt(int64(r.Intn(400)))
	}
	if r.Intn(100) < u.Tight {
		t.Gas = uint64(r.Intn(40000))
		if r.Intn(2) == 0 {
			t.Gas = u.initialCost(len(k.Code)) + uint64(r.Intn(6000))
		}
	}
	if r.Intn(4) == 0 {
		id, n := u.token()
		k := vmcommon.Fungible
		if n > 0 {
			k = vmcommon.NonFungible
		}
		t.Tok = &Tok{Name: id, Nonce: n, Type: uint32(k), Value: big.NewInt(int64(1 + r.Intn(500)))}
	}
	if r.Intn(80) == 0 {
		t.To = u.account()
	}
	switch x := r.Intn(100); {
	case x < 6:
		t.Kind, t.Caller, t.Tok, t.To = 'd', u.Users[r.Intn(2)], nil, nil
		t.Code, t.Meta = u.newCodeFor(), u.newMeta()
	case x < 10:
		t.Kind, t.To, t.Code, t.Meta = 'u', k.Addr, u.newCodeFor(), u.newMeta()
	case x < 16:
		t.Type = vmcommon.AsynchronousCall
		t.Caller = u.Remote[r.Intn(len(u.Remote))]
		if r.Intn(4) == 0 {
			t.Caller = u.Users[2]
		}
	case x < 22:
		t.Type, t.Locked = vmcommon.AsynchronousCallBack, uint64(r.Intn(300000))
		t.Caller = u.Remote[r.Intn(len(u.Remote))]
		if r.Intn(8) > 0 {
			t.Fn = "callBack"
		}
	}
	return t
}

// Do runs a transaction and compares its result with the model. It returns the
// output, and whether the transaction succeeded.
func (u *U) Do(t *Tx) (*vmcommon.VMOutput, bool) {
	ch := u.Ch
	u.txSeq++
	if t.Orig == nil {
		t.Orig = bytes.Repeat([]byte{byte(u.txSeq)}, 32)
	}
	u.calm = u.R.Intn(5) < 3
	if a := acct(ch, t.Caller); a != nil && !u.isSC(t.Caller) {
		a.Nonce++ // the protocol counts the transaction before it runs
	}
	before := ch.Clone() // to restore after a failure
	if u.shard(t.Caller) == 0 && t.Value.Sign() > 0 {
		a := acct(ch, t.Caller)
		if a == nil {
			a = ch.Add(t.Caller, 0)
		}
		if a.Balance.Cmp(t.Value) < 0 {
			a.Balance.Set(t.Value)
			before = ch.Clone()
		}
		a.Balance.Sub(a.Balance, t.Value)
	}
	if t.Tok != nil { // the protocol has moved the payment already
		cur := u.Ch.TokenValue(t.To, t.Tok.Name, t.Tok.Nonce)
		if a := acct(ch, t.To); a != nil && cur.Sign() == 0 && t.Tok.Nonce == 0 {
			ch.SetToken(t.To, t.Tok.Name, 0, t.Tok.Value.Int64(), nil, nil)
		}
	}
	u.base = ch.Clone()
	u.M = newState()
	u.cur, u.pend, u.pendFn = nil, nil, nil
	u.opsDone, u.nestFail, u.nestOps, u.lastNew = 0, 0, 0, nil
	u.sameRan, u.sawRO, u.asyncRan, u.created = false, false, false, nil
	u.curTx = bytes.Repeat([]byte{0xcc}, 32)
	u.shape = nil
	ch.Events = nil
	u.seen = 0
	provided := t.Gas
	if t.Type == vmcommon.AsynchronousCallBack {
		provided += t.Locked
	}
	fr := &Fr{u: u, self: t.To, store: t.To, caller: t.Caller, fn: t.Fn, args: t.Args, value: t.Value, tok: t.Tok, orig: t.Orig, provided: provided, gas: map[string]uint64{}, big: map[int32]*big.Int{}, play: t.Play, ct: t.Type, op: "transaction"}
	in := vmcommon.VMInput{CallerAddr: t.Caller, Arguments: t.Args, CallValue: t.Value, GasPrice: 1, GasProvided: t.Gas, GasLocked: t.Locked, CallType: t.Type, OriginalTxHash: t.Orig, CurrentTxHash: u.curTx, PrevTxHash: bytes.Repeat([]byte{0xdd}, 32)}
	if t.Tok != nil {
		in.ESDTTransfers = []*vmcommon.ESDTTransfer{{ESDTValue: t.Tok.Value, ESDTTokenName: t.Tok.Name, ESDTTokenType: t.Tok.Type, ESDTTokenNonce: t.Tok.Nonce}}
	}
	u.C.Tracef("tx %d: %c %s -> %s.%s args=%x value=%v gas=%d aot=%v", u.txSeq, t.Kind, u.Addr(t.Caller), u.Addr(t.To), t.Fn, t.Args, t.Value, t.Gas, u.AOT)
	mw.SetBehaviour(u.behave)
	var out *vmcommon.VMOutput
	var err error
	want := vmcommon.Ok
	switch t.Kind {
	case 'c':
		u.addDelta(t.To, t.Value)
		want = u.topCall(fr)
		if want == vmcommon.Ok && !fr.nothing {
			u.pend = fr
		}
		out, err = u.VM.RunSmartContractCall(&vmcommon.ContractCallInput{VMInput: in, RecipientAddr: t.To, Function: t.Fn})
	case 'd':
		nonce := u.nonceOf(t.Caller)
		if !u.isSC(t.Caller) && nonce > 0 {
			nonce--
		}
		fr.self = u.newAddress(t.Caller, nonce)
		fr.store, fr.fn = fr.self, "init"
		fr.shown = "-" // a deployment names no function
		u.lastNew = fr.self
		u.addDelta(fr.self, t.Value)
		want = u.topDeploy(fr, t)
		out, err = u.VM.RunSmartContractCreate(&vmcommon.ContractCreateInput{VMInput: in, ContractCode: t.Code, ContractCodeMetadata: t.Meta})
	case 'u':
		fr.fn = "init"
		fr.args = t.Args
		in.Arguments = append([][]byte{t.Code, t.Meta}, t.Args...)
		u.addDelta(t.To, t.Value)
		// getFunction shows the name of the transaction's function
		fr.shown = "upgradeContract"
		want = u.topDeploy(fr, t)
		out, err = u.VM.RunSmartContractCall(&vmcommon.ContractCallInput{VMInput: in, RecipientAddr: t.To, Function: "upgradeContract"})
	}
	if err != nil {
		u.Diverge("VM error", []string{"P11"}, "the VM returned an error: %v", err)
	}
	if !u.dead && u.next() != nil && !u.dead {
		u.Diverge("not executed: transaction", []string{"P13", "P02", "P14"}, "%s.%s did not run: %v %s", u.Addr(t.To), fr.fn, out.ReturnCode, out.ReturnMessage)
	}
	if u.dead {
		u.restore(before)
		return out, false
	}
	return out, u.settle(t, fr, out, want, before)
}

func (u *U) restore(before *chain.Chain) {
	u.Ch.Accts = before.Accts
	u.Ch.DropSnapshots()
}

// topCall models what happens before the called function runs.
func (u *U) topCall(fr *Fr) vmcommon.ReturnCode {
	if fr.provided < u.G.base("GetCode") {
		return vmcommon.OutOfGas
	}
	code := u.codeOf(fr.self)
	if len(code) == 0 {
		return vmcommon.ContractNotFound
	}
	ok := fr.load(code)
	if !ok && fr.cause == "initial gas" {
		return vmcommon.OutOfGas
	}
	if fr.fn == "init" || fr.fn == "callBack" {
		if fr.fn == "init" || fr.ct != vmcommon.AsynchronousCallBack {
			return vmcommon.UserError
		}
	}
	if !ok {
		return vmcommon.FunctionNotFound
	}
	return vmcommon.Ok
}

// topDeploy models what happens before the initialisation runs.
func (u *U) topDeploy(fr *Fr, t *Tx) vmcommon.ReturnCode {
	fr.initial = satAdd(u.G.api("CreateContract"), u.G.base("CompilePerByte")*uint64(len(t.Code)))
	fr.codeLen = len(t.Code)
	if fr.initial > fr.provided {
		return vmcommon.OutOfGas
	}
	fr.limit = fr.provided - fr.initial
	fr.room = fr.limit
	k := u.codes[string(t.Code)]
	if k == nil {
		return vmcommon.ContractInvalid
	}
	fr.codeID = k.ID
	fr.hasCB = has(k.Exports, "callBack")
	if !has(k.Exports, "init") {
		fr.nothing = true
	} else {
		u.pend = fr
	}
	return vmcommon.Ok
}

var codeNames = map[vmcommon.ReturnCode]string{}

// settle compares the output with the model.
func (u *U) settle(t *Tx, fr *Fr, out *vmcommon.VMOutput, want vmcommon.ReturnCode, before *chain.Chain) bool {
	if out == nil {
		u.Diverge("no output", []string{"P11"}, "nil output")
		return false
	}
	if want == vmcommon.Ok && fr.failed {
		switch {
		case fr.code != vmcommon.Ok:
			want = fr.code
		case fr.cause == "oog":
			want = vmcommon.OutOfGas
		case fr.cause == "signal":
			want = vmcommon.UserError
		default:
			want = vmcommon.ExecutionFailed
		}
	}
	if want == vmcommon.Ok && !fr.failed && t.Kind == 'c' && fr.ct == vmcommon.AsynchronousCall {
		u.asyncRan = true
		if !fr.answer() {
			want = fr.code
		}
	}
	u.C.Tracef("result %v %q, model %v (%s)", out.ReturnCode, out.ReturnMessage, want, fr.cause)
	if want != vmcommon.Ok {
		u.Stats["failed transactions"]++
		u.Stats["failed: "+want.String()]++
		if out.ReturnCode != want {
			u.Diverge("return code", u.tag("P05", "P13", "P02", "P11"), "the transaction ended with %v (%s), expected %v (%s)", out.ReturnCode, out.ReturnMessage, want, fr.cause)
			return false
		}
		if fr.cause == "signal" && out.ReturnMessage != fr.msg {
			u.Diverge("return message", []string{"P05", "P17"}, "signalled %q, reported %q", fr.msg, out.ReturnMessage)
		}
		left := ""
		switch {
		case out.GasRemaining != 0:
			left = fmt.Sprintf("%d gas remaining", out.GasRemaining)
		case out.GasRefund != nil && out.GasRefund.Sign() != 0:
			left = "a refund"
		case len(out.OutputAccounts) != 0:
			left = "account changes"
		case len(out.Logs) != 0:
			left = "log entries"
		case len(out.ReturnData) != 0:
			left = "returned data"
		case len(out.DeletedAccounts)+len(out.TouchedAccounts) != 0:
			left = "deleted or touched accounts"
		}
		if left != "" {
			tags := []string{"P05"}
			if out.GasRemaining != 0 {
				tags = append(tags, "P01")
			}
			u.Diverge("failure leaves "+left, tags, "the failed transaction leaves %s:\n%s", left, chain.Canon(out))
		}
		u.restore(before)
		return false
	}
	u.Stats["successful transactions"]++
	if out.ReturnCode != vmcommon.Ok {
		u.Diverge("return code", []string{"P01", "P02", "P11", "P13", "P06", "P14"}, "the transaction failed with %v (%s), expected success", out.ReturnCode, out.ReturnMessage)
		return false
	}
	fr.account()
	if t.Kind == 'd' || t.Kind == 'u' {
		u.M.Code[string(fr.self)] = &Deployed{t.Code, t.Meta, t.Caller}
	}
	u.compare(fr, out)
	if u.dead {
		return false
	}
	u.Ch.Apply(out)
	u.Ch.DropSnapshots()
	u.compareChain()
	for _, a := range u.created {
		if d := u.M.Code[string(a)]; d != nil && len(u.CS) < 14 {
			k := u.codes[string(d.Code)]
			u.CS = append(u.CS, &Contract{Addr: a, Code: k.Code, ID: k.ID, Exports: k.Exports, Meta: d.Meta})
		}
	}
	for _, c := range u.CS {
		if d := u.M.Code[string(c.Addr)]; d != nil {
			k := u.codes[string(d.Code)]
			c.Code, c.ID, c.Exports, c.Meta = k.Code, k.ID, k.Exports, d.Meta
		}
	}
	if t.Kind == 'd' {
		u.Stats["user deployments"]++
	}
	if t.Kind == 'u' {
		u.Stats["user upgrades"]++
	}
	if t.Kind == 'd' {
		u.CS = append(u.CS, &Contract{Addr: fr.self, Code: t.Code, ID: u.codes[string(t.Code)].ID, Exports: u.codes[string(t.Code)].Exports, Meta: t.Meta})
	}
	return true
}

// tag adds the properties concerned by what the transaction did.
func (u *U) tag(l ...string) []string {
	if u.nestOps > 0 {
		l = append(l, "P06")
	}
	if u.sameRan {
		l = append(l, "P28")
	}
	if u.asyncRan {
		l = append(l, "P15")
	}
	if u.sawRO {
		l = append(l, "P09")
	}
	return l
}

func (u *U) compare(fr *Fr, out *vmcommon.VMOutput) {
	m := u.M
	tag := u.tag
	rest := fr.room - fr.used
	if out.GasRemaining != rest {
		u.Diverge("gas remaining", []string{"P01", "P02"}, "%d gas remains, expected %d", out.GasRemaining, rest)
		return
	}
	ref := uint64(0)
	if out.GasRefund != nil {
		ref = out.GasRefund.Uint64()
	}
	if ref != m.Refund {
		tags := []string{"P02"}
		if u.nestOps > 0 {
			tags = append(tags, "P06")
		}
		u.Diverge("refund", tags, "the refund is %v, expected %d", out.GasRefund, m.Refund)
		return
	}
	if len(out.ReturnData) != len(m.Ret) {
		u.Diverge("returned data", tag("P17"), "%d data items are returned, expected %d", len(out.ReturnData), len(m.Ret))
		return
	}
	for i := range m.Ret {
		if !bytes.Equal(m.Ret[i], out.ReturnData[i]) {
			u.Diverge("returned data", tag("P17"), "data item %d is %x, expected %x", i, out.ReturnData[i], m.Ret[i])
			return
		}
	}
	if len(out.Logs) != len(m.Logs) {
		u.Diverge("logs", tag("P26"), "%d log entries, expected %d", len(out.Logs), len(m.Logs))
		return
	}
	for i, w := range m.Logs {
		g := out.Logs[i]
		same := bytes.Equal(g.Address, w.Addr) && bytes.Equal(g.Identifier, w.ID) && bytes.Equal(g.Data, w.Data) && len(g.Topics) == len(w.Topics)
		for j := range w.Topics {
			same = same && bytes.Equal(g.Topics[j], w.Topics[j])
		}
		if !same {
			u.Diverge("logs", tag("P26"), "log entry %d is %+v, expected %+v", i, g, w)
			return
		}
	}
	addrs := map[string]bool{}
	for k, oa := range out.OutputAccounts {
		addrs[k] = true
		if k != string(oa.Address) {
			u.Diverge("account address", []string{"P06", "P03"}, "account %x is listed under %x", oa.Address, k)
			return
		}
	}
	for k := range m.Delta {
		addrs[k] = true
	}
	for k := range m.Store {
		addrs[k] = true
	}
	for k := range m.Tr {
		addrs[k] = true
	}
	for k := range fr.gas {
		addrs[k] = true
	}
	for k := range m.Code {
		addrs[k] = true
	}
	for k := range m.Nonce {
		addrs[k] = true
	}
	var ks []string
	for k := range addrs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	sum, sumGas := new(big.Int), out.GasRemaining
	for _, k := range ks {
		oa := out.OutputAccounts[k]
		if oa == nil {
			oa = &vmcommon.OutputAccount{}
		}
		name := u.Addr([]byte(k))
		d := new(big.Int)
		if oa.BalanceDelta != nil {
			d = oa.BalanceDelta
		}
		sum.Add(sum, d)
		w := m.Delta[k]
		if w == nil {
			w = new(big.Int)
		}
		if d.Cmp(w) != 0 {
			u.Diverge("balance change", tag("P03"), "the balance of %s changes by %v, expected %v", name, d, w)
			return
		}
		if b := acct(u.base, []byte(k)); oa.Balance != nil && b != nil && oa.Balance.Cmp(b.Balance) != 0 {
			u.Diverge("balance base", tag("P03"), "the balance of %s is given as %v, the chain has %v", name, oa.Balance, b.Balance)
			return
		}
		// storage
		for key, su := range oa.StorageUpdates {
			if key != string(su.Offset) {
				u.Diverge("storage key", tag("P07"), "%s: key %x is listed under %x", name, su.Offset, key)
				return
			}
			if w, ok := m.Store[k][key]; ok {
				if !bytes.Equal(w, su.Data) {
					u.Diverge("storage result", tag("P07"), "%s[%x] ends as %x, expected %x", name, key, su.Data, w)
					return
				}
			} else if now := acct(u.Ch, []byte(k)); elrondKey([]byte(key)) {
				var cv []byte
				if now != nil {
					cv = now.Storage[key]
				}
				if !bytes.Equal(cv, su.Data) {
					u.Diverge("protected storage result", tag("P07", "P08"), "%s[%x] is reported as %x, the chain has %x", name, key, su.Data, cv)
					return
				}
			} else {
				var cv []byte
				if b := acct(u.base, []byte(k)); b != nil {
					cv = b.Storage[key]
				}
				if !bytes.Equal(cv, su.Data) {
					u.Diverge("storage result", tag("P07", "P09"), "%s[%x] was not written but ends as %x instead of %x", name, key, su.Data, cv)
					return
				}
			}
		}
		for key, w := range m.Store[k] {
			if su := oa.StorageUpdates[key]; su == nil {
				var cv []byte
				if b := acct(u.base, []byte(k)); b != nil {
					cv = b.Storage[key]
				}
				if !bytes.Equal(cv, w) {
					u.Diverge("storage lost", tag("P07"), "%s[%x] = %x is missing in the result", name, key, w)
					return
				}
			}
		}
		// transfers
		trs := m.Tr[k]
		if len(trs) != len(oa.OutputTransfers) {
			u.Diverge("transfers", tag("P26", "P03", "P04", "P15"), "%d transfers to %s, expected %d:\n%s", len(oa.OutputTransfers), name, len(trs), chain.Canon(out))
			return
		}
		for i, w := range trs {
			g := oa.OutputTransfers[i]
			sumGas += g.GasLimit + g.GasLocked
			v := g.Value
			if v == nil {
				v = new(big.Int)
			}
			if v.Cmp(w.Value) != 0 || !bytes.Equal(g.Data, w.Data) || g.CallType != w.Type || !bytes.Equal(g.SenderAddress, w.From) {
				u.Diverge("transfer", tag("P26", "P03", "P04", "P15"), "transfer %d to %s is {from %x value %v type %d data %q}, expected {from %x value %v type %d data %q}", i, name, g.SenderAddress, v, g.CallType, g.Data, w.From, w.Value, w.Type, w.Data)
				return
			}
			if g.GasLimit != w.Gas || g.GasLocked != w.Lock {
				u.Diverge("transfer gas", tag("P01", "P26", "P15"), "transfer %d to %s has gas %d locked %d, expected %d and %d", i, name, g.GasLimit, g.GasLocked, w.Gas, w.Lock)
				return
			}
		}
		sumGas += oa.GasUsed
		if oa.GasUsed != fr.gas[k] {
			u.Diverge("gas used", []string{"P01", "P02"}, "%s used %d gas, expected %d", name, oa.GasUsed, fr.gas[k])
			return
		}
		// code
		c := m.Code[k]
		if c == nil {
			if len(oa.Code) > 0 {
				u.Diverge("unexpected code", tag("P14"), "%s gets new code (%d bytes)", name, len(oa.Code))
				return
			}
		} else if !bytes.Equal(c.Code, oa.Code) || !bytes.Equal(c.Meta, oa.CodeMetadata) || !bytes.Equal(c.Deployer, oa.CodeDeployerAddress) {
			u.Diverge("code", tag("P14"), "%s gets code of %d bytes, metadata %x, deployer %x; expected %d bytes, %x, %x", name, len(oa.Code), oa.CodeMetadata, oa.CodeDeployerAddress, len(c.Code), c.Meta, c.Deployer)
			return
		}
		wn := uint64(0)
		if b := acct(u.base, []byte(k)); b != nil {
			wn = b.Nonce
		}
		if n, ok := m.Nonce[k]; ok {
			if oa.Nonce != n {
				u.Diverge("nonce", tag("P14"), "the nonce of %s ends as %d, expected %d", name, oa.Nonce, n)
				return
			}
		} else if oa.Nonce != 0 && oa.Nonce != wn {
			u.Diverge("nonce", tag("P14"), "the nonce of %s ends as %d, expected %d", name, oa.Nonce, wn)
			return
		}
	}
	if sumGas != fr.provided {
		u.Diverge("gas sum", []string{"P01"}, "remaining, used and forwarded gas add up to %d, provided were %d:\n%s", sumGas, fr.provided, chain.Canon(out))
		return
	}
	if sum.Cmp(fr.value) != 0 {
		u.Diverge("value sum", []string{"P03"}, "balance changes add up to %v, %v arrived", sum, fr.value)
		return
	}
	if len(out.DeletedAccounts)+len(out.TouchedAccounts) != 0 {
		u.Diverge("deleted accounts", []string{"P06", "P14"}, "accounts are reported as deleted or touched")
	}
}

// compareChain compares the tokens after a transaction.
func (u *U) compareChain() {
	all := map[string][]byte{}
	for k := range u.Ch.Accts {
		all[k] = []byte(k)
	}
	var ks []string
	for k := range all {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		for _, id := range u.Tokens {
			for n := uint64(0); n <= 3; n++ {
				if (id[0] == 'N') != (n > 0) {
					continue
				}
				g := u.Ch.TokenValue(all[k], id, n)
				w := u.tokens(all[k], id, n)
				if g.Cmp(w) != 0 {
					tags := []string{"P04"}
					if u.nestOps > 0 {
						tags = append(tags, "P06")
					}
					u.Diverge("tokens", tags, "%s owns %v of %s/%d after the transaction, expected %v", u.Addr(all[k]), g, id, n, w)
					return
				}
				u.Stats["token balances checked"]++
			}
		}
	}
}

// Package kit scripts small worlds against the real VM: contracts whose bodies
// are Go functions run on a small WASM engine.
package kit

import (
	"bytes"
	"fmt"
	"math/big"
	"os"

	"verif/harness/chain"
	"verif/harness/mw"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/host"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	logger "github.com/ElrondNetwork/elrond-go-logger"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

// W is a world.
type W struct {
	Ch     *chain.Chain
	VM     vmcommon.VMExecutionHandler
	Gas    map[string]map[string]uint64
	bodies map[string]func(f *F)
}

// F is a running contract.
type F struct {
	*mw.Frame
	W *W
}

// New makes a world.
func New(opts ...func(p *arwen.VMHostParameters)) *W {
	logger.SetLogLevel("*:NONE")
	w := &W{Ch: chain.New(), bodies: map[string]func(f *F){}}
	w.Gas = config.MakeGasMapForTests()
	w.Ch.EnableBuiltIns(config.MakeGasMapForTests())
	w.VM = w.NewVM(opts...)
	mw.SetBehaviour(func(f *mw.Frame) {
		b := w.bodies[f.ID+"."+f.Func]
		if b != nil {
			b(&F{f, w})
		}
	})
	return w
}

// NewVM makes another VM on the same chain.
func (w *W) NewVM(opts ...func(p *arwen.VMHostParameters)) vmcommon.VMExecutionHandler {
	p := &arwen.VMHostParameters{VMType: []byte{5, 0}, BlockGasLimit: 1 << 40, GasSchedule: w.Gas, BuiltInFuncContainer: w.Ch.BI, ElrondProtectedKeyPrefix: []byte(chain.ProtectedPrefix)}
	for _, o := range opts {
		o(p)
	}
	h, err := host.NewArwenVM(w.Ch, p)
	Must(err == nil, "NewArwenVM: %v", err)
	return h
}

// Code makes contract code.
func Code(id string, exports ...string) []byte {
	return (&mw.Module{ID: id, Exports: exports, MemMin: 1}).Bytes()
}

// Contract adds contract number n with code id "cN".
func (w *W) Contract(n int, balance int64, exports ...string) []byte {
	a := chain.SC(n)
	w.Ch.AddContract(a, balance, Code(fmt.Sprintf("c%d", n), exports...), chain.User(1))
	return a
}

// On gives a function of a contract its body.
func (w *W) On(id, fn string, body func(f *F)) { w.bodies[id+"."+fn] = body }

// Input makes the input of a call.
func Input(from, to []byte, fn string, gas uint64, value int64, args ...[]byte) *vmcommon.ContractCallInput {
	return &vmcommon.ContractCallInput{VMInput: vmcommon.VMInput{CallerAddr: from, Arguments: args, CallValue: big.NewInt(value), GasPrice: 1, GasProvided: gas,
		OriginalTxHash: bytes.Repeat([]byte{0xaa}, 32), CurrentTxHash: bytes.Repeat([]byte{0xcc}, 32), PrevTxHash: bytes.Repeat([]byte{0xdd}, 32)}, RecipientAddr: to, Function: fn}
}

// Call runs a transaction without applying its result.
func (w *W) Call(from, to []byte, fn string, gas uint64, value int64, args ...[]byte) *vmcommon.VMOutput {
	return w.Run(Input(from, to, fn, gas, value, args...))
}

// Run runs a call.
func (w *W) Run(in *vmcommon.ContractCallInput) *vmcommon.VMOutput {
	out, err := w.VM.RunSmartContractCall(in)
	Must(err == nil && out != nil, "RunSmartContractCall: %v", err)
	w.Ch.DropSnapshots()
	return out
}

// Deploy runs a deployment.
func (w *W) Deploy(from []byte, code []byte, gas uint64, args ...[]byte) *vmcommon.VMOutput {
	in := Input(from, nil, "", gas, 0, args...)
	out, err := w.VM.RunSmartContractCreate(&vmcommon.ContractCreateInput{VMInput: in.VMInput, ContractCode: code, ContractCodeMetadata: []byte{5, 2}})
	Must(err == nil && out != nil, "RunSmartContractCreate: %v", err)
	w.Ch.DropSnapshots()
	return out
}

// Must ends the demonstration with a failure unless ok.
func Must(ok bool, format string, a ...interface{}) {
	if !ok {
		fmt.Printf("FAIL: "+format+"\n", a...)
		os.Exit(1)
	}
}

// Ok requires success.
func Ok(o *vmcommon.VMOutput) {
	Must(o.ReturnCode == vmcommon.Ok, "the transaction failed: %v %s", o.ReturnCode, o.ReturnMessage)
}

// Val32 is a value as 32 big-endian bytes.
func Val32(v int64) []byte {
	b := big.NewInt(v).Bytes()
	return append(make([]byte, 32-len(b)), b...)
}

// Acct is an output account, possibly empty.
func Acct(o *vmcommon.VMOutput, a []byte) *vmcommon.OutputAccount {
	if x := o.OutputAccounts[string(a)]; x != nil {
		if x.BalanceDelta == nil {
			x.BalanceDelta = new(big.Int)
		}
		return x
	}
	return &vmcommon.OutputAccount{BalanceDelta: new(big.Int)}
}

// Store writes storage.
func (f *F) Store(k, v string) int32 {
	return f.I("storageStore", f.Put([]byte(k)), int64(len(k)), f.Put([]byte(v)), int64(len(v)))
}

// Load reads storage.
func (f *F) Load(k string) string {
	o := f.Alloc(300)
	n := f.I("storageLoad", f.Put([]byte(k)), int64(len(k)), o)
	if n < 0 {
		return fmt.Sprint("error ", n)
	}
	return string(f.Get(o, int(n)))
}

// Finish returns data.
func (f *F) Finish(s string) { f.Call("finish", f.Put([]byte(s)), int64(len(s))) }

// Exec is executeOnDestContext and its relatives with a value.
func (f *F) Exec(op string, gas uint64, to []byte, value int64, fn string, args ...[]byte) (int32, bool) {
	n, l, d := f.PutArgs(args)
	r, t := f.Try(op, int64(gas), f.Put(to), f.Put(Val32(value)), f.Put([]byte(fn)), int64(len(fn)), n, l, d)
	return int32(r), t
}

// Exec0 is executeReadOnly or delegateExecution.
func (f *F) Exec0(op string, gas uint64, to []byte, fn string, args ...[]byte) (int32, bool) {
	n, l, d := f.PutArgs(args)
	r, t := f.Try(op, int64(gas), f.Put(to), f.Put([]byte(fn)), int64(len(fn)), n, l, d)
	return int32(r), t
}

// SendExec is transferValueExecute.
func (f *F) SendExec(to []byte, value int64, gas uint64, fn string, args ...[]byte) int32 {
	n, l, d := f.PutArgs(args)
	return f.I("transferValueExecute", f.Put(to), f.Put(Val32(value)), int64(gas), f.Put([]byte(fn)), int64(len(fn)), n, l, d)
}

// SendTok is transferESDTNFTExecute.
func (f *F) SendTok(to []byte, tok string, nonce, value int64, gas uint64, fn string, args ...[]byte) int32 {
	n, l, d := f.PutArgs(args)
	return f.I("transferESDTNFTExecute", f.Put(to), f.Put([]byte(tok)), int64(len(tok)), f.Put(Val32(value)), nonce, int64(gas), f.Put([]byte(fn)), int64(len(fn)), n, l, d)
}

// Async is asyncCall.
func (f *F) Async(to []byte, value int64, data string) {
	f.Call("asyncCall", f.Put(to), f.Put(Val32(value)), f.Put([]byte(data)), int64(len(data)))
}

// Log writes a log entry.
func (f *F) Log(data string, topics ...string) {
	var t [][]byte
	for _, x := range topics {
		t = append(t, []byte(x))
	}
	n, l, d := f.PutArgs(t)
	f.Call("writeEventLog", n, l, d, f.Put([]byte(data)), int64(len(data)))
}

// hostmon decides the properties of the interface between contracts and the
// VM: guest memory, survival of hostile contracts, repeatability, valid code.
package main

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"
	"syscall"

	"verif/harness/chain"
	"verif/harness/kit"
	"verif/harness/mw"
	"verif/harness/run"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/host"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	logger "github.com/ElrondNetwork/elrond-go-logger"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
)

func newVM(ch *chain.Chain) vmcommon.VMExecutionHandler {
	h, err := host.NewArwenVM(ch, &arwen.VMHostParameters{VMType: []byte{5, 0}, BlockGasLimit: 1 << 40, GasSchedule: config.MakeGasMapForTests(), BuiltInFuncContainer: ch.BI, ElrondProtectedKeyPrefix: []byte(chain.ProtectedPrefix)})
	if err != nil {
		panic(err)
	}
	return h
}

func newWorld(r *rand.Rand) *world {
	w := &world{ch: chain.New(), self: chain.SC(0), other: chain.SC(1), caller: chain.User(1), fn: "main", tokens: map[string]*tokenData{}}
	w.pages = uint32(1 + r.Intn(3))
	w.maxPages = 0
	if r.Intn(2) == 0 {
		w.maxPages = w.pages + uint32(r.Intn(3))
	}
	ch := w.ch
	ch.EnableBuiltIns(config.MakeGasMapForTests())
	m := &mw.Module{ID: "under test", Exports: []string{w.fn, "callBack"}, MemMin: w.pages}
	if w.maxPages > 0 {
		m.MemMax = w.maxPages
	}
	ch.AddContract(w.self, 1000, m.Bytes(), chain.User(1))
	ch.AddContract(w.other, 1000, kit.Code("callee", "ok", "fail", "grow", "init", "callBack"), w.self)
	ch.Add(chain.User(1), 100000)
	ch.Add(chain.User(9), 100000)
	st := func(a []byte, k string, n int) {
		v := make([]byte, n)
		r.Read(v)
		ch.Accts[string(a)].Storage[k] = v
		w.keys = append(w.keys, []byte(k))
	}
	for i, n := range []int{0, 1, 8, 32, 33, 200, 65536, 70000, 140000} {
		st(w.self, fmt.Sprintf("key%d", i), n)
	}
	for i, n := range []int{1, 64, 3000} {
		st(w.other, fmt.Sprintf("other%d", i), n)
	}
	w.keys = append(w.keys, []byte("ELRONDx"), bytes.Repeat([]byte("k"), 40), []byte{})
	meta := func(n int) *esdt.MetaData {
		b := func(k int) []byte { v := make([]byte, k); r.Read(v); return v }
		return &esdt.MetaData{Nonce: uint64(n), Name: b(12), Creator: chain.User(9), Royalties: 7, Hash: b(32), URIs: [][]byte{b(40), b(3)}, Attributes: b(100)}
	}
	tok := func(a []byte, id string, nonce uint64, amount int64) {
		t := &tokenData{props: []byte{1, 0}}
		var md *esdt.MetaData
		if nonce > 0 {
			md = meta(int(nonce))
			t.hash, t.name, t.attr, t.creator, t.uri = md.Hash, md.Name, md.Attributes, md.Creator, md.URIs[0]
		}
		ch.SetToken(a, []byte(id), nonce, amount, md, []byte{1, 0})
		w.tokens[string(a)+"/"+id+"/"+fmt.Sprint(nonce)] = t
	}
	tok(w.self, "TOK-1", 0, 5000)
	tok(w.self, "NFT-1", 1, 50)
	tok(w.self, "NFT-1", 2, 1)
	tok(w.other, "TOK-1", 0, 300)
	tok(w.other, "NFT-1", 2, 9)
	return w
}

// tx draws the transaction of a case.
func (w *world) tx(r *rand.Rand) *vmcommon.ContractCallInput {
	w.args = nil
	for i, n := 0, r.Intn(4); i < n; i++ {
		b := make([]byte, []int{0, 1, 9, 32, 100, 66000}[r.Intn(6)])
		r.Read(b)
		w.args = append(w.args, b)
	}
	w.value, w.tokValue, w.tokName = new(big.Int), new(big.Int), nil
	in := kit.Input(w.caller, w.self, w.fn, 1<<36, 0, w.args...)
	switch r.Intn(3) {
	case 0:
		w.value.SetBytes([]byte{byte(1 + r.Intn(200)), byte(r.Intn(256))}[:1+r.Intn(2)])
		in.CallValue = new(big.Int).Set(w.value)
	case 1:
		w.tokName = []byte("TOK-1")
		w.tokValue = big.NewInt(int64(1 + r.Intn(100000)))
		in.ESDTTransfers = []*vmcommon.ESDTTransfer{{ESDTValue: new(big.Int).Set(w.tokValue), ESDTTokenName: w.tokName}}
	}
	return in
}

// memory plays some transactions, each twice with different bytes outside the
// ranges which the arguments of the host calls describe.
func memory(c *run.Case) {
	base := newWorld(c.R)
	txs := 3
	for t := 0; t < txs; t++ {
		seed := c.R.Int63()
		in := base.tx(c.R)
		var ex [2]*exec
		var res [2]string
		for k := 0; k < 2; k++ {
			w := *base
			w.ch = base.ch.Clone()
			x := &exec{c: c, w: &w, r: rand.New(rand.NewSource(seed)), noise: byte(k), bigs: map[int32]*big.Int{}, store: map[string][]byte{}, expected: map[string][]byte{}, rets: [][]byte{}}
			for kk, v := range w.ch.Accts[string(w.self)].Storage {
				x.store[kk] = v
			}
			ex[k] = x
			vm := newVM(w.ch)
			mw.SetBehaviour(func(f *mw.Frame) {
				x.depth++
				defer func() { x.depth-- }()
				if f.ID == "under test" && x.depth == 1 && f.Func == w.fn {
					x.play(f)
				} else {
					x.callee(f)
				}
			})
			c.Tracef("--- transaction %d, run %d: %d pages (maximum %d), arguments %x", t, k, w.pages, w.maxPages, len(in.Arguments))
			cp := *in
			out, err := vm.RunSmartContractCall(&cp)
			if err != nil || out == nil {
				c.Failf("no result", "transaction %d: the VM gave no result: %v", t, err)
				return
			}
			if x.failed {
				return
			}
			x.judge(out)
			if c.Failed() {
				return
			}
			res[k] = chain.Canon(out)
			c.Count("transactions", 1)
		}
		a, b := ex[0], ex[1]
		for i := range a.calls {
			if i >= len(b.calls) {
				c.Failf("depends on other memory", "call %d exists in one run only: %s", i, a.calls[i].sum)
				return
			}
			p, q := a.calls[i], b.calls[i]
			if p.sum != q.sum || len(p.callee) != len(q.callee) {
				c.Failf("depends on other memory:"+p.name, "with other bytes outside the described ranges the call went otherwise:\n  %s\n  %s", p.sum, q.sum)
				return
			}
			for j := range p.callee {
				if !bytes.Equal(p.callee[j], q.callee[j]) {
					c.Failf("depends on other memory:"+p.name, "the called contract got argument %d as %x or %x depending on bytes outside the described ranges", j, cut(p.callee[j]), cut(q.callee[j]))
					return
				}
			}
			c.Distinct(p.name, p.trapped, p.badIn != "", p.called)
		}
		if res[0] != res[1] {
			c.Failf("output depends on other memory", "the output depends on bytes outside the described ranges (calls: %s)", a.names())
			return
		}
	}
}

func (x *exec) names() (s string) {
	for _, k := range x.calls {
		s += k.name + " "
	}
	return
}

// judge compares the output with what the ranges held.
func (x *exec) judge(out *vmcommon.VMOutput) {
	c := x.c
	if x.signalled {
		if x.ended && out.ReturnMessage != string(x.signal) {
			c.Failf("signalError text", "signalError gave the message %q, the described range holds %q", cut([]byte(out.ReturnMessage)), cut(x.signal))
		}
		return
	}
	if x.ended || out.ReturnCode != vmcommon.Ok {
		return
	}
	c.Count("outputs checked", 1)
	// finished data appear in the returned data in this order
	k := 0
	for _, d := range out.ReturnData {
		if k < len(x.finished) && bytes.Equal(d, x.finished[k]) {
			k++
		}
	}
	if k < len(x.finished) {
		c.Failf("finish data", "the data %x given to finish is not in the returned data (in order)", cut(x.finished[k]))
	}
	k = 0
	for _, l := range out.Logs {
		if k < len(x.logs) && sameLog(l, x.logs[k]) {
			k++
		}
	}
	if k < len(x.logs) {
		c.Failf("log data", "the log %x with %d topics is not in the output (in order)", cut(x.logs[k].data), len(x.logs[k].topics))
	}
	for _, t := range x.transfers {
		found := false
		if a := out.OutputAccounts[string(t.to)]; a != nil {
			for _, o := range a.OutputTransfers {
				if o.Value.Cmp(new(big.Int).SetBytes(t.value)) == 0 && bytes.Equal(o.Data, t.data) {
					found = true
				}
			}
		}
		if !found {
			c.Failf("transfer data", "a transfer of %x to %x with data %x is not in the output", t.value, t.to, cut(t.data))
		}
	}
	if a := out.OutputAccounts[string(x.w.self)]; a != nil {
		for k, v := range x.store {
			if u := a.StorageUpdates[k]; u != nil && !bytes.Equal(u.Data, v) {
				c.Failf("stored data", "storage %x is %x in the output, the described range held %x", k, cut(u.Data), cut(v))
			}
		}
	}
}

func sameLog(l *vmcommon.LogEntry, r logRec) bool {
	if !bytes.Equal(l.Data, r.data) {
		return false
	}
	if len(r.topics) == 0 {
		return len(l.Topics) == 0
	}
	if !bytes.Equal(l.Identifier, r.topics[0]) || len(l.Topics) != len(r.topics)-1 {
		return false
	}
	for i, t := range l.Topics {
		if !bytes.Equal(t, r.topics[i+1]) {
			return false
		}
	}
	return true
}

func setup(string) {
	// memory asked for by a contract must stay small
	lim := syscall.Rlimit{Cur: 4 << 30, Max: 4 << 30}
	syscall.Setrlimit(2, &lim) // RLIMIT_DATA
	newVM(newWorld(rand.New(rand.NewSource(1))).ch)
	for _, s := range mw.Imports() {
		if d, ok := descs[s.Name]; ok && fits(d, s) {
			sigs = append(sigs, s)
			for _, b := range d.sig {
				if b == 'p' || b == 'w' || b == 'r' {
					memSigs = append(memSigs, s)
					break
				}
			}
		}
	}
}

func fits(d desc, s mw.Sig) bool {
	n := 0
	for _, b := range d.sig {
		if b == ' ' {
			n++
		}
	}
	if d.sig != "" {
		n++
	}
	return n == len(s.Params)
}

func main() {
	logger.SetLogLevel("*:NONE")
	if child() {
		return
	}
	run.Main([]*run.Prop{
		{ID: "P10", Init: setup, Quick: 6000, Thorough: 300000,
			Rule:        "case i builds a world and plays 3 transactions of up to 8 random host calls with valid and hostile addresses, lengths, counts and tables of lengths; every transaction runs twice with different bytes outside the described ranges; monitors: all changes of the guest memory against the expected results, the data which arrives (hashes, storage, logs, transfers, returned data, arguments of called contracts) against the described ranges, equality of both runs, survival under a memory limit; distinct = (host function, refused, range that does not fit, reached another contract)",
			Need:        map[string]int64{"host calls": 30000, "ranges that do not fit": 3000, "results checked": 1500, "callee arguments checked": 300, "outputs checked": 2000},
			Assumptions: []string{"the monitoring engine stands in for the prebuilt WASM engine library; guest memories lie between inaccessible pages", "the blockchain hook is the harness's in-memory chain"},
			Case:        memory},
		{ID: "P11", Init: setup11, Quick: 1000, Thorough: 60000,
			Rule:        "case i plays 10 hostile transactions (junk code, failing or panicking hooks, hostile host calls and arguments, hostile WASM bodies, endless nesting) on one VM; monitors: a result without error, the number of engine instances and memories alive, the time, and after every one the result of a random transaction against a new VM; distinct = (kind, succeeded, frames, hook panicked)",
			Need:        map[string]int64{"probes": 5000, "successful probes": 1000, "hook panics": 100, "hook panics in nested calls": 50, "nested as deep as allowed": 50, "hostile host calls": 500, "hostile: hostile code": 200, "hostile: junk deployment": 500},
			Assumptions: []string{"the monitoring engine stands in for the prebuilt WASM engine library", "the blockchain hook is the harness's in-memory chain"},
			Case:        survival},
		{ID: "P12", Quick: 5000, Thorough: 200000,
			Rule:        "case i plays a history of 4 random transactions, each one on the VM with the history, on a new VM with and without compiled code, after another transaction, again, and every 16th history in another process; oracle: equality of all results (output, error and chain state); distinct = (call tree, function, succeeded)",
			Need:        map[string]int64{"repetitions": 10000, "other processes": 50, "successful transactions": 1000, "failed transactions": 1000, "frames": 5000},
			Assumptions: []string{"the monitoring engine stands in for the prebuilt WASM engine library", "the blockchain hook is the harness's in-memory chain"},
			Case:        determinism},
		{ID: "P13", Init: setup11, Quick: 30000, Thorough: 2000000,
			Rule:        "case i offers 4 pieces of code (valid or with one of 13 defects) to one VM by deployment, upgrade, and from contracts by createContract, deployFromSourceContract, upgradeContract, upgradeFromSourceContract and a nested upgrade, then calls the deployed contract by exported, similar, missing and reserved names; oracle: accepted, and init run once with its arguments, exactly when the code is valid, refused as invalid without running anything otherwise; a call runs exactly the exported function; distinct = (route, defect, has init) and (kind of entry, expected result, exported)",
			Need:        map[string]int64{"offers of valid code": 20000, "offers of invalid code": 20000, "functions entered": 20000, "functions refused": 20000},
			Assumptions: []string{"the monitoring engine stands in for the prebuilt WASM engine library", "the blockchain hook is the harness's in-memory chain"},
			Case:        admission},
	})
}

func setup11(t string) {
	setup(t)
	all = mw.Imports()
}

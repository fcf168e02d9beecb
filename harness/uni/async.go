package uni

import (
	"bytes"
	"encoding/hex"
	"math/big"
	"strings"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/parsers"
)

const upgradeName = "upgradeContract"

// done is called when the outcome of a frame is known: after its function has
// ended and, if that made an asynchronous call, after the callback.
func (fr *Fr) done() {
	if t := fr.then; t != nil {
		fr.then = nil
		t()
	}
}

func (fr *Fr) failWith(cause string, err error) {
	fr.failed, fr.cause, fr.msg = true, cause, err.Error()
	fr.code = codeOfErr(err)
}

func codeOfErr(err error) vmcommon.ReturnCode {
	switch err {
	case arwen.ErrFuncNotFound:
		return vmcommon.FunctionNotFound
	case arwen.ErrInvalidFunction, arwen.ErrInitFuncCalledInRun:
		return vmcommon.UserError
	case arwen.ErrNotEnoughGas:
		return vmcommon.OutOfGas
	case arwen.ErrContractNotFound:
		return vmcommon.ContractNotFound
	case arwen.ErrContractInvalid:
		return vmcommon.ContractInvalid
	case arwen.ErrInvalidUpgradeArguments:
		return vmcommon.UpgradeFailed
	case arwen.ErrTransferInsufficientFunds:
		return vmcommon.OutOfFunds
	}
	return vmcommon.ExecutionFailed
}

// outcome is what the failure of a nested call is reported as.
func (fr *Fr) outcome() (vmcommon.ReturnCode, string) {
	if fr.code != vmcommon.Ok {
		return fr.code, fr.msg
	}
	err := arwen.ErrExecutionFailed
	switch fr.cause {
	case "signal":
		return vmcommon.UserError, fr.msg
	case "oog", "initial gas":
		err = arwen.ErrNotEnoughGas
	case "function not found":
		err = arwen.ErrFuncNotFound
	case "funds":
		err = arwen.ErrTransferInsufficientFunds
	case "init":
		err = arwen.ErrInitFuncCalledInRun
	case "upgrade arguments":
		err = arwen.ErrInvalidUpgradeArguments
	case "upgrade refused":
		err = arwen.ErrUpgradeNotAllowed
	case "invalid code":
		err = arwen.ErrContractInvalid
	case "no code":
		a, e := fr.u.Ch.GetUserAccount(fr.self)
		switch {
		case fr.there:
			err = arwen.ErrContractNotFound
		case e != nil:
			err = e
		case a == nil:
			err = arwen.ErrInvalidAccount
		default:
			err = arwen.ErrContractNotFound
		}
	case "upgrade: no account":
		a, e := fr.u.Ch.GetUserAccount(fr.self)
		switch {
		case e != nil:
			err = e
		case a == nil:
			err = arwen.ErrNilContract
		}
	}
	m := err.Error()
	if fr.msg != "" {
		m = fr.msg
	}
	return codeOfErr(err), m
}

// parseCall splits the text of a call.
func parseCall(data []byte) (string, [][]byte, error) {
	p := strings.Split(string(data), "@")
	if p[0] == "" {
		return "", nil, badCall(data)
	}
	var args [][]byte
	for _, x := range p[1:] {
		b, err := hex.DecodeString(x)
		if err != nil {
			return "", nil, badCall(data)
		}
		args = append(args, b)
	}
	return p[0], args, nil
}

func badCall(data []byte) error {
	_, _, err := parsers.NewCallArgsParser().ParseData(string(data))
	if err == nil {
		panic("harness: call text was expected to be bad: " + string(data))
	}
	return err
}

// upgrade models the work before the initialisation of the new code of an
// existing contract, requested by another contract.
func (child *Fr) upgrade() bool {
	u := child.u
	if child.ro {
		child.cause = "upgrade in read-only mode"
		return false
	}
	a := acct(u.base, child.self)
	if a == nil || u.shard(child.self) != 0 {
		child.cause = "upgrade: no account"
		return false
	}
	meta := a.Meta
	if d := u.M.Code[string(child.self)]; d != nil {
		meta = d.Meta
	}
	if len(meta) != 2 || meta[0]&1 == 0 || !bytes.Equal(a.Owner, child.caller) {
		child.cause = "upgrade refused"
		u.Stats["refused upgrades"]++
		return false
	}
	if len(child.args) < 2 {
		child.cause = "upgrade arguments"
		return false
	}
	code := child.args[0]
	child.deploy = &Deployed{code, child.args[1], child.caller}
	child.args = child.args[2:]
	child.initial = satAdd(u.G.api("CreateContract"), u.G.base("CompilePerByte")*uint64(len(code)))
	child.codeLen = len(code)
	if child.initial > child.provided {
		child.cause = "initial gas"
		return false
	}
	child.limit = child.provided - child.initial
	child.room = child.limit
	k := u.codes[string(code)]
	if k == nil {
		child.cause = "invalid code"
		return false
	}
	child.codeID, child.fn, child.shown = k.ID, "init", upgradeName
	child.hasCB = has(k.Exports, "callBack")
	child.nothing = !has(k.Exports, "init")
	return true
}

// lockedGas is what an asynchronous call reserves for the callback.
func (fr *Fr) lockedGas() uint64 {
	u := fr.u
	if u.DynLock && !fr.hasCB {
		return 0
	}
	l := satAdd(u.G.api("AsyncCallStep"), u.G.api("AsyncCallbackGasLock"))
	if u.DynLock {
		per := u.G.base("CompilePerByte")
		if u.AOT {
			per = u.G.base("AoTPreparePerByte")
		}
		l = satAdd(l, per*uint64(fr.codeLen))
	}
	return l
}

// async performs a host call which requests an asynchronous call.
func (fr *Fr) async(name string, cost uint64, dest []byte, value *big.Int, data []byte, args ...int64) {
	u := fr.u
	u.lastOp = name
	fn, cargs, perr := parseCall(data)
	fr.addUsed(cost)
	if fr.ro {
		u.Stats["refused read-only transfers"]++
		fr.fault(name, "read-only", args...)
	}
	oog := func() {
		if u.calm {
			panic(skipOp{})
		}
		u.C.Tracef("%*s%s must run out of gas", fr.depth*2, "", name)
		if _, tr := fr.f.Try(name, args...); !tr {
			fr.diverge("accepted:"+name+":gas", "%s was accepted with %d gas left", name, fr.left())
		}
		fr.end("oog", 0)
	}
	step := u.G.api("AsyncCallStep")
	if fr.left() <= step {
		oog()
	}
	fr.addUsed(step)
	lock := fr.lockedGas()
	if fr.hasCB || !u.DynLock {
		if fr.left() <= lock {
			oog()
		}
		fr.addUsed(lock)
	}
	here := u.shard(dest) == u.shard(fr.self)
	sync := here && len(u.codeOf(dest)) > 0
	var bad error
	token := perr == nil && u.isBuiltin(fn)
	// a transfer to another shard is answered by that shard
	local := here
	if token && fn == "ESDTNFTTransfer" && len(cargs) >= 4 && bytes.Equal(dest, fr.self) {
		local = u.shard(cargs[3]) == u.shard(fr.self)
	}
	back := token && local && tokenReturn(fn, cargs) && fr.ct == vmcommon.AsynchronousCall && bytes.Equal(fr.caller, dest)
	switch {
	case perr != nil:
		bad = perr
	case sync, token:
	case u.balance(fr.self).Cmp(value) < 0:
		bad = arwen.ErrTransferInsufficientFunds
	case fr.left() > 0 && value.Sign() > 0 && !u.payable(dest) && fr.ct != vmcommon.AsynchronousCall:
		bad = arwen.ErrAccountNotPayable
	}
	if u.calm && bad != nil {
		panic(skipOp{})
	}
	u.C.Tracef("%*s%s %s %s value=%v gas=%d locked=%d sync=%v %v", fr.depth*2, "", name, u.Addr(dest), clip(data), value, fr.left(), lock, sync, bad)
	_, tr := fr.f.Try(name, args...)
	if u.dead {
		fr.stop()
	}
	if !tr {
		fr.diverge("continues:"+name, "%s did not end the execution of the caller", name)
	}
	fr.checkUsed(name)
	u.Stats["asynchronous calls"]++
	u.asyncRan = true
	fr.ended = true
	switch {
	case bad != nil:
		fr.failWith("asynchronous call", bad)
		if m := u.VM.(arwen.VMHost).Output().ReturnMessage(); m != "" && perr != nil {
			fr.msg = m // an earlier message stays
		}
		u.Stats["asynchronous calls refused"]++
	case back:
		// tokens for the caller travel with the answer
		u.M.Ret = append([][]byte{data}, u.M.Ret...)
		fr.used -= lock
		u.Stats["tokens sent back by the answer"]++
	case token:
		fr.await = true
		s := &spec{op: "async", dest: dest, caller: fr.self, value: value, fn: fn, args: cargs, gas: fr.left(), ct: vmcommon.AsynchronousCall}
		u.seen = len(u.Ch.Events)
		b := fr.newBI(name, s, lock)
		earlier := u.VM.(arwen.VMHost).Output().ReturnMessage()
		u.pendFn = func() *Fr {
			b.eval()
			if local && b.run && !b.child.nothing {
				b.child.then = func() { fr.tokenBack(b, dest, lock) }
				return b.child
			}
			if u.dead {
				return nil
			}
			if local {
				fr.tokenBack(b, dest, lock)
				return nil
			}
			if !b.end() {
				fr.failWith("asynchronous call", b.err)
				if earlier != "" {
					fr.msg = earlier // an earlier message stays
				}
			}
			u.Stats["tokens sent to other shards by asynchronous calls"]++
			fr.await = false
			fr.done()
			return nil
		}
	case !sync:
		u.move(fr.self, dest, value)
		fr.addTransfer(Transfer{To: dest, From: fr.self, Value: value, Gas: fr.left(), Lock: lock, Data: data, Type: vmcommon.AsynchronousCall})
		fr.fwd += fr.left() + lock
		fr.used = fr.room
		u.Stats["asynchronous calls sent"]++
	default:
		fr.await = true
		fr.asyncHere(dest, value, fn, cargs, lock)
	}
	fr.stop()
}

func clip(b []byte) []byte {
	if len(b) > 120 {
		return b[:120]
	}
	return b
}

// asyncHere models an asynchronous call within the shard.
func (fr *Fr) asyncHere(dest []byte, value *big.Int, fn string, args [][]byte, lock uint64) {
	u := fr.u
	s := &spec{op: "async", dest: dest, caller: fr.self, value: value, fn: fn, args: args, gas: fr.left(), ct: vmcommon.AsynchronousCall}
	saved := u.M
	u.M = saved.clone()
	u.M.Ret, u.M.Logs, u.M.Refund = nil, nil, 0
	child, runs := fr.prep(s)
	back := func() {
		good := runs && !child.failed
		var ret [][]byte
		rest := uint64(0)
		cv := new(big.Int)
		cargs := [][]byte{nil}
		if good {
			ret = u.M.Ret
			rest = child.room - child.used
			cargs = append(cargs, ret...)
			if tr := u.M.Tr[string(fr.self)]; len(ret) == 0 && len(tr) > len(saved.Tr[string(fr.self)]) {
				if l := tr[len(tr)-1]; len(l.Data) == 0 {
					cv.Set(l.Value)
					u.Stats["values sent back"]++
				}
			}
			fr.merge(child, saved, false)
			u.Stats["asynchronous calls done"]++
			u.note("async", "ok", child)
		} else {
			code, msg := child.outcome()
			cargs = [][]byte{big.NewInt(int64(code)).Bytes(), []byte(msg)}
			u.M = saved
			u.nestFail++
			u.Stats["asynchronous calls failed"]++
			u.note("async", "failed "+child.cause, child)
		}
		u.nestOps++
		fr.callBack(dest, cv, cargs, satAdd(rest, lock), lock)
	}
	if runs && !child.nothing {
		child.then = back
		u.pend = child
		return
	}
	back()
}

// tokenBack models what follows a token transfer within the shard which was
// requested as an asynchronous call.
func (fr *Fr) tokenBack(b *bi, dest []byte, lock uint64) {
	u := fr.u
	cargs := [][]byte{nil}
	cv := new(big.Int)
	var ret [][]byte
	rest := uint64(0)
	if b.run && !b.child.failed {
		ret = u.M.Ret
		rest = b.child.room - b.child.used
		if tr := u.M.Tr[string(fr.self)]; len(ret) == 0 && len(tr) > len(b.pre.Tr[string(fr.self)]) {
			if l := tr[len(tr)-1]; len(l.Data) == 0 {
				cv.Set(l.Value)
			}
		}
	}
	if b.end() {
		if !b.follow {
			ret, rest = b.out.ReturnData, b.out.GasRemaining
		}
		cargs = append(cargs, ret...)
		u.Stats["asynchronous token transfers done"]++
	} else {
		code, msg := b.outcome()
		cargs = [][]byte{big.NewInt(int64(code)).Bytes(), []byte(msg)}
		u.Stats["asynchronous token transfers failed"]++
	}
	u.nestOps++
	fr.callBack(dest, cv, cargs, satAdd(rest, lock), lock)
}

// merge adopts the state of a nested call which ended well.
func (fr *Fr) merge(child *Fr, saved *State, same bool) {
	if child.nothing {
		child.gas = map[string]uint64{}
	}
	child.account()
	c := fr.u.M
	if !same {
		c.Ret = append(append([][]byte{}, saved.Ret...), c.Ret...)
		c.Logs = append(append([]LogEntry{}, saved.Logs...), c.Logs...)
		c.Refund += saved.Refund
	}
	fr.adopt(child)
}

// callBack models the callback after a call within the shard.
func (fr *Fr) callBack(from []byte, value *big.Int, args [][]byte, gas, lock uint64) {
	u := fr.u
	n := len("callBack") + len(args)
	for _, a := range args {
		n += len(a)
	}
	cost := satAdd(u.G.api("AsyncCallStep"), u.G.copyB(n))
	lost := func(code vmcommon.ReturnCode) {
		u.M.Ret = append(u.M.Ret, []byte(code.String()), u.curTx)
		u.Stats["callbacks failed"]++
		fr.await = false
		fr.done()
	}
	if gas <= cost {
		u.C.Tracef("%*sno gas for the callback: %d of %d", fr.depth*2, "", gas, cost)
		lost(vmcommon.OutOfGas)
		return
	}
	fr.used -= lock
	if len(args) > 1 && len(args[0]) == 0 {
		if fn, targs, err := parseCall(args[1]); err == nil && tokenReturn(fn, targs) {
			full := append(append(append([][]byte{}, targs...), []byte("callBack"), args[0]), args[2:]...)
			fr.tokenCallBack(&spec{op: "callback", dest: fr.self, caller: from, value: value, fn: fn, args: full, gas: gas - cost, ct: vmcommon.AsynchronousCallBack}, lost)
			return
		}
	}
	saved := u.M
	u.M = saved.clone()
	u.M.Ret, u.M.Logs, u.M.Refund = nil, nil, 0
	s := &spec{op: "callback", dest: fr.self, caller: from, value: value, fn: "callBack", args: args, gas: gas - cost, ct: vmcommon.AsynchronousCallBack}
	child, runs := fr.prep(s)
	end := func() {
		if runs && !child.failed {
			fr.merge(child, saved, false)
			u.Stats["callbacks done"]++
			if child.nothing {
				u.Stats["callbacks missing"]++
			}
			fr.await = false
			fr.done()
			return
		}
		u.M = saved
		u.nestFail++
		code, _ := child.outcome()
		lost(code)
	}
	u.nestOps++
	if runs && !child.nothing {
		child.then = end
		u.pend = child
		return
	}
	end()
}

// tokenCallBack models a callback which brings tokens.
func (fr *Fr) tokenCallBack(s *spec, lost func(code vmcommon.ReturnCode)) {
	u := fr.u
	b := fr.newBI("callback", s, 0)
	u.nestOps++
	end := func() {
		if b.end() {
			u.Stats["callbacks with tokens done"]++
			fr.await = false
			fr.done()
			return
		}
		u.Stats["callbacks with tokens failed"]++
		code, _ := b.outcome()
		lost(code)
	}
	u.pendFn = func() *Fr {
		b.eval()
		if u.dead {
			return nil
		}
		if b.run && !b.child.nothing {
			b.child.then = end
			return b.child
		}
		end()
		return nil
	}
}

// answer models what ends an asynchronous call from another shard.
func (fr *Fr) answer() bool {
	u := fr.u
	u.Stats["answers"]++
	data := []byte("@" + hex.EncodeToString([]byte(vmcommon.Ok.String())))
	for _, r := range u.M.Ret {
		data = append(data, []byte("@"+hex.EncodeToString(r))...)
	}
	if !u.move(fr.self, fr.caller, fr.value) {
		fr.failWith("answer", arwen.ErrTransferInsufficientFunds)
		return false
	}
	fr.addTransfer(Transfer{To: fr.caller, From: fr.self, Value: fr.value, Gas: fr.left(), Data: data, Type: vmcommon.AsynchronousCallBack})
	fr.fwd += fr.left()
	fr.used = fr.room
	return true
}

// sendBack is a called contract which returns value and nothing else.
func (u *U) sendBack(fr *Fr) {
	if u.R.Intn(2) == 0 {
		fr.step(pickOp(u, "storage"))
	}
	opTags = []string{"P03", "P15"}
	for i := u.R.Intn(3); i >= 0; i-- {
		to := fr.caller
		if u.R.Intn(4) == 0 {
			to = u.account()
		}
		v := big.NewInt(1 + int64(u.R.Intn(20)))
		if fr.ro || v.Cmp(u.balance(fr.self)) > 0 {
			continue
		}
		var data []byte
		if u.R.Intn(5) == 0 {
			data = u.rbytes(9)
		}
		m := fr.f.Mark()
		u.move(fr.self, to, v)
		fr.addTransfer(Transfer{To: to, From: fr.self, Value: v, Data: data})
		fr.calli("transferValue", u.G.api("TransferValue")+u.G.persB(len(data)), 0, fr.put(to), fr.put(val32(v)), fr.put(data), int64(len(data)))
		fr.f.Release(m)
	}
	opTags = nil
}

// newCodeFor draws code to deploy.
func (u *U) newCodeFor() []byte {
	if !u.calm && u.R.Intn(12) == 0 {
		return u.junk[u.R.Intn(len(u.junk))]
	}
	if u.R.Intn(4) == 0 {
		return u.CS[u.R.Intn(len(u.CS))].Code
	}
	k := u.pool[u.R.Intn(len(u.pool))]
	if u.R.Intn(5) > 0 && !has(k.Exports, "init") {
		k = u.pool[0]
	}
	return k.Code
}

func (u *U) newMeta() []byte {
	if u.R.Intn(2) == 0 {
		return []byte{5, 2}
	}
	return []byte{byte(u.R.Intn(2)) | byte(u.R.Intn(2))*4, byte(u.R.Intn(2) * 2)}
}

// upgradable draws a contract, mostly one which the frame may upgrade.
func (u *U) upgradable(owner []byte) []byte {
	for i := 0; i < 6; i++ {
		a := u.CS[u.R.Intn(len(u.CS))].Addr
		if x := acct(u.base, a); x != nil && bytes.Equal(x.Owner, owner) && (len(x.Meta) > 0 && x.Meta[0]&1 > 0 || i > 3) {
			return a
		}
	}
	return u.account()
}

func init() {
	tg := []string{"P15", "P01", "P02", "P06"}
	reg("async", "asyncCall", 10, tg, func(fr *Fr) {
		u := fr.u
		if fr.deepEnough() {
			return
		}
		dest, fn := u.target(fr)
		switch u.R.Intn(8) {
		case 0, 1:
			dest = u.Remote[u.R.Intn(len(u.Remote))]
		case 2:
			dest = u.account()
		}
		v := u.amount(u.balance(fr.self))
		data := callData(fn, u.args(3))
		if fn == "" || !u.calm && u.R.Intn(20) == 0 {
			data = [][]byte{nil, []byte("@aa"), []byte("f1@zz"), []byte("f1@abc"), []byte("@"), []byte("f1@aa@b")}[u.R.Intn(6)]
		}
		if u.isBuiltin(fn) {
			return
		}
		if u.R.Intn(4) == 0 {
			to := dest
			if fr.ct == vmcommon.AsynchronousCall && u.R.Intn(2) == 0 {
				to = fr.caller
			}
			if bytes.Equal(to, fr.self) {
				return
			}
			var args [][]byte
			dest, fn, args = u.tokenCall(fr, to)
			if bytes.Equal(to, fr.caller) && u.R.Intn(2) == 0 {
				dest = to
				if n := map[string]int{"ESDTTransfer": 2, "ESDTNFTTransfer": 4}[fn]; len(args) > n {
					args = args[:n]
				}
			}
			if u.calm && !u.goodTokenCall(fr, dest, fn, args) {
				return
			}
			if u.R.Intn(30) > 0 || u.calm {
				v = new(big.Int)
			}
			data = callData(fn, args)
		}
		do, vo, po := fr.put(dest), fr.put(val32(v)), fr.put(data)
		fr.async("asyncCall", satAdd(u.G.api("AsyncCallStep"), u.G.copyB(len(data))), dest, v, data, do, vo, po, int64(len(data)))
	})
	up := func(name string, source bool) func(fr *Fr) {
		return func(fr *Fr) {
			u := fr.u
			if fr.deepEnough() {
				return
			}
			dest := u.upgradable(fr.self)
			if u.R.Intn(10) == 0 {
				dest = u.Remote[u.R.Intn(len(u.Remote))]
			}
			code, meta, args := u.newCodeFor(), u.newMeta(), u.args(3)
			v := u.amount(u.balance(fr.self))
			n, l, d := fr.f.PutArgs(args)
			do, vo, mo := fr.put(dest), fr.put(val32(v)), fr.put(meta)
			cost := satAdd(u.G.api("CreateContract"), u.G.copyB(total(args)))
			gl := u.gasArg(fr.left())
			var a []int64
			if source {
				src := u.CS[u.R.Intn(len(u.CS))].Addr
				if !u.calm && u.R.Intn(20) == 0 {
					src = u.account()
				}
				a = []int64{do, int64(gl), vo, fr.put(src), mo, n, l, d}
				code = u.codeOf(src)
				if len(code) == 0 {
					fr.addUsed(cost)
					fr.fault(name, "no source", a...)
				}
			} else {
				cost = satAdd(cost, u.G.copyB(len(code)))
				a = []int64{do, int64(gl), vo, fr.put(code), mo, int64(len(code)), n, l, d}
			}
			min := satAdd(2*u.G.api("AsyncCallStep"), u.G.api("AsyncCallbackGasLock"))
			if gl < min {
				if u.calm {
					panic(skipOp{})
				}
				fr.addUsed(cost)
				if _, tr := fr.f.Try(name, a...); !tr {
					fr.diverge("accepted:"+name+":gas", "%s with a gas limit of %d was accepted, %d are needed", name, gl, min)
				}
				fr.end("oog", 0)
			}
			u.Stats["upgrade requests"]++
			fr.async(name, cost, dest, v, callData(upgradeName, append([][]byte{code, meta}, args...)), a...)
		}
	}
	tu := []string{"P14", "P15", "P02"}
	reg("upgrade", "upgradeContract", 4, tu, up("upgradeContract", false))
	reg("upgrade", "upgradeFromSourceContract", 3, tu, up("upgradeFromSourceContract", true))
	reg("upgrade", "upgrade by executeOnDestContext", 3, tu, func(fr *Fr) {
		u := fr.u
		if fr.deepEnough() {
			return
		}
		dest := u.upgradable(fr.self)
		if u.shard(dest) != u.shard(fr.self) {
			return
		}
		args := append([][]byte{u.newCodeFor(), u.newMeta()}, u.args(2)...)
		if !u.calm && u.R.Intn(12) == 0 {
			args = args[:u.R.Intn(2)]
		}
		n, l, d := fr.f.PutArgs(args)
		v := u.amount(u.balance(fr.self))
		gl := u.gasArg(fr.left())
		u.Stats["upgrade requests"]++
		name, price := "executeOnDestContext", u.G.api("ExecuteOnDestContext")
		if u.R.Intn(3) == 0 {
			name, price = "transferValueExecute", 2*u.G.api("TransferValue")
			if !u.isSC(dest) {
				return
			}
		}
		s := &spec{op: name, dest: dest, caller: fr.self, value: v, fn: upgradeName, args: args}
		do, vo, fo := fr.put(dest), fr.put(val32(v)), fr.put([]byte(upgradeName))
		a := []int64{int64(gl), do, vo, fo, int64(len(upgradeName)), n, l, d}
		if name != "executeOnDestContext" {
			a = []int64{do, vo, int64(gl), fo, int64(len(upgradeName)), n, l, d}
		}
		fr.nest(name, price+u.G.copyB(total(args)), name == "executeOnDestContext", func(left uint64) *spec { s.gas = min64(gl, left); return s }, a...)
	})
	create := func(name string, source bool) func(fr *Fr) {
		return func(fr *Fr) {
			u := fr.u
			if fr.deepEnough() {
				return
			}
			code, meta, args := u.newCodeFor(), u.newMeta(), u.args(3)
			v := u.amount(u.balance(fr.self))
			n, l, d := fr.f.PutArgs(args)
			vo, mo := fr.put(val32(v)), fr.put(meta)
			cost := satAdd(u.G.api("CreateContract"), u.G.copyB(total(args)))
			gl := u.gasArg(fr.left())
			res := fr.out(32)
			var a []int64
			if source {
				src := u.CS[u.R.Intn(len(u.CS))].Addr
				switch {
				case u.lastNew != nil && u.R.Intn(3) == 0:
					src = u.lastNew
				case !u.calm && u.R.Intn(20) == 0:
					src = u.account()
				}
				a = []int64{int64(gl), vo, fr.put(src), mo, res, n, l, d}
				code = u.codeOf(src)
				if len(code) == 0 {
					fr.addUsed(cost)
					fr.fault(name, "no source", a...)
				}
			} else {
				a = []int64{int64(gl), vo, fr.put(code), mo, int64(len(code)), res, n, l, d}
			}
			nonce := u.nonceOf(fr.self)
			at := u.newAddress(fr.self, nonce)
			s := &spec{op: name, dest: at, caller: fr.self, value: v, fn: "init", init: true, args: args, create: &Deployed{code, meta, fr.self}}
			s.check = func() {
				fr.got(name, res, 32, at)
				copy(fr.f.Mem()[res:], bytes.Repeat([]byte{canary}, 32))
			}
			ro, exists := fr.ro, u.onChain(at)
			good := fr.nest(name, cost, false, func(left uint64) *spec {
				s.gas = min64(gl, left)
				price := u.G.base("CompilePerByte") * uint64(len(code))
				switch {
				case price > fr.provided:
					s.fail = "no gas for the new code"
					return s
				case ro:
					s.fail = "creation in read-only mode"
				case nonce == 0 && !u.onChain(fr.self):
					s.fail = "the creator is not on the chain yet"
				case exists:
					s.fail = "the address is taken"
				}
				// known finding (P02): the price of the new code replaces the
				// price of preparing the code of the creator
				fr.initial, fr.room = price, fr.provided-price
				return s
			}, a...)
			if !good {
				u.Stats["creations failed"]++
				return
			}
			u.lastNew = at
			u.created = append(u.created, at)
			u.Stats["contracts created by contracts"]++
		}
	}
	tc := []string{"P14", "P13", "P02"}
	reg("create", "createContract", 5, tc, create("createContract", false))
	reg("create", "deployFromSourceContract", 4, tc, create("deployFromSourceContract", true))
}

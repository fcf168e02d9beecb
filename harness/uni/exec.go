package uni

import (
	"bytes"
	"encoding/hex"
	"hash/fnv"
	"math/big"

	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

func memHash(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// spec describes a nested call.
type spec struct {
	op     string
	same   bool
	dest   []byte
	caller []byte
	value  *big.Int
	fn     string
	args   [][]byte
	gas    uint64 // already bounded
	tok    *Tok
	ro     bool
	init   bool      // initialisation of newly deployed code
	create *Deployed // newly deployed code
	fail   string    // the call fails for this reason before anything happens
	check  func()    // looks at the result and removes it from the memory
	ct     vmcommon.CallType
	play   func(fr *Fr)
}

func (u *U) isBuiltin(fn string) bool {
	if u.Ch.BI == nil {
		return false
	}
	f, err := u.Ch.BI.Get(fn)
	return err == nil && f.IsActive()
}

func min64(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}

// prep models the VM's work before code of a nested call runs: the value moves,
// gas is taken from the caller, code is found. It returns the child frame, or
// ok=false if the call fails without running anything.
// u.M is already the child's state.
func (fr *Fr) prep(s *spec) (child *Fr, ok bool) {
	u := fr.u
	child = &Fr{u: u, parent: fr, depth: fr.depth + 1, same: s.same, self: s.dest, store: s.dest, caller: s.caller, fn: s.fn, args: s.args,
		value: s.value, tok: s.tok, orig: fr.orig, ro: fr.ro || s.ro, provided: s.gas, ct: s.ct, gas: map[string]uint64{}, big: map[int32]*big.Int{}, play: s.play, op: s.op}
	if s.same {
		child.store = fr.store
		for k, v := range fr.big {
			child.big[k] = v
		}
	}
	if s.fail != "" {
		child.cause = s.fail
		return child, false
	}
	if s.create != nil {
		u.M.Code[string(s.dest)] = s.create
		u.M.Nonce[string(s.caller)] = u.nonceOf(s.caller) + 1
	}
	if child.ro && s.value.Sign() > 0 {
		child.cause = "value in read-only mode"
		return child, false
	}
	// a callback carries a value which has been moved already
	if s.ct != vmcommon.AsynchronousCallBack && !u.move(s.caller, s.dest, s.value) {
		child.cause = "funds"
		return child, false
	}
	if (s.fn == "init" || s.fn == "solidity.ctor") && !s.init {
		child.cause = "init"
		return child, false
	}
	fr.addUsed(s.gas)
	child.charged = true
	if s.fn == upgradeName {
		return child, child.upgrade()
	}
	code := u.codeOf(s.dest)
	if len(code) == 0 {
		child.cause = "no code"
		child.there = u.onChain(child.self)
		return child, false
	}
	return child, child.load(code)
}

// load models fetching and preparing the code of a frame.
func (child *Fr) load(code []byte) bool {
	u := child.u
	child.initial = u.initialCost(len(code))
	child.codeLen = len(code)
	if child.initial > child.provided {
		child.cause = "initial gas"
		return false
	}
	child.limit = child.provided - child.initial
	child.room = child.limit
	k := u.codes[string(code)]
	if k == nil {
		child.cause = "unknown code"
		return false
	}
	child.codeID = k.ID
	child.hasCB = has(k.Exports, "callBack")
	if !has(k.Exports, child.fn) {
		if child.fn == "callBack" || child.depth == 0 && child.ct == vmcommon.AsynchronousCallBack {
			child.nothing = true
			return true
		}
		child.cause = "function not found"
		return false
	}
	return true
}

// finish adds up the gas of a frame which ended well.
func (child *Fr) account() {
	if child.deploy != nil {
		child.u.M.Code[string(child.self)] = child.deploy
		child.u.Stats["upgrades by contracts"]++
	}
	own := satAdd(child.initial, child.used)
	own -= child.childGas
	own -= child.fwd
	child.gas[string(child.self)] += own
}

func (fr *Fr) adopt(child *Fr) {
	total := child.initial + child.used
	fr.used -= child.room - child.used
	fr.childGas += total
	for a, g := range child.gas {
		fr.gas[a] += g
	}
	if child.same {
		fr.big = child.big
	}
	fr.u.Stats["nested successes"]++
}

// nest performs an operation which calls another contract.
// sync: a failure is fatal for the caller, otherwise it gets result 1.
func (fr *Fr) nest(name string, cost uint64, sync bool, mk func(left uint64) *spec, args ...int64) bool {
	u := fr.u
	u.lastOp = name
	used0, initial0, room0 := fr.used, fr.initial, fr.room
	fr.addUsed(cost)
	s := mk(fr.left())
	saved := u.M
	u.M = saved.clone()
	if !s.same {
		u.M.Ret, u.M.Logs, u.M.Refund = nil, nil, 0
	}
	child, run := fr.prep(s)
	if u.calm && sync && !run {
		fr.used, fr.initial, fr.room, u.M = used0, initial0, room0, saved
		panic(skipOp{})
	}
	if run && !child.nothing {
		u.pend = child
	}
	u.C.Tracef("%*s%s -> %s.%s gas=%d value=%v same=%v runs=%v (%s) used=%d/%d", fr.depth*2, "", name, u.Addr(s.dest), s.fn, s.gas, s.value, s.same, run, child.cause, fr.used, fr.limit)
	tags := opTags
	before := memHash(fr.f.Mem())
	r, tr := fr.f.Try(name, args...)
	opTags = tags
	u.lastOp = name
	if u.dead {
		fr.stop()
	}
	fr.flush(name)
	good := run && !child.failed
	if s.check != nil && good && !tr && r == 0 {
		s.check()
	}
	fr.checkMem(name, before)
	u.nestOps++
	u.sameRan = u.sameRan || s.same
	u.sawRO = u.sawRO || s.ro
	if good {
		if child.nothing {
			child.gas = map[string]uint64{}
		}
		child.account()
		c := u.M
		if !s.same {
			c.Ret = append(append([][]byte{}, saved.Ret...), c.Ret...)
			c.Logs = append(append([]LogEntry{}, saved.Logs...), c.Logs...)
			c.Refund += saved.Refund
		}
		fr.adopt(child)
		u.note(name, "ok", child)
	} else {
		u.M = saved
		u.nestFail++
		u.Stats["nested failures"]++
		u.note(name, "failed "+child.cause, child)
	}
	if good || !sync {
		if tr {
			fr.diverge("refused:"+name, "%s -> %s.%s ended the caller (expected success=%v, %s)", name, u.Addr(s.dest), s.fn, good, child.cause)
		}
		want := int64(0)
		if !good {
			want = 1
		}
		if r != want {
			fr.diverge("result:"+name, "%s -> %s.%s returned %d, expected %d (%s)", name, u.Addr(s.dest), s.fn, r, want, child.cause)
		}
		fr.checkUsed(name)
		return good
	}
	if !tr {
		fr.diverge("accepted:"+name+":"+child.cause, "%s -> %s.%s succeeded, must fail (%s)", name, u.Addr(s.dest), s.fn, child.cause)
	}
	if fr.f.Used() < fr.room {
		fr.diverge("fault gas:"+name, "%s failed but only %d of %d gas is consumed", name, fr.f.Used(), fr.room)
	}
	fr.end("nested "+child.cause, 0)
	return false
}

func (fr *Fr) checkMem(name string, before uint64) {
	if memHash(fr.f.Mem()) != before {
		fr.u.Diverge("caller memory:"+name, tagsOf("P10", "P28", "P06"), "%s changed the memory of the calling contract", name)
		fr.stop()
	}
}

func (u *U) note(op, how string, child *Fr) {
	u.Stats["nested:"+op]++
	if len(u.shape) < 200 {
		u.shape = append(u.shape, op[0], op[len(op)-1], byte(child.depth), byte(len(how)))
	}
}

// gasArg draws the gas argument of a nested call.
func (u *U) gasArg(left uint64) uint64 {
	if u.calm {
		return left / 8 * uint64(1+u.R.Intn(7))
	}
	switch u.R.Intn(12) {
	case 0:
		return left
	case 1:
		return left + 1 + uint64(u.R.Intn(1000))
	case 2:
		return ^uint64(0) - uint64(u.R.Intn(3)) // negative
	case 3:
		return uint64(u.R.Intn(3000))
	case 4:
		return left / 4 * 3
	case 5:
		return left / 8
	case 6:
		return left / 4
	default:
		return left / 2
	}
}

// target draws the callee of a nested call.
func (u *U) target(fr *Fr) ([]byte, string) {
	var d []byte
	switch x := u.R.Intn(40); {
	case x == 0:
		d = u.account()
	case x < 4:
		d = fr.self
	case x < 6 && u.lastNew != nil:
		d = u.lastNew
	default:
		d = u.CS[u.R.Intn(len(u.CS))].Addr
	}
	return d, u.function(d)
}

func (u *U) function(d []byte) string {
	if u.R.Intn(20) == 0 {
		return []string{"", "missing", "init", "callBack", "memory", "f1x"}[u.R.Intn(6)]
	}
	if k := u.codes[string(u.codeOf(d))]; k != nil {
		for i := 0; i < 8; i++ {
			if e := k.Exports[u.R.Intn(len(k.Exports))]; e != "init" && e != "callBack" {
				return e
			}
		}
	}
	return []string{"f1", "f2", "f3"}[u.R.Intn(3)]
}

func total(args [][]byte) int {
	n := 0
	for _, a := range args {
		n += len(a)
	}
	return n
}

func (fr *Fr) deepEnough() bool {
	return fr.depth >= fr.u.MaxDepth || fr.u.opsDone > fr.u.opBudget
}

// syncOp performs one of the synchronous execution functions.
func (fr *Fr) syncOp(name, price string, kind byte) {
	u := fr.u
	if fr.deepEnough() {
		return
	}
	dest, fn := u.target(fr)
	args := u.args(4)
	n, l, d := fr.f.PutArgs(args)
	fo := fr.put([]byte(fn))
	do := fr.put(dest)
	cost := u.G.copyB(total(args)) + u.G.api(price)
	gl := u.gasArg(fr.left())
	s := &spec{op: name, dest: dest, caller: fr.self, value: new(big.Int), fn: fn, args: args}
	var a []int64
	switch kind {
	case 'v', 'c', 's': // value given
		own := u.balance(fr.self)
		if kind == 'c' {
			own = u.balance(fr.caller)
			s.caller = fr.caller
		}
		s.value = u.amount(own)
		s.same = kind == 's'
		a = []int64{int64(gl), do, fr.put(val32(s.value)), fo, int64(len(fn)), n, l, d}
	case 'd', 'r':
		s.same = true
		if kind == 'd' {
			s.value = fr.value
		} else {
			s.ro = true
		}
		a = []int64{int64(gl), do, fo, int64(len(fn)), n, l, d}
	}
	if u.shard(dest) != u.shard(fr.self) {
		fr.addUsed(cost)
		fr.fault(name, "other shard", a...)
	}
	if u.isBuiltin(fn) && name != "executeOnDestContext" {
		fr.calli(name, cost, 1, a...)
		return
	}
	if s.same {
		u.sameRan = true
	}
	if s.ro {
		u.Stats["read-only calls"]++
	}
	fr.nest(name, cost, true, func(left uint64) *spec { s.gas = min64(gl, left); return s }, a...)
}

func (fr *Fr) addTransfer(t Transfer) {
	m := fr.u.M
	m.Tr[string(t.To)] = append(m.Tr[string(t.To)], t)
	fr.u.Stats["transfers"]++
}

func callData(fn string, args [][]byte) []byte {
	s := fn
	for _, a := range args {
		s += "@" + hex.EncodeToString(a)
	}
	return []byte(s)
}

// payable tells whether value with gas may go to an account.
func (u *U) payable(a []byte) bool {
	p, _ := u.Ch.IsPayable(a)
	return p
}

func init() {
	sy := func(name, price string, kind byte, w int, tags ...string) {
		op := func(fr *Fr) { fr.syncOp(name, price, kind) }
		reg("exec", name, w, append(tags, "P06", "P17"), op)
		switch kind { // for histories which emphasise one kind
		case 'r':
			reg("readonly", name, w, append(tags, "P06", "P17"), op)
		case 's', 'd':
			reg("samectx", name, w, append(tags, "P06", "P17"), op)
		}
	}
	sy("executeOnDestContext", "ExecuteOnDestContext", 'v', 10)
	sy("executeOnDestContextByCaller", "ExecuteOnDestContext", 'c', 3, "P18")
	sy("executeOnSameContext", "ExecuteOnSameContext", 's', 5, "P28")
	sy("delegateExecution", "DelegateExecution", 'd', 3, "P28")
	sy("executeReadOnly", "ExecuteReadOnly", 'r', 4, "P09", "P28")

	reg("xfer", "transferValue", 5, t("P03", "P26"), func(fr *Fr) {
		u := fr.u
		dest := u.account()
		v := u.amount(u.balance(fr.self))
		var data []byte
		switch u.R.Intn(5) {
		case 0:
		case 1:
			data = u.rbytes(30)
		case 2:
			data = callData("ESDTTransfer", u.args(2))
		default:
			data = callData("fn", u.args(3))
		}
		cost := u.G.api("TransferValue") + u.G.persB(len(data))
		a := []int64{fr.put(dest), fr.put(val32(v)), fr.put(data), int64(len(data))}
		if bytes.HasPrefix(data, []byte("ESDTTransfer")) {
			fr.calli("transferValue", cost, 1, a...)
			return
		}
		if fr.ro {
			u.Stats["refused read-only transfers"]++
			fr.fault("transferValue", "read-only", a...)
		}
		if v.Cmp(u.balance(fr.self)) > 0 {
			u.Stats["refused overdrafts"]++
			fr.fault("transferValue", "funds", a...)
		}
		u.move(fr.self, dest, v)
		fr.addTransfer(Transfer{To: dest, From: fr.self, Value: v, Data: data})
		fr.calli("transferValue", cost, 0, a...)
	})
	reg("xfer", "transferValueExecute", 5, t("P03", "P26", "P06"), func(fr *Fr) {
		u := fr.u
		dest := u.account()
		fn := u.function(dest)
		args := u.args(3)
		v := u.amount(u.balance(fr.self))
		local := u.shard(dest) == u.shard(fr.self) && u.isSC(dest)
		if local && fr.deepEnough() {
			return
		}
		n, l, d := fr.f.PutArgs(args)
		cost := 2*u.G.api("TransferValue") + u.G.copyB(total(args))
		var gl uint64
		if local {
			gl = u.gasArg(fr.left())
		} else {
			gl = uint64(u.R.Intn(3)) * fr.left() / 8
			if u.R.Intn(8) == 0 {
				gl = u.gasArg(fr.left())
			}
		}
		a := []int64{fr.put(dest), fr.put(val32(v)), int64(gl), fr.put([]byte(fn)), int64(len(fn)), n, l, d}
		if u.isBuiltin(fn) {
			fr.calli("transferValueExecute", cost, 1, a...)
			return
		}
		if local {
			s := &spec{op: "transferValueExecute", dest: dest, caller: fr.self, value: v, fn: fn, args: args}
			fr.nest("transferValueExecute", cost, false, func(left uint64) *spec { s.gas = min64(gl, left); return s }, a...)
			return
		}
		cause := ""
		switch {
		case fr.ro:
			cause = "read-only"
		case v.Cmp(u.balance(fr.self)) > 0:
			cause = "funds"
		case gl > 0 && v.Sign() > 0 && !u.payable(dest) && fr.ct != vmcommon.AsynchronousCall:
			cause = "not payable"
		}
		if cause != "" {
			fr.addUsed(cost)
			fr.fault("transferValueExecute", cause, a...)
		}
		u.move(fr.self, dest, v)
		fr.fwd += gl
		fr.addTransfer(Transfer{To: dest, From: fr.self, Value: v, Gas: gl, Data: callData(fn, args)})
		if gl > 0 {
			u.Stats["gas forwarded"]++
		}
		fr.calli("transferValueExecute", satAdd(cost, gl), 0, a...)
	})
	reg("esdt", "transferESDT", 1, t("P04", "P02"), func(fr *Fr) {
		u := fr.u
		d := u.rbytes(20)
		fr.calli("transferESDT", u.G.api("TransferValue")+u.G.persB(len(d)), 1, fr.put(u.account()), fr.put(u.Tokens[0]), int64(len(u.Tokens[0])), fr.put(val32(big.NewInt(1))), 1000, fr.put(d), int64(len(d)))
	})
	reg("esdt", "transferESDTExecute", 10, t("P04", "P26", "P06"), esdtOp)
}

func esdtOp(fr *Fr) {
	u := fr.u
	dest := u.account()
	if u.R.Intn(3) == 0 {
		dest = u.Remote[u.R.Intn(len(u.Remote))]
	}
	if bytes.Equal(dest, fr.self) {
		return // the protocol's function does not support it
	}
	fn := u.function(dest)
	args := u.args(3)
	id, nonce := u.token()
	own := u.tokens(fr.self, id, nonce)
	v := u.amount(own)
	if v.Sign() == 0 && u.R.Intn(5) > 0 && own.Sign() > 0 {
		v = big.NewInt(1)
	}
	if (v.Sign() == 0 || v.Cmp(own) > 0) && u.R.Intn(3) > 0 {
		return // refused transfers end the contract: keep them rare
	}
	sc := u.isSC(dest)
	same := u.shard(dest) == u.shard(fr.self)
	if sc && same && fr.deepEnough() {
		return
	}
	n, l, d := fr.f.PutArgs(args)
	cost := 2*u.G.copyB(total(args)) + u.G.api("TransferValue")
	gl := u.gasArg(fr.left())
	do, to, vo, fo := fr.put(dest), fr.put(id), fr.put(val32(v)), fr.put([]byte(fn))
	name := "transferESDTExecute"
	a := []int64{do, to, int64(len(id)), vo}
	if nonce > 0 || u.R.Intn(3) == 0 {
		name = "transferESDTNFTExecute"
		a = append(a, int64(nonce))
	}
	a = append(a, int64(gl), fo, int64(len(fn)), n, l, d)
	fr.addUsed(cost)
	if fr.ro {
		u.Stats["refused read-only transfers"]++
		fr.fault(name, "read-only", a...)
	}
	left := fr.left()
	provided := min64(gl, left)
	u.seen = len(u.Ch.Events)
	saved := u.M
	evalBI := func() (consumed uint64, ok bool) {
		es := u.reached()
		if len(es) == 0 {
			fr.diverge("no token transfer", "%s of %v %s did not reach the protocol", name, v, id)
		}
		e := es[0]
		wantFn, wantTo := "ESDTTransfer", dest
		wantArgs := [][]byte{id, v.Bytes()}
		if nonce > 0 {
			wantFn, wantTo = "ESDTNFTTransfer", fr.self
			wantArgs = [][]byte{id, new(big.Int).SetUint64(nonce).Bytes(), v.Bytes(), dest}
		}
		ct := vmcommon.DirectCall
		if sc {
			ct = vmcommon.ESDTTransferAndExecute
		}
		in := e.In
		good := in.Function == wantFn && bytes.Equal(in.RecipientAddr, wantTo) && bytes.Equal(in.CallerAddr, fr.self) && len(in.Arguments) == len(wantArgs) && in.CallValue.Sign() == 0
		if good {
			for i := range wantArgs {
				good = good && bytes.Equal(wantArgs[i], in.Arguments[i])
			}
		}
		if !good {
			fr.diverge("token transfer input", "%s(%v of %s/%d to %x) reached the protocol as %s from %x to %x args %x value %v", name, v, id, nonce, dest, in.Function, in.CallerAddr, in.RecipientAddr, in.Arguments, in.CallValue)
		}
		if in.CallType != ct || in.GasProvided != left {
			u.Diverge("token transfer gas", tagsOf("P01", "P02"), "%s reached the protocol with call type %d gas %d, expected %d %d", name, in.CallType, in.GasProvided, ct, left)
			fr.stop()
		}
		if e.Err != nil || e.Out.ReturnCode != vmcommon.Ok {
			return 0, false
		}
		if v.Sign() < 0 || v.Cmp(own) > 0 {
			panic("harness: built-in function accepted a bad amount")
		}
		consumed = in.GasProvided - e.Out.GasRemaining
		for _, oa := range e.Out.OutputAccounts {
			for _, tr := range oa.OutputTransfers {
				consumed -= tr.GasLimit
			}
		}
		u.M = saved.clone()
		u.moveTok(fr.self, dest, id, nonce, v)
		for _, lg := range e.Out.Logs {
			u.M.Logs = append(u.M.Logs, LogEntry{Addr: lg.Address, ID: lg.Identifier, Topics: lg.Topics, Data: lg.Data})
		}
		fr.addUsed(consumed)
		u.Stats["token transfers"]++
		data := callData("ESDTTransfer", [][]byte{id, v.Bytes()})
		if nonce > 0 {
			data = callData("ESDTNFTTransfer", [][]byte{id, new(big.Int).SetUint64(nonce).Bytes(), v.Bytes()})
			if same {
				data = append(data, []byte("@"+hex.EncodeToString(dest))...)
			} else if oa := e.Out.OutputAccounts[string(dest)]; oa != nil && len(oa.OutputTransfers) == 1 {
				data = append([]byte{}, oa.OutputTransfers[0].Data...)
			}
		}
		data = append(data, []byte("@"+hex.EncodeToString([]byte(fn)))...)
		for _, x := range args {
			data = append(data, []byte("@"+hex.EncodeToString(x))...)
		}
		tr := Transfer{To: dest, From: fr.self, Value: new(big.Int), Data: data}
		if sc && !same && provided >= consumed {
			tr.Gas = provided - consumed
		}
		fr.addTransfer(tr)
		return consumed, true
	}
	faulty := func(tr bool, cause string) {
		if !tr {
			fr.diverge("accepted:"+name+":"+cause, "%s of %v (owned %v) %s was accepted, must fail: %s", name, v, own, id, cause)
		}
		if fr.f.Used() < fr.room {
			fr.diverge("fault gas:"+name, "%s failed but only %d of %d gas is consumed", name, fr.f.Used(), fr.room)
		}
		u.Stats["refused token transfers"]++
		fr.end("token transfer "+cause, 0)
	}
	if !(sc && same) {
		u.C.Tracef("%*s%s %v of %s/%d to %s gas=%d", fr.depth*2, "", name, v, id, nonce, u.Addr(dest), gl)
		u.lastOp = name
		before := memHash(fr.f.Mem())
		r, tr := fr.f.Try(name, a...)
		if u.dead {
			fr.stop()
		}
		fr.checkMem(name, before)
		consumed, ok := evalBI()
		if !ok {
			faulty(tr, "refused by the protocol")
		}
		if sc {
			if consumed > provided {
				faulty(tr, "gas")
			}
			if provided-consumed > fr.left() {
				faulty(tr, "gas")
			}
			if !same {
				fr.addUsed(provided - consumed)
				fr.fwd += provided - consumed
			}
		}
		if tr || r != 0 {
			fr.diverge("refused:"+name, "%s of %v (owned %v) %s/%d to %s was refused", name, v, own, id, nonce, u.Addr(dest))
		}
		u.Stats["token transfers done"]++
		fr.checkUsed(name)
		return
	}
	// same shard contract: transfer and call
	var child *Fr
	var run, okBI, gasOK, evaluated bool
	before := memHash(fr.f.Mem())
	settle := func() {
		if evaluated {
			return
		}
		evaluated = true
		var consumed uint64
		consumed, okBI = evalBI()
		if !okBI {
			return
		}
		gasOK = consumed <= provided && provided-consumed <= fr.left()
		if !gasOK {
			return
		}
		k := uint32(vmcommon.Fungible)
		if nonce > 0 {
			k = uint32(vmcommon.NonFungible)
		}
		s := &spec{op: name, dest: dest, caller: fr.self, value: new(big.Int), fn: fn, args: args, gas: provided - consumed,
			tok: &Tok{Name: id, Nonce: nonce, Value: v, Type: k}}
		c := u.M.clone()
		c.Ret, c.Logs, c.Refund = nil, nil, 0
		afterBI := u.M
		u.M = c
		child, run = fr.prep(s)
		child.before = afterBI
	}
	u.pendFn = func() *Fr {
		settle()
		if !run || child.nothing {
			return nil
		}
		return child
	}
	u.C.Tracef("%*s%s %v of %s/%d to %s.%s gas=%d", fr.depth*2, "", name, v, id, nonce, u.Addr(dest), fn, gl)
	u.lastOp = name
	tags := opTags
	r, tr := fr.f.Try(name, a...)
	opTags = tags
	u.lastOp = name
	ran := evaluated
	if u.dead {
		fr.stop()
	}
	if ran {
		fr.flush(name)
	} else {
		u.pendFn = nil
		settle()
	}
	fr.checkMem(name, before)
	if !okBI {
		faulty(tr, "refused by the protocol")
	}
	if !gasOK {
		faulty(tr, "gas")
	}
	if run && !child.nothing && !ran {
		fr.diverge("not executed:"+name, "%s: %s.%s did not run", name, u.Addr(dest), fn)
	}
	if tr {
		fr.diverge("refused:"+name, "%s of %v (owned %v) %s/%d to %s ended the caller", name, v, own, id, nonce, u.Addr(dest))
	}
	if run && !child.failed {
		child.account()
		c := u.M
		b := child.before
		c.Ret = append(append([][]byte{}, b.Ret...), c.Ret...)
		c.Logs = append(append([]LogEntry{}, b.Logs...), c.Logs...)
		c.Refund += b.Refund
		fr.adopt(child)
		u.note(name, "ok", child)
		u.Stats["token transfers done"]++
		if r != 0 {
			fr.diverge("result:"+name, "%s returned %d, expected 0", name, r)
		}
	} else {
		u.M = saved
		u.nestFail++
		u.Stats["nested failures"]++
		u.Stats["token follow-ups failed"]++
		u.note(name, "failed "+child.cause, child)
		if r != 1 {
			fr.diverge("result:"+name, "%s -> %s.%s returned %d, expected 1 (%s)", name, u.Addr(dest), fn, r, child.cause)
		}
	}
	fr.checkUsed(name)
}

package uni

import (
	"bytes"
	"errors"
	"math/big"

	"verif/harness/chain"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

// bi is a call of a protocol function on behalf of a contract, possibly
// followed by the execution of the receiving contract.
type bi struct {
	fr     *Fr // on whose gas it runs
	name   string
	s      *spec
	lock   uint64
	pre    *State // before
	mid    *State // after the protocol function
	done   bool
	err    error // refused
	out    *vmcommon.VMOutput
	follow bool
	child  *Fr
	run    bool
}

func (fr *Fr) newBI(name string, s *spec, lock uint64) *bi {
	fr.u.Stats["protocol functions called"]++
	return &bi{fr: fr, name: name, s: s, lock: lock}
}

// reached is the next call the protocol has received, if any.
func (u *U) reached() []chain.Event {
	for i := u.seen; i < len(u.Ch.Events); i++ {
		if e := u.Ch.Events[i]; e.Kind == "BuiltIn" {
			u.seen = i + 1
			return []chain.Event{e}
		}
	}
	return nil
}

// transferArgs are the parts of a token transfer.
func transferArgs(s *spec) (to, id []byte, nonce uint64, v *big.Int, rest int) {
	if s.fn == "ESDTTransfer" {
		return s.dest, s.args[0], 0, new(big.Int).SetBytes(s.args[1]), 2
	}
	return s.args[3], s.args[0], new(big.Int).SetBytes(s.args[1]).Uint64(), new(big.Int).SetBytes(s.args[2]), 4
}

// tokenReturn tells whether a call only transfers tokens.
func tokenReturn(fn string, args [][]byte) bool {
	return fn == "ESDTTransfer" && len(args) == 2 || fn == "ESDTNFTTransfer" && len(args) == 4
}

// eval models the call when it has reached the protocol.
func (b *bi) eval() {
	if b.done {
		return
	}
	b.done = true
	fr, u, s := b.fr, b.fr.u, b.s
	b.pre = u.M
	es := u.reached()
	bad := func(what, format string, a ...interface{}) {
		u.Diverge(what, tagsOf("P04", "P15", "P06"), format, a...)
		b.err = errors.New("diverged")
	}
	if fr.ro {
		if len(es) > 0 {
			u.Diverge("protocol function in read-only mode", tagsOf("P09", "P04"), "%s reached the protocol in read-only mode", s.fn)
		}
		fr.addUsed(s.gas)
		b.err = arwen.ErrInvalidCallOnReadOnlyMode
		return
	}
	if len(es) == 0 {
		bad("protocol function not called", "%s: %s did not reach the protocol", b.name, s.fn)
		return
	}
	in := es[0].In
	good := in.Function == s.fn && bytes.Equal(in.RecipientAddr, s.dest) && bytes.Equal(in.CallerAddr, s.caller) && len(in.Arguments) == len(s.args) && in.CallValue.Cmp(s.value) == 0 && in.CallType == s.ct
	for i := range s.args {
		good = good && bytes.Equal(s.args[i], in.Arguments[i])
	}
	if !good {
		bad("protocol function input", "%s: %s(%x) from %x to %x value %v type %d reached the protocol as %s(%x) from %x to %x value %v type %d", b.name, s.fn, s.args, s.caller, s.dest, s.value, s.ct,
			in.Function, in.Arguments, in.CallerAddr, in.RecipientAddr, in.CallValue, in.CallType)
		return
	}
	if in.GasProvided != s.gas || in.GasLocked != b.lock {
		u.Diverge("protocol function gas", tagsOf("P01", "P02", "P15"), "%s: %s reached the protocol with gas %d locked %d, expected %d %d", b.name, s.fn, in.GasProvided, in.GasLocked, s.gas, b.lock)
		return
	}
	if es[0].Err != nil {
		fr.addUsed(s.gas)
		b.err = es[0].Err
		u.Stats["protocol functions refused"]++
		u.C.Tracef("%*s%s refused: %v", fr.depth*2, "", s.fn, b.err)
		return
	}
	out := es[0].Out
	b.out = out
	rcv, id, nonce, v, rest := transferArgs(s)
	if v.Cmp(u.tokens(s.caller, id, nonce)) > 0 {
		panic("harness: the protocol accepted a bad amount")
	}
	local := u.shard(rcv) == u.shard(s.caller)
	var tr *vmcommon.OutputTransfer
	if oa := out.OutputAccounts[string(rcv)]; local && u.isSC(rcv) && oa != nil && len(oa.OutputTransfers) == 1 {
		tr = &oa.OutputTransfers[0]
	}
	used := s.gas - out.GasRemaining
	var fn string
	var args [][]byte
	if tr != nil {
		var err error
		fn, args, err = parseCall(tr.Data)
		if err != nil {
			fr.addUsed(s.gas)
			b.err = err
			u.Stats["token follow-ups unreadable"]++
			return
		}
		used -= tr.GasLimit
	}
	u.M = b.pre.clone()
	u.moveTok(s.caller, rcv, id, nonce, v)
	for _, lg := range out.Logs {
		u.M.Logs = append(u.M.Logs, LogEntry{Addr: lg.Address, ID: lg.Identifier, Topics: lg.Topics, Data: lg.Data})
	}
	u.M.Ret = append(append([][]byte{}, u.M.Ret...), out.ReturnData...)
	if tr == nil {
		for a, oa := range out.OutputAccounts {
			for _, t := range oa.OutputTransfers {
				fr.addTransfer(Transfer{To: []byte(a), From: t.SenderAddress, Value: t.Value, Gas: t.GasLimit, Lock: t.GasLocked, Data: t.Data, Type: t.CallType})
				fr.fwd += t.GasLimit + t.GasLocked
				used -= t.GasLimit
				fr.addUsed(t.GasLimit)
			}
		}
	}
	fr.addUsed(used)
	u.Stats["token transfers"]++
	if local && (s.fn == "ESDTTransfer" || len(s.args) == rest) {
		// transfers within the shard are recorded
		fr.addTransfer(Transfer{To: rcv, From: s.caller, Value: new(big.Int), Data: callData(s.fn, s.args), Type: s.ct})
	}
	b.mid = u.M
	u.C.Tracef("%*s%s done: %v of %s/%d from %s to %s used=%d follow-up=%v", fr.depth*2, "", s.fn, v, id, nonce, u.Addr(s.caller), u.Addr(rcv), used, tr != nil)
	if tr == nil {
		return
	}
	b.follow = true
	k := uint32(vmcommon.Fungible)
	if nonce > 0 {
		k = uint32(vmcommon.NonFungible)
	}
	u.M = b.mid.clone()
	u.M.Ret, u.M.Logs, u.M.Refund = nil, nil, 0
	b.child, b.run = fr.prep(&spec{op: s.op, dest: rcv, caller: s.caller, value: new(big.Int), fn: fn, args: args, gas: tr.GasLimit, ct: s.ct, tok: &Tok{Name: id, Nonce: nonce, Value: v, Type: k}})
	u.Stats["token follow-ups"]++
}

// next is the frame which has to run now.
func (u *U) next() *Fr {
	for {
		if fr := u.pend; fr != nil {
			u.pend = nil
			return fr
		}
		fn := u.pendFn
		if fn == nil {
			return nil
		}
		u.pendFn = nil
		if fr := fn(); fr != nil {
			return fr
		}
		if u.dead {
			return nil
		}
	}
}

// end settles the call once its follow-up has ended: good tells whether all of
// it succeeded.
func (b *bi) end() (good bool) {
	u := b.fr.u
	if b.err != nil {
		u.M = b.pre
		return false
	}
	if !b.follow {
		return true
	}
	if b.run && !b.child.failed {
		b.fr.merge(b.child, b.mid, false)
		u.note(b.name, "ok", b.child)
		return true
	}
	u.M = b.pre
	u.nestFail++
	u.Stats["token follow-ups failed"]++
	u.note(b.name, "failed "+b.child.cause, b.child)
	return false
}

// outcome is what a failure is reported as.
func (b *bi) outcome() (vmcommon.ReturnCode, string) {
	if b.err != nil {
		return codeOfErr(b.err), b.err.Error()
	}
	return b.child.outcome()
}

// tokenCall draws a token transfer by a call of the protocol's function: the
// address to call, function and arguments.
func (u *U) tokenCall(fr *Fr, to []byte) (dest []byte, fn string, args [][]byte) {
	id, nonce := u.token()
	own := u.tokens(fr.self, id, nonce)
	v := u.amount(own)
	if u.R.Intn(8) > 0 && (v.Sign() == 0 || v.Cmp(own) > 0) && own.Sign() > 0 {
		v = big.NewInt(1)
	}
	dest = to
	fn = "ESDTTransfer"
	args = [][]byte{id, v.Bytes()}
	if nonce > 0 {
		fn = "ESDTNFTTransfer"
		args = [][]byte{id, new(big.Int).SetUint64(nonce).Bytes(), v.Bytes(), to}
		dest = fr.self
	}
	if u.R.Intn(3) > 0 {
		args = append(args, []byte(u.function(to)))
		args = append(args, u.args(2)...)
	}
	if !u.calm && u.R.Intn(25) == 0 {
		args = args[:u.R.Intn(len(args))]
	}
	return
}

// good tells whether a drawn token transfer is expected to be accepted.
func (u *U) goodTokenCall(fr *Fr, dest []byte, fn string, args [][]byte) bool {
	if fn == "ESDTTransfer" && len(args) < 2 || fn == "ESDTNFTTransfer" && len(args) < 4 {
		return false
	}
	to, id, nonce, v, _ := transferArgs(&spec{dest: dest, fn: fn, args: args})
	return v.Sign() > 0 && v.Cmp(u.tokens(fr.self, id, nonce)) <= 0 && u.payable(to)
}

func init() {
	reg("esdt", "token transfer by executeOnDestContext", 5, t("P04", "P06", "P26"), func(fr *Fr) {
		u := fr.u
		if fr.deepEnough() {
			return
		}
		to := u.CS[u.R.Intn(len(u.CS))].Addr
		switch u.R.Intn(5) {
		case 0:
			to = u.account()
		case 1:
			to = u.Remote[u.R.Intn(len(u.Remote))]
		}
		if bytes.Equal(to, fr.self) {
			return
		}
		dest, fn, args := u.tokenCall(fr, to)
		v := new(big.Int)
		if !u.calm && u.R.Intn(30) == 0 {
			v = u.amount(u.balance(fr.self))
		}
		if u.shard(dest) != u.shard(fr.self) {
			return
		}
		if (!u.goodTokenCall(fr, dest, fn, args) || fr.ro) && (u.calm || u.R.Intn(3) > 0) {
			return
		}
		n, l, d := fr.f.PutArgs(args)
		fo, do, vo := fr.put([]byte(fn)), fr.put(dest), fr.put(val32(v))
		name := "executeOnDestContext"
		gl := u.gasArg(fr.left())
		fr.addUsed(u.G.copyB(total(args)) + u.G.api("ExecuteOnDestContext"))
		s := &spec{op: name, dest: dest, caller: fr.self, value: v, fn: fn, args: args, gas: min64(gl, fr.left())}
		b := fr.newBI(name, s, 0)
		u.seen = len(u.Ch.Events)
		u.C.Tracef("%*s%s %s %s(%x) to %s gas=%d", fr.depth*2, "", name, u.Addr(dest), fn, args, u.Addr(to), s.gas)
		u.lastOp = name + " " + fn
		u.pendFn = func() *Fr {
			b.eval()
			if !b.run || b.child.nothing {
				return nil
			}
			return b.child
		}
		tags := opTags
		before := memHash(fr.f.Mem())
		r, tr := fr.f.Try(name, int64(gl), do, vo, fo, int64(len(fn)), n, l, d)
		opTags = tags
		u.lastOp = name + " " + fn
		if u.dead {
			fr.stop()
		}
		if ran := b.done; ran {
			fr.flush(name)
		} else {
			u.pendFn = nil
			b.eval()
			if !u.dead && b.run && !b.child.nothing {
				fr.diverge("not executed:"+name, "%s: %s.%s did not run", name, u.Addr(to), b.child.fn)
			}
		}
		if u.dead {
			fr.stop()
		}
		fr.checkMem(name, before)
		u.nestOps++
		if b.end() {
			if tr || r != 0 {
				fr.diverge("refused:"+name, "%s of %s ended the caller or returned %d", name, fn, r)
			}
			u.Stats["token transfers by calls"]++
			fr.checkUsed(name)
			return
		}
		if !tr {
			fr.diverge("accepted:"+name, "%s of %s succeeded, must fail", name, fn)
		}
		if fr.f.Used() < fr.room {
			fr.diverge("fault gas:"+name, "%s failed but only %d of %d gas is consumed", name, fr.f.Used(), fr.room)
		}
		fr.end("nested token transfer", 0)
	})
}

// flush completes what had to happen although no other frame ran.
func (fr *Fr) flush(name string) {
	u := fr.u
	if c := u.next(); c != nil && !u.dead {
		fr.diverge("not executed:"+name, "%s: %s.%s did not run", name, u.Addr(c.self), c.fn)
	}
	if u.dead {
		fr.stop()
	}
}

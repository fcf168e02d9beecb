package uni

import (
	"bytes"
	"fmt"
	"math/big"

	"verif/harness/mw"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

// all properties a wrong value of the running operation concerns
var opTags []string

func tagsOf(more ...string) []string { return append(append([]string{}, opTags...), more...) }

func (fr *Fr) addUsed(c uint64) {
	n := satAdd(fr.used, c)
	if n > maxPoints {
		n = maxPoints
	}
	fr.used = n
}

func (fr *Fr) left() uint64 {
	if fr.used > fr.room {
		return 0
	}
	return fr.room - fr.used
}

func (fr *Fr) stop() { fr.f.Trap() }

func (fr *Fr) diverge(sig, format string, a ...interface{}) {
	fr.u.Diverge(sig, tagsOf(), format, a...)
	fr.stop()
}

func (fr *Fr) checkUsed(name string) {
	if got := fr.f.Used(); got != fr.used {
		fr.u.Diverge("gas:"+name, tagsOf("P02", "P01"), "%s: gas used on the instance is %d, expected %d (off by %d)", name, got, fr.used, int64(got)-int64(fr.used))
		fr.stop()
	}
}

// call performs a host call which must be accepted and cost exactly cost.
func (fr *Fr) call(name string, cost uint64, args ...int64) int64 {
	u := fr.u
	u.lastOp = name
	fr.addUsed(cost)
	u.C.Tracef("%*s%s%v cost=%d", fr.depth*2, "", name, args, cost)
	r, tr := fr.f.Try(name, args...)
	if u.dead {
		fr.stop()
	}
	if tr {
		fr.diverge("refused:"+name, "%s%v was refused, must be accepted", name, args)
	}
	fr.checkUsed(name)
	return r
}

// calli is call with a 32-bit result which must be want.
func (fr *Fr) calli(name string, cost uint64, want int32, args ...int64) {
	if r := int32(fr.call(name, cost, args...)); r != want {
		fr.diverge("result:"+name, "%s%v returned %d, expected %d", name, args, r, want)
	}
}

// calll is call with a 64-bit result which must be want.
func (fr *Fr) calll(name string, cost uint64, want int64, args ...int64) {
	if r := fr.call(name, cost, args...); r != want {
		fr.diverge("result:"+name, "%s%v returned %d, expected %d", name, args, r, want)
	}
}

// fault performs a host call which must be refused and end the execution.
func (fr *Fr) fault(name, cause string, args ...int64) {
	u := fr.u
	if u.calm {
		panic(skipOp{})
	}
	u.lastOp = name
	u.C.Tracef("%*s%s%v must fail: %s", fr.depth*2, "", name, args, cause)
	_, tr := fr.f.Try(name, args...)
	if u.dead {
		fr.stop()
	}
	if !tr {
		fr.diverge("accepted:"+name+":"+cause, "%s%v was accepted, must be refused (%s)", name, args, cause)
	}
	if fr.f.Used() < fr.room {
		fr.diverge("fault gas:"+name, "%s was refused but only %d of %d gas is consumed", name, fr.f.Used(), fr.room)
	}
	fr.used = fr.f.Used()
	fr.end("fault:"+cause, vmcommon.ExecutionFailed)
}

// end marks the frame as failed and ends it.
func (fr *Fr) end(cause string, _ vmcommon.ReturnCode) {
	fr.failed, fr.ended, fr.cause = true, true, cause
	fr.stop()
}

// guest memory with canaries
const canary = 0xCC

func (fr *Fr) out(n int) int64 {
	off := fr.f.Alloc(n + 32)
	m := fr.f.Mem()[off : int(off)+n+32]
	for i := range m {
		m[i] = canary
	}
	return off + 16
}

// got checks that exactly want was written at off (buffer made by out(n)).
func (fr *Fr) got(name string, off int64, n int, want []byte) {
	m := fr.f.Mem()[off-16 : int(off)+n+16]
	if !bytes.Equal(m[16:16+len(want)], want) {
		fr.diverge("data:"+name, "%s wrote %x, expected %x", name, m[16:16+len(want)], want)
	}
	for i, b := range m {
		if (i < 16 || i >= 16+len(want)) && b != canary {
			fr.u.Diverge("memory:"+name, tagsOf("P10"), "%s wrote outside its result: offset %d (result of %d bytes)", name, i-16, len(want))
			fr.stop()
		}
	}
}

func (fr *Fr) put(b []byte) int64 { return fr.f.Put(b) }

func val32(v *big.Int) []byte {
	b := v.Bytes()
	out := make([]byte, 32)
	copy(out[32-len(b):], b)
	return out
}

// val32z is how a payment is written: nothing at all for zero.
func val32z(v *big.Int) []byte {
	if v.Sign() == 0 {
		return nil
	}
	return val32(v)
}

// behave plays a frame.
func (u *U) behave(f *mw.Frame) {
	if u.dead {
		f.Trap()
	}
	fr := u.next()
	if u.dead {
		f.Trap()
	}
	if fr == nil {
		u.Diverge("unexpected execution", []string{"P06", "P11", "P13", "P14", "P15", "P02"}, "contract code %q function %q runs although nothing was called (last operation %s)", f.ID, f.Func, u.lastOp)
		f.Trap()
	}
	fr.f = f
	if f.ID != fr.codeID {
		u.Diverge("wrong code", []string{"P12", "P14", "P06", "P13", "P20", "P28"}, "code %q runs, expected %q for %x", f.ID, fr.codeID, fr.self)
		f.Trap()
	}
	if f.Func != fr.fn {
		u.Diverge("wrong function", []string{"P13", "P15", "P17"}, "function %q runs, expected %q", f.Func, fr.fn)
		f.Trap()
	}
	if f.Limit() != fr.limit || f.Used() != 0 {
		u.Diverge("gas limit", append(fr.about(), "P01", "P02"), "function %q of %q starts with gas limit %d (used %d), expected %d (provided %d, initial %d)", f.Func, f.ID, f.Limit(), f.Used(), fr.limit, fr.provided, fr.initial)
		f.Trap()
	}
	fr.entered = true
	u.cur = fr
	u.Stats["frames"]++
	if fr.depth > 0 {
		u.Stats["nested frames"]++
	}
	u.C.Tracef("%*s> %s.%s self=%x depth=%d same=%v ro=%v limit=%d room=%d value=%v args=%x", fr.depth*2, "", f.ID, f.Func, fr.self[28:], fr.depth, fr.same, fr.ro, fr.limit, fr.room, fr.value, fr.args)
	defer func() {
		u.cur = fr.parent
		if !u.dead && !fr.ended {
			u.Diverge("unexpected end", []string{"P02", "P01", "P11"}, "frame %q.%q was stopped by the VM after %s: used %d, model %d, limit %d", f.ID, f.Func, u.lastOp, f.Used(), fr.used, fr.limit)
		}
		if fr.failed && fr.msg == "" {
			fr.msg = u.VM.(arwen.VMHost).Output().ReturnMessage()
		}
		u.C.Tracef("%*s< %s failed=%v %s used=%d", fr.depth*2, "", fr.f.ID, fr.failed, fr.cause, fr.used)
		if !u.dead && !fr.await {
			fr.done()
		}
	}()
	if p := fr.about(); p != nil && u.R.Intn(3) > 0 {
		fr.entry(p)
	}
	if fr.play != nil {
		fr.play(fr)
	} else if fr.op == "async" && u.R.Intn(4) == 0 {
		u.sendBack(fr)
	} else {
		u.randomPlay(fr)
	}
	// normal return
	fr.ended = true
	if fr.used > fr.room {
		fr.failed, fr.cause = true, "oog"
	}
}

// about names the property which a frame of a special kind is about.
func (fr *Fr) about() []string {
	switch {
	case fr.op == "async" || fr.op == "callback" || fr.depth == 0 && fr.ct != vmcommon.DirectCall:
		return []string{"P15"}
	case fr.fn == "init":
		return []string{"P14"}
	}
	return nil
}

// entry compares what a frame was called with.
func (fr *Fr) entry(p []string) {
	u := fr.u
	opTags = append(p, "P17", "P18")
	m := fr.f.Mark()
	fr.calli("getNumArguments", u.G.api("GetNumArguments"), int32(len(fr.args)))
	for i, b := range fr.args {
		o := fr.out(len(b))
		fr.calli("getArgument", u.G.api("GetArgument"), int32(len(b)), int64(i), o)
		fr.got("getArgument", o, len(b), b)
	}
	o := fr.out(32)
	fr.call("getCaller", u.G.api("GetCaller"), o)
	fr.got("getCaller", o, 32, fr.caller)
	w := val32z(fr.value)
	o = fr.out(len(w))
	fr.calli("getCallValue", u.G.api("GetCallValue"), int32(len(w)), o)
	fr.got("getCallValue", o, len(w), w)
	o = fr.out(32)
	fr.call("getSCAddress", u.G.api("GetSCAddress"), o)
	fr.got("getSCAddress", o, 32, fr.self)
	fr.f.Release(m)
	opTags = nil
	u.Stats["calls compared at the start"]++
}

// burn executes a basic block of the given cost.
func (fr *Fr) burn(cost uint64) {
	fr.addUsed(cost)
	if fr.used > fr.limit {
		fr.failed, fr.ended, fr.cause = true, true, "oog"
		fr.u.lastOp = "burn (out of gas)"
		fr.f.Burn(cost)
		fr.ended = false
		fr.u.Diverge("no out of gas", []string{"P02", "P01", "P11"}, "a block of cost %d ran although only %d of %d gas were left", cost, fr.limit-(fr.used-cost), fr.limit)
		fr.stop()
	}
	fr.f.Burn(cost)
	fr.checkUsed("instructions")
}

// initialCost is the price for preparing code of the given size for a call.
func (u *U) initialCost(size int) uint64 {
	if u.AOT {
		return satAdd(u.G.base("GetCode"), u.G.base("AoTPreparePerByte")*uint64(size))
	}
	return u.G.base("CompilePerByte") * uint64(size)
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// Addr names an address in traces.
func (u *U) Addr(a []byte) string {
	for i, c := range u.CS {
		if bytes.Equal(c.Addr, a) {
			return fmt.Sprintf("C%d", i)
		}
	}
	for i, c := range u.Users {
		if bytes.Equal(c, a) {
			return fmt.Sprintf("U%d", i)
		}
	}
	return fmt.Sprintf("%x", a)
}

// Dead tells that the universe saw a divergence.
func (u *U) Dead() bool { return u.dead }

// Shape summarises the nesting structure of the last transaction.
func (u *U) Shape() string { return string(u.shape) }

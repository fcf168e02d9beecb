package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"time"

	"verif/harness/chain"
	"verif/harness/kit"
	"verif/harness/mw"
	"verif/harness/run"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

// real WASM bodies which try to run forever or die
var bodies = map[string][]byte{
	"loop":        {0, 0x03, 0x40, 0x0c, 0, 0x0b, 0x0b},
	"unreachable": {0, 0x00, 0x0b},
	"recurse":     {0, 0x10, 0, 0x0b}, // call function 0
	"divzero":     {0, 0x41, 1, 0x41, 0, 0x6d, 0x1a, 0x0b},
	"load":        {0, 0x41, 0x7f, 0x28, 2, 0, 0x1a, 0x0b},
	"grow":        {0, 0x03, 0x40, 0x41, 1, 0x40, 0, 0x1a, 0x0c, 0, 0x0b, 0x0b},
}

func bodyCode(name string) []byte {
	return (&mw.Module{Exports: []string{"a", "b", "c"}, Bodies: map[string][]byte{"a": bodies[name], "b": bodies[name], "c": bodies[name]}, MemMin: 1, MemMax: 200}).Bytes()
}

// junk draws bytes which are hardly a contract.
func junk(r *rand.Rand, s *stage) []byte {
	base := s.codes[r.Intn(len(s.codes))]
	b := append([]byte(nil), base...)
	switch r.Intn(8) {
	case 0:
		return nil
	case 1:
		b = make([]byte, r.Intn(300))
		r.Read(b)
	case 2:
		b = b[:r.Intn(len(b))]
	case 3:
		for k := 1 + r.Intn(4); k > 0; k-- {
			b[r.Intn(len(b))] = byte(r.Intn(256))
		}
	case 4:
		b = append(b, b[8:]...)
	case 5:
		i := 8 + r.Intn(len(b)-8)
		b = append(b[:i:i], append([]byte{0xff, 0xff, 0xff, 0xff, 0x0f}, b[i:]...)...)
	case 6:
		b = (&mw.Module{ID: "new0", Exports: []string{"init", "a"}, NoMemory: true}).Bytes()
	default:
		b = (&mw.Module{ID: "new0", Exports: []string{"init", "a"}, MemMin: 60000 + uint32(r.Intn(5000))}).Bytes()
	}
	return b
}

type hookPanic struct{}

// survival plays hostile transactions on one VM, each followed by a probe
// which must give what it gives on a new VM.
func survival(c *run.Case) {
	r := c.R
	s := newStage(r)
	names := []string{"loop", "unreachable", "recurse", "divzero", "load", "grow"}
	for i, n := range names {
		a := chain.SC(20 + i)
		s.ch.AddContract(a, 1000, bodyCode(n), s.cs[0])
	}
	s.ch.AddContract(chain.SC(30), 10, junk(r, s), s.cs[0])
	vm := newVM(s.ch)
	base := s.ch.Clone()
	live, mems := mw.LiveInstances(), mw.LiveMemories()
	for i := 0; i < 10; i++ {
		t := s.tx(r)
		kind := ""
		calls := 0
		panicked, panicDepth := false, 0
		p := &player{s: s, seed: t.seed}
		ch := s.ch
		ch.Fault = nil
		hostile := false
		if t.create == nil && t.call.GasProvided < 100000 && r.Intn(2) == 0 {
			t.call.GasProvided = 3000000
		}
		switch k := r.Intn(12); {
		case k < 2:
			kind = "junk deployment"
			t.create = &vmcommon.ContractCreateInput{VMInput: input(t).VMInput, ContractCode: junk(r, s), ContractCodeMetadata: []byte{5, 2}}
		case k < 4:
			kind = "hook error"
			at := 1 + r.Intn(12)
			ch.Fault = func(string) error {
				calls++
				if calls >= at && (calls == at || at%3 == 0) {
					return fmt.Errorf("hook failure")
				}
				return nil
			}
		case k < 6:
			kind = "hook panic"
			at := 1 + r.Intn(40)
			ch.Fault = func(string) error {
				calls++
				if calls == at {
					panicked, panicDepth = true, p.depth
					panic(hookPanic{})
				}
				return nil
			}
		case k < 8:
			kind = "hostile host calls"
			hostile = true
		case k == 8:
			kind = "hostile code"
			n := r.Intn(len(names) + 1)
			if t.create != nil {
				t = &tx{seed: t.seed, call: input(t)}
			}
			t.call.RecipientAddr = chain.SC(20 + n)
			if n == len(names) {
				t.call.RecipientAddr = chain.SC(30)
			}
			t.call.Function, t.call.CallType = "a", vmcommon.DirectCall
			t.call.GasProvided = uint64(1000000 + r.Intn(3000000))
		case k == 9:
			kind = "hostile arguments"
			in := input(t)
			t = &tx{seed: t.seed, call: in}
			in.Arguments = nil
			for n := r.Intn(2000); n > 0; n-- {
				in.Arguments = append(in.Arguments, make([]byte, r.Intn(3)))
			}
			if r.Intn(2) == 0 {
				in.Arguments = append(in.Arguments, make([]byte, 1<<20))
			}
			switch r.Intn(5) {
			case 0:
				in.Function = arwen.UpgradeFunctionName
			case 1:
				in.Function = string(make([]byte, 1<<16))
			case 2:
				in.CallType = vmcommon.CallType(r.Intn(6))
			case 3:
				in.GasProvided, in.GasLocked = ^uint64(0), ^uint64(0)
				in.GasProvided >>= uint(1 + r.Intn(3))
			}
		case k == 10:
			kind = "endless nesting"
			in := input(t)
			t = &tx{seed: t.seed, call: in}
			in.RecipientAddr, in.Function, in.CallType = s.cs[0], "a", vmcommon.DirectCall
			in.GasProvided = []uint64{50000000, 1 << 40, 1 << 55}[r.Intn(3)]
		default:
			kind = "transaction"
		}
		c.Tracef("%d: %s %s", i, kind, describe(t))
		start := time.Now()
		p.seed = t.seed
		switch {
		case hostile:
			hr := rand.New(rand.NewSource(t.seed))
			mw.SetBehaviour(func(f *mw.Frame) { hostileBody(c, f, hr, p) })
		case kind == "endless nesting":
			how := r.Intn(4)
			mw.SetBehaviour(func(f *mw.Frame) {
				op := []string{"executeOnDestContext", "executeOnSameContext", "transferValueExecute", "asyncCall"}[how]
				c.Count("nested frames", 1)
				p.depth++
				if p.depth > p.frames {
					p.frames = p.depth
				}
				defer func() { p.depth-- }()
				if op == "asyncCall" {
					f.Call(op, f.Put(s.cs[1]), f.Put(kit.Val32(0)), f.Put([]byte("a")), 1)
					return
				}
				n, l, d := f.PutArgs(nil)
				to, v, fn := f.Put(s.cs[f.InstID()%2]), f.Put(kit.Val32(0)), f.Put([]byte("a"))
				g := f.Call("getGasLeft")
				g -= g / 64
				if op == "transferValueExecute" {
					f.Call(op, to, v, g, fn, 1, n, l, d)
				} else {
					f.Call(op, g, to, v, fn, 1, n, l, d)
				}
			})
		default:
			mw.SetBehaviour(p.behave)
		}
		var out *vmcommon.VMOutput
		var err error
		if t.create != nil {
			out, err = vm.RunSmartContractCreate(t.create)
		} else {
			out, err = vm.RunSmartContractCall(t.call)
		}
		ch.Fault = nil
		if p.frames >= 10 && kind == "endless nesting" {
			c.Count("nested as deep as allowed", 1)
		}
		took := time.Since(start)
		c.Count("hostile: "+kind, 1)
		c.Distinct(kind, out != nil && out.ReturnCode == vmcommon.Ok, p.frames, panicked)
		if panicked {
			c.Count("hook panics", 1)
			if panicDepth > 1 {
				c.Count("hook panics in nested calls", 1)
			}
		} else if err != nil || out == nil {
			c.Failf("no result: "+kind, "%s (%s): the VM gave no result: %v", kind, describe(t), err)
			return
		}
		if out != nil && out.ReturnCode != vmcommon.Ok {
			c.Count("hostile transactions which failed", 1)
		}
		if took > 30*time.Second {
			c.Failf("slow: "+kind, "%s (%s) took %v", kind, describe(t), took)
			return
		}
		runtime.GC()
		if l, m := mw.LiveInstances(), mw.LiveMemories(); l != live || m != mems {
			c.Failf("leak: "+kind, "after %s (%s) %d engine instances and %d memories are still alive, before it was %d and %d", kind, describe(t), l, m, live, mems)
			return
		}
		// probe
		ch.SetState(base)
		ch.DropSnapshots()
		probe := s.tx(r)
		ch2 := base.Twin(config.MakeGasMapForTests())
		o2, e2, _ := s.play(newVM(ch2), probe)
		want := result(o2, e2, ch2)
		o1, e1, pp := s.play(vm, probe)
		ch.DropSnapshots()
		if got := result(o1, e1, ch); got != want {
			c.Failf("later execution differs: after "+kind, "after %s (%s) a transaction gives another result than on a new VM:\n  %s", kind, describe(t), firstDiff(want, got))
			return
		}
		c.Count("probes", 1)
		c.Count("probe frames", int64(pp.frames))
		if o1 != nil && o1.ReturnCode == vmcommon.Ok {
			c.Count("successful probes", 1)
		}
		ch.SetState(base)
	}
}

func input(t *tx) *vmcommon.ContractCallInput {
	if t.call != nil {
		return t.call
	}
	return &vmcommon.ContractCallInput{VMInput: t.create.VMInput, RecipientAddr: chain.SC(0), Function: "a"}
}

// hostileBody makes host calls with hostile arguments.
func hostileBody(c *run.Case, f *mw.Frame, r *rand.Rand, p *player) {
	p.frames++
	p.depth++
	defer func() { p.depth-- }()
	if p.frames > 40 {
		f.Trap()
	}
	for i := 0; i < 4; i++ {
		f.Call("bigIntSetInt64", int64(i), int64(r.Uint64())>>uint(r.Intn(60)))
	}
	steps := 1 + r.Intn(10)
	for i := 0; i < steps; i++ {
		f.Reset()
		if r.Intn(3) == 0 {
			p.op(f, r)
		} else {
			g := all[r.Intn(len(all))]
			ml := int64(len(f.Mem()))
			args := make([]int64, len(g.Params))
			for k := range args {
				switch r.Intn(6) {
				case 0:
					args[k] = []int64{-1, 0, 1, 1<<31 - 1, -1 << 31, ml, ml - 1, ml - 32, ml + 1, 1 << 30, 65536}[r.Intn(11)]
				case 1:
					args[k] = int64(r.Intn(5))
				case 2:
					args[k] = int64(r.Uint64())
				default:
					args[k] = int64(r.Intn(int(ml) - 100))
				}
				if g.Name == "bigIntShl" && k == 2 {
					args[k] &= 0xffff
				}
				if g.Params[k] == 'i' {
					args[k] = int64(int32(args[k]))
				} else if r.Intn(2) == 0 {
					args[k] = int64(r.Intn(1000000))
				}
			}
			c.Tracef("  %s%v", g.Name, args)
			c.Count("hostile host calls", 1)
			f.Call(g.Name, args...)
		}
		f.Burn(1)
	}
}

var all []mw.Sig

package main

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/harness/chain"
	"verif/harness/mw"
	"verif/harness/run"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/host"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

type schedule = map[string]map[string]uint64

var probeAddr = chain.SC(nSC + 1)

// probing is called between two measurements of a probe in this process.
var probing func(n int)

// behaviour of all contracts of this program.
func behaviour(f *mw.Frame) {
	if f.ID == "probe" {
		probe(f)
		return
	}
	script(f)
}

// probe measures prices: those of the instructions, and what the host calls
// named by the first argument cost when all their arguments are zero.
func probe(f *mw.Frame) {
	o := f.Alloc(2000)
	n := f.Call("getArgument", 0, o)
	list := f.Get(o, int(n))
	imports := calls()
	var out []byte
	num := func(v uint64) { out = append(out, seedArg(v)...) }
	prices := func() {
		h := fnv.New64a()
		for i := range opcodes {
			_ = binary.Write(h, binary.BigEndian, mw.OpcodeCost(i))
		}
		num(h.Sum64())
	}
	prices()
	for i := 0; i+1 < len(list); i += 2 {
		s := imports[binary.BigEndian.Uint16(list[i:])]
		before := f.Used()
		f.Call(s.Name, make([]int64, len(s.Params))...)
		num(f.Used() - before)
		if probing != nil {
			probing(i / 2)
		}
	}
	before := f.Used()
	f.Call("finish", f.Put(make([]byte, 100)), 100)
	num(f.Used() - before)
	prices()
	f.Call("finish", f.Put(out), int64(len(out)))
}

// calls are the host calls by name.
func calls() []mw.Sig {
	l := append([]mw.Sig{}, mw.Imports()...)
	sort.Slice(l, func(i, j int) bool { return l[i].Name < l[j].Name })
	return l
}

func addProbe(c *chain.Chain) *chain.Chain {
	c.AddContract(probeAddr, 1000, (&mw.Module{ID: "probe", Exports: []string{"init", "callBack", "all"}, MemMin: 1}).Bytes(), chain.User(1), 5, 2)
	return c
}

func probeTx(list []byte, gas uint64) *vmcommon.ContractCallInput {
	return &vmcommon.ContractCallInput{VMInput: vmcommon.VMInput{CallerAddr: chain.User(1), CallValue: big.NewInt(0), GasProvided: gas, OriginalTxHash: make([]byte, 32), CurrentTxHash: make([]byte, 32), PrevTxHash: make([]byte, 32), Arguments: [][]byte{list}},
		RecipientAddr: probeAddr, Function: "all"}
}

// probeable are the host calls which do not end an execution when all their
// arguments are zero.
var probeable []int

func initP20(tier string) {
	usedNames()
	gas := config.MakeGasMapForTests()
	mw.SetBehaviour(behaviour)
	b := buildChain(1, gas)
	_, err := host.NewArwenVM(b, params(b, gas)) // makes the imports known
	must(err)
	for i, s := range calls() {
		ch := addProbe(buildChain(1, gas))
		vm, err := host.NewArwenVM(ch, params(ch, gas))
		must(err)
		out, err := vm.RunSmartContractCall(probeTx(u16(i), 1<<40))
		if err == nil && out.ReturnCode == vmcommon.Ok && !strings.Contains(s.Name, "xecute") && !strings.HasPrefix(s.Name, "transfer") {
			probeable = append(probeable, i)
		}
	}
}

func u16(l ...int) (b []byte) {
	for _, i := range l {
		b = append(b, byte(i>>8), byte(i))
	}
	return
}

// randSchedule is a complete schedule of random prices.
func randSchedule(c *run.Case) schedule {
	s := schedule{}
	base := config.MakeGasMapForTests()
	for _, sec := range keys(base) {
		s[sec] = map[string]uint64{}
		var in []string
		for k := range base[sec] {
			in = append(in, k)
		}
		sort.Strings(in)
		for _, k := range in {
			s[sec][k] = uint64(1 + c.R.Intn(500))
			if c.R.Intn(40) == 0 {
				s[sec][k] = uint64(1 + c.R.Intn(1<<16))
			}
		}
	}
	return s
}

func keys(m schedule) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}

func copySchedule(s schedule) schedule {
	t := schedule{}
	for k, v := range s {
		t[k] = map[string]uint64{}
		for a, b := range v {
			t[k][a] = b
		}
	}
	return t
}

// spoil makes a complete schedule one which must be refused.
func spoil(c *run.Case, s schedule) (schedule, string) {
	t := copySchedule(s)
	var secs []string
	for _, k := range keys(t) {
		if k != "BuiltInCost" { // prices of the protocol, not of this VM
			secs = append(secs, k)
		}
	}
	sec := secs[c.R.Intn(len(secs))]
	var names []string
	for k := range t[sec] {
		if !unpriced[k] {
			names = append(names, k)
		}
	}
	sort.Strings(names)
	name := names[c.R.Intn(len(names))]
	switch k := c.R.Intn(8); {
	case k == 0:
		delete(t, sec)
		return t, "section " + sec + " missing"
	case k == 1:
		t[sec] = nil
		return t, "section " + sec + " empty"
	case k == 2:
		return schedule{}, "empty schedule"
	case k == 3:
		return nil, "no schedule"
	case k == 4 && sec == "WASMOpcodeCost":
		t[sec][name] = 1<<32 + uint64(c.R.Intn(1000))
		return t, "price " + sec + "." + name + " larger than the engine can hold"
	case k < 6:
		delete(t[sec], name)
		return t, "price " + sec + "." + name + " missing"
	}
	t[sec][name] = 0
	return t, "price " + sec + "." + name + " zero"
}

// unpriced are names in the schedule which this version has no use for.
var unpriced = map[string]bool{}

func usedNames() {
	gas := config.MakeGasMapForTests()
	for _, sec := range keys(gas) {
		for k, v := range gas[sec] {
			delete(gas[sec], k)
			if _, err := config.CreateGasConfig(gas); err == nil {
				unpriced[k] = true
			}
			gas[sec][k] = v
		}
	}
}

// reference is what a probe gives on a VM which knows no other schedule.
func reference(s schedule, list []byte) string {
	ch := addProbe(buildChain(1, s))
	vm, err := host.NewArwenVM(ch, params(ch, copySchedule(s)))
	must(err)
	return answerOf(vm.RunSmartContractCall(probeTx(list, 1<<40)))
}

func answerOf(o *vmcommon.VMOutput, err error) string {
	if err != nil || o == nil {
		return fmt.Sprint("no result: ", err)
	}
	return chain.Canon(o)
}

// someCalls picks host calls to probe.
func someCalls(c *run.Case) []byte {
	var l []int
	for n := 5 + c.R.Intn(60); n > 0; n-- {
		l = append(l, probeable[c.R.Intn(len(probeable))])
	}
	return u16(l...)
}

func caseP20(c *run.Case) {
	mw.SetBehaviour(behaviour)
	probing = nil
	switch k := c.R.Intn(20); {
	case k < 11:
		scheduleHistory(c)
	case k < 19:
		scheduleConcurrent(c)
	default:
		scheduleDriver(c)
	}
}

// opcodesAre compares the prices in the engine with a schedule.
func opcodesAre(c *run.Case, s schedule, when string) bool {
	for i, n := range opcodes {
		if uint64(mw.OpcodeCost(i)) != s["WASMOpcodeCost"][n] {
			c.Failf("price of an instruction", "%s: instruction %d (%s) costs %d, the schedule in force says %d", when, i, n, mw.OpcodeCost(i), s["WASMOpcodeCost"][n])
			return false
		}
	}
	c.Count("instruction prices compared", int64(len(opcodes)))
	return true
}

// scheduleHistory: changes and executions one after another; every execution
// has the outcome it has on a VM created with the schedule in force.
func scheduleHistory(c *run.Case) {
	cur := randSchedule(c)
	first := cur
	seed := c.R.Int63()
	a := addProbe(buildChain(seed, cur))
	vm, err := host.NewArwenVM(a, params(a, copySchedule(cur)))
	must(err)
	h, ok := vm.(interface{ GetGasScheduleMap() config.GasScheduleMap })
	if !ok {
		panic("no GetGasScheduleMap")
	}
	shape := ""
	for step := 3 + c.R.Intn(8); step > 0; step-- {
		switch k := c.R.Intn(8); {
		case k < 2:
			cur = randSchedule(c)
			if c.R.Intn(3) == 0 { // one price only
				cur2 := copySchedule(h.GetGasScheduleMap())
				sec := keys(cur2)[c.R.Intn(len(cur2))]
				for n := range cur2[sec] {
					if v := cur[sec][n]; v%7 == 0 {
						cur2[sec][n] = v
					}
				}
				cur = cur2
			}
			vm.GasScheduleChange(copySchedule(cur))
			c.Count("schedule changes", 1)
			shape += "C"
			c.Tracef("change")
		case k == 2:
			bad, why := spoil(c, randSchedule(c))
			vm.GasScheduleChange(bad)
			c.Count("refused schedules", 1)
			c.Tracef("refused: %s", why)
			shape += "R"
			b2 := addProbe(buildChain(seed, cur))
			if c.R.Intn(2) == 0 {
				keep := make([]uint32, len(opcodes))
				for i := range keep {
					keep[i] = mw.OpcodeCost(i)
				}
				if _, err := host.NewArwenVM(b2, params(b2, bad)); err == nil {
					c.Failf("a VM with an incomplete schedule", "a VM was created with a schedule with %s", why)
					return
				}
				for i := range keep {
					if keep[i] != mw.OpcodeCost(i) {
						c.Failf("prices of a refused VM", "refusing to create a VM (%s) changed the price of instruction %s from %d to %d", why, opcodes[i], keep[i], mw.OpcodeCost(i))
						return
					}
				}
			}
		default:
			var tx interface{} = probeTx(someCalls(c), uint64(1<<40)>>uint(c.R.Intn(30)))
			if c.R.Intn(2) == 0 {
				tx = randRun(newR(c.R.Int63()))
			} else {
				c.Count("probes", 1)
			}
			b := a.Twin(first)
			got := answerOf(runOn(vm, cloneTx(tx)))
			if !opcodesAre(c, cur, "after an execution") {
				return
			}
			a.DropSnapshots()
			vm2, err := host.NewArwenVM(b, params(b, copySchedule(cur)))
			must(err)
			want := answerOf(runOn(vm2, cloneTx(tx)))
			if got != want {
				c.Failf("outcome under a changed schedule", "with the VM whose schedule was changed:\n%s\nwith a VM created with that schedule:\n%s", got, want)
				return
			}
			shape += "X"
			c.Count("executions compared", 1)
			a.Cur.Nonce++
		}
		if !opcodesAre(c, cur, "after a step") {
			return
		}
		if got := h.GetGasScheduleMap(); fmt.Sprint(got) != fmt.Sprint(cur) {
			c.Failf("schedule reported", "GetGasScheduleMap is not the schedule in force")
			return
		}
	}
	c.Distinct("history", shape)
}

func cloneTx(tx interface{}) interface{} {
	if d, ok := tx.(*vmcommon.ContractCreateInput); ok {
		n := *d
		return &n
	}
	n := *tx.(*vmcommon.ContractCallInput)
	return &n
}

// ---- schedules changed by other goroutines

type regOp struct {
	write      bool
	k          int
	start, end int64
}

// atomicRegister decides whether reads and writes with these intervals can
// be put in one order in which every read sees the last write.
func atomicRegister(ops []regOp, first int) bool {
	seen := map[string]bool{}
	var try func(done uint64, val int) bool
	try = func(done uint64, val int) bool {
		if done == 1<<uint(len(ops))-1 {
			return true
		}
		key := fmt.Sprint(done, val)
		if seen[key] {
			return false
		}
		seen[key] = true
		limit := int64(1 << 62) // no operation can go before one which had ended
		for i, o := range ops {
			if done>>uint(i)&1 == 0 && o.end < limit {
				limit = o.end
			}
		}
		for i, o := range ops {
			if done>>uint(i)&1 == 1 || o.start > limit || (!o.write && o.k != val) {
				continue
			}
			v := val
			if o.write {
				v = o.k
			}
			if try(done|1<<uint(i), v) {
				return true
			}
		}
		return false
	}
	return try(0, first)
}

// scheduleConcurrent: goroutines change the schedule while executions run.
func scheduleConcurrent(c *run.Case) {
	n := 3 + c.R.Intn(4)
	list := someCalls(c)
	var ss []schedule
	ids := map[string]int{}
	for k := 0; k < n; k++ {
		s := randSchedule(c)
		ss = append(ss, s)
		ids[reference(s, list)] = k
	}
	if len(ids) != n {
		panic(run.Skip{})
	}
	ch := addProbe(buildChain(1, ss[0]))
	vm, err := host.NewArwenVM(ch, params(ch, copySchedule(ss[0])))
	must(err)
	var clock int64
	tick := func() int64 { return atomic.AddInt64(&clock, 1) }
	var mu sync.Mutex
	var ops []regOp
	add := func(o regOp) { mu.Lock(); ops = append(ops, o); mu.Unlock() }
	writers := 1 + c.R.Intn(2)
	plan := make([][]int, writers) // schedules, or -1 for a refused one
	for k := 1; k < n; k++ {
		w := c.R.Intn(writers)
		plan[w] = append(plan[w], k)
		if c.R.Intn(4) == 0 {
			plan[w] = append(plan[w], -1)
		}
	}
	bad, why := spoil(c, randSchedule(c))
	at := c.R.Intn(len(list)/2 + 1) // where executions let others run
	pause := time.Duration(c.R.Intn(300)) * time.Microsecond
	nap := make([]time.Duration, 16)
	for i := range nap {
		nap[i] = time.Duration(c.R.Intn(400)) * time.Microsecond
	}
	var inside int32 // an execution is in a probe
	release := make(chan struct{}, 100)
	probing = func(i int) {
		if i != at {
			return
		}
		atomic.StoreInt32(&inside, 1)
		select {
		case release <- struct{}{}:
		default:
		}
		time.Sleep(pause)
		atomic.StoreInt32(&inside, 0)
	}
	defer func() { probing = nil }()
	overlaps := int64(0)
	ok := within(c, 60*time.Second, "schedule changes and executions", func() {
		var wg sync.WaitGroup
		for w := range plan {
			w := w
			wg.Add(1)
			go func() {
				defer wg.Done()
				c.Guard(func() {
					for j, k := range plan[w] {
						select { // often in the middle of an execution
						case <-release:
						case <-time.After(nap[(w*5+j)%16]):
						}
						if atomic.LoadInt32(&inside) == 1 {
							atomic.AddInt64(&overlaps, 1)
						}
						if k < 0 {
							vm.GasScheduleChange(bad)
							continue
						}
						o := regOp{write: true, k: k, start: tick()}
						vm.GasScheduleChange(copySchedule(ss[k]))
						o.end = tick()
						add(o)
					}
				})
			}()
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.Guard(func() {
				for i := 0; i < 6+n; i++ {
					o := regOp{start: tick()}
					got := answerOf(vm.RunSmartContractCall(probeTx(list, 1<<40)))
					o.end = tick()
					k, known := ids[got]
					if !known {
						c.Failf("execution with mixed prices", "an execution had the outcome of none of the %d schedules while the schedule was changed (one refused: %s):\n%s", n, why, got)
						return
					}
					o.k = k
					add(o)
				}
			})
		}()
		wg.Wait()
	})
	if !ok || c.Failed() {
		return
	}
	c.Count("changes begun inside an execution", overlaps)
	c.Count("concurrent executions", int64(6+n))
	if !atomicRegister(ops, 0) {
		c.Failf("order of schedules", "no order of these changes and executions explains the prices (write, schedule, start, end): %v", ops)
		return
	}
	var order []string
	sort.Slice(ops, func(i, j int) bool { return ops[i].start < ops[j].start })
	for _, o := range ops {
		order = append(order, fmt.Sprint(o.write, o.k))
	}
	c.Distinct("concurrent", strings.Join(order, " "))
}

// scheduleDriver: the same through the driver, whose VM process may be ended.
func scheduleDriver(c *run.Case) {
	cur := randSchedule(c)
	list := someCalls(c)
	ref := reference(cur, list)
	ch := addProbe(buildChain(1, cur))
	mk := marshaling.JSON
	if c.R.Intn(2) == 0 {
		mk = marshaling.Gob
	}
	d := newDriver(c, ch, copySchedule(cur), "good", 60000, mk)
	if d == nil {
		return
	}
	defer closeDriver(d)
	shape := ""
	for i := 4 + c.R.Intn(6); i > 0; i-- {
		switch k := c.R.Intn(8); {
		case k < 2:
			cur = randSchedule(c)
			ref = reference(cur, list)
			d.GasScheduleChange(copySchedule(cur))
			shape += "C"
		case k == 2:
			bad, why := spoil(c, randSchedule(c))
			d.GasScheduleChange(bad)
			c.Tracef("refused: %s", why)
			shape += "R"
		case k == 3:
			if c.R.Intn(2) == 0 {
				_ = d.Close()
			} else {
				endChildren()
				time.Sleep(5 * time.Millisecond)
			}
			shape += "K"
			c.Count("VM processes ended", 1)
		default:
			tries := 0
			var o *vmcommon.VMOutput
			var err error
			for ; tries < 3; tries++ { // the first may find the process gone
				if o, err = d.RunSmartContractCall(probeTx(list, 1<<40)); err == nil {
					break
				}
			}
			shape += "X"
			if got := answerOf(o, err); got != ref {
				c.Failf("outcome through the driver", "history %s: the driver gives\n%s\nexpected with the schedule in force\n%s", shape, got, ref)
				return
			}
			c.Count("executions through the driver", 1)
		}
	}
	c.Distinct("driver", shape)
}

// endChildren kills the VM processes of this worker.
func endChildren() {
	for _, p := range childPids() {
		_ = syscall.Kill(p, syscall.SIGKILL)
	}
}

func childPids() (l []int) {
	tasks, _ := filepath.Glob("/proc/self/task/*/children")
	for _, t := range tasks {
		b, _ := os.ReadFile(t)
		for _, p := range strings.Fields(string(b)) {
			if n, err := strconv.Atoi(p); err == nil {
				l = append(l, n)
			}
		}
	}
	return
}

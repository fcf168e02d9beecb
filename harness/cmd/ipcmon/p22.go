package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"

	"verif/harness/chain"
	"verif/harness/mw"
	"verif/harness/run"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/host"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/arwenpart"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/nodepart"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

func newR(seed int64) *rand.Rand { return rand.New(rand.NewSource(seed)) }

func caseP22(c *run.Case) {
	switch k := c.R.Intn(20); {
	case k < 5:
		ordered(c)
	case k < 10:
		faulty(c)
	case k < 14:
		hostileVM(c)
	case k < 18:
		hostileNode(c)
	case k < 19:
		driverFaults(c)
	default:
		driverConcurrent(c)
	}
}

// driverConcurrent uses one driver from several goroutines: every question
// must get its own answer.
func driverConcurrent(c *run.Case) {
	gas := config.MakeGasMapForTests()
	seed := c.R.Int63()
	type job struct {
		seed int64
		want string
	}
	mw.SetBehaviour(script)
	var jobs []job
	for len(jobs) < 6 {
		j := job{seed: c.R.Int63()}
		a := buildChain(seed, gas)
		vm, err := host.NewArwenVM(a, params(a, gas))
		must(err)
		a.Events = nil
		o, e := runOn(vm, randRun(newR(j.seed)))
		stable := true // built-in functions change the chain at once
		for _, ev := range a.Events {
			stable = stable && ev.Kind != "BuiltIn"
		}
		if stable {
			j.want = fmt.Sprint(e) + chain.Canon(o)
			jobs = append(jobs, j)
		}
	}
	mk, mn := randMarsh(c)
	b := buildChain(seed, gas)
	d := newDriver(c, b, gas, "good", 60000, mk)
	if d == nil {
		return
	}
	defer closeDriver(d)
	plan := make([][]int, 2+c.R.Intn(3))
	for g := range plan {
		for n := 4 + c.R.Intn(8); n > 0; n-- {
			plan[g] = append(plan[g], c.R.Intn(10))
		}
	}
	within(c, 100*time.Second, "driver used by several goroutines", func() {
		var wg sync.WaitGroup
		for _, ops := range plan {
			ops := ops
			wg.Add(1)
			go func() {
				defer wg.Done()
				c.Guard(func() {
					for _, op := range ops {
						if c.Failed() {
							return
						}
						switch {
						case op == 9:
							if v := d.GetVersion(); v != childVersion {
								c.Failf("concurrent: version", "%q", v)
							}
						case op == 8:
							if err := d.DiagnoseWait(1); err != nil {
								c.Failf("concurrent: wait", "%v", err)
							}
						case op >= 6:
							d.GasScheduleChange(config.MakeGasMapForTests())
						default:
							j := jobs[op%len(jobs)]
							o, e := runOn(d, randRun(newR(j.seed)))
							if got := fmt.Sprint(e) + chain.Canon(o); got != j.want {
								c.Failf("concurrent: not its own answer", "alone:\n%s\nwith others:\n%s", j.want, got)
							}
						}
						c.Count("concurrent driver operations", 1)
					}
				})
			}()
		}
		wg.Wait()
	})
	c.Distinct("concurrent", len(plan), mn, fmt.Sprint(plan))
}

// within runs fn in a goroutine and reports a hang.
func within(c *run.Case, d time.Duration, what string, fn func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		c.Guard(fn)
	}()
	select {
	case <-done:
		return true
	case <-time.After(d):
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		var keep []string
		for _, g := range strings.Split(string(buf), "\n\n") {
			if strings.Contains(g, "arwen-wasm-vm") {
				keep = append(keep, g)
			}
		}
		c.Failf("hang: "+what, "no end after %v\n%s", d, strings.Join(keep, "\n\n"))
		return false
	}
}

// randMessage makes a random message and its comparable form.
func randMessage(f *filler) common.MessageHandler {
	switch f.r.Intn(12) {
	case 0:
		return common.NewMessageBlockchainNewAddressRequest(f.bytes(), f.u64(), f.bytes())
	case 1:
		return common.NewMessageBlockchainGetStorageDataResponse(f.bytes(), f.err())
	case 2:
		return common.NewMessageBlockchainGetAllStateRequest(f.bytes())
	case 3:
		m := map[string][]byte{}
		for k := f.r.Intn(4); k > 0; k-- {
			m[string(f.bytes())] = f.bytes()
		}
		return common.NewMessageBlockchainGetAllStateResponse(m, f.err())
	case 4:
		return common.NewMessageContractDeployRequest(&vmcommon.ContractCreateInput{VMInput: f.input(), ContractCode: f.bytes(), ContractCodeMetadata: f.bytes()})
	case 5:
		in := f.callInput()
		in.Function = "plain"
		return common.NewMessageContractCallRequest(in)
	case 6:
		o := f.output()
		o.ReturnMessage = "plain"
		return common.NewMessageContractResponse(o, nil)
	case 7:
		return common.NewMessageBlockchainSaveCompiledCodeRequest(f.bytes(), f.bytes())
	case 8:
		return common.NewMessageBlockchainLastNonceResponse(f.u64())
	case 9:
		return common.NewMessageVersionResponse("some version")
	case 10:
		return common.NewMessageDiagnoseWaitRequest(uint32(f.u64() % 1000))
	}
	return common.NewMessageBlockchainGetESDTTokenResponse(f.token(), nil)
}

// relay copies from r to w in random pieces with random pauses, until r ends.
func relay(r *os.File, w *os.File, rnd *rand.Rand, slow bool, change func(stream []byte) []byte) {
	defer w.Close()
	defer r.Close()
	if change != nil {
		b, _ := io.ReadAll(r)
		b = change(b)
		for len(b) > 0 {
			n := 1 + rnd.Intn(len(b))
			if _, err := w.Write(b[:n]); err != nil {
				return
			}
			b = b[n:]
			pause(rnd, slow)
		}
		return
	}
	buf := make([]byte, 1+rnd.Intn(70000))
	for pieces := 0; ; {
		max := 1 + rnd.Intn(len(buf))
		if pieces > 3000 {
			max = len(buf)
		}
		n, err := r.Read(buf[:max])
		b := buf[:n]
		if pieces > 3000 { // enough of them: the rest goes fast
			if len(buf) < 65536 {
				buf = make([]byte, 65536)
			}
			if _, err := w.Write(b); err != nil {
				return
			}
			b = nil
		}
		for len(b) > 0 {
			k := 1 + rnd.Intn(len(b))
			if rnd.Intn(4) == 0 {
				k = 1
			}
			if _, err := w.Write(b[:k]); err != nil {
				return
			}
			b = b[k:]
			pieces++
			if rnd.Intn(8) == 0 {
				pause(rnd, slow)
			}
		}
		if err != nil {
			return
		}
	}
}

func pause(r *rand.Rand, slow bool) {
	if slow {
		time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
	} else {
		runtime.Gosched()
	}
}

// split makes a transport with a relay in the middle.
func split(rnd *rand.Rand, change func([]byte) []byte) (r, w *os.File) {
	a, w, err := os.Pipe()
	must(err)
	r, b, err := os.Pipe()
	must(err)
	go relay(a, b, rnd, rnd.Intn(3) == 0, change)
	return r, w
}

// ordered sends random messages both ways.
func ordered(c *run.Case) {
	mk, mn := randMarsh(c)
	mm := marshaling.CreateMarshalizer(mk)
	size := []int{10, 100, 5000, 400000}[c.R.Intn(4)]
	r1, w1 := split(newR(c.R.Int63()), nil)
	r2, w2 := split(newR(c.R.Int63()), nil)
	var ends [2]interface {
		Send(common.MessageHandler) error
		Receive(int) (common.MessageHandler, error)
	}
	ends[0] = common.NewMessengerPipes("A", r2, w1, mm)
	ends[1] = common.NewMessengerPipes("B", r1, w2, mm)
	defer func() {
		for _, f := range []*os.File{r1, w1, r2, w2} {
			f.Close()
		}
	}()
	f := &filler{newR(c.R.Int63()), size}
	for turn := 0; turn < 2+c.R.Intn(6) && !c.Failed(); turn++ {
		from, to := ends[turn%2], ends[1-turn%2]
		var sent []common.MessageHandler
		for k := 1 + c.R.Intn(4); k > 0; k-- {
			sent = append(sent, randMessage(f))
		}
		timeout := c.R.Intn(2) * 60000
		go c.Guard(func() {
			for _, m := range sent {
				if err := from.Send(m); err != nil {
					c.Failf("send fails "+mn, "%T: %v", m, err)
					return
				}
			}
		})
		within(c, 60*time.Second, "receiving", func() {
			for i, m := range sent {
				got, err := to.Receive(timeout)
				if err != nil {
					c.Failf("message lost "+mn, "message %d of %d, %T: %v", i, len(sent), m, err)
					return
				}
				if !same(interface{}(m), interface{}(got)) {
					c.Failf("message changed "+mn, "%#v\nbecame\n%#v", m, got)
					return
				}
				c.Count("messages delivered", 1)
				b, _ := mm.Marshal(m)
				if len(b) > 65536 {
					c.Count("messages over 64 KB", 1)
				}
				c.Distinct("ordered", mn, m.GetKind(), len(b)/4096)
			}
		})
	}
}

var faults = []string{"cut", "length", "kind", "drop", "repeat", "swap", "body", "junk", "silence"}

// faulty sends messages through a transport with one fault.
func faulty(c *run.Case) {
	mk, mn := randMarsh(c)
	mm := marshaling.CreateMarshalizer(mk)
	fault := faults[c.R.Intn(len(faults))]
	f := &filler{newR(c.R.Int63()), []int{10, 200, 3000}[c.R.Intn(3)]}
	var sent []common.MessageHandler
	n := 2 + c.R.Intn(4)
	for i := 0; i < n; i++ {
		sent = append(sent, randMessage(f))
	}
	at := c.R.Intn(n)
	if fault == "swap" || fault == "drop" {
		at = c.R.Intn(n - 1)
	}
	rnd := newR(c.R.Int63())
	change := func(s []byte) []byte {
		var fr [][]byte
		for len(s) >= 8 {
			l := 8 + int(binary.LittleEndian.Uint32(s))
			if l > len(s) {
				break
			}
			fr, s = append(fr, append([]byte{}, s[:l]...)), s[l:]
		}
		if len(fr) != n || len(s) > 0 {
			c.Failf("stream is not a sequence of frames", "%d frames for %d messages and %d bytes", len(fr), n, len(s))
			return nil
		}
		x := fr[at]
		switch fault {
		case "cut":
			fr[at] = x[:rnd.Intn(len(x))]
			fr = fr[:at+1]
		case "silence":
			fr[at] = x[:rnd.Intn(len(x))]
			fr = fr[:at+1]
		case "length":
			l := binary.LittleEndian.Uint32(x)
			l2 := l
			for l2 == l {
				switch rnd.Intn(4) {
				case 0:
					l2 = l - 1 - uint32(rnd.Intn(int(l)))
				case 1:
					l2 = l + 1 + uint32(rnd.Intn(50))
				case 2:
					l2 = l ^ 1<<uint(rnd.Intn(32))
				case 3:
					l2 = 0xffffffff - uint32(rnd.Intn(1000))
				}
			}
			binary.LittleEndian.PutUint32(x, l2)
		case "kind":
			k := binary.LittleEndian.Uint32(x[4:])
			k2 := k
			for k2 == k {
				k2 = uint32(rnd.Intn(int(common.LastKind) + 3))
				if rnd.Intn(5) == 0 {
					k2 = rnd.Uint32()
				}
			}
			binary.LittleEndian.PutUint32(x[4:], k2)
		case "drop":
			fr = append(fr[:at], fr[at+1:]...)
		case "repeat":
			fr = append(fr[:at+1], fr[at:]...)
		case "swap":
			fr[at], fr[at+1] = fr[at+1], fr[at]
		case "body": // no longer a value of this encoding
			if mn == "gob" {
				x[8] = 0x00
				for i := 9; i < len(x); i++ {
					x[i] = byte(rnd.Intn(256))
				}
			} else {
				x[8+rnd.Intn(len(x)-8)] = []byte{0, 1, 0x1f}[rnd.Intn(3)]
			}
		case "junk":
			j := make([]byte, 8+rnd.Intn(40))
			rnd.Read(j)
			fr[at] = append(j, x...)
		}
		return bytes.Join(fr, nil)
	}
	a, w, err := os.Pipe()
	must(err)
	r, b, err := os.Pipe()
	must(err)
	defer r.Close()
	hold := make(chan struct{})
	defer close(hold)
	go func() {
		all, _ := io.ReadAll(a)
		a.Close()
		_, _ = b.Write(change(all))
		if fault == "silence" {
			<-hold // the peer stays, but sends nothing more
		}
		b.Close()
	}()
	from := common.NewMessengerPipes("A", nil, w, mm)
	to := common.NewMessengerPipes("B", r, nil, mm)
	for _, m := range sent {
		if err := from.Send(m); err != nil {
			c.Failf("send fails "+mn, "%T: %v", m, err)
			return
		}
	}
	w.Close()
	got := 0
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	timeout := 0
	if fault == "silence" {
		timeout = 10 + c.R.Intn(60)
	} else if c.R.Intn(2) == 0 {
		timeout = 20000
	}
	ended := false
	if !within(c, 60*time.Second, "receiving after the fault "+fault, func() {
		for got <= n+1 {
			m, err := to.Receive(timeout)
			if err != nil {
				ended = true
				break
			}
			if got >= n || !same(interface{}(m), interface{}(sent[got])) {
				c.Failf("wrong message after the fault "+fault+" "+mn, "fault in message %d of %d; message %d arrived as %#v", at, n, got, m)
				return
			}
			got++
			c.Count("messages delivered", 1)
		}
	}) || c.Failed() {
		return
	}
	runtime.ReadMemStats(&after)
	if used := int64(after.TotalAlloc) - int64(before.TotalAlloc); used > 1<<28 {
		c.Failf("memory: a header makes the receiver allocate what never arrives", "%d MB allocated while reading a stream with fault %s", used>>20, fault)
	}
	if !ended {
		c.Failf("no error after the fault "+fault+" "+mn, "%d messages of %d", got, n)
	}
	lim := at + 1 // the damaged message itself must not count unless it is intact
	if fault == "length" && mn == "gob" || fault == "repeat" {
		lim = at + 1
	} else if got > at && fault != "repeat" && fault != "length" {
		c.Failf("message delivered despite the fault "+fault+" "+mn, "%d delivered, fault at %d", got, at)
	}
	if got > lim {
		c.Failf("messages delivered beyond the fault "+fault+" "+mn, "%d delivered, fault at %d", got, at)
	}
	if got < at {
		c.Failf("messages before the fault are lost: "+fault+" "+mn, "%d delivered, fault at %d", got, at)
	}
	c.Count("faults ended by an error", 1)
	if fault == "silence" {
		c.Count("slow peers", 1)
	}
	c.Distinct("faulty", fault, mn, at, got)
}

// badFrame makes something the other side does not expect.
func badFrame(c *run.Case, nonce uint32, mm marshaling.Marshalizer, f *filler) (string, []byte) {
	any := func() common.MessageHandler {
		return common.CreateMessage(common.MessageKind(f.r.Intn(int(common.LastKind))))
	}
	switch f.r.Intn(10) {
	case 0: // any kind, empty of content
		m := any()
		return fmt.Sprintf("empty kind %d", m.GetKind()), wire(m, nonce, mm)
	case 1:
		m := randMessage(f)
		return fmt.Sprintf("random kind %d", m.GetKind()), wire(m, nonce, mm)
	case 2: // the kinds of header and body differ
		b := wire(randMessage(f), nonce, mm)
		k := uint32(f.r.Intn(int(common.LastKind) + 2))
		binary.LittleEndian.PutUint32(b[4:], k)
		return "other kind in the header", b
	case 3:
		m := any()
		t := common.MessageKind(f.r.Intn(200))
		k := m.GetKind()
		m.SetKind(t)
		b := wire(m, nonce, mm)
		binary.LittleEndian.PutUint32(b[4:], uint32(k))
		return "other kind in the body", b
	case 4:
		m := any()
		k := f.r.Uint32()
		if f.r.Intn(2) == 0 {
			k = uint32(common.LastKind) + uint32(f.r.Intn(3))
		}
		m.SetKind(common.MessageKind(k))
		return "unknown kind", wire(m, nonce, mm)
	case 5:
		m := randMessage(f)
		return "wrong nonce", wire(m, nonce+1+uint32(f.r.Intn(5)), mm)
	case 6:
		b := make([]byte, 8+f.r.Intn(60))
		f.r.Read(b)
		b[3] = 0
		return "junk", b
	case 7:
		b := wire(randMessage(f), nonce, mm)
		return "cut", b[:f.r.Intn(len(b))]
	case 8:
		k := uint32(f.r.Intn(int(common.LastKind)))
		body := []byte(fmt.Sprintf(`{"DialogueNonce":%d,"Kind":%d}`, nonce, k))
		return fmt.Sprintf("bare kind %d", k), frame(k, len(body), body)
	}
	k := uint32(f.r.Intn(int(common.LastKind)))
	body := []byte(fmt.Sprintf(`{"DialogueNonce":%d,"Kind":%d,"VmOutput":null,"SerializableVMOutput":{"CorrectedOutputAccounts":[null,{"StorageUpdates":[null]}],"Logs":[null]},"Result":{"Keys":["YQ=="],"Values":[]},"Input":null}`, nonce, k))
	return fmt.Sprintf("holes in kind %d", k), frame(k, len(body), body)
}

var answers = map[common.MessageKind]common.MessageKind{common.ContractCallRequest: common.ContractResponse, common.ContractDeployRequest: common.ContractResponse, common.VersionRequest: common.VersionResponse, common.DiagnoseWaitRequest: common.DiagnoseWaitResponse, common.GasScheduleChangeRequest: common.GasScheduleChangeResponse}

// hostileVM is a VM process that sends unexpected things to a NodePart.
func hostileVM(c *run.Case) {
	mk, mn := randMarsh(c)
	mm := marshaling.CreateMarshalizer(mk)
	p := newPipes()
	defer p.close()
	gas := config.MakeGasMapForTests()
	ch := buildChain(c.R.Int63(), gas)
	loop := []int{1, 2, 5, 30, 100}[c.R.Intn(5)]
	node, err := nodepart.NewNodePart(p.nodeIn, p.nodeOut, ch, nodepart.Config{MaxLoopTime: loop}, mm)
	must(err)
	f := &filler{newR(c.R.Int63()), 100}
	var req common.MessageHandler
	switch c.R.Intn(5) {
	case 0:
		req = common.NewMessageVersionRequest()
	case 1:
		req = common.NewMessageGasScheduleChangeRequest(gas)
	case 2:
		req = common.NewMessageDiagnoseWaitRequest(1)
	default:
		req = common.NewMessageContractCallRequest(f.callInput())
	}
	queries, what := c.R.Intn(3), ""
	closeAfter := c.R.Intn(2) == 0
	slow := c.R.Intn(3) == 0
	go c.Guard(func() {
		if _, _, err := readFrame(p.vmIn); err != nil {
			return
		}
		nonce := uint32(2)
		for k := 0; k < queries; k++ {
			m := common.MessageHandler(common.NewMessageBlockchainGetStorageDataRequest(chain.SC(0), []byte("key")))
			b := wire(m, nonce, mm)
			if slow { // parts of a frame with pauses around the limit
				time.Sleep(time.Duration(f.r.Intn(loop*1000)) * time.Microsecond)
			}
			if f.r.Intn(2) == 0 { // a large one, which takes time to read
				b = wire(common.NewMessageBlockchainSaveCompiledCodeRequest([]byte("h"), make([]byte, 300000*f.r.Intn(4))), nonce, mm)
			}
			if _, err := p.vmOut.Write(b); err != nil {
				return
			}
			if _, _, err := readFrame(p.vmIn); err != nil {
				return
			}
			nonce += 2
		}
		var b []byte
		what, b = badFrame(c, nonce, mm, f)
		_, _ = p.vmOut.Write(b)
		if closeAfter {
			p.vmOut.Close()
			p.vmIn.Close()
		}
	})
	var res common.MessageHandler
	start := time.Now()
	if !within(c, 30*time.Second, "node part against a hostile VM", func() { res, err = node.StartLoop(req) }) || c.Failed() {
		return
	}
	took := time.Since(start)
	if took > 15*time.Second {
		c.Failf("slow: node part against a hostile VM", "%v with a limit of %d ms", took, loop)
	}
	if err == nil {
		if res == nil || res.GetKind() != answers[req.GetKind()] {
			c.Failf("question paired with another answer", "%T answered by %T %+v (%s)", req, res, res, what)
			return
		}
		if r, ok := res.(*common.MessageContractResponse); ok {
			// what the driver does with it
			within(c, 10*time.Second, "converting", func() {
				if r.SerializableVMOutput != nil { // the driver refuses the others
					_ = r.SerializableVMOutput.ConvertToVMOutput()
				}
			})
		} else if answers[req.GetKind()] == common.ContractResponse {
			c.Failf("answer of the wrong type", "%T answered by %T", req, res)
		}
	}
	c.Count("hostile VM dialogues", 1)
	c.Distinct("hostile VM", mn, what, queries, err == nil)
}

// hostileNode is a node that sends unexpected things to an ArwenPart.
func hostileNode(c *run.Case) {
	mk, mn := randMarsh(c)
	mm := marshaling.CreateMarshalizer(mk)
	p := newPipes()
	defer p.close()
	gas := config.MakeGasMapForTests()
	ch := buildChain(c.R.Int63(), gas)
	part, err := arwenpart.NewArwenPart("v", p.vmIn, p.vmOut, params(ch, gas), mm)
	must(err)
	mw.SetBehaviour(script)
	f := &filler{newR(c.R.Int63()), 100}
	what := ""
	during := c.R.Intn(2) == 0
	at := c.R.Intn(8)
	served := 0
	go c.Guard(func() {
		defer p.nodeOut.Close()
		nonce := uint32(1)
		if during { // a real run, whose queries get bad answers
			in := &vmcommon.ContractCallInput{VMInput: f.input(), RecipientAddr: chain.SC(0), Function: "f"}
			in.CallerAddr, in.CallType, in.GasProvided, in.CallValue = chain.User(1), 0, 5000000, f.big().SetInt64(0)
			in.Arguments = [][]byte{seedArg(f.r.Uint64())}
			in.ESDTTransfers = nil
			_, _ = p.nodeOut.Write(wire(common.NewMessageContractCallRequest(in), nonce, mm))
			for {
				k, body, err := readFrame(p.nodeIn)
				if err != nil {
					return
				}
				m := common.CreateMessage(common.MessageKind(k))
				if mm.Unmarshal(m, body) != nil || k == uint32(common.ContractResponse) {
					break
				}
				nonce = m.GetNonce() + 1
				var b []byte
				if served++; served-1 == at {
					what, b = badFrame(c, nonce, mm, f)
				} else {
					b = answer(ch, m, nonce, mm)
				}
				if _, err := p.nodeOut.Write(b); err != nil {
					return
				}
				if strings.HasPrefix(what, "cut") || what == "junk" {
					return
				}
			}
			nonce = 1
		}
		w, b := badFrame(c, nonce, mm, f)
		what += " / " + w
		if w == "unknown kind" || !strings.Contains(w, "kind") || f.r.Intn(2) == 0 {
			_, _ = p.nodeOut.Write(b)
			return
		}
		_, _ = p.nodeOut.Write(b)
		_ = p.nodeIn.SetReadDeadline(time.Now().Add(20 * time.Millisecond))
		_, _, _ = readFrame(p.nodeIn)
	})
	if within(c, 30*time.Second, "VM part against a hostile node", func() { _ = part.StartLoop() }) && !c.Failed() {
		c.Count("hostile node dialogues", 1)
		c.Distinct("hostile node", mn, during, what, served)
	}
}

// answer serves a query from a chain.
func answer(ch *chain.Chain, m common.MessageHandler, nonce uint32, mm marshaling.Marshalizer) []byte {
	switch x := m.(type) {
	case *common.MessageBlockchainGetStorageDataRequest:
		d, err := ch.GetStorageData(x.AccountAddress, x.Index)
		return wire(common.NewMessageBlockchainGetStorageDataResponse(d, err), nonce, mm)
	case *common.MessageBlockchainGetUserAccountRequest:
		h, err := ch.GetUserAccount(x.Address)
		if err != nil || h == nil {
			return wire(common.NewMessageBlockchainGetUserAccountResponse(nil, err), nonce, mm)
		}
		a := h.(*chain.Acct)
		return wire(common.NewMessageBlockchainGetUserAccountResponse(&common.Account{Address: a.Addr, Nonce: a.Nonce, Balance: a.Balance, CodeHash: a.CodeHash, OwnerAddress: a.Owner, CodeMetadata: a.Meta}, nil), nonce, mm)
	case *common.MessageBlockchainGetCodeRequest:
		return wire(common.NewMessageBlockchainGetCodeResponse(ch.GetCode(x.Account)), nonce, mm)
	case *common.MessageBlockchainGetShardOfAddressRequest:
		return wire(common.NewMessageBlockchainGetShardOfAddressResponse(ch.ComputeId(x.Address)), nonce, mm)
	case *common.MessageBlockchainIsSmartContractRequest:
		return wire(common.NewMessageBlockchainIsSmartContractResponse(ch.IsSmartContract(x.Address)), nonce, mm)
	case *common.MessageBlockchainIsPayableRequest:
		ok, err := ch.IsPayable(x.Address)
		return wire(common.NewMessageBlockchainIsPayableResponse(ok, err), nonce, mm)
	case *common.MessageBlockchainCurrentEpochRequest:
		return wire(common.NewMessageBlockchainCurrentEpochResponse(ch.CurrentEpoch()), nonce, mm)
	case *common.MessageBlockchainGetCompiledCodeRequest:
		return wire(common.NewMessageBlockchainGetCompiledCodeResponse(false, nil), nonce, mm)
	}
	// requests are followed by the kind of their answer
	r := common.CreateMessage(m.GetKind() + 1)
	if x, ok := r.(*common.MessageBlockchainGetBuiltinFunctionNamesResponse); ok {
		x.Result = vmcommon.FunctionNames{}
	}
	return wire(r, nonce, mm)
}

// driverFaults lets the driver's child misbehave, then behave.
func driverFaults(c *run.Case) {
	gas := config.MakeGasMapForTests()
	seed := c.R.Int63()
	a, b := buildChain(seed, gas), buildChain(seed, gas)
	big := bytes.Repeat([]byte{7}, 200000)
	for _, ch := range []*chain.Chain{a, b} {
		ch.Accts[string(chain.SC(0))].Storage["big"] = big
	}
	loop := 150 + c.R.Intn(200)
	mode := badModes[c.R.Intn(len(badModes))]
	variant := []string{"exit", "stay"}[c.R.Intn(2)]
	if strings.HasPrefix(mode, "late") {
		variant = fmt.Sprint(loop + 1 + c.R.Intn(100))
	}
	os.Setenv("VERIF_IPC_VARIANT", variant)
	op := c.R.Intn(4)
	mk, mn := randMarsh(c)
	var d *nodepart.ArwenDriver
	if !within(c, 30*time.Second, "starting "+mode, func() { d = newDriver(c, b, gas, mode, loop, mk) }) || d == nil {
		return
	}
	defer closeDriver(d)
	tx := randRun(newR(seed))
	switch x := tx.(type) { // sometimes more than a pipe takes
	case *vmcommon.ContractCallInput:
		if c.R.Intn(2) == 0 || mode == "hang-no-read" {
			x.Arguments = append(x.Arguments, big)
		}
	case *vmcommon.ContractCreateInput:
		if c.R.Intn(2) == 0 || mode == "hang-no-read" {
			x.Arguments = append(x.Arguments, big)
		}
	}
	start := time.Now()
	if !within(c, 30*time.Second, fmt.Sprintf("driver with a child that does %s", mode), func() {
		switch op {
		case 0:
			if v := d.GetVersion(); v != "" {
				c.Failf("driver: version from a broken child", "%q (%s)", v, mode)
			}
		case 1:
			if err := d.DiagnoseWait(1); err == nil {
				c.Failf("driver: no error from a broken child", "DiagnoseWait, %s", mode)
			}
		default:
			if out, err := runOn(d, tx); err == nil {
				c.Failf("driver: no error from a broken child", "%T %s: %s", tx, mode, chain.Canon(out))
			}
		}
	}) || c.Failed() {
		return
	}
	if took := time.Since(start); took > 15*time.Second {
		c.Failf("slow: driver", "%v with a limit of %d ms (%s)", took, loop, mode)
	}
	c.Count("driver faults", 1)
	if strings.HasPrefix(mode, "late") || strings.HasPrefix(mode, "hang") {
		c.Count("slow peers", 1)
	}
	if c.R.Intn(4) == 0 { // the program is missing or cannot run for a while
		self := os.Getenv(common.EnvVarArwenPath)
		if c.R.Intn(3) == 0 {
			os.Setenv(common.EnvVarArwenPath, "/nonexistent/arwen")
		} else {
			f, err := os.CreateTemp("", "verif-arwen")
			must(err)
			f.Close()
			defer os.Remove(f.Name())
			os.Setenv(common.EnvVarArwenPath, f.Name())
		}
		_ = d.Close()
		for i := 0; i < 2; i++ {
			if !within(c, 30*time.Second, "driver without a program", func() {
				if out, err := runOn(d, randRun(newR(seed+1))); err == nil {
					c.Failf("driver: no error without a program", "%s", chain.Canon(out))
				}
			}) || c.Failed() {
				os.Setenv(common.EnvVarArwenPath, self)
				return
			}
		}
		os.Setenv(common.EnvVarArwenPath, self)
		c.Count("driver without a program", 1)
	}
	// the next operation starts a new child and gets its own answer
	os.Setenv("VERIF_IPC_CHILD", "good")
	mw.SetBehaviour(script)
	vm1, err := host.NewArwenVM(a, params(a, gas))
	must(err)
	if strings.HasPrefix(mode, "late") {
		time.Sleep(time.Duration(c.R.Intn(120)) * time.Millisecond) // the stale answer may arrive meanwhile
	}
	var o1, o2 *vmcommon.VMOutput
	var e1, e2 error
	if !within(c, 40*time.Second, "driver after "+mode, func() {
		for try := 0; try < 20; try++ { // starting a process may take longer than the limit
			tx := randRun(newR(seed + 1))
			o2, e2 = runOn(d, tx)
			b.DropSnapshots()
			if !common.IsCriticalError(e2) {
				return
			}
			c.Count("driver retries", 1)
		}
	}) || c.Failed() {
		return
	}
	o1, e1 = runOn(vm1, randRun(newR(seed+1)))
	if fmt.Sprint(e1) != fmt.Sprint(e2) || chain.Canon(o1) != chain.Canon(o2) {
		c.Failf("driver: wrong answer after a broken child", "%s: %v %v\n%s\n%s", mode, e1, e2, chain.Canon(o1), chain.Canon(o2))
		return
	}
	c.Count("driver recoveries", 1)
	c.Distinct("driver", mode, op, variant == "exit", mn)
}

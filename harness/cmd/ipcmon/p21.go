package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"time"

	"verif/harness/chain"
	"verif/harness/mw"
	"verif/harness/run"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/host"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/arwenpart"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/nodepart"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

func caseP21(c *run.Case) {
	switch k := c.R.Intn(10); {
	case k < 4:
		fields(c)
	case k < 8:
		partsDiff(c)
	default:
		driverDiff(c)
	}
}

func fixedP21() []run.Fixed {
	return []run.Fixed{{Name: "start-up arguments of the VM process", Fn: startupArguments}}
}

// startupArguments passes the arguments of the driver through a pipe as at
// the start of the VM process.
func startupArguments(c *run.Case) {
	r, w, err := os.Pipe()
	must(err)
	defer r.Close()
	defer w.Close()
	f := &filler{c.R, 40}
	args := common.ArwenArguments{VMHostParameters: *params(chain.New(), config.MakeGasMapForTests()), LogsMarshalizer: marshaling.Gob, MessagesMarshalizer: marshaling.Gob}
	args.VMType, args.BlockGasLimit, args.ElrondProtectedKeyPrefix = f.bytes(), f.u64(), f.bytes()
	ch := buildChain(1, config.MakeGasMapForTests())
	args.BuiltInFuncContainer = ch.BI
	got := make(chan error, 1)
	var a *common.ArwenArguments
	go c.Guard(func() {
		var err error
		a, err = common.GetArwenArguments(r)
		got <- err
	})
	must(common.SendArwenArguments(w, args))
	select {
	case err = <-got:
	case <-time.After(20 * time.Second):
		c.Failf("startup: hang", "the arguments were not read in 20 s")
		return
	}
	c.Count("startups", 1)
	if err != nil {
		c.Failf("startup: the container of built-in functions cannot be read by the VM process", "GetArwenArguments: %v", err)
		return
	}
	if a.BuiltInFuncContainer == nil || len(a.BuiltInFuncContainer.Keys()) != len(ch.BI.Keys()) {
		c.Failf("startup: built-in functions lost", "the VM process knows %v", a.BuiltInFuncContainer)
	}
	a.BuiltInFuncContainer, args.BuiltInFuncContainer = nil, nil
	if !same(*a, args) {
		c.Failf("startup: arguments changed", "%+v became %+v", args, *a)
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func params(ch *chain.Chain, gas map[string]map[string]uint64) *arwen.VMHostParameters {
	return &arwen.VMHostParameters{VMType: []byte{5, 0}, BlockGasLimit: 1 << 40, GasSchedule: gas, BuiltInFuncContainer: ch.BI, ElrondProtectedKeyPrefix: []byte(chain.ProtectedPrefix)}
}

// pipes between two parts
type pipeSet struct{ nodeIn, nodeOut, vmIn, vmOut *os.File }

func newPipes() pipeSet {
	var p pipeSet
	var err error
	p.vmIn, p.nodeOut, err = os.Pipe()
	must(err)
	p.nodeIn, p.vmOut, err = os.Pipe()
	must(err)
	return p
}

func (p pipeSet) close() {
	for _, f := range []*os.File{p.nodeIn, p.nodeOut, p.vmIn, p.vmOut} {
		f.Close()
	}
}

// fakeVM stands for the VM on Arwen's side.
type fakeVM struct {
	create func(in *vmcommon.ContractCreateInput) (*vmcommon.VMOutput, error)
	call   func(in *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error)
	gas    func(g map[string]map[string]uint64)
}

func (v *fakeVM) RunSmartContractCreate(in *vmcommon.ContractCreateInput) (*vmcommon.VMOutput, error) {
	return v.create(in)
}
func (v *fakeVM) RunSmartContractCall(in *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
	return v.call(in)
}
func (v *fakeVM) GasScheduleChange(g map[string]map[string]uint64) { v.gas(g) }
func (v *fakeVM) GetVersion() string                               { return "x" }
func (v *fakeVM) IsInterfaceNil() bool                             { return v == nil }

func randMarsh(c *run.Case) (marshaling.MarshalizerKind, string) {
	if c.R.Intn(3) == 0 {
		return marshaling.Gob, "gob"
	}
	return marshaling.JSON, "json"
}

// fields passes random values through every message.
func fields(c *run.Case) {
	mk, mn := randMarsh(c)
	p := newPipes()
	defer p.close()
	size := []int{20, 60, 3000}[c.R.Intn(3)]
	fn := &filler{rand.New(rand.NewSource(c.R.Int63())), size} // node side
	fv := &filler{rand.New(rand.NewSource(c.R.Int63())), size} // VM side
	s := &stub{}
	ch := chain.New()
	ch.EnableBuiltIns(config.MakeGasMapForTests())
	part, err := arwenpart.NewArwenPart("version 1.2", p.vmIn, p.vmOut, params(ch, config.MakeGasMapForTests()), marshaling.CreateMarshalizer(mk))
	must(err)
	gw := arwenpart.NewBlockchainHookGateway(part.Messenger)
	var seenIn interface{}
	var give *vmcommon.VMOutput
	var giveErr error
	queries := 0
	work := func() (*vmcommon.VMOutput, error) {
		for k := fv.r.Intn(12); k > 0 && !c.Failed(); k-- {
			nm, bad := query(fv, gw, s, func(n string) { c.Count(n, 1) })
			queries++
			c.Count("queries compared", 1)
			c.Distinct("query", nm, mn)
			if bad != "" {
				sig := bad
				if j := strings.IndexByte(sig, ':'); j > 0 {
					sig = sig[:j]
				}
				c.Failf("query "+sig+" "+mn, "%s", bad)
			}
		}
		return give, giveErr
	}
	part.VMHost = &fakeVM{
		create: func(in *vmcommon.ContractCreateInput) (*vmcommon.VMOutput, error) { seenIn = in; return work() },
		call:   func(in *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) { seenIn = in; return work() },
		gas:    func(g map[string]map[string]uint64) { seenIn = g },
	}
	node, err := nodepart.NewNodePart(p.nodeIn, p.nodeOut, s, nodepart.Config{MaxLoopTime: 60000}, marshaling.CreateMarshalizer(mk))
	must(err)
	done := make(chan struct{})
	go func() {
		defer close(done)
		c.Guard(func() { _ = part.StartLoop() })
		p.vmOut.Close()
	}()
	for k := 1 + c.R.Intn(4); k > 0 && !c.Failed(); k-- {
		var req common.MessageHandler
		var in interface{}
		seenIn = nil
		give, giveErr = fn.output(), fn.err()
		if giveErr != nil {
			give = nil
		}
		what := c.R.Intn(8)
		switch what {
		case 0:
			g := config.MakeGasMapForTests()
			g["BaseOperationCost"]["StorePerByte"] = fn.u64()
			g["x"] = map[string]uint64{"y": fn.u64()}
			in = g
			req = common.NewMessageGasScheduleChangeRequest(g)
		case 1:
			req = common.NewMessageVersionRequest()
		case 2:
			req = common.NewMessageDiagnoseWaitRequest(uint32(c.R.Intn(3)))
		case 3, 4:
			d := &vmcommon.ContractCreateInput{VMInput: fn.input(), ContractCode: fn.bytes(), ContractCodeMetadata: fn.bytes()}
			in = d
			req = common.NewMessageContractDeployRequest(d)
		default:
			d := fn.callInput()
			in = d
			req = common.NewMessageContractCallRequest(d)
		}
		keep := chain.Canon(give)
		res, err := node.StartLoop(req)
		if err != nil {
			c.Failf("dialogue fails "+mn+" "+reason(err), "%T: %v (last query %s)", req, err, s.name)
			break
		}
		if in != nil && !same(in, seenIn) {
			c.Failf(fmt.Sprintf("input of %T changed "+mn, req), "%#v became %#v", in, seenIn)
		}
		c.Count("dialogues", 1)
		switch x := res.(type) {
		case *common.MessageContractResponse:
			if what < 3 {
				c.Failf("answer of another kind", "%T answered by %T", req, res)
				break
			}
			if fmt.Sprint(x.GetError()) != fmt.Sprint(giveErr) {
				c.Failf("error of a run changed "+mn, "%q became %q", fmt.Sprint(giveErr), fmt.Sprint(x.GetError()))
			} else if giveErr == nil {
				if got := chain.Canon(x.SerializableVMOutput.ConvertToVMOutput()); got != keep {
					c.Failf("output of a run changed "+mn, "%s\nbecame\n%s", keep, got)
				}
				o := x.SerializableVMOutput.ConvertToVMOutput()
				for a, ac := range give.OutputAccounts {
					b := o.OutputAccounts[a]
					if b == nil || bigS(ac.Balance) != bigS(b.Balance) || !bytes.Equal(ac.Code, b.Code) {
						c.Failf("account of an output changed "+mn, "%#v became %#v", ac, b)
					}
				}
			}
		case *common.MessageVersionResponse:
			if what != 1 || x.Version != "version 1.2" {
				c.Failf("version", "%T answered by %#v", req, x)
			}
		default:
			if what != 0 && what != 2 {
				c.Failf("answer of another kind", "%T answered by %T", req, res)
			}
		}
		c.Distinct("fields", mn, what, giveErr != nil, len(fmt.Sprint(give))/200)
	}
	_ = node.SendStopSignal()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		c.Failf("VM part does not stop", "no end 20 s after the stop request")
	}
	c.Count("query kinds seen", int64(queries))
}

// reason is an error without its variable parts.
func reason(err error) string {
	s := err.Error()
	if j := strings.Index(s, "|"); j > 0 {
		s = s[:j]
	}
	if len(s) > 50 {
		s = s[:50]
	}
	return s
}

func setFault(seed int64, chs ...*chain.Chain) {
	for _, ch := range chs {
		n, r := 0, rand.New(rand.NewSource(seed))
		at := r.Intn(40)
		txt := (&filler{r, 9}).text(false)
		ch.Fault = func(kind string) error {
			n++
			if n == at {
				return errors.New(txt)
			}
			return nil
		}
	}
}

// diff plays the same transactions on a VM in this process and on another one.
func diff(c *run.Case, vm2 vmcommon.VMExecutionHandler, a, b *chain.Chain, gas map[string]map[string]uint64, txs int, what string) {
	mw.SetBehaviour(script)
	vm1, err := host.NewArwenVM(a, params(a, gas))
	must(err)
	a.Events, b.Events = nil, nil
	for i := 0; i < txs && !c.Failed(); i++ {
		seed := c.R.Int63()
		a.Fault, b.Fault = nil, nil
		if c.R.Intn(6) == 0 {
			setFault(seed, a, b)
		}
		o1, e1 := runOn(vm1, randRun(rand.New(rand.NewSource(seed))))
		o2, e2 := runOn(vm2, randRun(rand.New(rand.NewSource(seed))))
		a.DropSnapshots()
		b.DropSnapshots()
		c.Count("transactions through "+what, 1)
		if fmt.Sprint(e1) != fmt.Sprint(e2) {
			c.Failf(what+": errors differ", "in-process %v, out of process %v", e1, e2)
			return
		}
		if e1 != nil {
			continue
		}
		if x, y := chain.Canon(o1), chain.Canon(o2); x != y {
			c.Failf(what+": outputs differ", "in-process:\n%s\nout of process:\n%s", x, y)
			return
		}
		for j := range a.Events {
			if j >= len(b.Events) || evString(a.Events[j]) != evString(b.Events[j]) {
				y := "nothing"
				if j < len(b.Events) {
					y = evString(b.Events[j])
				}
				c.Failf(what+": queries differ", "query %d of %d/%d: in-process %s, out of process %s", j, len(a.Events), len(b.Events), evString(a.Events[j]), y)
				return
			}
		}
		if len(a.Events) != len(b.Events) {
			c.Failf(what+": queries differ", "%d in-process, %d out of process", len(a.Events), len(b.Events))
		}
		c.Count("blockchain events compared", int64(len(a.Events)))
		c.Count("outcome "+o1.ReturnCode.String(), 1)
		var sh []string
		for _, ev := range a.Events {
			sh = append(sh, ev.Kind)
		}
		c.Distinct(what, o1.ReturnCode, len(o1.ReturnData), sh)
		a.Events, b.Events = nil, nil
		if o1.ReturnCode == vmcommon.Ok {
			a.Apply(o1)
			b.Apply(o2)
		}
		if c.R.Intn(5) == 0 {
			g1, g2 := config.MakeGasMapForTests(), config.MakeGasMapForTests()
			for _, g := range []map[string]map[string]uint64{g1, g2} {
				g["BaseOperationCost"]["StorePerByte"] = uint64(i + 2)
				g["ElrondAPICost"]["GetCaller"] = uint64(100 * i)
			}
			vm1.GasScheduleChange(g1)
			vm2.GasScheduleChange(g2)
			c.Count("gas schedule changes", 1)
		}
	}
}

func evString(e chain.Event) string {
	s := fmt.Sprintf("%s %x %x %d %v", e.Kind, e.A, e.B, e.Num, e.Err)
	if e.In != nil {
		s += fmt.Sprintf(" %q %x %x %x %v %v %d %d %d %d %x %x %x %v %v", e.In.Function, e.In.CallerAddr, e.In.RecipientAddr, e.In.Arguments, e.In.CallValue, e.In.CallType, e.In.GasPrice, e.In.GasProvided, e.In.GasLocked, len(e.In.ESDTTransfers), e.In.OriginalTxHash, e.In.CurrentTxHash, e.In.PrevTxHash, e.In.ReturnCallAfterError, e.In.AllowInitFunction)
	}
	if e.Out != nil {
		s += chain.Canon(e.Out)
	}
	return s
}

func partsDiff(c *run.Case) {
	mk, mn := randMarsh(c)
	p := newPipes()
	defer p.close()
	gas := config.MakeGasMapForTests()
	seed := c.R.Int63()
	a, b := buildChain(seed, gas), buildChain(seed, gas)
	part, err := arwenpart.NewArwenPart("v", p.vmIn, p.vmOut, params(b, gas), marshaling.CreateMarshalizer(mk))
	must(err)
	node, err := nodepart.NewNodePart(p.nodeIn, p.nodeOut, b, nodepart.Config{MaxLoopTime: 60000}, marshaling.CreateMarshalizer(mk))
	must(err)
	done := make(chan struct{})
	go func() {
		defer close(done)
		c.Guard(func() { _ = part.StartLoop() })
		p.vmOut.Close()
	}()
	diff(c, nodeVM{node}, a, b, gas, 2+c.R.Intn(5), "parts")
	_ = node.SendStopSignal()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		c.Failf("VM part does not stop", "no end 20 s after the stop request (%s)", mn)
	}
}

// nodeVM is the VM behind a node part.
type nodeVM struct{ n *nodepart.NodePart }

func (v nodeVM) RunSmartContractCreate(in *vmcommon.ContractCreateInput) (*vmcommon.VMOutput, error) {
	return v.run(common.NewMessageContractDeployRequest(in))
}
func (v nodeVM) RunSmartContractCall(in *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
	return v.run(common.NewMessageContractCallRequest(in))
}
func (v nodeVM) GasScheduleChange(g map[string]map[string]uint64) {
	_, _ = v.n.StartLoop(common.NewMessageGasScheduleChangeRequest(g))
}
func (v nodeVM) GetVersion() string   { return "" }
func (v nodeVM) IsInterfaceNil() bool { return false }
func (v nodeVM) run(req common.MessageHandler) (*vmcommon.VMOutput, error) {
	res, err := v.n.StartLoop(req)
	if err != nil {
		return nil, fmt.Errorf("critical: %v", err)
	}
	r := res.(*common.MessageContractResponse)
	return r.SerializableVMOutput.ConvertToVMOutput(), r.GetError()
}

func driverDiff(c *run.Case) {
	gas := config.MakeGasMapForTests()
	seed := c.R.Int63()
	a, b := buildChain(seed, gas), buildChain(seed, gas)
	mk, _ := randMarsh(c)
	d := newDriver(c, b, gas, "good", 60000, mk)
	if d == nil {
		return
	}
	defer closeDriver(d)
	if v := d.GetVersion(); v != childVersion {
		c.Failf("driver: version", "the version is %q", v)
	}
	diff(c, d, a, b, gas, 3+c.R.Intn(6), "the driver")
}

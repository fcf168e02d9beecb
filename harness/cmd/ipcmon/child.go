package main

import (
	"encoding/binary"
	"encoding/json"
	"io"
	"os"
	"strconv"
	"strings"
	"time"

	"verif/harness/chain"
	"verif/harness/mw"
	"verif/harness/run"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/arwenpart"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/nodepart"
	"github.com/ElrondNetwork/elrond-go-logger/pipes"
)

const childVersion = "child 1"

// isChild: the process was started by ArwenDriver (without arguments).
func isChild() bool { return len(os.Args) == 1 }

// newDriver starts a driver whose child is this program in the given mode.
func newDriver(c *run.Case, b *chain.Chain, gas map[string]map[string]uint64, mode string, loop int, mk marshaling.MarshalizerKind) *nodepart.ArwenDriver {
	self, err := os.Executable()
	must(err)
	os.Setenv(common.EnvVarArwenPath, self)
	os.Setenv("VERIF_IPC_CHILD", mode)
	os.Setenv("VERIF_IPC_PARENT", strconv.Itoa(os.Getpid()))
	p := params(b, gas)
	d, err := nodepart.NewArwenDriver(b, common.ArwenArguments{VMHostParameters: *p, MessagesMarshalizer: mk}, nodepart.Config{MaxLoopTime: loop})
	if err != nil {
		c.Failf("driver: cannot start "+mode, "%v", err)
		return nil
	}
	return d
}

func closeDriver(d *nodepart.ArwenDriver) {
	_ = d.Close()
	os.Unsetenv("VERIF_IPC_CHILD")
}

// readArguments reads the start-up arguments. The container of built-in
// functions is skipped: it cannot be read (see known_findings.jsonl).
func readArguments(f *os.File) (*common.ArwenArguments, error) {
	var h [8]byte
	if _, err := io.ReadFull(f, h[:]); err != nil {
		return nil, err
	}
	b := make([]byte, binary.LittleEndian.Uint32(h[:4]))
	if _, err := io.ReadFull(f, b); err != nil {
		return nil, err
	}
	var m map[string]json.RawMessage
	if err := json.Unmarshal(b, &m); err != nil {
		return nil, err
	}
	var a map[string]json.RawMessage
	if err := json.Unmarshal(m["Arguments"], &a); err != nil {
		return nil, err
	}
	delete(a, "BuiltInFuncContainer")
	b, _ = json.Marshal(a)
	args := &common.ArwenArguments{}
	return args, json.Unmarshal(b, args)
}

// childMain is the VM process: the real part on the descriptors given by the
// driver, or something that misbehaves.
func childMain(mode string) {
	go func() { // never outlive the monitor
		pp, _ := strconv.Atoi(os.Getenv("VERIF_IPC_PARENT"))
		for {
			time.Sleep(200 * time.Millisecond)
			if os.Getppid() != pp {
				os.Exit(9)
			}
		}
	}()
	if mode == "exit-first" {
		os.Exit(0)
	}
	if mode == "sleep-first" {
		time.Sleep(time.Hour)
	}
	initF, in, out := os.NewFile(3, "init"), os.NewFile(4, "in"), os.NewFile(5, "out")
	prof, logs := os.NewFile(6, "prof"), os.NewFile(7, "logs")
	args, err := readArguments(initF)
	if err != nil {
		os.Stderr.WriteString("arguments: " + err.Error())
		os.Exit(2)
	}
	ch := chain.New()
	ch.EnableBuiltIns(config.MakeGasMapForTests())
	args.BuiltInFuncContainer = ch.BI
	lp, err := pipes.NewChildPart(prof, logs, marshaling.CreateMarshalizer(args.LogsMarshalizer))
	if err == nil {
		err = lp.StartLoop()
	}
	if err != nil {
		os.Exit(3)
	}
	mm := marshaling.CreateMarshalizer(args.MessagesMarshalizer)
	if mode == "good" {
		mw.SetBehaviour(behaviour)
		serve(in, out, &args.VMHostParameters, mm)
		os.Exit(0)
	}
	bad(mode, in, out, mm, &args.VMHostParameters)
}

func serve(in, out *os.File, p *arwen.VMHostParameters, mm marshaling.Marshalizer) {
	part, err := arwenpart.NewArwenPart(childVersion, in, out, p, mm)
	if err != nil {
		os.Exit(4)
	}
	_ = part.StartLoop()
}

// frame is the wire form of a message.
func frame(kind uint32, length int, body []byte) []byte {
	b := make([]byte, 8, 8+len(body))
	binary.LittleEndian.PutUint32(b, uint32(length))
	binary.LittleEndian.PutUint32(b[4:], kind)
	return append(b, body...)
}

func wire(m common.MessageHandler, nonce uint32, mm marshaling.Marshalizer) []byte {
	m.SetNonce(nonce)
	b, err := mm.Marshal(m)
	must(err)
	return frame(uint32(m.GetKind()), len(b), b)
}

func readFrame(f io.Reader) (kind uint32, body []byte, err error) {
	var h [8]byte
	if _, err = io.ReadFull(f, h[:]); err != nil {
		return
	}
	body = make([]byte, binary.LittleEndian.Uint32(h[:4]))
	_, err = io.ReadFull(f, body)
	return binary.LittleEndian.Uint32(h[4:]), body, err
}

var badModes = []string{"exit-first", "exit-after-init", "exit-on-request", "exit-mid-frame", "exit-mid-query", "hang", "hang-no-read", "hang-mid-frame", "garbage", "huge", "other-answer", "version-answer", "wrong-nonce", "late", "late-twice", "bad-body", "kind-mismatch", "query-then-hang", "query-then-exit-big", "unknown-kind", "undefined", "empty"}

func bad(mode string, in, out *os.File, mm marshaling.Marshalizer, p *arwen.VMHostParameters) {
	if mode == "exit-after-init" {
		os.Exit(0)
	}
	sleep := func() { time.Sleep(time.Hour) }
	if mode == "hang-no-read" {
		sleep()
	}
	kind, _, err := readFrame(in)
	if err != nil {
		os.Exit(5)
	}
	good := wire(common.NewMessageContractResponse((&filler{size: 20, r: newR(7)}).output(), nil), 2, mm)
	switch common.MessageKind(kind) {
	case common.VersionRequest:
		good = wire(common.NewMessageVersionResponse("wrong one"), 2, mm)
	case common.DiagnoseWaitRequest:
		good = wire(common.NewMessageDiagnoseWaitResponse(), 2, mm)
	}
	w := func(b []byte) { _, _ = out.Write(b) }
	switch mode {
	case "exit-on-request":
		os.Exit(0)
	case "exit-mid-frame":
		w(good[:len(good)*2/3])
		os.Exit(0)
	case "hang-mid-frame":
		w(good[:len(good)*2/3])
	case "exit-mid-query":
		w(wire(common.NewMessageBlockchainGetAllStateRequest([]byte("x")), 2, mm)[:20])
		os.Exit(0)
	case "query-then-hang":
		w(wire(common.NewMessageBlockchainCurrentNonceRequest(), 2, mm))
	case "query-then-exit-big": // the answer is larger than a pipe
		w(wire(common.NewMessageBlockchainGetAllStateRequest(chain.SC(0)), 2, mm))
		if strings.HasSuffix(os.Getenv("VERIF_IPC_VARIANT"), "exit") {
			os.Exit(0)
		}
	case "garbage":
		w([]byte("this is no message at all, it only looks like text"))
	case "huge":
		w(frame(uint32(common.ContractResponse), 0xfffffff0, nil))
	case "other-answer":
		w(wire(common.NewMessageBlockchainGetCodeResponse([]byte("code")), 2, mm))
	case "version-answer":
		if common.MessageKind(kind) == common.VersionRequest {
			w(wire(common.NewMessageContractResponse(nil, nil), 2, mm))
		} else {
			w(wire(common.NewMessageVersionResponse("v"), 2, mm))
		}
	case "wrong-nonce":
		w(wire(common.NewMessageContractResponse(nil, nil), 1, mm))
	case "late", "late-twice":
		ms, _ := strconv.Atoi(os.Getenv("VERIF_IPC_VARIANT"))
		time.Sleep(time.Duration(ms) * time.Millisecond)
		w(good)
		if mode == "late-twice" {
			w(good)
		}
	case "bad-body":
		w(frame(uint32(common.ContractResponse), 30, []byte(`{"DialogueNonce":2,"Kind":"x"}`)))
	case "kind-mismatch":
		g := append([]byte{}, good...)
		binary.LittleEndian.PutUint32(g[4:], uint32(common.BlockchainGetCodeRequest))
		w(g)
	case "unknown-kind":
		g := append([]byte{}, good...)
		binary.LittleEndian.PutUint32(g[4:], 5000)
		w(g)
	case "undefined":
		w(wire(common.NewUndefinedMessage(), 2, mm))
	case "empty":
		w(frame(uint32(common.ContractResponse), 0, nil))
	}
	sleep()
}

// debugmon decides what the debugging facade keeps between its runs (P27).
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
	"unicode/utf8"

	"verif/harness/chain"
	"verif/harness/kit"
	"verif/harness/mw"
	"verif/harness/run"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/host"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwendebug"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	worldmock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/world"
	logger "github.com/ElrondNetwork/elrond-go-logger"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/builtInFunctions"
)

const childEnv = "VERIF_DEBUG_CHILD"

func main() {
	logger.SetLogLevel("*:NONE")
	if os.Getenv(childEnv) != "" {
		childMain()
		return
	}
	run.Main([]*run.Prop{{
		ID: "P27", Level: "runtime monitoring of the real facade and of real processes; differential execution against one continuous world",
		Rule:  "case i is a random history of account creations, deployments, upgrades, runs and queries on several worlds in one or two databases, with binary addresses and storage keys, failing transactions, refused requests and unreadable world files; every request goes through a facade of its own (some in a process of their own, some through the arwendebug program), its answer is compared with that of a world kept in memory with one VM, and after every request the whole state is read back by queries; files of other worlds must not change. distinct = (kinds of requests and outcomes in order)",
		Quick: 450, Thorough: 60000, Case: history, Fixed: []run.Fixed{{Name: "arwendebug program", Fn: program}}, Workers: 8, Timeout: 120 * time.Second,
		Need:        map[string]int64{"requests": 5000, "inspections": 3000, "inspected values": 100000, "request: deploy": 1000, "request: upgrade": 250, "request: run": 1000, "request: query": 600, "request: account": 500, "failed transactions": 800, "refused requests": 500, "requests in processes": 30, "program runs": 10, "unreadable worlds": 50, "values under binary keys": 1000},
		Assumptions: []string{"requests are made one after another", "the state is what contracts can see of it: balances, storage, code, owner, and the nonces through the addresses of deployments"},
	}})
}

// ---- contracts

var names = []string{"init", "callBack", "do", "look"}

func code(id string) []byte {
	return (&mw.Module{ID: id, Exports: names, MemMin: 1}).Bytes()
}

// behave: the first argument decides what a contract does.
func behave(f *mw.Frame) {
	o := f.Alloc(4000)
	n := f.I("getNumArguments")
	arg := func(i int) []byte {
		l := f.Call("getArgument", int64(i), o)
		return append([]byte{}, f.Get(o, int(l))...)
	}
	fin := func(b []byte) { f.Call("finish", f.Put(b), int64(len(b))) }
	if f.Func == "callBack" {
		f.Call("storageStore", f.Put([]byte("back")), 4, f.Put([]byte{byte(n)}), 1)
		return
	}
	if f.Func == "look" { // address, keys...
		f.Call("finish", f.Put([]byte(f.ID)), int64(len(f.ID)))
		a := arg(0)
		b := f.Alloc(40)
		f.Call("getExternalBalance", f.Put(a), b)
		fin(f.Get(b, 32))
		f.Call("getOwnerAddress", b)
		fin(f.Get(b, 32))
		f.Call("int64finish", f.Call("isSmartContract", f.Put(a)))
		for i := 1; i < int(n); i++ {
			f.Reset()
			k := arg(i)
			v := f.Alloc(400)
			l := f.Call("storageLoadFromAddress", f.Put(a), f.Put(k), int64(len(k)), v)
			fin(f.Get(v, int(l)))
		}
		return
	}
	if n == 0 {
		return
	}
	seed := arg(0)
	if len(seed) != 8 {
		return
	}
	r := rand.New(rand.NewSource(int64(binary.BigEndian.Uint64(seed))))
	for steps := 1 + r.Intn(5); steps > 0; steps-- {
		f.Reset()
		switch k := r.Intn(14); {
		case k < 6:
			v := make([]byte, r.Intn(40))
			r.Read(v)
			if r.Intn(5) == 0 {
				v = nil
			}
			key := storageKey(r)
			f.Call("storageStore", f.Put(key), int64(len(key)), f.Put(v), int64(len(v)))
		case k < 8:
			d := []byte{0xff, byte(r.Intn(256))}
			f.Call("transferValue", f.Put(address(r)), f.Put(kit.Val32(int64(r.Intn(60)))), f.Put(d), int64(r.Intn(3)))
		case k == 8:
			v := make([]byte, r.Intn(20))
			r.Read(v)
			fin(v)
		case k == 9:
			s := make([]byte, 8)
			r.Read(s)
			if r.Intn(2) == 0 || n > 2 {
				continue
			}
			a, l, d := f.PutArgs([][]byte{s, {1}, {2}})
			f.Call("executeOnDestContext", f.Call("getGasLeft")/2, f.Put(address(r)), f.Put(kit.Val32(int64(r.Intn(20)))), f.Put([]byte("do")), 2, a, l, d)
		case k == 10:
			s := make([]byte, 8)
			r.Read(s)
			if n > 2 {
				continue
			}
			c := code("m")
			a, l, d := f.PutArgs([][]byte{s, {1}, {2}})
			f.Call("createContract", f.Call("getGasLeft")/2, f.Put(kit.Val32(0)), f.Put(c), f.Put([]byte{5, 2}), int64(len(c)), f.Alloc(32), a, l, d)
		case k == 11 && n < 3:
			data := []byte("do@" + hex.EncodeToString(seed) + "@01@02")
			f.Call("asyncCall", f.Put(address(r)), f.Put(kit.Val32(int64(r.Intn(9)))), f.Put(data), int64(len(data)))
		default:
			switch r.Intn(8) {
			case 0:
				f.Trap()
			case 1:
				f.Call("signalError", f.Put([]byte("no")), 2)
			default:
				f.Burn(uint64(r.Intn(3000)))
			}
		}
	}
}

func storageKey(r *rand.Rand) []byte {
	keys := [][]byte{{0xff}, {0xfe}, {0xff, 0xfe}, []byte("counter"), {0}, {0, 0}, []byte("k\xc3\x28"), []byte("k\xc3\x29"), []byte("key\""), []byte("\u2028"), []byte("<&>"), {}}
	return keys[r.Intn(len(keys))]
}

// users have addresses which differ in one byte that is no text.
func user(i int) []byte {
	a := bytes.Repeat([]byte{'u'}, 32)
	copy(a, []byte{byte(0xf0 + i), byte('a' + i%2)})
	a[31] = byte(0x80 + i)
	return a
}

// address picks a user or a contract one of them may have deployed.
func address(r *rand.Rand) []byte {
	u := user(r.Intn(3))
	if r.Intn(3) == 0 {
		return u
	}
	return worldmock.GenerateMockAddress(u, uint64(r.Intn(3)))
}

func everyAddress() (l [][]byte) {
	for i := 0; i < 3; i++ {
		l = append(l, user(i))
		for n := 0; n < 3; n++ {
			l = append(l, worldmock.GenerateMockAddress(user(i), uint64(n)))
		}
	}
	return
}

func everyKey() (l [][]byte) {
	seen := map[string]bool{}
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 500; i++ {
		k := storageKey(r)
		if !seen[string(k)] {
			seen[string(k)] = true
			l = append(l, k)
		}
	}
	sort.Slice(l, func(i, j int) bool { return bytes.Compare(l[i], l[j]) < 0 })
	return append(l, []byte("back"))
}

// ---- requests

type request struct {
	Kind            string // account, deploy, upgrade, run, query
	DB, World, Out  string
	From, To        []byte
	Code, Meta      []byte
	Fn              string
	Args            [][]byte
	Value           string
	Gas             uint64
	Nonce           uint64
	BadFrom, BadArg bool // requests which must be refused
}

func (q *request) base() arwendebug.RequestBase {
	return arwendebug.RequestBase{DatabasePath: q.DB, World: q.World, Outcome: q.Out}
}

func (q *request) contract() arwendebug.ContractRequestBase {
	b := arwendebug.ContractRequestBase{RequestBase: q.base(), ImpersonatedHex: hex.EncodeToString(q.From), Value: q.Value, GasLimit: q.Gas}
	if q.BadFrom {
		b.ImpersonatedHex = "xyz"
	}
	return b
}

func (q *request) args() (l []string) {
	for _, a := range q.Args {
		l = append(l, hex.EncodeToString(a))
	}
	if q.BadArg {
		l = append(l, "0g")
	}
	return
}

type answer struct {
	Refused string
	Text    string
	Data    [][]byte
	Addr    []byte
	Code    vmcommon.ReturnCode
}

func outcome(o *vmcommon.VMOutput, e error, addr []byte) answer {
	a := answer{Addr: addr}
	if o == nil {
		a.Text = fmt.Sprint("no output: ", e)
		return a
	}
	a.Code, a.Data = o.ReturnCode, o.ReturnData
	a.Text = chain.Canon(o)
	return a
}

// serve makes a request of a facade of its own.
func serve(q *request) (a answer) {
	out := os.Stdout
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout = null
	defer func() { os.Stdout = out; null.Close() }()
	f := arwendebug.NewDebugFacade()
	var err error
	deploy := arwendebug.DeployRequest{ContractRequestBase: q.contract(), CodeHex: hex.EncodeToString(q.Code), CodeMetadata: hex.EncodeToString(q.Meta), ArgumentsHex: q.args()}
	runRq := arwendebug.RunRequest{ContractRequestBase: q.contract(), ContractAddressHex: hex.EncodeToString(q.To), Function: q.Fn, ArgumentsHex: q.args()}
	switch q.Kind {
	case "account":
		rq := arwendebug.CreateAccountRequest{RequestBase: q.base(), AddressHex: hex.EncodeToString(q.To), Balance: q.Value, Nonce: q.Nonce}
		if q.BadFrom {
			rq.AddressHex = "0"
		}
		_, err = f.CreateAccount(rq)
	case "deploy":
		var p *arwendebug.DeployResponse
		if p, err = f.DeploySmartContract(deploy); err == nil {
			a = outcome(p.Output, p.Error, p.ContractAddress)
		}
	case "upgrade":
		var p *arwendebug.UpgradeResponse
		if p, err = f.UpgradeSmartContract(arwendebug.UpgradeRequest{DeployRequest: deploy, ContractAddressHex: hex.EncodeToString(q.To)}); err == nil {
			a = outcome(p.Output, p.Error, nil)
		}
	case "run":
		var p *arwendebug.RunResponse
		if p, err = f.RunSmartContract(runRq); err == nil {
			a = outcome(p.Output, p.Error, nil)
		}
	case "query":
		var p *arwendebug.QueryResponse
		if p, err = f.QuerySmartContract(arwendebug.QueryRequest{RunRequest: runRq}); err == nil {
			a = outcome(p.Output, p.Error, nil)
		}
	}
	if err != nil {
		a.Refused = err.Error()
	}
	return
}

// childMain makes the request given on standard input.
func childMain() {
	mw.SetBehaviour(behave)
	q := &request{}
	if err := json.NewDecoder(os.Stdin).Decode(q); err != nil {
		os.Exit(3)
	}
	a := serve(q)
	if json.NewEncoder(os.Stdout).Encode(a) != nil {
		os.Exit(3)
	}
}

// serveAlone makes a request in a process of its own.
func serveAlone(c *run.Case, q *request) (a answer) {
	b, _ := json.Marshal(q)
	cmd := exec.Command("/proc/self/exe")
	cmd.Env = append(os.Environ(), childEnv+"=1")
	cmd.Stdin = bytes.NewReader(b)
	out, err := cmd.Output()
	if err == nil {
		err = json.Unmarshal(out, &a)
	}
	if err != nil {
		c.Failf("process: "+q.Kind, "the process making the request failed: %v %.300s", err, out)
		panic(run.Skip{})
	}
	c.Count("requests in processes", 1)
	return
}

// ---- the continuous world

type continuous struct {
	w  *worldmock.MockWorld
	vm vmcommon.VMExecutionHandler
}

func newContinuous() *continuous {
	w := worldmock.NewMockWorld()
	vm, err := host.NewArwenVM(w, &arwen.VMHostParameters{VMType: []byte{5, 0}, BlockGasLimit: 10000000, GasSchedule: config.MakeGasMap(1, 1), ElrondProtectedKeyPrefix: []byte("ELROND"), BuiltInFuncContainer: builtInFunctions.NewBuiltInFunctionContainer()})
	if err != nil {
		panic(err)
	}
	return &continuous{w, vm}
}

func (k *continuous) do(q *request) answer {
	v, _ := new(big.Int).SetString("0"+q.Value, 10)
	in := vmcommon.VMInput{CallerAddr: q.From, CallValue: v, Arguments: q.Args, GasProvided: q.Gas, GasPrice: arwendebug.DefaultGasPrice}
	var o *vmcommon.VMOutput
	var err error
	var addr []byte
	switch q.Kind {
	case "account":
		k.w.AcctMap.PutAccount(&worldmock.Account{Address: q.To, Nonce: q.Nonce, Balance: v, BalanceDelta: big.NewInt(0), DeveloperReward: big.NewInt(0), Storage: map[string][]byte{}})
		return answer{}
	case "deploy":
		k.w.LastCreatedContractAddress = nil
		o, err = k.vm.RunSmartContractCreate(&vmcommon.ContractCreateInput{VMInput: in, ContractCode: q.Code, ContractCodeMetadata: q.Meta})
		addr = k.w.LastCreatedContractAddress
	case "upgrade":
		in.Arguments = append([][]byte{q.Code, q.Meta}, q.Args...)
		o, err = k.vm.RunSmartContractCall(&vmcommon.ContractCallInput{VMInput: in, RecipientAddr: q.To, Function: arwen.UpgradeFunctionName})
	default:
		o, err = k.vm.RunSmartContractCall(&vmcommon.ContractCallInput{VMInput: in, RecipientAddr: q.To, Function: q.Fn})
	}
	a := outcome(o, err, addr)
	if o != nil && err == nil && o.ReturnCode == vmcommon.Ok && q.Kind != "query" {
		_ = k.w.UpdateAccounts(o.OutputAccounts, nil)
	}
	return a
}

// ---- histories

type place struct {
	db, world string
	ref       *continuous
	exists    bool
}

func (p *place) name() string {
	if p.world == "" {
		return "default"
	}
	return p.world
}

func history(c *run.Case) {
	r := c.R
	mw.SetBehaviour(behave)
	dir, err := os.MkdirTemp("", "debug")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	var ps []*place
	ids := []string{"", "w", "W", "w2", "a.json", "w 3", "w\u00e9"}
	r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	for i := 1 + r.Intn(3); i > 0; i-- {
		ps = append(ps, &place{db: filepath.Join(dir, "db"), world: ids[i], ref: newContinuous()})
		if r.Intn(3) == 0 {
			ps = append(ps, &place{db: filepath.Join(dir, "db2"), world: ids[i], ref: newContinuous()})
		}
	}
	shape := ""
	var first []*request // what makes the worlds worth looking at
	var where []*place
	for _, p := range ps {
		for i := 0; i < 3; i++ {
			first = append(first, &request{Kind: "account", To: user(i), Value: fmt.Sprint(r.Intn(1000)), Nonce: uint64(r.Intn(3))})
			where = append(where, p)
		}
		for i := r.Intn(3); i > 0; i-- {
			first = append(first, &request{Kind: "deploy", From: user(i), Code: code("m"), Meta: []byte{5, 2}, Gas: 9000000, Value: fmt.Sprint(r.Intn(300))})
			where = append(where, p)
		}
	}
	for step := 8 + r.Intn(16) + len(first); step > 0; step-- {
		p := ps[r.Intn(len(ps))]
		q := randRequest(r)
		if len(first) > 0 {
			q, p = first[0], where[0]
			first, where = first[1:], where[1:]
		}
		if r.Intn(3) > 0 && (q.Kind == "run" || q.Kind == "upgrade" || q.Kind == "query") {
			var l [][]byte // a contract which exists
			for _, a := range everyAddress() {
				if k := p.ref.w.AcctMap.GetAccount(a); k != nil && len(k.Code) > 0 {
					l = append(l, a)
				}
			}
			if len(l) > 0 {
				q.To = l[r.Intn(len(l))]
			}
		}
		q.DB, q.World = p.db, p.world
		if r.Intn(4) == 0 {
			q.Out = []string{"w", "out", "w2"}[r.Intn(3)]
		}
		switch r.Intn(16) {
		case 0:
			q.BadFrom = true
		case 1:
			q.BadArg = q.Kind != "account"
		case 2:
			if q.Kind != "account" {
				q.Gas = 0
			}
		}
		refuse := q.BadFrom || q.BadArg || (q.Gas == 0 && q.Kind != "account")
		before := files(dir)
		if r.Intn(40) == 0 && p.exists {
			unreadable(c, p, q, dir)
			continue
		}
		var got answer
		if r.Intn(60) == 0 {
			got = serveAlone(c, q)
		} else {
			got = serve(q)
		}
		c.Count("requests", 1)
		c.Count("request: "+q.Kind, 1)
		c.Tracef("%s/%s %s from %x to %x %q %x gas %d value %s bad %v/%v", filepath.Base(q.DB), q.World, q.Kind, q.From, q.To, q.Fn, q.Args, q.Gas, q.Value, q.BadFrom, q.BadArg)
		if refuse != (got.Refused != "") {
			c.Failf("refusal: "+q.Kind, "a request which should be refused (%v) had error %q", refuse, got.Refused)
			return
		}
		var want answer
		if refuse {
			c.Count("refused requests", 1)
			shape += "r"
		} else {
			want = p.ref.do(q)
			if q.Kind != "query" {
				p.exists = true
			}
			if q.Kind != "account" && (want.Code != vmcommon.Ok || strings.HasPrefix(want.Text, "no output")) {
				c.Count("failed transactions", 1)
				shape += strings.ToLower(q.Kind[:1])
			} else {
				shape += strings.ToUpper(q.Kind[:1])
			}
		}
		got.Refused = ""
		if got.Text != want.Text || !bytes.Equal(got.Addr, want.Addr) {
			c.Failf("answer: "+q.Kind, "the facade answers (address %x)\n%s\nthe continuous world (address %x)\n%s", got.Addr, got.Text, want.Addr, want.Text)
			return
		}
		after := files(dir)
		for _, o := range ps {
			own := filepath.Join(o.db, "worlds", o.name()+".json")
			if (o != p || refuse || q.Kind == "query") && before[own] != after[own] {
				c.Failf("file of a world", "a %s in world %q of %s (refused: %v) changed the file of world %q of %s", q.Kind, p.world, filepath.Base(p.db), refuse, o.world, filepath.Base(o.db))
				return
			}
		}
		if r.Intn(3) == 0 || step == 1 {
			if !inspect(c, p) {
				return
			}
		}
		if r.Intn(6) == 0 && !inspect(c, ps[r.Intn(len(ps))]) {
			return
		}
	}
	for _, p := range ps {
		if !inspect(c, p) {
			return
		}
	}
	c.Distinct(shape)
}

func files(dir string) map[string]string {
	m := map[string]string{}
	_ = filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			b, _ := os.ReadFile(p)
			m[p] = string(b)
		}
		return nil
	})
	return m
}

// unreadable: a world whose file cannot be read is not replaced by another.
func unreadable(c *run.Case, p *place, q *request, dir string) {
	f := filepath.Join(p.db, "worlds", p.name()+".json")
	good, err := os.ReadFile(f)
	if err != nil || q.BadFrom || q.BadArg || len(good) < 10 {
		return
	}
	if q.Gas == 0 {
		q.Gas = 100
	}
	bad := good[:1+c.R.Intn(len(good)-3)]
	if c.R.Intn(4) == 0 {
		bad = nil
	}
	_ = os.WriteFile(f, bad, 0644)
	got := serve(q)
	now, _ := os.ReadFile(f)
	_ = os.WriteFile(f, good, 0644)
	c.Count("unreadable worlds", 1)
	if got.Refused == "" {
		c.Failf("unreadable world", "a %s in a world whose file is damaged (%d of %d bytes) was served", q.Kind, len(bad), len(good))
	} else if !bytes.Equal(now, bad) {
		c.Failf("unreadable world replaced", "a %s in a world whose file is damaged changed the file", q.Kind)
	}
}

// inspect reads the whole state back by queries.
func inspect(c *run.Case, p *place) bool {
	if !p.exists {
		return true
	}
	c.Count("inspections", 1)
	looked := false
	for _, at := range everyAddress() {
		acct := p.ref.w.AcctMap.GetAccount(at)
		if acct == nil || len(acct.Code) == 0 {
			continue
		}
		var all [][]byte
		if !looked {
			all = everyAddress() // the first contract looks at all accounts
		} else {
			all = [][]byte{at}
		}
		looked = true
		for _, a := range all {
			q := &request{Kind: "query", DB: p.db, World: p.world, From: user(0), To: at, Fn: "look", Args: append([][]byte{a}, everyKey()...), Gas: 1 << 40}
			got, want := serve(q), p.ref.do(q)
			c.Count("inspected values", int64(len(want.Data)))
			if want.Code != vmcommon.Ok {
				panic("inspection fails: " + want.Text)
			}
			for i, d := range want.Data {
				if i > 3 && len(d) > 0 && !utf8.Valid(everyKey()[i-4]) {
					c.Count("values under binary keys", 1)
				}
			}
			if got.Text != want.Text {
				what := "answer"
				for i := range want.Data {
					if i < len(got.Data) && !bytes.Equal(got.Data[i], want.Data[i]) {
						what = []string{"code", "balance", "owner", "kind of account"}[min(i, 3)]
						if i > 3 {
							what = fmt.Sprintf("storage under %q", everyKey()[i-4])
						}
						what += fmt.Sprintf(": %x, in the continuous world %x", got.Data[i], want.Data[i])
						break
					}
				}
				c.Failf("state of a world", "looked at by %x, account %x differs: %s\n%s", at, a, what, got.Refused)
				return false
			}
		}
	}
	return true
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func randRequest(r *rand.Rand) *request {
	q := &request{From: user(r.Intn(3)), Gas: uint64(200000 + r.Intn(9000000)), Value: fmt.Sprint(r.Intn(2) * r.Intn(100))}
	if r.Intn(10) == 0 {
		q.Gas = uint64(1 + r.Intn(3000))
	}
	seed := make([]byte, 8)
	r.Read(seed)
	q.Args = [][]byte{seed}
	if r.Intn(4) == 0 {
		q.Args = append(q.Args, []byte{0xff})
	}
	switch k := r.Intn(20); {
	case k < 3:
		q.Kind = "account"
		q.To = user(r.Intn(3))
		q.Value = fmt.Sprint(r.Intn(1000))
		if r.Intn(4) == 0 {
			q.Value = "123456789012345678901234567890"
		}
		q.Nonce = uint64(r.Intn(4))
	case k < 8:
		q.Kind = "deploy"
		q.Code = code([]string{"m", "n"}[r.Intn(2)])
		q.Meta = []byte{byte(1 + r.Intn(5)), byte(r.Intn(3))}
		if r.Intn(8) == 0 {
			q.Code = []byte("no code")
		}
	case k < 10:
		q.Kind = "upgrade"
		q.To = address(r)
		q.Code = code([]string{"m", "n", "o"}[r.Intn(3)])
		q.Meta = []byte{5, 2}
	case k < 16:
		q.Kind = "run"
		q.To = address(r)
		q.Fn = "do"
	default:
		q.Kind = "query"
		q.To = address(r)
		q.Fn = "do"
	}
	if (q.Kind == "run" || q.Kind == "query") && r.Intn(10) == 0 {
		q.Fn = []string{"nope", "init", "callBack", ""}[r.Intn(4)]
	}
	return q
}

bug('P20-partial-change','P20',[('arwen/host/arwen.go','''
	host.meteringContext.SetGasSchedule(newGasSchedule)
''','''
	currentCosts := host.meteringContext.GasSchedule()
	if gasCostConfig.BaseOperationCost != currentCosts.BaseOperationCost || gasCostConfig.ElrondAPICost != currentCosts.ElrondAPICost {
		host.meteringContext.SetGasSchedule(newGasSchedule)
	}
''')],'''
func main() {
	w := New()
	s := config.MakeGasMapForTests()
	s["BigIntAPICost"]["BigIntAdd"] = 77
	s["WASMOpcodeCost"]["I64Add"] = 9
	w.VM.GasScheduleChange(s)
	w.Contract(0, 10, "main")
	var used uint64
	w.On("c0", "main", func(f *F) { b := f.Used(); f.Call("bigIntAdd", 0, 0, 0); used = f.Used() - b })
	Ok(w.Call(chain.User(1), chain.SC(0), "main", 10000000, 0))
	Must(used == 77, "bigIntAdd costs %d", used)
}
''','a schedule which differs from the one before in other sections than base operations and the Elrond API','a change of the gas schedule is not applied')
bug('P20-change-inside','P20',[('arwen/host/arwen.go','''func (host *vmHost) GasScheduleChange(newGasSchedule config.GasScheduleMap) {
	host.mutExecution.Lock()
	defer host.mutExecution.Unlock()
''','''func (host *vmHost) GasScheduleChange(newGasSchedule config.GasScheduleMap) {
	host.mutExecution.RLock()
	defer host.mutExecution.RUnlock()
''')],'''
func main() {
	w := New()
	w.Contract(0, 10, "main")
	var first, second uint64
	w.On("c0", "main", func(f *F) {
		b := f.Used()
		f.Call("bigIntAdd", 0, 0, 0)
		first = f.Used() - b
		done := make(chan int)
		go func() {
			s := config.MakeGasMapForTests()
			s["BigIntAPICost"]["BigIntAdd"] = 77
			w.VM.GasScheduleChange(s)
			close(done)
		}()
		select {
		case <-done:
		case <-time.After(300 * time.Millisecond):
		}
		b = f.Used()
		f.Call("bigIntAdd", 0, 0, 0)
		second = f.Used() - b
	})
	w.Call(chain.User(1), chain.SC(0), "main", 10000000, 0)
	Must(first == second, "bigIntAdd costs %d, then %d in one execution", first, second)
}
''','a schedule change by another goroutine while an execution runs','prices change in the middle of an execution')
bug('P20-zero-opcode','P20',[('config/gasSchedule.go','''		if field.Kind() != reflect.Uint64 && field.Kind() != reflect.Uint32 {
			continue
		}
''','''		if field.Kind() != reflect.Uint64 {
			continue
		}
''')],'''
func main() {
	s := config.MakeGasMapForTests()
	s["WASMOpcodeCost"]["Call"] = 0
	_, err := config.CreateGasConfig(s)
	Must(err != nil, "a price of zero is accepted")
}
''','a schedule in which an instruction has no price','a schedule with a missing or zero price of an instruction is accepted')
bug('P20-opcode-order','P20',[('config/gasCost.go','''	opcode_costs[wasmer.OpcodeI64ExtendI32S] = opcode_costs_struct.I64ExtendI32S
	opcode_costs[wasmer.OpcodeI64ExtendI32U] = opcode_costs_struct.I64ExtendI32U
''','''	opcode_costs[wasmer.OpcodeI64ExtendI32S] = opcode_costs_struct.I64ExtendI32U
	opcode_costs[wasmer.OpcodeI64ExtendI32U] = opcode_costs_struct.I64ExtendI32S
''')],'''
func main() {
	w := New()
	s := config.MakeGasMapForTests()
	s["WASMOpcodeCost"]["I64ExtendI32S"] = 77
	w.VM.GasScheduleChange(s)
	Must(mw.OpcodeCost(wasmer.OpcodeI64ExtendI32S) == 77, "i64.extend_i32_s costs %d", mw.OpcodeCost(wasmer.OpcodeI64ExtendI32S))
}
''','a schedule with different prices for two related instructions','two instructions are charged each other\'s price')
dbg='''
func call(f func(*arwendebug.DebugFacade)) {
	out := os.Stdout
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout = null
	f(arwendebug.NewDebugFacade())
	os.Stdout = out
}
func base(world string) arwendebug.RequestBase { return arwendebug.RequestBase{DatabasePath: dir, World: world} }
var dir string
var alice = bytes.Repeat([]byte{97}, 32)
func account(world, balance string, nonce uint64) {
	call(func(f *arwendebug.DebugFacade) {
		_, err := f.CreateAccount(arwendebug.CreateAccountRequest{RequestBase: base(world), AddressHex: hex.EncodeToString(alice), Balance: balance, Nonce: nonce})
		Must(err == nil, "account: %v", err)
	})
}
func cbase(world string) arwendebug.ContractRequestBase {
	return arwendebug.ContractRequestBase{RequestBase: base(world), ImpersonatedHex: hex.EncodeToString(alice), GasLimit: 9000000}
}
func deploy(world string, code []byte) (at []byte) {
	call(func(f *arwendebug.DebugFacade) {
		r, err := f.DeploySmartContract(arwendebug.DeployRequest{ContractRequestBase: cbase(world), CodeHex: hex.EncodeToString(code)})
		Must(err == nil && r.ReturnCodeString == "ok", "deployment: %v %+v", err, r)
		at = r.ContractAddress
	})
	return
}
func runIt(world string, at []byte, fn string) (o *vmcommon.VMOutput) {
	call(func(f *arwendebug.DebugFacade) {
		r, err := f.RunSmartContract(arwendebug.RunRequest{ContractRequestBase: cbase(world), ContractAddressHex: hex.EncodeToString(at), Function: fn})
		Must(err == nil && r.Output != nil, "run: %v", err)
		o = r.Output
	})
	return
}
func query(world string, at []byte, fn, outcome string) (o *vmcommon.VMOutput) {
	call(func(f *arwendebug.DebugFacade) {
		b := cbase(world)
		b.Outcome = outcome
		r, err := f.QuerySmartContract(arwendebug.QueryRequest{RunRequest: arwendebug.RunRequest{ContractRequestBase: b, ContractAddressHex: hex.EncodeToString(at), Function: fn}})
		Must(err == nil && r.Output != nil, "query: %v", err)
		o = r.Output
	})
	return
}
'''
def dmain(body):
    return 'package main\n\nimport (\n\t"bytes"\n\t"encoding/hex"\n\t"os"\n\n\t"demo/chain"\n\t. "demo/kit"\n\n\t"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwendebug"\n\tvmcommon "github.com/ElrondNetwork/elrond-vm-common"\n)\n\nvar _ = chain.SC\n'+dbg+'''
func main() {
	var err error
	dir, err = os.MkdirTemp("", "demo")
	Must(err == nil, "%v", err)
	ok := false
	defer os.RemoveAll(dir)
	func() {
		defer func() { if !ok { os.RemoveAll(dir) } }()
'''+body+'''		ok = true
	}()
}
'''
bug('P27-file-tail','P27',[('arwendebug/database.go','''	return ioutil.WriteFile(filePath, data, 0644)
''','''	file, err := os.OpenFile(filePath, os.O_WRONLY|os.O_CREATE, 0644)
	if err != nil {
		return err
	}
	defer file.Close()

	_, err = file.Write(data)
	return err
'''),('arwendebug/database.go','''	"io/ioutil"
	"os"
''','''	"io/ioutil"
	"os"
''')],dmain('''
		account("w", "123456789012345678901234567890", 0)
		account("w", "1", 0)
		account("w", "1", 0)
'''),'a stored world which becomes smaller','a world cannot be read any more after it has become smaller')
bug('P27-owner-lost','P27',[('mock/world/worldAccount.go','''		OwnerAddress:    cloneBytes(a.OwnerAddress),
''','''		OwnerAddress:    cloneBytes(a.AccountDataHandlerOwner()),
'''),('mock/world/worldAccount.go','''func (a *Account) cloneStorage() map[string][]byte {
''','''// AccountDataHandlerOwner returns the owner of the account
func (a *Account) AccountDataHandlerOwner() []byte {
	if a.IsSmartContract && len(a.Storage) == 0 {
		return nil
	}
	return a.OwnerAddress
}

func (a *Account) cloneStorage() map[string][]byte {
''')],dmain('''
		w := New()
		w.On("x", "init", func(f *F) {})
		w.On("x", "owner", func(f *F) { o := f.Alloc(32); f.F("owner", o) })
		account("w", "100", 0)
		at := deploy("w", Code("x", "init", "owner"))
		o := query("w", at, "owner", "")
		Must(len(o.ReturnData) == 1 && bytes.Equal(o.ReturnData[0], alice), "the owner is %x", o.ReturnData)
''').replace('o := f.Alloc(32); f.F("owner", o)','o := f.Alloc(32); f.Call("getOwnerAddress", o); f.Finish(string(f.Get(o, 32)))'),'a deployed contract which has stored nothing','the owner of a contract is lost when the world is stored')
bug('P27-world-case','P27',[('arwendebug/database.go','''	return path.Join(db.rootPath, "worlds", fmt.Sprintf("%s.json", worldID))
''','''	return path.Join(db.rootPath, "worlds", fmt.Sprintf("%s.json", strings.ToLower(worldID)))
'''),('arwendebug/database.go','''	"path"
''','''	"path"
	"strings"
''')],dmain('''
		w := New()
		w.On("x", "init", func(f *F) {})
		account("w", "100", 0)
		at := deploy("w", Code("x", "init", "f"))
		account("W", "100", 0)
		w.On("x", "f", func(f *F) {})
		Must(runIt("w", at, "f").ReturnCode == 0, "the contract is gone")
		Must(runIt("W", at, "f").ReturnCode != 0, "the contract is in another world")
'''),'two worlds whose names differ in case only','a world is mixed with another')
bug('P27-query-stored','P27',[('arwendebug/facade.go','''	response := world.querySmartContract(request)

	err = database.storeOutcome(request.Outcome, response)
	if err != nil {
		return nil, err
	}
''','''	response := world.querySmartContract(request)

	if len(request.Outcome) > 0 {
		err = database.storeWorld(world)
		if err != nil {
			return nil, err
		}
	}

	err = database.storeOutcome(request.Outcome, response)
	if err != nil {
		return nil, err
	}
'''),('arwendebug/world.go','''	vmOutput, err := w.vm.RunSmartContractCall(input)

	response := &QueryResponse{}
''','''	vmOutput, err := w.vm.RunSmartContractCall(input)
	if err == nil && len(request.Outcome) > 0 {
		_ = w.blockchainHook.UpdateAccounts(vmOutput.OutputAccounts, nil)
	}

	response := &QueryResponse{}
''')],dmain('''
		w := New()
		w.On("x", "init", func(f *F) {})
		w.On("x", "set", func(f *F) { f.Store("k", "v") })
		w.On("x", "get", func(f *F) { f.Finish(f.Load("k")) })
		account("w", "100", 0)
		at := deploy("w", Code("x", "init", "set", "get"))
		query("w", at, "set", "out")
		o := query("w", at, "get", "")
		Must(len(o.ReturnData) == 1 && len(o.ReturnData[0]) == 0, "a query stored %q", o.ReturnData)
'''),'a query of a function which writes, with its outcome stored','a query changes the world')

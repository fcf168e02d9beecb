bug('P11-short-esdt','P11',[('arwen/host/asyncCall.go','''	if functionName == vmcommon.BuiltInFunctionESDTTransfer && len(args) == 2 {
		return true, functionName, args
	}
''','''	if functionName == vmcommon.BuiltInFunctionESDTTransfer && len(args) <= 2 {
		return true, functionName, args
	}
''')],'''
func main() {
	w := New()
	w.Contract(0, 10, "main", "callBack")
	w.Contract(1, 10, "f")
	w.On("c1", "f", func(f *F) { f.Finish("ESDTTransfer@544f4b2d31") })
	w.On("c0", "main", func(f *F) { f.Async(chain.SC(1), 0, "f") })
	out, err := w.VM.RunSmartContractCall(Input(chain.User(1), chain.SC(0), "main", 10000000, 0))
	Must(err == nil && out != nil, "no result: %v", err)
}
''','an asynchronous call whose first result is an ESDT transfer with one argument only','the VM gives no result (a panic inside the VM) for hostile data returned to a caller')
bug('P11-deploy-leak','P11',[('arwen/host/execution.go','''			log.Trace(fmt.Sprintf("doRunSmartContractCreate full error list"), "error", errs)
		}
		host.Clean()
	}()
''','''			log.Trace(fmt.Sprintf("doRunSmartContractCreate full error list"), "error", errs)
			return
		}
		host.Clean()
	}()
''')],'''
func main() {
	w := New()
	w.Ch.Add(chain.User(1), 1000)
	w.On("cand", "init", func(f *F) { f.Trap() })
	n := mw.LiveInstances()
	for i := 0; i < 5; i++ {
		w.Deploy(chain.User(1), Code("cand", "init"), 10000000)
	}
	Must(mw.LiveInstances() == n, "%d instances left", mw.LiveInstances()-n)
}
''','deployments whose init function fails','the engine instance of a failed deployment is never released')
bug('P12-cache-price','P12',[('arwen/contexts/metering.go','''	costPerByte := context.gasSchedule.BaseOperationCost.CompilePerByte
	baseCost := uint64(0)
	if context.host.IsAheadOfTimeCompileEnabled() {
		costPerByte = context.gasSchedule.BaseOperationCost.AoTPreparePerByte
		baseCost = context.gasSchedule.BaseOperationCost.GetCode
	}
''','''	costPerByte := context.gasSchedule.BaseOperationCost.CompilePerByte
	baseCost := uint64(0)
	if context.host.IsAheadOfTimeCompileEnabled() {
		costPerByte = context.gasSchedule.BaseOperationCost.AoTPreparePerByte
		baseCost = context.gasSchedule.BaseOperationCost.GetCode

		blockchain := context.host.Blockchain()
		codeHash := blockchain.GetCodeHash(context.host.Runtime().GetSCAddress())
		compiled, _ := blockchain.GetCompiledCode(codeHash)
		if !compiled {
			baseCost = math.AddUint64(baseCost, 1)
		}
	}
''')],'''
func main() {
	w := New()
	w.Contract(0, 10, "main")
	w.On("c0", "main", func(f *F) { f.Burn(10) })
	a := w.Call(chain.User(1), chain.SC(0), "main", 10000000, 0)
	b := w.Call(chain.User(1), chain.SC(0), "main", 10000000, 0)
	Ok(a)
	Must(a.GasRemaining == b.GasRemaining, "first %d, then %d", a.GasRemaining, b.GasRemaining)
}
''','the first execution of a contract on a node which has not compiled it yet','the gas of an execution depends on the cache of compiled code')
bug('P12-protection-left','P12',[('arwen/contexts/bigint.go','''	context.values = make(bigIntMap)
}
''','''	if len(context.values) > 8 || context.values == nil {
		context.values = make(bigIntMap)
	}
	for handle, value := range context.values {
		if value.Sign() >= 0 {
			delete(context.values, handle)
		}
	}
}
''')],'''
func main() {
	w := New()
	w.Contract(0, 10, "set", "get")
	w.On("c0", "set", func(f *F) { f.Call("bigIntSetInt64", 1, -5) })
	w.On("c0", "get", func(f *F) { f.Call("bigIntFinishSigned", 1) })
	a := w.Call(chain.User(1), chain.SC(0), "get", 10000000, 0)
	w.Call(chain.User(1), chain.SC(0), "set", 10000000, 0)
	b := w.Call(chain.User(1), chain.SC(0), "get", 10000000, 0)
	Must(chain.Canon(a) == chain.Canon(b), "the result depends on an earlier transaction")
}
''','an earlier transaction which leaves a negative big integer','big integers of an earlier execution are visible to later ones')
bug('P13-result-arity','P13',[('arwen/contexts/validator.go','''	isVoid := inArity == 0 && outArity == 0
''','''	isVoid := inArity == 0 && outArity == 0
	if functionName == arwen.CallbackFunctionName {
		isVoid = inArity == 0
	}
''')],'''
func main() {
	w := New()
	w.Ch.Add(chain.User(1), 1000)
	for _, n := range []string{"callBack", "other"} {
		code := (&mw.Module{ID: "x", Exports: []string{"init"}, MemMin: 1, Typed: map[string]int{n: 2}, TypedOrder: []string{n}}).Bytes()
		out := w.Deploy(chain.User(1), code, 10000000)
		Must(out.ReturnCode == vmcommon.ContractInvalid, "%s with a result: %v %s", n, out.ReturnCode, out.ReturnMessage)
	}
}
''','a contract whose callBack returns a value','a module whose callBack function has a result is accepted')
bug('P13-async-callback','P13',[('arwen/host/execution.go','''	isInAsyncCallBack := runtime.GetVMInput().CallType == vmcommon.AsynchronousCallBack
''','''	isInAsyncCallBack := runtime.GetVMInput().CallType != vmcommon.DirectCall
''')],'''
func main() {
	w := New()
	w.Contract(0, 10, "main", "callBack")
	ran := false
	w.On("c0", "callBack", func(f *F) { ran = true })
	in := Input(chain.RemoteSC(3), chain.SC(0), "callBack", 10000000, 0, []byte{})
	in.CallType = vmcommon.AsynchronousCall
	w.Run(in)
	Must(!ran, "callBack ran in an asynchronous call")
}
''','an asynchronous call which names callBack as its function','the callback function can be run by an asynchronous call of anybody')
bug('P13-verified-twice','P13',[('arwen/contexts/runtime.go','''	context.verifyCode = false

	err := context.validator.verifyMemoryDeclaration(context.instance)
''','''	context.verifyCode = false

	// a contract already running has been verified
	if context.IsContractOnTheStack(context.GetSCAddress()) {
		return nil
	}

	err := context.validator.verifyMemoryDeclaration(context.instance)
''')],'''
func main() {
	w := New()
	bad := (&mw.Module{ID: "bad", Exports: []string{"init", "f"}, MemMin: 1, Typed: map[string]int{"g": 1}, TypedOrder: []string{"g"}}).Bytes()
	w.Contract(0, 10, "main", "callBack")
	w.Ch.Accts[string(chain.SC(0))].Owner = chain.SC(0)
	w.On("c0", "main", func(f *F) {
		n, l, d := f.PutArgs([][]byte{bad, {5, 2}})
		fn := []byte("upgradeContract")
		f.Call("executeOnDestContext", 10000000, f.Put(chain.SC(0)), f.Put(Val32(0)), f.Put(fn), int64(len(fn)), n, l, d)
	})
	out := w.Call(chain.User(1), chain.SC(0), "main", 100000000, 0)
	for _, a := range out.OutputAccounts {
		Must(len(a.Code) == 0, "invalid code is in the output")
	}
}
''','a contract which owns and upgrades itself to invalid code within a call','the code of an upgrade is not verified when the contract is already running')

bug('P06-delta-in-place','P06',[('arwen/contexts/output.go','''	senderAcc.BalanceDelta = big.NewInt(0).Sub(senderAcc.BalanceDelta, value)
	destAcc.BalanceDelta = big.NewInt(0).Add(destAcc.BalanceDelta, value)
''','''	senderAcc.BalanceDelta.Sub(senderAcc.BalanceDelta, value)
	destAcc.BalanceDelta.Add(destAcc.BalanceDelta, value)
''')],'''
func main() {
	w := New()
	a := w.Contract(1, 1000, "go")
	b := w.Contract(2, 1000, "pay")
	u := chain.User(3)
	w.Ch.Add(u, 5)
	w.On("c2", "pay", func(f *F) {
		f.I("transferValue", f.Put(a), f.Put(Val32(7)), f.Put(nil), 0)
		f.Call("signalError", f.Put([]byte("no")), 2)
	})
	w.On("c1", "go", func(f *F) {
		f.I("transferValue", f.Put(b), f.Put(Val32(1)), f.Put(nil), 0)
		r := f.SendExec(b, 30, 1000000, "pay")
		Must(r != 0, "the nested call was meant to fail")
	})
	o := w.Call(u, a, "go", 100000000, 0)
	Ok(o)
	Must(Acct(o, a).BalanceDelta.Int64() == -1 && Acct(o, b).BalanceDelta.Int64() == 1, "deltas %v %v", Acct(o, a).BalanceDelta, Acct(o, b).BalanceDelta)
}
''','an earlier value transfer involving the same accounts, then a nested call with value that fails and whose failure the caller survives',
'balance deltas of the saved state are changed in place, so the transfers of a failed nested call survive its roll-back')

bug('P06-storage-shared','P06',[('arwen/contexts/output.go','''	if leftAccount.StorageUpdates == nil {
		leftAccount.StorageUpdates = make(map[string]*vmcommon.StorageUpdate)
	}
''','''	if leftAccount.StorageUpdates == nil {
		leftAccount.StorageUpdates = make(map[string]*vmcommon.StorageUpdate, len(rightAccount.StorageUpdates))
		if len(leftAccount.Address) != 0 && rightAccount.Nonce == 0 {
			leftAccount.StorageUpdates = rightAccount.StorageUpdates
			return
		}
	}
''')],'''
func main() {
	w := New()
	a := w.Contract(1, 1000, "go")
	b := w.Contract(2, 1000, "write")
	w.On("c2", "write", func(f *F) {
		if f.Load("k") == "" {
			f.Store("k", "first")
			return
		}
		f.Store("k", "second")
		f.Call("signalError", f.Put([]byte("no")), 2)
	})
	w.On("c1", "go", func(f *F) {
		f.Exec("executeOnDestContext", 1000000, b, 0, "write")
		Must(f.SendExec(b, 1, 1000000, "write") != 0, "the second call was meant to fail")
	})
	o := w.Call(chain.User(3), a, "go", 100000000, 0)
	Ok(o)
	Must(string(Acct(o, b).StorageUpdates["k"].Data) == "first", "k=%s", Acct(o, b).StorageUpdates["k"].Data)
}
''','a nested call that fails after writing an entry of an account already present in the output, with the caller going on',
'the saved output shares the storage map with the running one: writes of a failed nested call survive')

bug('P03-balance-alias','P03',[('arwen/contexts/blockchain.go','''	balance := big.NewInt(0).Add(outputAccount.Balance, outputAccount.BalanceDelta)
''','''	balance := outputAccount.Balance.Add(outputAccount.Balance, outputAccount.BalanceDelta)
''')],'''
func main() {
	w := New()
	a := w.Contract(1, 1000, "go")
	u := chain.User(3)
	w.Ch.Add(u, 5)
	w.On("c1", "go", func(f *F) {
		for i := 0; i < 3; i++ {
			f.I("transferValue", f.Put(u), f.Put(Val32(100)), f.Put(nil), 0)
		}
		x := f.I("bigIntNew", 0)
		f.Call("bigIntGetExternalBalance", f.Put(a), int64(x))
		Must(f.Call("bigIntGetInt64", int64(x)) == 700, "the balance reads %d", f.Call("bigIntGetInt64", int64(x)))
	})
	o := w.Call(u, a, "go", 100000000, 0)
	Ok(o)
}
''','two or more balance queries of an account with a non-zero delta in one transaction','every query of a balance adds the delta again into the cached balance')

bug('P07-status-deleted','P07',[('arwen/contexts/storage.go','''	copy(newUpdate.Data[:length], value[:length])
	storageUpdates[strKey] = newUpdate

	if bytes.Equal(oldValue, zero) {
''','''	copy(newUpdate.Data[:length], value[:length])
	if length > 0 || lengthOldValue == 0 || len(key) < arwen.AddressLen {
		storageUpdates[strKey] = newUpdate
	} else {
		delete(storageUpdates, strKey)
	}

	if bytes.Equal(oldValue, zero) {
''')],'''
func main() {
	w := New()
	a := w.Contract(1, 1000, "set", "del")
	k := strings.Repeat("k", 40)
	w.On("c1", "set", func(f *F) { f.Store(k, "value") })
	w.On("c1", "del", func(f *F) {
		f.Store(k, "")
		Must(f.Load(k) == "", "a deleted value is still read")
	})
	o := w.Call(chain.User(3), a, "set", 100000000, 0)
	Ok(o)
	w.Ch.Apply(o)
	o = w.Call(chain.User(3), a, "del", 100000000, 0)
	Ok(o)
	x := Acct(o, a).StorageUpdates[k]
	Must(x != nil && len(x.Data) == 0, "the deletion is missing from the output")
}
''','deleting a stored value under a key of 32 bytes or more','the deletion of a value under a long key is lost: reads return the old value and the output does not carry it')

bug('P09-readonly-nested','P09',[('arwen/contexts/runtime.go','''		callFunction:     context.callFunction,
		readOnly:         context.readOnly,
''','''		callFunction:     context.callFunction,
		readOnly:         context.readOnly && len(context.stateStack) == 0,
''')],'''
func main() {
	w := New()
	a := w.Contract(1, 1000, "go")
	b := w.Contract(2, 1000, "mid")
	c := w.Contract(3, 1000, "leaf")
	w.On("c3", "leaf", func(f *F) {})
	w.On("c2", "mid", func(f *F) {
		f.Exec("executeOnDestContext", 1000000, c, 0, "leaf")
		f.Store("k", "written in read-only mode")
	})
	w.On("c1", "go", func(f *F) { f.Exec0("executeReadOnly", 5000000, b, "mid") })
	o := w.Call(chain.User(3), a, "go", 100000000, 0)
	for _, y := range [][]byte{a, b} {
		x := Acct(o, y).StorageUpdates["k"]
		Must(x == nil || len(x.Data) == 0, "a read-only call wrote storage")
	}
}
''','a read-only call whose callee makes a further nested call and changes state after it returned','the read-only flag is lost when a call nested in a read-only call returns')

bug('P16-tmod-neg','P16',[('arwen/elrondapi/bigIntOps.go','''	dest.Rem(a, b) // Rem implements truncated modulus (like Go)
''','''	if b.IsInt64() && a.IsInt64() {
		dest.SetInt64(a.Int64() % b.Int64())
	} else {
		dest.Mod(a, b)
	}
''')],'''
func main() {
	w := New()
	a := w.Contract(1, 1000, "go")
	w.On("c1", "go", func(f *F) {
		v := new(big.Int).Lsh(big.NewInt(1), 100)
		x := f.I("bigIntNew", 0)
		f.Call("bigIntSetUnsignedBytes", int64(x), f.Put(v.Bytes()), int64(len(v.Bytes())))
		f.Call("bigIntNeg", int64(x), int64(x))
		y := f.I("bigIntNew", 7)
		z := f.I("bigIntNew", 0)
		f.Call("bigIntTMod", int64(z), int64(x), int64(y))
		Must(f.I("bigIntSign", int64(z)) < 0, "the remainder of a negative number is not negative")
	})
	Ok(w.Call(chain.User(3), a, "go", 100000000, 0))
}
''','bigIntTMod of a negative value outside the int64 range','truncated remainder becomes Euclidean modulus for large negative operands')

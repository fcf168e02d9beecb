package main

import (
	"errors"
	"fmt"
	"math/big"

	"verif/harness/chain"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
)

// stub is a blockchain hook which records the query and gives prepared answers.
type stub struct {
	name string
	args []interface{}
	res  []interface{}
	n    int
}

func (s *stub) rec(name string, args ...interface{}) []interface{} {
	s.name, s.args = name, args
	s.n++
	return s.res
}
func e(x interface{}) error {
	if x == nil {
		return nil
	}
	return x.(error)
}
func bs(x interface{}) []byte { b, _ := x.([]byte); return b }

func (s *stub) NewAddress(a []byte, n uint64, v []byte) ([]byte, error) {
	r := s.rec("NewAddress", a, n, v)
	return bs(r[0]), e(r[1])
}
func (s *stub) GetStorageData(a []byte, i []byte) ([]byte, error) {
	r := s.rec("GetStorageData", a, i)
	return bs(r[0]), e(r[1])
}
func (s *stub) GetBlockhash(n uint64) ([]byte, error) {
	r := s.rec("GetBlockhash", n)
	return bs(r[0]), e(r[1])
}
func (s *stub) LastNonce() uint64         { return s.rec("LastNonce")[0].(uint64) }
func (s *stub) LastRound() uint64         { return s.rec("LastRound")[0].(uint64) }
func (s *stub) LastTimeStamp() uint64     { return s.rec("LastTimeStamp")[0].(uint64) }
func (s *stub) LastRandomSeed() []byte    { return bs(s.rec("LastRandomSeed")[0]) }
func (s *stub) LastEpoch() uint32         { return s.rec("LastEpoch")[0].(uint32) }
func (s *stub) GetStateRootHash() []byte  { return bs(s.rec("GetStateRootHash")[0]) }
func (s *stub) CurrentNonce() uint64      { return s.rec("CurrentNonce")[0].(uint64) }
func (s *stub) CurrentRound() uint64      { return s.rec("CurrentRound")[0].(uint64) }
func (s *stub) CurrentTimeStamp() uint64  { return s.rec("CurrentTimeStamp")[0].(uint64) }
func (s *stub) CurrentRandomSeed() []byte { return bs(s.rec("CurrentRandomSeed")[0]) }
func (s *stub) CurrentEpoch() uint32      { return s.rec("CurrentEpoch")[0].(uint32) }
func (s *stub) ProcessBuiltInFunction(in *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
	r := s.rec("ProcessBuiltInFunction", in)
	o, _ := r[0].(*vmcommon.VMOutput)
	return o, e(r[1])
}
func (s *stub) GetBuiltinFunctionNames() vmcommon.FunctionNames {
	return s.rec("GetBuiltinFunctionNames")[0].(vmcommon.FunctionNames)
}
func (s *stub) GetAllState(a []byte) (map[string][]byte, error) {
	r := s.rec("GetAllState", a)
	return r[0].(map[string][]byte), e(r[1])
}
func (s *stub) GetUserAccount(a []byte) (vmcommon.UserAccountHandler, error) {
	r := s.rec("GetUserAccount", a)
	h, _ := r[0].(vmcommon.UserAccountHandler)
	return h, e(r[1])
}
func (s *stub) GetCode(h vmcommon.UserAccountHandler) []byte {
	return bs(s.rec("GetCode", acctString(h))[0])
}
func (s *stub) GetShardOfAddress(a []byte) uint32 { return s.rec("GetShardOfAddress", a)[0].(uint32) }
func (s *stub) IsSmartContract(a []byte) bool     { return s.rec("IsSmartContract", a)[0].(bool) }
func (s *stub) IsPayable(a []byte) (bool, error) {
	r := s.rec("IsPayable", a)
	return r[0].(bool), e(r[1])
}
func (s *stub) SaveCompiledCode(h []byte, c []byte) { s.rec("SaveCompiledCode", h, c) }
func (s *stub) GetCompiledCode(h []byte) (bool, []byte) {
	r := s.rec("GetCompiledCode", h)
	return r[0].(bool), bs(r[1])
}
func (s *stub) ClearCompiledCodes() { s.rec("ClearCompiledCodes") }
func (s *stub) GetESDTToken(a []byte, t []byte, n uint64) (*esdt.ESDigitalToken, error) {
	r := s.rec("GetESDTToken", a, t, n)
	x, _ := r[0].(*esdt.ESDigitalToken)
	return x, e(r[1])
}
func (s *stub) GetSnapshot() int { return s.rec("GetSnapshot")[0].(int) }
func (s *stub) RevertToSnapshot(n int) error {
	return e(s.rec("RevertToSnapshot", n)[0])
}
func (s *stub) IsInterfaceNil() bool { return s == nil }

func bigS(b *big.Int) string {
	if b == nil {
		return "0"
	}
	return b.String()
}

func acctString(h vmcommon.UserAccountHandler) string {
	if h == nil || h.IsInterfaceNil() {
		return "none"
	}
	return fmt.Sprintf("%x n=%d b=%s ch=%x rh=%x dr=%s ow=%x un=%x md=%x", h.AddressBytes(), h.GetNonce(), bigS(h.GetBalance()), h.GetCodeHash(), h.GetRootHash(), bigS(h.GetDeveloperReward()), h.GetOwnerAddress(), h.GetUserName(), h.GetCodeMetadata())
}

// ---- queries with random arguments and answers

func (f *filler) big() *big.Int {
	b := f.bytes()
	if len(b) > 40 {
		b = b[:40]
	}
	x := new(big.Int).SetBytes(b)
	if f.r.Intn(4) == 0 {
		x.Neg(x)
	}
	return x
}

func (f *filler) text(utf bool) string {
	if utf {
		return []string{"init", "callBack", "ESDTTransfer", "getX", "ß µ", "a\"b\\c\n", "%d %s %!", ""}[f.r.Intn(8)]
	}
	return []string{"user error", "100% wrong %s %d", "not enough gas", "bytes \xff\xfe\x80 end", "<&>\u2028", "quote \" back \\ \x00"}[f.r.Intn(6)]
}

func (f *filler) err() error {
	if f.r.Intn(3) > 0 {
		return nil
	}
	return errors.New(f.text(false))
}

func (f *filler) list() [][]byte {
	var l [][]byte
	for k := f.r.Intn(5); k > 0; k-- {
		l = append(l, f.bytes())
	}
	return l
}

func (f *filler) input() vmcommon.VMInput {
	in := vmcommon.VMInput{CallerAddr: f.bytes(), Arguments: f.list(), CallValue: f.big(), CallType: vmcommon.CallType(f.r.Intn(5)), GasPrice: f.u64(), GasProvided: f.u64(), GasLocked: f.u64(),
		OriginalTxHash: f.bytes(), CurrentTxHash: f.bytes(), PrevTxHash: f.bytes(), ReturnCallAfterError: f.r.Intn(2) == 0}
	for k := f.r.Intn(3); k > 0; k-- {
		in.ESDTTransfers = append(in.ESDTTransfers, &vmcommon.ESDTTransfer{ESDTValue: f.big(), ESDTTokenName: f.bytes(), ESDTTokenType: uint32(f.u64()), ESDTTokenNonce: f.u64()})
	}
	return in
}

func (f *filler) callInput() *vmcommon.ContractCallInput {
	fn := f.text(true)
	if f.r.Intn(8) == 0 {
		fn = "f\xff\xc3(" + fn
	}
	return &vmcommon.ContractCallInput{VMInput: f.input(), RecipientAddr: f.bytes(), Function: fn, AllowInitFunction: f.r.Intn(2) == 0}
}

func (f *filler) output() *vmcommon.VMOutput {
	o := &vmcommon.VMOutput{ReturnData: f.list(), ReturnCode: vmcommon.ReturnCode(f.r.Intn(13)), ReturnMessage: f.text(false), GasRemaining: f.u64(), GasRefund: f.big(),
		OutputAccounts: map[string]*vmcommon.OutputAccount{}, DeletedAccounts: f.list(), TouchedAccounts: f.list()}
	if f.r.Intn(8) == 0 {
		o.GasRefund = nil
	}
	for k := f.r.Intn(4); k > 0; k-- {
		o.Logs = append(o.Logs, &vmcommon.LogEntry{Identifier: f.bytes(), Address: f.bytes(), Topics: f.list(), Data: f.bytes()})
	}
	for k := f.r.Intn(5); k > 0; k-- {
		a := &vmcommon.OutputAccount{Address: f.bytes(), Nonce: f.u64(), Balance: f.big(), BalanceDelta: f.big(), StorageUpdates: map[string]*vmcommon.StorageUpdate{}, Code: f.bytes(), CodeMetadata: f.bytes(), CodeDeployerAddress: f.bytes(), GasUsed: f.u64()}
		if f.r.Intn(4) == 0 {
			a.Balance = nil
		}
		for j := f.r.Intn(4); j > 0; j-- {
			b := f.bytes()
			a.StorageUpdates[string(b)] = &vmcommon.StorageUpdate{Offset: b, Data: f.bytes()}
		}
		for j := f.r.Intn(4); j > 0; j-- {
			a.OutputTransfers = append(a.OutputTransfers, vmcommon.OutputTransfer{Value: f.big(), GasLimit: f.u64(), GasLocked: f.u64(), Data: f.bytes(), CallType: vmcommon.CallType(f.r.Intn(5)), SenderAddress: f.bytes()})
		}
		o.OutputAccounts[string(a.Address)] = a
	}
	return o
}

func (f *filler) account() *chain.Acct {
	return &chain.Acct{Addr: f.bytes(), Nonce: f.u64(), Balance: f.big(), Reward: f.big(), CodeHash: f.bytes(), Root: f.bytes(), Owner: f.bytes(), Name: f.bytes(), Meta: f.bytes()}
}

func (f *filler) token() *esdt.ESDigitalToken {
	t := &esdt.ESDigitalToken{Type: uint32(f.u64()), Value: f.big(), Properties: f.bytes()}
	if f.r.Intn(2) == 0 {
		t.TokenMetaData = &esdt.MetaData{Nonce: f.u64(), Name: f.bytes(), Creator: f.bytes(), Royalties: uint32(f.u64()), Hash: f.bytes(), URIs: f.list(), Attributes: f.bytes()}
	}
	return t
}

func (f *filler) names() vmcommon.FunctionNames {
	m := vmcommon.FunctionNames{}
	for k := f.r.Intn(6); k > 0; k-- {
		m[fmt.Sprintf("fn%d", f.r.Intn(100))] = struct{}{}
	}
	return m
}

// query makes one random query through hook g and gives a complaint if the
// question seen by s or the answer differs.
func query(f *filler, g vmcommon.BlockchainHook, s *stub, count func(string)) (name string, bad string) {
	s.name, s.args = "", nil
	before := s.n
	ask := func(nm string, args []interface{}, res []interface{}, do func() []interface{}) {
		name = nm
		s.res = res
		got := do()
		if s.n != before+1 || s.name != nm {
			bad = fmt.Sprintf("%s: the node answered %d queries, the last one %q", nm, s.n-before, s.name)
			return
		}
		for i := range args {
			if !same(args[i], s.args[i]) {
				bad = fmt.Sprintf("%s: argument %d arrived as %#v instead of %#v", nm, i, s.args[i], args[i])
				return
			}
		}
		for i := range got {
			if err, ok := res[i].(error); ok || (i == len(got)-1 && got[i] != nil && isErr(got[i])) {
				if ok && err != nil {
					count("nonzero error texts")
				}
				if fmt.Sprint(got[i]) != fmt.Sprint(res[i]) {
					bad = fmt.Sprintf("%s: the error %q became %q", nm, fmt.Sprint(res[i]), fmt.Sprint(got[i]))
				}
				continue
			}
			if !same(got[i], res[i]) && !(res[i] == nil && got[i] == nil) {
				bad = fmt.Sprintf("%s: answer %d arrived as %#v instead of %#v", nm, i, got[i], res[i])
				return
			}
		}
	}
	type l = []interface{}
	switch f.r.Intn(30) {
	case 0:
		a, n, v, r, er := f.bytes(), f.u64(), f.bytes(), f.bytes(), f.err()
		ask("NewAddress", l{a, n, v}, l{r, er}, func() l { x, y := g.NewAddress(a, n, v); return l{x, y} })
	case 1, 2:
		a, i, r, er := f.bytes(), f.bytes(), f.bytes(), f.err()
		ask("GetStorageData", l{a, i}, l{r, er}, func() l { x, y := g.GetStorageData(a, i); return l{x, y} })
	case 3:
		n, r, er := f.u64(), f.bytes(), f.err()
		ask("GetBlockhash", l{n}, l{r, er}, func() l { x, y := g.GetBlockhash(n); return l{x, y} })
	case 4:
		ask("LastNonce", nil, l{f.u64()}, func() l { return l{g.LastNonce()} })
	case 5:
		ask("LastRound", nil, l{f.u64()}, func() l { return l{g.LastRound()} })
	case 6:
		ask("LastTimeStamp", nil, l{f.u64()}, func() l { return l{g.LastTimeStamp()} })
	case 7:
		ask("LastRandomSeed", nil, l{f.bytes()}, func() l { return l{g.LastRandomSeed()} })
	case 8:
		ask("LastEpoch", nil, l{uint32(f.u64())}, func() l { return l{g.LastEpoch()} })
	case 9:
		ask("GetStateRootHash", nil, l{f.bytes()}, func() l { return l{g.GetStateRootHash()} })
	case 10:
		ask("CurrentNonce", nil, l{f.u64()}, func() l { return l{g.CurrentNonce()} })
	case 11:
		ask("CurrentRound", nil, l{f.u64()}, func() l { return l{g.CurrentRound()} })
	case 12:
		ask("CurrentTimeStamp", nil, l{f.u64()}, func() l { return l{g.CurrentTimeStamp()} })
	case 13:
		ask("CurrentRandomSeed", nil, l{f.bytes()}, func() l { return l{g.CurrentRandomSeed()} })
	case 14:
		ask("CurrentEpoch", nil, l{uint32(f.u64())}, func() l { return l{g.CurrentEpoch()} })
	case 15, 16:
		in, o, er := f.callInput(), f.output(), f.err()
		if er != nil { // no output together with an error
			ask("ProcessBuiltInFunction", l{in}, l{er}, func() l { s.res = l{nil, er}; _, y := g.ProcessBuiltInFunction(in); return l{y} })
			return
		}
		ask("ProcessBuiltInFunction", l{in}, l{chain.Canon(o)}, func() l {
			s.res = l{o, nil}
			x, y := g.ProcessBuiltInFunction(in)
			if y != nil {
				return l{"error " + y.Error()}
			}
			return l{chain.Canon(x)}
		})
	case 17:
		ask("GetBuiltinFunctionNames", nil, l{f.names()}, func() l { return l{g.GetBuiltinFunctionNames()} })
	case 18:
		a, m, er := f.bytes(), map[string][]byte{}, f.err()
		for k := f.r.Intn(5); k > 0; k-- {
			m[string(f.bytes())] = f.bytes()
		}
		ask("GetAllState", l{a}, l{m, er}, func() l { x, y := g.GetAllState(a); return l{x, y} })
	case 19, 20:
		a, er := f.bytes(), f.err()
		var h vmcommon.UserAccountHandler
		if er == nil && f.r.Intn(4) > 0 {
			h = f.account()
		}
		ask("GetUserAccount", l{a}, l{acctString(h), er}, func() l { s.res = l{h, er}; x, y := g.GetUserAccount(a); return l{acctString(x), y} })
	case 21:
		h := f.account()
		ask("GetCode", l{acctString(h)}, l{f.bytes()}, func() l { return l{g.GetCode(h)} })
	case 22:
		a := f.bytes()
		ask("GetShardOfAddress", l{a}, l{uint32(f.u64())}, func() l { return l{g.GetShardOfAddress(a)} })
	case 23:
		a := f.bytes()
		ask("IsSmartContract", l{a}, l{f.r.Intn(2) == 0}, func() l { return l{g.IsSmartContract(a)} })
	case 24:
		a := f.bytes()
		ask("IsPayable", l{a}, l{f.r.Intn(2) == 0, f.err()}, func() l { x, y := g.IsPayable(a); return l{x, y} })
	case 25:
		h, c := f.bytes(), f.bytes()
		ask("SaveCompiledCode", l{h, c}, nil, func() l { g.SaveCompiledCode(h, c); return nil })
	case 26:
		h := f.bytes()
		ask("GetCompiledCode", l{h}, l{f.r.Intn(2) == 0, f.bytes()}, func() l { x, y := g.GetCompiledCode(h); return l{x, y} })
	case 27:
		if f.r.Intn(2) == 0 {
			ask("ClearCompiledCodes", nil, nil, func() l { g.ClearCompiledCodes(); return nil })
			return
		}
		ask("GetSnapshot", nil, l{int(f.r.Int31())}, func() l { return l{g.GetSnapshot()} })
	case 28:
		a, t, n, er := f.bytes(), f.bytes(), f.u64(), f.err()
		if er != nil {
			ask("GetESDTToken", l{a, t, n}, l{er}, func() l { s.res = l{nil, er}; _, y := g.GetESDTToken(a, t, n); return l{y} })
			return
		}
		ask("GetESDTToken", l{a, t, n}, l{f.token(), nil}, func() l { x, y := g.GetESDTToken(a, t, n); return l{x, y} })
	case 29:
		n := int(f.r.Int31())
		ask("RevertToSnapshot", l{n}, l{f.err()}, func() l { return l{g.RevertToSnapshot(n)} })
	}
	return
}

func isErr(x interface{}) bool { _, ok := x.(error); return ok }

var _ = common.ErrArwenClosed

// Package chain is an in-memory chain used as the VM's blockchain hook. It is
// independent of the repository's own mock world: plain maps, whole-state
// snapshots, the protocol's real built-in functions, and a log of everything
// the VM asked for.
package chain

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"
	"sort"
	"sync"

	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/builtInFunctions"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
	"github.com/gogo/protobuf/proto"
)

// ProtectedPrefix is the protocol's protected storage prefix.
const ProtectedPrefix = "ELROND"

// ErrNoAccount is returned for accounts that do not exist.
var ErrNoAccount = errors.New("account does not exist")

// Acct is one account.
type Acct struct {
	Addr     []byte
	Nonce    uint64
	Balance  *big.Int
	Storage  map[string][]byte
	Code     []byte
	CodeHash []byte
	Meta     []byte
	Owner    []byte
	Name     []byte
	Reward   *big.Int
	Root     []byte
	c        *Chain
}

func (a *Acct) clone() *Acct {
	b := *a
	b.Balance = new(big.Int).Set(a.Balance)
	b.Reward = new(big.Int).Set(a.Reward)
	b.Storage = make(map[string][]byte, len(a.Storage))
	for k, v := range a.Storage {
		b.Storage[k] = v
	}
	return &b
}

func (a *Acct) GetCodeMetadata() []byte                         { return a.Meta }
func (a *Acct) GetCodeHash() []byte                             { return a.CodeHash }
func (a *Acct) GetRootHash() []byte                             { return a.Root }
func (a *Acct) AccountDataHandler() vmcommon.AccountDataHandler { return a }
func (a *Acct) AddToBalance(v *big.Int) error {
	n := new(big.Int).Add(a.Balance, v)
	if n.Sign() < 0 {
		return errors.New("negative balance")
	}
	a.Balance = n
	return nil
}
func (a *Acct) GetBalance() *big.Int { return new(big.Int).Set(a.Balance) }
func (a *Acct) ClaimDeveloperRewards([]byte) (*big.Int, error) {
	r := a.Reward
	a.Reward = big.NewInt(0)
	return r, nil
}
func (a *Acct) GetDeveloperReward() *big.Int                { return new(big.Int).Set(a.Reward) }
func (a *Acct) ChangeOwnerAddress(_ []byte, n []byte) error { a.Owner = n; return nil }
func (a *Acct) SetOwnerAddress(o []byte)                    { a.Owner = o }
func (a *Acct) GetOwnerAddress() []byte                     { return a.Owner }
func (a *Acct) SetUserName(n []byte)                        { a.Name = n }
func (a *Acct) GetUserName() []byte                         { return a.Name }
func (a *Acct) AddressBytes() []byte                        { return a.Addr }
func (a *Acct) IncreaseNonce(n uint64)                      { a.Nonce += n }
func (a *Acct) GetNonce() uint64                            { return a.Nonce }
func (a *Acct) IsInterfaceNil() bool                        { return a == nil }
func (a *Acct) RetrieveValue(key []byte) ([]byte, error)    { return a.Storage[string(key)], nil }
func (a *Acct) SaveKeyValue(key []byte, value []byte) error {
	if len(value) == 0 {
		delete(a.Storage, string(key))
	} else {
		a.Storage[string(key)] = append([]byte{}, value...)
	}
	return nil
}

// Event is one request of the VM.
type Event struct {
	Kind string
	A, B []byte
	Num  uint64
	In   *vmcommon.ContractCallInput
	Out  *vmcommon.VMOutput
	Err  error
}

// Block describes block information.
type Block struct {
	Nonce, Round, Time uint64
	Epoch              uint32
	Seed               []byte
}

// Chain is the world.
type Chain struct {
	mu        *sync.Mutex
	Accts     map[string]*Acct
	snaps     []map[string]*Acct
	Self      uint32
	Cur, Last Block
	Root      []byte
	Hashes    map[uint64][]byte
	Compiled  map[string][]byte
	NoCache   bool
	BI        vmcommon.BuiltInFunctionContainer
	Log       bool
	Events    []Event
	// Fault, if set, may make a request fail
	Fault func(kind string) error
	// FixedNew, if set, decides new addresses
	FixedNew           func(creator []byte, nonce uint64) []byte
	Snapshots, Reverts int
	// NonPayable addresses beyond contract metadata
	NonPayable map[string]bool
}

// New makes an empty chain.
func New() *Chain {
	return &Chain{mu: new(sync.Mutex), Accts: map[string]*Acct{}, Hashes: map[uint64][]byte{}, Compiled: map[string][]byte{}, NonPayable: map[string]bool{},
		Cur:  Block{Nonce: 100, Round: 110, Time: 12000, Epoch: 10, Seed: bytes.Repeat([]byte{0xc1}, 48)},
		Last: Block{Nonce: 99, Round: 108, Time: 11994, Epoch: 9, Seed: bytes.Repeat([]byte{0x1a}, 48)},
		Root: bytes.Repeat([]byte{0x5a}, 32)}
}

// SC makes a contract address, User a plain one; the last byte selects the
// shard: 0xFF is the other shard.
func SC(n int) []byte {
	a := make([]byte, 32)
	a[8], a[9] = 5, 0
	copy(a[10:], "SC__________________")
	a[28], a[29], a[30], a[31] = byte(n>>8), byte(n), 1, 1
	return a
}
func RemoteSC(n int) []byte { a := SC(n); a[31] = 0xff; return a }
func User(n int) []byte {
	a := bytes.Repeat([]byte{'u'}, 32)
	a[28], a[29], a[30], a[31] = byte(n>>8), byte(n), 1, 1
	return a
}
func RemoteUser(n int) []byte { a := User(n); a[31] = 0xff; return a }

// Add creates an account.
func (c *Chain) Add(addr []byte, balance int64) *Acct {
	a := &Acct{Addr: append([]byte{}, addr...), Balance: big.NewInt(balance), Storage: map[string][]byte{}, Reward: big.NewInt(0), c: c}
	c.Accts[string(addr)] = a
	return a
}

// AddContract creates a contract account.
func (c *Chain) AddContract(addr []byte, balance int64, code []byte, owner []byte, meta ...byte) *Acct {
	a := c.Add(addr, balance)
	a.SetCode(code)
	a.Owner = owner
	if len(meta) == 2 {
		a.Meta = meta
	} else {
		a.Meta = []byte{5, 2} // upgradeable, readable, payable
	}
	return a
}

// SetCode sets code and hash.
func (a *Acct) SetCode(code []byte) {
	a.Code = code
	h := sha256.Sum256(code)
	a.CodeHash = h[:]
}

// Clone copies the chain (without events and cache).
func (c *Chain) Clone() *Chain {
	n := *c
	n.mu = new(sync.Mutex)
	n.Accts = c.copyAccts()
	n.snaps, n.Events = nil, nil
	n.Compiled = map[string][]byte{}
	for _, a := range n.Accts {
		a.c = &n
	}
	return &n
}

func (c *Chain) copyAccts() map[string]*Acct {
	m := make(map[string]*Acct, len(c.Accts))
	for k, v := range c.Accts {
		m[k] = v.clone()
	}
	return m
}

func (c *Chain) ev(e Event) {
	if c.Log {
		c.mu.Lock()
		c.Events = append(c.Events, e)
		c.mu.Unlock()
	}
}
func (c *Chain) fault(k string) error {
	if c.Fault != nil {
		return c.Fault(k)
	}
	return nil
}

// ---- vmcommon.BlockchainHook

func (c *Chain) NewAddress(creator []byte, nonce uint64, vmType []byte) ([]byte, error) {
	c.ev(Event{Kind: "NewAddress", A: creator, B: vmType, Num: nonce})
	if err := c.fault("NewAddress"); err != nil {
		return nil, err
	}
	if c.FixedNew != nil {
		return c.FixedNew(creator, nonce), nil
	}
	return AddressFor(creator, nonce, vmType), nil
}

// AddressFor is the address rule of this chain.
func AddressFor(creator []byte, nonce uint64, vmType []byte) []byte {
	h := sha256.Sum256([]byte(fmt.Sprintf("%x/%d", creator, nonce)))
	a := make([]byte, 32)
	a[8], a[9] = 5, 0
	copy(a[8:], vmType)
	copy(a[10:], h[:20])
	a[30], a[31] = 7, 1
	return a
}

func (c *Chain) GetStorageData(addr []byte, key []byte) ([]byte, error) {
	c.ev(Event{Kind: "GetStorageData", A: addr, B: key})
	if err := c.fault("GetStorageData"); err != nil {
		return nil, err
	}
	a := c.Accts[string(addr)]
	if a == nil {
		return []byte{}, nil
	}
	return append([]byte{}, a.Storage[string(key)]...), nil
}
func (c *Chain) GetBlockhash(nonce uint64) ([]byte, error) {
	if h, ok := c.Hashes[nonce]; ok {
		return h, nil
	}
	return nil, errors.New("no such block")
}
func (c *Chain) LastNonce() uint64         { return c.Last.Nonce }
func (c *Chain) LastRound() uint64         { return c.Last.Round }
func (c *Chain) LastTimeStamp() uint64     { return c.Last.Time }
func (c *Chain) LastRandomSeed() []byte    { return c.Last.Seed }
func (c *Chain) LastEpoch() uint32         { return c.Last.Epoch }
func (c *Chain) GetStateRootHash() []byte  { return c.Root }
func (c *Chain) CurrentNonce() uint64      { return c.Cur.Nonce }
func (c *Chain) CurrentRound() uint64      { return c.Cur.Round }
func (c *Chain) CurrentTimeStamp() uint64  { return c.Cur.Time }
func (c *Chain) CurrentRandomSeed() []byte { return c.Cur.Seed }
func (c *Chain) CurrentEpoch() uint32      { return c.Cur.Epoch }
func (c *Chain) IsInterfaceNil() bool      { return c == nil }

func (c *Chain) ProcessBuiltInFunction(in *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
	cp := *in
	cp.Arguments = append([][]byte{}, in.Arguments...)
	if err := c.fault("ProcessBuiltInFunction"); err != nil {
		c.ev(Event{Kind: "BuiltIn", In: &cp, Err: err})
		return nil, err
	}
	out, err := c.processBI(in)
	c.ev(Event{Kind: "BuiltIn", In: &cp, Out: CloneOutput(out), Err: err})
	return out, err
}
func (c *Chain) processBI(in *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
	if c.BI == nil {
		return nil, errors.New("no built-in functions")
	}
	f, err := c.BI.Get(in.Function)
	if err != nil {
		return nil, err
	}
	return f.ProcessBuiltinFunction(c.local(in.CallerAddr), c.local(in.RecipientAddr), in)
}
func (c *Chain) local(addr []byte) vmcommon.UserAccountHandler {
	if c.ComputeId(addr) != c.Self {
		return nil
	}
	a := c.Accts[string(addr)]
	if a == nil {
		a = c.Add(addr, 0)
	}
	return a
}
func (c *Chain) GetBuiltinFunctionNames() vmcommon.FunctionNames {
	if c.BI == nil {
		return vmcommon.FunctionNames{}
	}
	return c.BI.Keys()
}
func (c *Chain) GetAllState(addr []byte) (map[string][]byte, error) {
	a := c.Accts[string(addr)]
	if a == nil {
		return nil, ErrNoAccount
	}
	return a.Storage, nil
}
func (c *Chain) GetUserAccount(addr []byte) (vmcommon.UserAccountHandler, error) {
	c.ev(Event{Kind: "GetUserAccount", A: addr})
	if err := c.fault("GetUserAccount"); err != nil {
		return nil, err
	}
	if c.ComputeId(addr) != c.Self {
		return nil, nil
	}
	a := c.Accts[string(addr)]
	if a == nil {
		return nil, ErrNoAccount
	}
	return a, nil
}
func (c *Chain) GetCode(h vmcommon.UserAccountHandler) []byte {
	if h == nil || h.IsInterfaceNil() {
		return nil
	}
	a := c.Accts[string(h.AddressBytes())]
	if a == nil {
		return nil
	}
	return a.Code
}
func (c *Chain) GetShardOfAddress(addr []byte) uint32 { return c.ComputeId(addr) }
func (c *Chain) IsSmartContract(addr []byte) bool     { return vmcommon.IsSmartContractAddress(addr) }
func (c *Chain) IsPayable(addr []byte) (bool, error) {
	if err := c.fault("IsPayable"); err != nil {
		return false, err
	}
	if c.NonPayable[string(addr)] {
		return false, nil
	}
	if !c.IsSmartContract(addr) {
		return true, nil
	}
	a := c.Accts[string(addr)]
	if a == nil || c.ComputeId(addr) != c.Self {
		return true, nil
	}
	return vmcommon.CodeMetadataFromBytes(a.Meta).Payable, nil
}
func (c *Chain) SaveCompiledCode(hash []byte, code []byte) {
	c.ev(Event{Kind: "SaveCompiledCode", A: hash})
	c.mu.Lock()
	c.Compiled[string(hash)] = append([]byte{}, code...)
	c.mu.Unlock()
}
func (c *Chain) GetCompiledCode(hash []byte) (bool, []byte) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.NoCache {
		return false, nil
	}
	b, ok := c.Compiled[string(hash)]
	return ok, b
}
func (c *Chain) ClearCompiledCodes() {
	c.mu.Lock()
	c.Compiled = map[string][]byte{}
	c.mu.Unlock()
}
func (c *Chain) GetESDTToken(addr []byte, id []byte, nonce uint64) (*esdt.ESDigitalToken, error) {
	c.ev(Event{Kind: "GetESDTToken", A: addr, B: id, Num: nonce})
	if err := c.fault("GetESDTToken"); err != nil {
		return nil, err
	}
	return c.Token(addr, id, nonce)
}
func (c *Chain) GetSnapshot() int {
	c.Snapshots++
	c.snaps = append(c.snaps, c.copyAccts())
	return len(c.snaps) - 1
}
func (c *Chain) RevertToSnapshot(s int) error {
	c.Reverts++
	c.ev(Event{Kind: "Revert", Num: uint64(s)})
	if s < 0 || s >= len(c.snaps) {
		return fmt.Errorf("no snapshot %d", s)
	}
	for k, v := range c.snaps[s] {
		cur := c.Accts[k]
		if cur != nil { // keep pointers alive that were handed out
			*cur = *v.clone()
		} else {
			c.Accts[k] = v.clone()
		}
	}
	for k := range c.Accts {
		if _, ok := c.snaps[s][k]; !ok {
			delete(c.Accts, k)
		}
	}
	return nil
}

// SetState makes the accounts those of another chain.
func (c *Chain) SetState(o *Chain) {
	c.Accts = o.copyAccts()
	for _, a := range c.Accts {
		a.c = c
	}
	c.snaps = nil
}

// Twin is a clone which a VM can run on.
func (c *Chain) Twin(gas map[string]map[string]uint64) *Chain {
	n := c.Clone()
	if c.BI != nil {
		n.EnableBuiltIns(gas)
	}
	return n
}

// DropSnapshots forgets snapshots (between transactions).
func (c *Chain) DropSnapshots() { c.snaps = nil }

// ---- shard coordinator, accounts adapter, payable handler, epoch notifier for built-in functions

func (c *Chain) NumberOfShards() uint32 { return 2 }
func (c *Chain) ComputeId(addr []byte) uint32 {
	if len(addr) > 0 && addr[len(addr)-1] == 0xff {
		return 1
	}
	return 0
}
func (c *Chain) SelfId() uint32                        { return c.Self }
func (c *Chain) SameShard(a, b []byte) bool            { return c.ComputeId(a) == c.ComputeId(b) }
func (c *Chain) CommunicationIdentifier(uint32) string { return "" }

type adapter struct{ c *Chain }

func (m adapter) GetExistingAccount(a []byte) (vmcommon.AccountHandler, error) {
	if x := m.c.Accts[string(a)]; x != nil {
		return x, nil
	}
	return nil, ErrNoAccount
}
func (m adapter) LoadAccount(a []byte) (vmcommon.AccountHandler, error) {
	if x := m.c.Accts[string(a)]; x != nil {
		return x, nil
	}
	return m.c.Add(a, 0), nil
}
func (m adapter) SaveAccount(vmcommon.AccountHandler) error { return nil }
func (m adapter) RemoveAccount(a []byte) error              { delete(m.c.Accts, string(a)); return nil }
func (m adapter) Commit() ([]byte, error)                   { return nil, nil }
func (m adapter) JournalLen() int                           { return 0 }
func (m adapter) RevertToSnapshot(int) error                { return nil }
func (m adapter) GetNumCheckpoints() uint32                 { return 0 }
func (m adapter) GetCode([]byte) []byte                     { return nil }
func (m adapter) RootHash() ([]byte, error)                 { return nil, nil }
func (m adapter) RecreateTrie([]byte) error                 { return nil }
func (m adapter) IsInterfaceNil() bool                      { return m.c == nil }

// Marsh is the protobuf marshaller of token data.
type Marsh struct{}

func (Marsh) Marshal(o interface{}) ([]byte, error) { return proto.Marshal(o.(proto.Message)) }
func (Marsh) Unmarshal(o interface{}, b []byte) error {
	m := o.(proto.Message)
	m.Reset()
	return proto.Unmarshal(b, m)
}
func (Marsh) IsInterfaceNil() bool { return false }

type notifier struct{}

func (notifier) RegisterNotifyHandler(h vmcommon.EpochSubscriberHandler) { h.EpochConfirmed(1000, 0) }
func (notifier) IsInterfaceNil() bool                                    { return false }

// EnableBuiltIns installs the protocol's real built-in functions.
func (c *Chain) EnableBuiltIns(gas map[string]map[string]uint64) {
	f, err := builtInFunctions.NewBuiltInFunctionsFactory(builtInFunctions.ArgsCreateBuiltInFunctionContainer{
		GasMap: gas, MapDNSAddresses: map[string]struct{}{}, Marshalizer: Marsh{}, Accounts: adapter{c}, ShardCoordinator: c, EpochNotifier: notifier{}})
	if err != nil {
		panic(err)
	}
	bi, err := f.CreateBuiltInFunctionContainer()
	if err != nil {
		panic(err)
	}
	if err = builtInFunctions.SetPayableHandler(bi, c); err != nil {
		panic(err)
	}
	c.BI = bi
}

// TokenKey is the storage key of a token entry.
func TokenKey(id []byte, nonce uint64) string {
	k := ProtectedPrefix + "esdt" + string(id)
	if nonce > 0 {
		k += string(new(big.Int).SetUint64(nonce).Bytes())
	}
	return k
}

// SetToken gives an account tokens.
func (c *Chain) SetToken(addr []byte, id []byte, nonce uint64, amount int64, meta *esdt.MetaData, props []byte) {
	t := &esdt.ESDigitalToken{Value: big.NewInt(amount), Properties: props}
	if nonce > 0 {
		t.Type = uint32(vmcommon.NonFungible)
		if meta == nil {
			meta = &esdt.MetaData{Nonce: nonce}
		}
		t.TokenMetaData = meta
	}
	b, err := proto.Marshal(t)
	if err != nil {
		panic(err)
	}
	a := c.Accts[string(addr)]
	if a == nil {
		a = c.Add(addr, 0)
	}
	a.Storage[TokenKey(id, nonce)] = b
}

// Token reads a token entry.
func (c *Chain) Token(addr []byte, id []byte, nonce uint64) (*esdt.ESDigitalToken, error) {
	t := &esdt.ESDigitalToken{Value: big.NewInt(0)}
	a := c.Accts[string(addr)]
	if a == nil {
		return t, nil
	}
	b := a.Storage[TokenKey(id, nonce)]
	if len(b) == 0 {
		return t, nil
	}
	if err := proto.Unmarshal(b, t); err != nil {
		return nil, err
	}
	return t, nil
}

// TokenValue is the amount of a token an account owns.
func (c *Chain) TokenValue(addr []byte, id []byte, nonce uint64) *big.Int {
	t, err := c.Token(addr, id, nonce)
	if err != nil || t.Value == nil {
		return big.NewInt(0)
	}
	return t.Value
}

// Apply applies the output of a successful execution as the node does.
func (c *Chain) Apply(out *vmcommon.VMOutput) {
	for _, oa := range out.OutputAccounts {
		if c.ComputeId(oa.Address) != c.Self {
			continue
		}
		a := c.Accts[string(oa.Address)]
		if a == nil {
			a = c.Add(oa.Address, 0)
		}
		if oa.BalanceDelta != nil {
			a.Balance.Add(a.Balance, oa.BalanceDelta)
		}
		if oa.Nonce > a.Nonce {
			a.Nonce = oa.Nonce
		}
		for k, u := range oa.StorageUpdates {
			if len(u.Data) == 0 {
				delete(a.Storage, k)
			} else {
				a.Storage[k] = append([]byte{}, u.Data...)
			}
		}
		if len(oa.Code) > 0 && oa.CodeDeployerAddress != nil {
			fresh := len(a.Code) == 0
			a.SetCode(oa.Code)
			a.Meta = oa.CodeMetadata
			if fresh {
				a.Owner = oa.CodeDeployerAddress
			}
		}
	}
	for _, d := range out.DeletedAccounts {
		delete(c.Accts, string(d))
	}
}

// CloneOutput deep-copies an output.
func CloneOutput(o *vmcommon.VMOutput) *vmcommon.VMOutput {
	if o == nil {
		return nil
	}
	n := *o
	n.OutputAccounts = map[string]*vmcommon.OutputAccount{}
	for k, v := range o.OutputAccounts {
		w := *v
		w.OutputTransfers = append([]vmcommon.OutputTransfer{}, v.OutputTransfers...)
		if v.BalanceDelta != nil {
			w.BalanceDelta = new(big.Int).Set(v.BalanceDelta)
		}
		w.StorageUpdates = map[string]*vmcommon.StorageUpdate{}
		for sk, su := range v.StorageUpdates {
			s := *su
			w.StorageUpdates[sk] = &s
		}
		n.OutputAccounts[k] = &w
	}
	n.ReturnData = append([][]byte{}, o.ReturnData...)
	n.Logs = append([]*vmcommon.LogEntry{}, o.Logs...)
	return &n
}

func big2(b *big.Int) string {
	if b == nil {
		return "0"
	}
	return b.String()
}

// Canon writes an output canonically, every field, for comparison.
func Canon(o *vmcommon.VMOutput) string {
	if o == nil {
		return "<nil>"
	}
	var s bytes.Buffer
	fmt.Fprintf(&s, "code=%d msg=%q gas=%d refund=%s\n", o.ReturnCode, o.ReturnMessage, o.GasRemaining, big2(o.GasRefund))
	for _, d := range o.ReturnData {
		fmt.Fprintf(&s, "ret %x\n", d)
	}
	var keys []string
	for k := range o.OutputAccounts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		a := o.OutputAccounts[k]
		ch := sha256.Sum256(a.Code)
		fmt.Fprintf(&s, "acct %x addr=%x nonce=%d delta=%s gasUsed=%d code=%d/%x meta=%x dep=%x\n", k, a.Address, a.Nonce, big2(a.BalanceDelta), a.GasUsed, len(a.Code), ch[:4], a.CodeMetadata, a.CodeDeployerAddress)
		var sk []string
		for q := range a.StorageUpdates {
			sk = append(sk, q)
		}
		sort.Strings(sk)
		for _, q := range sk {
			fmt.Fprintf(&s, "  st %x off=%x = %x\n", q, a.StorageUpdates[q].Offset, a.StorageUpdates[q].Data)
		}
		for _, t := range a.OutputTransfers {
			fmt.Fprintf(&s, "  tr v=%s gl=%d lock=%d type=%d from=%x data=%s\n", big2(t.Value), t.GasLimit, t.GasLocked, t.CallType, t.SenderAddress, hex.EncodeToString(t.Data))
		}
	}
	for _, d := range o.DeletedAccounts {
		fmt.Fprintf(&s, "del %x\n", d)
	}
	for _, d := range o.TouchedAccounts {
		fmt.Fprintf(&s, "touch %x\n", d)
	}
	for _, l := range o.Logs {
		fmt.Fprintf(&s, "log %x %x data=%x topics=%x\n", l.Identifier, l.Address, l.Data, l.Topics)
	}
	return s.String()
}

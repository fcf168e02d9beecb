package uni

import (
	"bytes"
	"math/big"
	"math/rand"

	"verif/harness/chain"
	"verif/harness/mw"
	"verif/harness/run"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/host"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

const maxPoints = uint64(1)<<63 - 1

// Transfer is one expected outgoing transfer.
type Transfer struct {
	To, From  []byte
	Value     *big.Int
	Gas, Lock uint64
	Data      []byte
	Type      vmcommon.CallType
}

// LogEntry is one expected log entry.
type LogEntry struct {
	Addr, ID, Data []byte
	Topics         [][]byte
}

// Deployed is newly placed code.
type Deployed struct{ Code, Meta, Deployer []byte }

// State is everything a transaction may change.
type State struct {
	Delta  map[string]*big.Int
	Store  map[string]map[string][]byte
	Tr     map[string][]Transfer
	Logs   []LogEntry
	Ret    [][]byte
	Refund uint64
	Code   map[string]*Deployed
	Nonce  map[string]uint64
	Tok    map[string]*big.Int
}

func newState() *State {
	return &State{Delta: map[string]*big.Int{}, Store: map[string]map[string][]byte{}, Tr: map[string][]Transfer{}, Code: map[string]*Deployed{}, Nonce: map[string]uint64{}, Tok: map[string]*big.Int{}}
}

func (s *State) clone() *State {
	n := newState()
	for k, v := range s.Delta {
		n.Delta[k] = v
	}
	for k, v := range s.Store {
		m := map[string][]byte{}
		for a, b := range v {
			m[a] = b
		}
		n.Store[k] = m
	}
	for k, v := range s.Tr {
		n.Tr[k] = append([]Transfer{}, v...)
	}
	n.Logs = append([]LogEntry{}, s.Logs...)
	n.Ret = append([][]byte{}, s.Ret...)
	n.Refund = s.Refund
	for k, v := range s.Code {
		n.Code[k] = v
	}
	for k, v := range s.Nonce {
		n.Nonce[k] = v
	}
	for k, v := range s.Tok {
		n.Tok[k] = v
	}
	return n
}

// Tok is a token payment.
type Tok struct {
	Name  []byte
	Nonce uint64
	Type  uint32
	Value *big.Int
}

// Fr is one running contract call.
type Fr struct {
	u        *U
	f        *mw.Frame
	parent   *Fr
	depth    int
	same     bool
	self     []byte
	store    []byte
	caller   []byte
	codeID   string
	fn       string
	args     [][]byte
	value    *big.Int
	tok      *Tok
	orig     []byte
	provided uint64
	initial  uint64
	limit    uint64 // gas limit of the instance
	room     uint64 // gas for the execution (differs after createContract)
	used     uint64
	childGas uint64 // gas consumed by successful nested calls
	fwd      uint64 // gas sent along with transfers
	gas      map[string]uint64
	big      map[int32]*big.Int
	ro       bool
	ct       vmcommon.CallType
	entered  bool
	ended    bool // the model knows that the frame ends here
	failed   bool
	cause    string
	msg      string
	saved    *State // state before the frame
	ops      int
	await    bool                // an asynchronous call is going on although the function has ended
	then     func()              // called when the outcome of the frame is known
	deploy   *Deployed           // code to place when the frame has ended well
	code     vmcommon.ReturnCode // of the failure
	hasCB    bool
	there    bool // the account exists although it has no code
	codeLen  int
	play     func(fr *Fr) // overrides the random player
	op       string
	shown    string // function name the contract sees, if different
	charged  bool
	nothing  bool // succeeds without running code
	before   *State
}

// Contract is one known contract of the world.
type Contract struct {
	Addr    []byte
	Code    []byte
	ID      string
	Exports []string
	Meta    []byte
}

// U is one universe: a VM on a chain with its model.
type U struct {
	calm    bool // the running transaction avoids operations which fail
	C       *run.Case
	R       *rand.Rand
	Ch      *chain.Chain
	base    *chain.Chain // the chain as it was before the running transaction
	VM      vmcommon.VMExecutionHandler
	G       Gas
	AOT     bool
	DynLock bool
	Warm    bool
	M       *State
	cur     *Fr
	pend    *Fr
	seen    int        // how much of the log of the chain has been read
	pendFn  func() *Fr // makes the pending frame when it is needed
	dead    bool
	why     string
	tags    map[string]bool
	// Filter decides whether a divergence concerns the checked property
	Filter func(tags map[string]bool) bool

	W        Weights
	MaxDepth int
	MaxOps   int
	Tight    int // percent of transactions with little gas

	CS       []*Contract
	Remote   [][]byte
	Users    [][]byte
	Keys     [][]byte
	Tokens   [][]byte
	codes    map[string]*Contract // by code bytes
	nonces   map[string]uint64
	txSeq    int
	nestFail int // nested failures seen in this transaction
	nestOps  int
	opsDone  int
	lastOp   string
	sawRO    bool
	Stats    map[string]int64
	shape    []byte
	sameRan  bool
	pool     []*Contract // codes to deploy
	junk     [][]byte
	noBI     bool
	evStart  int
	opBudget int
	lastNew  []byte
	curTx    []byte
	asyncRan bool
	created  [][]byte
}

// Weights selects how often groups of operations are drawn.
type Weights map[string]int

// Diverge reports a difference between the VM and the model.
func (u *U) Diverge(sig string, tags []string, format string, a ...interface{}) {
	if u.dead {
		return
	}
	u.dead = true
	u.why = sig
	set := map[string]bool{}
	for _, t := range tags {
		set[t] = true
	}
	if u.Filter == nil || u.Filter(set) {
		u.C.Failf(sig, format, a...)
	} else {
		u.C.Count("divergences of other properties", 1)
		u.C.Tracef("other property: %s", sig)
		if u.Stats != nil {
			u.Stats["other:"+sig]++
		}
	}
}

func acct(c *chain.Chain, a []byte) *chain.Acct { return c.Accts[string(a)] }

// balance is the model's balance of an account right now.
func (u *U) balance(a []byte) *big.Int {
	b := new(big.Int)
	if u.shard(a) == 0 {
		if x := acct(u.base, a); x != nil {
			b.Set(x.Balance)
		}
		if d := u.M.Delta[string(a)]; d != nil {
			b.Add(b, d)
		}
	}
	return b
}

func (u *U) shard(a []byte) uint32 { return u.Ch.ComputeId(a) }

func (u *U) move(from, to []byte, v *big.Int) bool {
	if v.Sign() < 0 || u.balance(from).Cmp(v) < 0 {
		return false
	}
	u.addDelta(from, new(big.Int).Neg(v))
	u.addDelta(to, v)
	return true
}
func (u *U) addDelta(a []byte, v *big.Int) {
	d := u.M.Delta[string(a)]
	if d == nil {
		d = new(big.Int)
	}
	u.M.Delta[string(a)] = new(big.Int).Add(d, v)
}

func elrondKey(k []byte) bool { return bytes.HasPrefix(k, []byte(chain.ProtectedPrefix)) }
func arwenKey(k []byte) bool  { return bytes.HasPrefix(k, []byte("ARWEN@")) }

// stored is the value a read of (addr, key) must give now.
func (u *U) stored(addr, key []byte) []byte {
	if elrondKey(key) {
		if x := acct(u.Ch, addr); x != nil {
			return x.Storage[string(key)]
		}
		return nil
	}
	if m := u.M.Store[string(addr)]; m != nil {
		if v, ok := m[string(key)]; ok {
			return v
		}
	}
	if x := acct(u.base, addr); x != nil {
		return x.Storage[string(key)]
	}
	return nil
}

func (u *U) write(addr, key, v []byte) {
	m := u.M.Store[string(addr)]
	if m == nil {
		m = map[string][]byte{}
		u.M.Store[string(addr)] = m
	}
	m[string(key)] = append([]byte{}, v...)
}

func tokKey(addr, id []byte, nonce uint64) string {
	return string(addr) + "|" + chain.TokenKey(id, nonce)
}

// onChain tells whether an account exists, apart from what the execution has
// not written yet: tokens are written at once.
func (u *U) onChain(a []byte) bool {
	if u.shard(a) != 0 {
		return false
	}
	if acct(u.base, a) != nil {
		return true
	}
	for k := range u.M.Tok {
		if len(k) > len(a) && k[:len(a)] == string(a) && k[len(a)] == '|' {
			return true
		}
	}
	return false
}

func (u *U) tokens(addr, id []byte, nonce uint64) *big.Int {
	if v, ok := u.M.Tok[tokKey(addr, id, nonce)]; ok {
		return v
	}
	return u.base.TokenValue(addr, id, nonce)
}
func (u *U) moveTok(from, to, id []byte, nonce uint64, v *big.Int) {
	u.M.Tok[tokKey(from, id, nonce)] = new(big.Int).Sub(u.tokens(from, id, nonce), v)
	if u.shard(to) == 0 {
		u.M.Tok[tokKey(to, id, nonce)] = new(big.Int).Add(u.tokens(to, id, nonce), v)
	}
}

// codeOf is the code an account runs now.
func (u *U) codeOf(a []byte) []byte {
	if d := u.M.Code[string(a)]; d != nil {
		return d.Code
	}
	if u.shard(a) != 0 {
		return nil
	}
	if x := acct(u.base, a); x != nil {
		return x.Code
	}
	return nil
}

// nonceOf is the model's nonce of an account right now.
func (u *U) nonceOf(a []byte) uint64 {
	if n, ok := u.M.Nonce[string(a)]; ok {
		return n
	}
	if x := acct(u.base, a); x != nil {
		return x.Nonce
	}
	return 0
}

// newAddress is where the next contract of a creator goes.
func (u *U) newAddress(creator []byte, nonce uint64) []byte {
	return chain.AddressFor(creator, nonce, []byte{5, 0})
}

func (u *U) isSC(a []byte) bool { return u.Ch.IsSmartContract(a) }

func satAdd(a, b uint64) uint64 {
	if a+b < a {
		return ^uint64(0)
	}
	return a + b
}

var _ = host.NewArwenVM

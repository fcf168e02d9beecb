package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"
	"sync"

	"verif/harness/kit"
	"verif/harness/mw"
	"verif/harness/run"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwenmandos"
	mj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/model"
	mjparse "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/parse"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

// ---- the reference world ----

type rmeta struct {
	creator, hash, uri, attr []byte
	royalties                uint64
}

type rtok struct {
	bal    map[uint64]*big.Int
	meta   map[uint64]*rmeta
	last   uint64
	roles  []string
	frozen bool
}

type racc struct {
	nonce             uint64
	bal               *big.Int
	user, owner, code []byte
	store             map[string]string
	toks              map[string]*rtok
}

type rlog struct {
	addr   []byte
	id     []byte
	topics [][]byte
	data   []byte
}

type rworld struct {
	accs map[string]*racc
	ret  [][]byte
	logs []rlog
}

func newAcc() *racc {
	return &racc{bal: new(big.Int), store: map[string]string{}, toks: map[string]*rtok{}}
}

func (w *rworld) clone() *rworld {
	n := &rworld{accs: map[string]*racc{}, ret: append([][]byte{}, w.ret...), logs: append([]rlog{}, w.logs...)}
	for k, a := range w.accs {
		b := *a
		b.bal = new(big.Int).Set(a.bal)
		b.store = map[string]string{}
		for x, y := range a.store {
			b.store[x] = y
		}
		b.toks = map[string]*rtok{}
		for x, t := range a.toks {
			u := *t
			u.bal = map[uint64]*big.Int{}
			u.meta = map[uint64]*rmeta{}
			for i, v := range t.bal {
				u.bal[i] = new(big.Int).Set(v)
			}
			for i, v := range t.meta {
				u.meta[i] = v
			}
			b.toks[x] = &u
		}
		n.accs[k] = &b
	}
	return n
}

func (w *rworld) set(o *rworld) { w.accs, w.ret, w.logs = o.accs, o.ret, o.logs }

func (w *rworld) acc(a []byte) *racc {
	x := w.accs[string(a)]
	if x == nil {
		x = newAcc()
		w.accs[string(a)] = x
	}
	return x
}

func (a *racc) tok(id string) *rtok {
	t := a.toks[id]
	if t == nil {
		t = &rtok{bal: map[uint64]*big.Int{}, meta: map[uint64]*rmeta{}}
		a.toks[id] = t
	}
	return t
}

func (w *rworld) tokBal(a []byte, id string, nonce uint64) *big.Int {
	if x := w.accs[string(a)]; x != nil && x.toks[id] != nil && x.toks[id].bal[nonce] != nil {
		return x.toks[id].bal[nonce]
	}
	return new(big.Int)
}

func (w *rworld) moveTok(from, to []byte, id string, nonce uint64, v *big.Int) {
	f := w.acc(from).tok(id)
	m := f.meta[nonce]
	f.bal[nonce] = new(big.Int).Sub(w.tokBal(from, id, nonce), v)
	t := w.acc(to).tok(id)
	t.bal[nonce] = new(big.Int).Add(w.tokBal(to, id, nonce), v)
	if nonce > 0 {
		t.meta[nonce] = m
	}
}

func (w *rworld) move(from, to []byte, v *big.Int) {
	w.acc(from).bal.Sub(w.acc(from).bal, v)
	w.acc(to).bal.Add(w.acc(to).bal, v)
}

// ---- programs: run by the contracts and by the reference ----

type pop struct {
	k      string
	a, b   string
	n      int64
	to     []byte
	amount int64
	fn     string
	args   [][]byte
	nonce  uint64
	gas    int64
}

func (p pop) String() string {
	s := p.k
	if p.a != "" || p.b != "" {
		s += fmt.Sprintf(" %q %q", p.a, p.b)
	}
	if p.n != 0 {
		s += fmt.Sprint(" ", p.n)
	}
	if p.to != nil {
		s += fmt.Sprintf(" %s x%d %s%q", strings.Trim(string(p.to), "\x00_"), p.amount, p.fn, p.args)
	}
	if p.nonce != 0 {
		s += fmt.Sprint(" #", p.nonce)
	}
	return s + ";"
}

type blocks struct{ cur, last [5]uint64 } // nonce, timestamp, round, epoch

// the current programs and the block information, for the contracts
var (
	progs   map[string][]pop
	progsMu sync.Mutex
)

func puppet(f0 *mw.Frame) {
	progsMu.Lock()
	ops := progs[f0.ID+"."+f0.Func]
	progsMu.Unlock()
	f := &kit.F{Frame: f0}
	for _, o := range ops {
		m := f.Mark()
		switch o.k {
		case "store":
			f.Store(o.a, o.b)
		case "storearg":
			if f.I("getNumArguments") > int32(o.n) {
				f.Store(o.a, string(arg(f, o.n)))
			}
		case "load":
			f.Finish(f.Load(o.a))
		case "fin":
			f.Finish(o.a)
		case "finarg":
			if f.I("getNumArguments") > int32(o.n) {
				f.Finish(string(arg(f, o.n)))
			}
		case "log":
			f.Log(o.b, append([]string{o.a}, strs(o.args)...)...)
		case "bal":
			p := f.Alloc(32)
			f.Call("getSCAddress", p)
			h := f.Call("bigIntNew", 0)
			f.Call("bigIntGetExternalBalance", p, h)
			f.Call("bigIntFinishUnsigned", h)
		case "val":
			h := f.Call("bigIntNew", 0)
			f.Call("bigIntGetCallValue", h)
			f.Call("bigIntFinishUnsigned", h)
		case "caller":
			p := f.Alloc(32)
			f.Call("getCaller", p)
			f.Finish(string(f.Get(p, 32)))
		case "owner":
			p := f.Alloc(32)
			f.Call("getOwnerAddress", p)
			f.Finish(string(f.Get(p, 32)))
		case "tokval":
			h := f.Call("bigIntNew", 0)
			f.Call("bigIntGetESDTCallValue", h)
			f.Call("bigIntFinishUnsigned", h)
		case "tokbal":
			p := f.Alloc(32)
			f.Call("getSCAddress", p)
			f.Finish(tokBalance(f, p, o.a, o.nonce).String())
		case "blk":
			f.Finish(fmt.Sprint(f.Call("getBlockNonce"), f.Call("getBlockTimestamp"), f.Call("getBlockRound"), f.Call("getBlockEpoch"),
				f.Call("getPrevBlockNonce"), f.Call("getPrevBlockTimestamp"), f.Call("getPrevBlockRound"), f.Call("getPrevBlockEpoch")))
		case "send":
			p := f.Alloc(32)
			f.Call("getSCAddress", p)
			h := f.Call("bigIntNew", 0)
			f.Call("bigIntGetExternalBalance", p, h)
			v := f.Call("bigIntNew", o.amount)
			if f.I("bigIntCmp", h, v) < 0 {
				f.Finish("poor")
				break
			}
			f.Finish(fmt.Sprint("r", f.SendExec(o.to, o.amount, uint64(o.gas), o.fn, o.args...)))
		case "tok":
			p := f.Alloc(32)
			f.Call("getSCAddress", p)
			if tokBalance(f, p, o.a, o.nonce).Cmp(big.NewInt(o.amount)) >= 0 {
				f.Finish(fmt.Sprint("t", f.SendTok(o.to, o.a, int64(o.nonce), o.amount, uint64(o.gas), o.fn, o.args...)))
			}
		case "fail":
			p := f.Put([]byte(o.a))
			f.Call("signalError", p, int64(len(o.a)))
		case "trap":
			f.Trap()
		case "burn":
			f.Burn(1 << 62)
		}
		f.Release(m)
	}
}

func strs(b [][]byte) (r []string) {
	for _, x := range b {
		r = append(r, string(x))
	}
	return
}

func arg(f *kit.F, i int64) []byte {
	n := f.I("getArgumentLength", i)
	p := f.Alloc(int(n) + 1)
	f.Call("getArgument", i, p)
	return f.Get(p, int(n))
}

func tokBalance(f *kit.F, addr int64, id string, nonce uint64) *big.Int {
	p := f.Alloc(64)
	n := f.I("getESDTBalance", addr, f.Put([]byte(id)), int64(len(id)), int64(nonce), p)
	if n < 0 {
		return big.NewInt(-1)
	}
	return new(big.Int).SetBytes(f.Get(p, int(n)))
}

type rframe struct {
	self, caller []byte
	value        *big.Int
	tokVal       *big.Int
	args         [][]byte
	query        bool
}

// rrun runs a program on the reference; the status of a failure is nonzero and
// the state is then meaningless.
func (x *xcase) rrun(w *rworld, f *rframe, fn string) int {
	acc := w.acc(f.self)
	id := x.ids[string(acc.code)]
	for _, o := range x.progs[id+"."+fn] {
		switch o.k {
		case "store":
			acc.store[o.a] = o.b
		case "storearg":
			if len(f.args) > int(o.n) {
				acc.store[o.a] = string(f.args[o.n])
			}
		case "load":
			w.ret = append(w.ret, []byte(acc.store[o.a]))
		case "fin":
			w.ret = append(w.ret, []byte(o.a))
		case "finarg":
			if len(f.args) > int(o.n) {
				w.ret = append(w.ret, f.args[o.n])
			}
		case "log":
			w.logs = append(w.logs, rlog{addr: f.self, id: []byte(o.a), topics: o.args, data: []byte(o.b)})
		case "bal":
			w.ret = append(w.ret, acc.bal.Bytes())
		case "val":
			w.ret = append(w.ret, f.value.Bytes())
		case "tokval":
			w.ret = append(w.ret, f.tokVal.Bytes())
		case "tokbal":
			w.ret = append(w.ret, []byte(w.tokBal(f.self, o.a, o.nonce).String()))
		case "caller":
			w.ret = append(w.ret, f.caller)
		case "owner":
			w.ret = append(w.ret, append([]byte{}, acc.owner...))
		case "blk":
			b := x.blk
			w.ret = append(w.ret, []byte(fmt.Sprint(b.cur[0], b.cur[1], b.cur[2], b.cur[3], b.last[0], b.last[1], b.last[2], b.last[3])))
		case "send":
			v := big.NewInt(o.amount)
			if acc.bal.Cmp(v) < 0 {
				w.ret = append(w.ret, []byte("poor"))
				continue
			}
			r := 0
			{
				n := w.clone()
				n.move(f.self, o.to, v)
				if o.fn != "" {
					if x.rrun(n, &rframe{self: o.to, caller: f.self, value: v, tokVal: new(big.Int), args: o.args}, o.fn) != 0 {
						r = 1
					}
				}
				if r == 0 {
					w.set(n)
					acc = w.acc(f.self)
				}
			}
			w.ret = append(w.ret, []byte(fmt.Sprint("r", r)))
		case "tok":
			v := big.NewInt(o.amount)
			if w.tokBal(f.self, o.a, o.nonce).Cmp(v) < 0 {
				continue
			}
			r := 0
			n := w.clone()
			n.moveTok(f.self, o.to, o.a, o.nonce, v)
			l := rlog{addr: f.self, id: []byte("ESDTTransfer"), topics: [][]byte{[]byte(o.a), v.Bytes(), o.to}}
			if o.nonce > 0 {
				l.id = []byte("ESDTNFTTransfer")
				l.topics[1] = new(big.Int).SetUint64(o.nonce).Bytes()
			}
			n.logs = append(n.logs, l)
			if o.fn != "" {
				if x.rrun(n, &rframe{self: o.to, caller: f.self, value: new(big.Int), tokVal: v, args: o.args}, o.fn) != 0 {
					r = 1
				}
			}
			if r == 0 {
				w.set(n)
				acc = w.acc(f.self)
			}
			w.ret = append(w.ret, []byte(fmt.Sprint("t", r)))
		case "fail":
			return 4
		case "trap":
			return 10
		case "burn":
			return 5
		}
	}
	return 0
}

// ---- scenario text ----

// jn is a JSON value; expectations are registered so that they can be changed.
type jn struct {
	keys []string
	kids []*jn
	s    string
	kind byte // s m l
	gone bool
}

func js(s string) *jn { return &jn{kind: 's', s: s} }
func jl(k ...*jn) *jn { return &jn{kind: 'l', kids: k} }
func jm(kv ...interface{}) *jn {
	m := &jn{kind: 'm'}
	for i := 0; i+1 < len(kv); i += 2 {
		m.put(kv[i].(string), kv[i+1].(*jn))
	}
	return m
}
func (m *jn) put(k string, v *jn) *jn {
	m.keys = append(m.keys, k)
	m.kids = append(m.kids, v)
	return m
}
func (j *jn) write(b *strings.Builder) {
	switch j.kind {
	case 's':
		b.WriteString(`"` + j.s + `"`)
	case 'b':
		b.WriteString(j.s)
	case 'l', 'm':
		open, end := "[", "]"
		if j.kind == 'm' {
			open, end = "{", "}"
		}
		b.WriteString(open)
		first := true
		for i, k := range j.kids {
			if k.gone {
				continue
			}
			if !first {
				b.WriteString(",")
			}
			first = false
			if j.kind == 'm' {
				b.WriteString(`"` + j.keys[i] + `":`)
			}
			k.write(b)
		}
		b.WriteString(end)
	}
}
func (j *jn) String() string {
	var b strings.Builder
	j.write(&b)
	return b.String()
}

// hx writes bytes as an expression.
func (x *xcase) hx(b []byte) string {
	if len(b) == 0 {
		return pickS(x.r, "", "", "str:", "0x")
	}
	plain := true
	for _, c := range b {
		if c < 'A' || c > 'z' || c == '|' || c == '\\' || c == '`' {
			plain = false
		}
	}
	if len(b) == 32 {
		if name, ok := x.names[string(b)]; ok && x.r.Intn(3) > 0 {
			return name
		}
	}
	if plain && x.r.Intn(2) == 0 {
		return pickS(x.r, "str:", "''") + string(b)
	}
	if len(b) > 2 && x.r.Intn(6) == 0 {
		n := 1 + x.r.Intn(len(b)-1)
		return fmt.Sprintf("0x%x|0x%x", b[:n], b[n:])
	}
	return fmt.Sprintf("0x%x", b)
}

func (x *xcase) num(v *big.Int) string {
	switch x.r.Intn(5) {
	case 0:
		return fmt.Sprintf("0x%x", v)
	case 1:
		s := v.String()
		for i := len(s) - 3; i > 0; i -= 3 {
			s = s[:i] + "," + s[i:]
		}
		return s
	}
	return v.String()
}
func (x *xcase) u(v uint64) string { return x.num(new(big.Int).SetUint64(v)) }

// mut is a change of an expectation that must be noticed (or not, if lax).
type mut struct {
	what     string
	do, undo func()
	lax      bool
	gasStep  int // for expectations of gas: the number of the step, from 1
}

// other registers changes of an expected value.
func (x *xcase) expStr(what string, j *jn, alts ...string) *jn {
	old := *j
	for _, a := range alts {
		a := a
		x.muts = append(x.muts, mut{what: what + " is " + old.s + ", expected " + a, do: func() { j.kind = 's'; j.s = a; j.kids = nil }, undo: func() { *j = old }})
	}
	x.lax(what+" *", func() { j.kind = 's'; j.s = "*"; j.kids = nil }, func() { *j = old })
	return j
}
func (x *xcase) lax(what string, do, undo func()) {
	x.laxs = append(x.laxs, mut{what: what, do: do, undo: undo, lax: true})
}
func (x *xcase) must(what string, do, undo func()) {
	x.muts = append(x.muts, mut{what: what, do: do, undo: undo})
}
func (x *xcase) expNum(what string, v *big.Int) *jn {
	alts := []string{new(big.Int).Add(v, big.NewInt(1)).String()}
	if v.Sign() > 0 {
		alts = append(alts, new(big.Int).Sub(v, big.NewInt(1)).String(), "0", "")
	}
	return x.expStr(what, js(x.num(v)), alts...)
}
func (x *xcase) expU64(what string, v uint64) *jn {
	alts := []string{}
	if v+1 != 0 {
		alts = append(alts, fmt.Sprint(v+1))
	}
	if v > 0 {
		alts = append(alts, fmt.Sprint(v-1), "0", "")
	}
	if v > 0 && v < 1<<32 {
		alts = append(alts, fmt.Sprint(v+1<<32))
	}
	return x.expStr(what, js(x.u(v)), alts...)
}
func (x *xcase) expBytes(what string, b []byte) *jn {
	alts := []string{fmt.Sprintf("0x%x00", b), fmt.Sprintf("0x01%x", b)}
	if len(b) > 0 {
		c := append([]byte{}, b...)
		c[x.r.Intn(len(c))] ^= 1 << uint(x.r.Intn(8))
		alts = append(alts, fmt.Sprintf("0x%x", c), "")
		if len(b) > 1 {
			alts = append(alts, fmt.Sprintf("0x%x", b[1:]), fmt.Sprintf("0x%x", b[:len(b)-1]))
		}
	}
	return x.expStr(what, js(x.hx(b)), alts...)
}

// gone registers the removal of an entry.
func (x *xcase) gone(what string, j *jn, lax bool) {
	m := mut{what: what + " not listed", do: func() { j.gone = true }, undo: func() { j.gone = false }, lax: lax}
	if lax {
		x.laxs = append(x.laxs, m)
	} else {
		x.muts = append(x.muts, m)
	}
}

// more registers an additional entry.
func (x *xcase) more(what string, m *jn, k string, v *jn, lax bool) {
	add := func() { m.put(k, v) }
	del := func() { m.keys, m.kids = m.keys[:len(m.keys)-1], m.kids[:len(m.kids)-1] }
	if lax {
		x.laxs = append(x.laxs, mut{what: what + " +" + k, do: add, undo: del, lax: true})
	} else {
		x.muts = append(x.muts, mut{what: what + " +" + k, do: add, undo: del})
	}
}

type xcase struct {
	c     *run.Case
	r     *rand.Rand
	w     *rworld
	names map[string]string // address -> expression
	users [][]byte
	scs   [][]byte
	ids   map[string]string // code -> id
	codes map[string][]byte
	progs map[string][]pop
	ex    *arwenmandos.ArwenTestExecutor
	blk   blocks
	steps []*jn
	muts  []mut
	laxs  []mut
	gasOn bool
	sched string
	txs   int
	price uint64
	desc  []string
	fresh int
}

var p24 = &run.Prop{ID: "P24", Level: "test", Quick: 1100, Thorough: 40000,
	Rule:        "the world of the runner equals the reference world after every step; a scenario that states what happened passes and one changed expectation makes it fail",
	Case:        p24case,
	Need:        map[string]int64{"steps": 4000, "transactions Ok": 1500, "transactions failed": 400, "transactions refused": 150, "changed expectations": 6000, "scenarios passed": 900, "relaxed expectations": 400, "deployments": 80, "queries": 80, "token transfers": 200, "nested calls": 150},
	Assumptions: []string{"the puppet contracts of the monitoring engine stand for compiled contracts", "gas left, refund and the text of failure messages are taken from the execution (P01, P02 judge them)"},
	Fixed:       p24fixed,
}

func userAddr(i int) ([]byte, string) {
	n := fmt.Sprintf("u%d", i)
	return []byte(n + strings.Repeat("_", 32-len(n))), "address:" + n
}
func scAddr(n string) ([]byte, string) {
	return append(make([]byte, 8), []byte(n+strings.Repeat("_", 24-len(n)))...), "sc:" + n
}

const fung, nft, frz = "TOK-a1b2c3", "NFT-d4e5f6", "FRZ-000000"

func (x *xcase) word() string { return digits(x.r, "abcdefgh", 1+x.r.Intn(12)) }
func (x *xcase) val() string {
	switch x.r.Intn(6) {
	case 0:
		return ""
	case 1:
		return string(randBytes(x.r, 1+x.r.Intn(70)))
	}
	return x.word()
}

var keysPool = []string{"k", "key", "key2", "balance", "sum", "\x00", "\x00\x01", "a long key of more than thirty-two bytes"}

func (x *xcase) program(level int, fn string) (ops []pop) {
	r := x.r
	n := 1 + r.Intn(6)
	for i := 0; i < n; i++ {
		k := r.Intn(20)
		if fn == "q" && (k < 4 || k >= 12) {
			k = 4 + r.Intn(8)
		}
		switch k {
		case 0, 1:
			ops = append(ops, pop{k: "store", a: keysPool[r.Intn(len(keysPool))], b: x.val()})
		case 2:
			ops = append(ops, pop{k: "storearg", a: keysPool[r.Intn(len(keysPool))], n: int64(r.Intn(3))})
		case 3, 12:
			o := pop{k: "log", a: x.word(), b: x.val()}
			for j := r.Intn(4); j > 0; j-- {
				o.args = append(o.args, []byte(x.word()))
			}
			ops = append(ops, o)
		case 4:
			ops = append(ops, pop{k: "load", a: keysPool[r.Intn(len(keysPool))]})
		case 5:
			ops = append(ops, pop{k: "fin", a: x.val()})
		case 6:
			ops = append(ops, pop{k: "finarg", n: int64(r.Intn(3))})
		case 7:
			ops = append(ops, pop{k: pickS(r, "bal", "val", "tokval", "owner")})
			if fn == "init" && ops[len(ops)-1].k == "owner" {
				ops[len(ops)-1].k = "bal"
			}
		case 8:
			ops = append(ops, pop{k: "tokbal", a: pickS(r, fung, nft), nonce: uint64(r.Intn(3))})
		case 9:
			ops = append(ops, pop{k: "caller"})
		case 10, 11:
			ops = append(ops, pop{k: "blk"})
		case 13, 14, 15:
			o := pop{k: "send", amount: int64(r.Intn(60))}
			x.dest(&o, level)
			ops = append(ops, o)
		case 16, 17:
			o := pop{k: "tok", a: fung, amount: int64(1 + r.Intn(60))}
			if r.Intn(2) == 0 {
				o.a, o.nonce, o.amount = nft, uint64(1+r.Intn(2)), int64(1+r.Intn(3))
			}
			x.dest(&o, level)
			ops = append(ops, o)
		case 18:
			if r.Intn(3) == 0 {
				ops = append(ops, pop{k: pickS(r, "fail", "trap", "burn"), a: "no " + x.word()})
			}
		case 19:
			ops = append(ops, pop{k: "fin", a: x.word()})
		}
	}
	return
}

func (x *xcase) dest(o *pop, level int) {
	r := x.r
	if level+1 < len(x.scs) && r.Intn(3) > 0 {
		i := level + 1 + r.Intn(len(x.scs)-level-1)
		o.to = x.scs[i]
		o.fn = "p" + fmt.Sprint(r.Intn(3))
		o.gas = []int64{300000000, 40000000}[level]
		for j := r.Intn(3); j > 0; j-- {
			o.args = append(o.args, []byte(x.word()))
		}
		return
	}
	o.to = x.users[r.Intn(len(x.users))]
	if o.k == "send" && r.Intn(5) == 0 {
		o.to, _ = userAddr(7) // does not exist at first
	}
}

var blkNames = []string{"blockNonce", "blockTimestamp", "blockRound", "blockEpoch"}

func (x *xcase) blockInfo() (*jn, [5]uint64) {
	j := jm()
	var v [5]uint64
	for i, n := range blkNames {
		if x.r.Intn(4) > 0 {
			v[i] = uint64(x.r.Intn(100000))
			if i == 3 {
				v[i] %= 1000
			}
			j.put(n, js(x.u(v[i])))
		}
	}
	return j, v
}

// setState makes a step that sets accounts (possibly none) and the blocks.
func (x *xcase) setState(accs map[string]*racc, mocks *jn) {
	st := jm("step", js("setState"))
	if x.r.Intn(5) == 0 {
		st.put("comment", js("prepare"))
	}
	am := jm()
	for _, a := range sorted(accs) {
		am.put(x.hxAddr([]byte(a)), x.accountIn(accs[a]))
		x.w.accs[a] = accs[a]
	}
	if len(accs) > 0 || x.r.Intn(2) == 0 {
		st.put("accounts", am)
	}
	if mocks != nil {
		st.put("newAddresses", mocks)
	}
	x.blk = blocks{}
	if x.r.Intn(5) > 0 {
		j, v := x.blockInfo()
		x.blk.cur = v
		st.put("currentBlockInfo", j)
	}
	if x.r.Intn(3) > 0 {
		j, v := x.blockInfo()
		x.blk.last = v
		st.put("previousBlockInfo", j)
	}
	x.step(st, "")
}

func sorted(m map[string]*racc) (k []string) {
	for a := range m {
		k = append(k, a)
	}
	sort.Strings(k)
	return
}

func (x *xcase) hxAddr(a []byte) string {
	if n, ok := x.names[string(a)]; ok && x.r.Intn(4) > 0 {
		return n
	}
	return fmt.Sprintf("0x%x", a)
}

func (x *xcase) accountIn(a *racc) *jn {
	j := jm("nonce", js(x.u(a.nonce)), "balance", js(x.num(a.bal)))
	if len(a.toks) > 0 {
		t := jm()
		for _, id := range sortedToks(a) {
			k := a.toks[id]
			if k.last == 0 && !k.frozen && len(k.roles) == 0 && len(k.bal) == 1 && k.bal[0] != nil && x.r.Intn(2) == 0 {
				t.put("str:"+id, js(x.num(k.bal[0])))
				continue
			}
			o := jm()
			l := jl()
			for _, n := range sortedU(k.bal) {
				e := jm()
				if n > 0 {
					e.put("nonce", js(x.u(n)))
				}
				e.put("balance", js(x.num(k.bal[n])))
				if m := k.meta[n]; m != nil {
					e.put("creator", js(x.hx(m.creator)))
					e.put("royalties", js(x.u(m.royalties)))
					e.put("hash", js(x.hx(m.hash)))
					e.put("uri", js(x.hx(m.uri)))
					e.put("attributes", js(x.hx(m.attr)))
				}
				l.kids = append(l.kids, e)
			}
			o.put("instances", l)
			if k.last > 0 {
				o.put("lastNonce", js(x.u(k.last)))
			}
			if len(k.roles) > 0 {
				rl := jl()
				for _, s := range k.roles {
					rl.kids = append(rl.kids, js(s))
				}
				o.put("roles", rl)
			}
			if k.frozen {
				o.put("frozen", js("true"))
			}
			t.put("str:"+id, o)
		}
		j.put("esdt", t)
	}
	if len(a.user) > 0 {
		j.put("username", js(x.hx(a.user)))
	}
	s := jm()
	for _, k := range sortedS(a.store) {
		s.put(x.hx([]byte(k)), js(x.hx([]byte(a.store[k]))))
	}
	j.put("storage", s)
	j.put("code", js(codeText(a.code)))
	if len(a.owner) > 0 {
		j.put("owner", js(x.hx(a.owner)))
	}
	return j
}

func codeText(c []byte) string {
	if len(c) == 0 {
		return ""
	}
	return fmt.Sprintf("0x%x", c)
}

func sortedToks(a *racc) (k []string) {
	for t := range a.toks {
		k = append(k, t)
	}
	sort.Strings(k)
	return
}
func sortedU(m map[uint64]*big.Int) (k []uint64) {
	for t := range m {
		k = append(k, t)
	}
	sort.Slice(k, func(i, j int) bool { return k[i] < k[j] })
	return
}
func sortedS(m map[string]string) (k []string) {
	for t := range m {
		k = append(k, t)
	}
	sort.Strings(k)
	return
}

// step executes a step on the first executor and keeps it for the scenario.
func (x *xcase) step(j *jn, kind string) (out *vmcommon.VMOutput, failed bool) {
	x.c.Count("steps", 1)
	text := j.String()
	p := mjparse.NewParser(resolver{})
	s, err := p.ParseScenarioStep(text)
	if err != nil {
		x.c.Failf("step refused", "the parser refuses the step: %v\n%s", err, text)
		panic(run.Skip{})
	}
	switch t := s.(type) {
	case *mj.SetStateStep:
		err = x.ex.ExecuteSetStateStep(t)
	case *mj.CheckStateStep:
		err = x.ex.ExecuteCheckStateStep(t)
	case *mj.TxStep:
		out, err = x.ex.ExecuteTxStep(t)
	}
	x.c.Tracef("%.600s", text)
	if kind == "refused" {
		if err == nil {
			x.c.Failf("accepted", "the step must be refused: %s", text)
		}
		x.compare()
		return nil, true
	}
	if err != nil {
		x.c.Failf("step fails", "the step fails: %v\n%s\n%s", err, text, strings.Join(x.desc, "\n"))
		panic(run.Skip{})
	}
	x.steps = append(x.steps, j)
	return out, false
}

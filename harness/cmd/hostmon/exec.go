package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"math/rand"
	"strconv"
	"strings"

	"verif/harness/chain"
	"verif/harness/mw"
	"verif/harness/run"

	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

type tokenData struct{ props, hash, name, attr, creator, uri []byte }

type world struct {
	ch                  *chain.Chain
	self, other, caller []byte
	fn                  string
	args                [][]byte
	value, tokValue     *big.Int
	tokName             []byte
	tokens              map[string]*tokenData
	keys                [][]byte
	pages, maxPages     uint32
}

type logRec struct {
	topics [][]byte
	data   []byte
}
type transferRec struct{ to, value, data []byte }

type call struct {
	name    string
	args    []int64
	ret     int64
	trapped bool
	used    uint64
	in      map[string][]byte // what it should read
	list    [][]byte          // arguments it should read
	topics  [][]byte
	want    map[string][]byte
	wrote   []byte // digest of changes of the memory
	badIn   string // a range to read which does not fit
	callee  [][]byte
	called  bool
	calleeF string
	sum     string
}

// exec is the execution of one transaction by the contract under test.
type exec struct {
	c         *run.Case
	w         *world
	r         *rand.Rand // same in both runs
	noise     byte       // which run
	bigs      map[int32]*big.Int
	store     map[string][]byte
	rets      [][]byte
	finished  [][]byte
	logs      []logRec
	transfers []transferRec
	expected  map[string][]byte
	signal    []byte
	signalled bool
	calls     []*call
	cur       *call
	failed    bool // a check failed
	ended     bool // the execution was ended by a host call
	depth     int
}

func (x *exec) bad(sig, f string, a ...interface{}) {
	x.failed = true
	x.c.Failf(sig, f, a...)
}

func (x *exec) expect(k string, v []byte) { x.expected[k] = v }

func (x *exec) token(c *call, f func(*tokenData) []byte) []byte {
	t := x.w.tokens[string(c.in["0"])+"/"+string(c.in["t"])+"/"+fmt.Sprint(c.args[3])]
	if t == nil {
		return nil
	}
	return f(t)
}

func (x *exec) checkCallee(c *call) {
	if !c.called {
		return
	}
	x.c.Count("callee arguments checked", 1)
	if len(c.callee) != len(c.list) {
		x.bad("callee arguments:"+c.name, "%s: the called contract got %d arguments, %d were described", c.name, len(c.callee), len(c.list))
		return
	}
	for i := range c.list {
		if !bytes.Equal(c.callee[i], c.list[i]) {
			x.bad("callee arguments:"+c.name, "%s: argument %d of the called contract is %x, the described range holds %x", c.name, i, cut(c.callee[i]), cut(c.list[i]))
			return
		}
	}
	if f, ok := c.in["f"]; ok && string(f) != c.calleeF {
		x.bad("callee function:"+c.name, "%s: function %q runs, the described range holds %q", c.name, c.calleeF, cut(f))
	}
}

func cut(b []byte) []byte {
	if len(b) > 40 {
		return b[:40]
	}
	return b
}

var noises [3][]byte

func init() {
	for i := range noises {
		noises[i] = make([]byte, 1<<20)
		rand.New(rand.NewSource(int64(77 + i))).Read(noises[i])
	}
}

const page = 65536

func (x *exec) hostilePtr(ml int) int64 {
	l := []int64{-1, 0, int64(ml) - 33, int64(ml) - 32, int64(ml) - 31, int64(ml) - 1, int64(ml), int64(ml) + 1, int64(ml) + 32, int64(ml) + page - 1, int64(ml) + page, 65535, 65536, 1<<31 - 1, -1 << 31, 1<<31 - 32, 1 << 30, int64(ml) - 64, int64(ml) - 2, -32, int64(ml) - 100}
	return int64(int32(l[x.r.Intn(len(l))]))
}

func (x *exec) hostileLen(ml int, p int64) int64 {
	rest := int64(ml) - p
	l := []int64{0, 1, 2, 31, 32, 33, 255, int64(ml), int64(ml) + 1, rest, rest + 1, rest - 1, rest + 40, -1, 1<<31 - 1, -1 << 31, 1 << 30, 1 << 29, 1<<31 - 1 - p, 1<<31 - p, -p}
	return int64(int32(l[x.r.Intn(len(l))]))
}

func (x *exec) hostileCount(ml int) int64 {
	l := []int64{-1, 1 << 30, 1<<30 + 1, 1<<29 - 1, 1 << 29, 1<<31 - 1, -1 << 31, 1 << 28, 1 << 26, 1 << 24, int64(ml) / 4, int64(ml)/4 + 1, int64(ml) / 32, int64(ml)/32 + 1, 1000, 3 << 29}
	return int64(int32(l[x.r.Intn(len(l))]))
}

func (x *exec) content(kind string, fixed int) []byte {
	r, w := x.r, x.w
	switch kind {
	case "addr":
		l := [][]byte{w.self, w.other, w.other, w.other, w.caller, chain.User(9), chain.RemoteSC(3), chain.SC(77)}
		return l[r.Intn(len(l))]
	case "val":
		b := make([]byte, 32)
		if r.Intn(3) > 0 {
			b[31] = byte(r.Intn(20))
		}
		if r.Intn(12) == 0 {
			b[r.Intn(32)] = 1
		}
		return b
	case "key":
		if r.Intn(4) == 0 {
			b := make([]byte, r.Intn(50))
			r.Read(b)
			return b
		}
		return w.keys[r.Intn(len(w.keys))]
	case "tok":
		l := []string{"TOK-1", "NFT-1", "NFT-1", "NON-0", "TOK"}
		return []byte(l[r.Intn(len(l))])
	case "fn":
		l := []string{"ok", "ok", "ok", "fail", "grow", "missing", "", "init", "callBack", "ESDTTransfer", "upgradeContract"}
		return []byte(l[r.Intn(len(l))])
	case "data":
		l := []string{"ok@01@0203", "ok", "fail@01", "missing", "", "@", "ok@1", "ESDTTransfer@544f4b2d31@05"}
		return []byte(l[r.Intn(len(l))])
	case "code":
		if r.Intn(4) == 0 {
			b := make([]byte, r.Intn(200))
			r.Read(b)
			return b
		}
		return w.ch.Accts[string(w.other)].Code
	case "pub":
		b := make([]byte, []int{33, 65}[r.Intn(2)])
		r.Read(b)
		b[0] = byte(2 + r.Intn(2) + len(b)/65*2)
		return b
	}
	n := fixed
	if n == 0 {
		n = []int{0, 1, 7, 32, 33, 100, 300}[r.Intn(7)]
	}
	b := make([]byte, n)
	r.Read(b)
	if fixed == 2 {
		b[0], b[1] = 5, 2
	}
	return b
}

type span struct{ off, n int64 }

// readModel is what a load of a range gives.
func readModel(mem []byte, off, n int64) ([]byte, bool) {
	if n == 0 {
		return []byte{}, true
	}
	ml := int64(len(mem))
	if off < 0 || off > ml || n < 0 || n > ml {
		return nil, false
	}
	b := make([]byte, n)
	e := off + n
	if e > ml {
		e = ml
	}
	copy(b, mem[off:e])
	return b, true
}

// step makes one random host call and judges it.
func (x *exec) step(f *mw.Frame, sig mw.Sig, d *desc) {
	r := x.r
	c := &call{name: sig.Name, in: map[string][]byte{}, want: map[string][]byte{}}
	x.calls = append(x.calls, c)
	mem := f.Mem()
	ml := len(mem)
	S := make([]byte, ml) // the memory as described
	copy(S, noises[2][r.Intn(1000):])
	hostile := r.Intn(3) > 0
	bump := int64(64 + r.Intn(2000))
	place := func(n int) int64 {
		if hostile && r.Intn(5) == 0 {
			return x.hostilePtr(ml)
		}
		if r.Intn(8) == 0 && ml > n { // up to the last byte
			return int64(ml - n)
		}
		p := bump
		bump += int64(n) + int64(r.Intn(3))
		return p
	}
	write := func(p int64, b []byte) {
		if p >= 0 && p < int64(ml) {
			copy(S[p:], b)
		}
	}
	toks := strings.Fields(d.sig)
	c.args = make([]int64, len(toks))
	type rd struct {
		name string
		p, n int64
	}
	var reads []rd
	type wr struct {
		name string
		p    int64
		cap  int64
	}
	var writes []wr
	lenOf := map[string]int{}
	var lensP, dataP, count, topP, topN int64 = 0, 0, -2, 0, -2
	var lens []int32
	for i, t := range toks {
		kind := ""
		if k := strings.IndexByte(t, ':'); k > 0 {
			kind, t = t[k+1:], t[:k]
		}
		switch t[0] {
		case '$':
			l := []int64{0, 1, -1, 5, 255, 1 << 31, 1<<63 - 1, -1 << 63, int64(r.Uint64())}
			c.args[i] = l[r.Intn(len(l))]
			if sig.Params[i] == 'i' {
				c.args[i] = int64(int32(c.args[i]))
			}
		case 's':
			c.args[i] = int64(r.Intn(600) - 20)
		case 'n':
			c.args[i] = []int64{0, 1, 1, 2, -1}[r.Intn(5)]
		case 'h', 'H':
			c.args[i] = int64(r.Intn(5))
			if r.Intn(30) == 0 {
				c.args[i] = []int64{-1, 1<<31 - 1, -1 << 31, 77}[r.Intn(4)]
			}
		case 'G':
			c.args[i] = []int64{1 << 24, 1 << 24, 1 << 24, 1000, 0, -1, 1<<63 - 1}[r.Intn(7)]
		case '#':
			c.args[i] = []int64{0, 1, 2, 3, -1, 1<<31 - 1, 100, -1 << 31}[r.Intn(8)]
		case 'r':
			n, _ := strconv.Atoi(t[1:])
			b := x.content(kind, n)
			p := place(len(b))
			write(p, b)
			c.args[i] = p
			reads = append(reads, rd{strconv.Itoa(i), p, int64(n)})
		case 'S':
			b := make([]byte, 2+r.Intn(80))
			r.Read(b)
			b[0], b[1] = 0x30, byte(len(b)-2)
			if r.Intn(4) == 0 {
				b[1] = byte(r.Intn(256))
			}
			p := place(len(b))
			write(p, b)
			c.args[i] = p
			reads = append(reads, rd{"sigh", p, 2}, rd{"sig", p, -3})
		case 'p':
			b := x.content(kind, 0)
			p := place(len(b))
			write(p, b)
			c.args[i] = p
			reads = append(reads, rd{t[1:], p, 0})
			lenOf[t[1:]] = len(b)
		case 'l':
			for k := range reads {
				if reads[k].name == t[1:] {
					c.args[i] = int64(lenOf[t[1:]])
					if hostile && r.Intn(5) == 0 {
						c.args[i] = x.hostileLen(ml, reads[k].p)
					}
					reads[k].n = c.args[i]
				}
			}
		case 'w':
			n, _ := strconv.Atoi(kind)
			k := n
			if k == 0 {
				k = 64
			}
			p := place(k)
			c.args[i] = p
			writes = append(writes, wr{t[1:], p, int64(n)})
		case 'N':
			n := r.Intn(4)
			var data []byte
			for k := 0; k < n; k++ {
				a := x.content("any", 0)
				lens = append(lens, int32(len(a)))
				data = append(data, a...)
			}
			if hostile && n > 0 && r.Intn(5) == 0 {
				lens[r.Intn(n)] = int32(x.hostileLen(ml, bump))
			}
			count = int64(n)
			if hostile && r.Intn(6) == 0 {
				count = x.hostileCount(ml)
			}
			c.args[i] = count
			lb := make([]byte, 4*len(lens))
			for k, l := range lens {
				binary.LittleEndian.PutUint32(lb[4*k:], uint32(l))
			}
			if count > int64(n) && r.Intn(2) == 0 { // many empty arguments
				for k := range S {
					S[k] = 0
				}
			}
			dataP = place(len(data))
			write(dataP, data)
			lensP = place(len(lb))
			write(lensP, lb)
		case 'A':
			c.args[i] = lensP
		case 'D':
			c.args[i] = dataP
		case 'T':
			topN = int64(r.Intn(4))
			topP = place(int(topN * 32))
			if hostile && r.Intn(5) == 0 {
				topN = x.hostileCount(ml)
			}
			c.args[i] = topP
		case 'Q':
			c.args[i] = topN
		}
	}
	// what is described, and what it holds
	mask := make([]bool, ml)
	name := func(p, n int64) {
		if n < 0 {
			return
		}
		e := p + n
		if p < 0 {
			p = 0
		}
		if e > int64(ml) {
			e = int64(ml)
		}
		for ; p < e; p++ {
			mask[p] = true
		}
	}
	for _, q := range reads {
		n := q.n
		if n == -3 {
			h, ok := readModel(S, q.p, 2)
			if !ok {
				continue
			}
			n = 2 + int64(h[1])
		}
		b, ok := readModel(S, q.p, n)
		if !ok {
			c.badIn = fmt.Sprintf("%s at %d, %d bytes", q.name, q.p, n)
			continue
		}
		c.in[q.name] = b
		name(q.p, n)
	}
	if count > -2 {
		lb, ok := readModel(S, lensP, count*4)
		if !ok || count < 0 {
			c.badIn = fmt.Sprintf("%d lengths at %d", count, lensP)
		} else {
			name(lensP, count*4)
			p := dataP
			c.list = make([][]byte, 0, count)
			for k := int64(0); k < count; k++ {
				n := int64(int32(binary.LittleEndian.Uint32(lb[4*k:])))
				b, ok := readModel(S, p, n)
				if !ok {
					c.badIn = fmt.Sprintf("argument %d at %d, %d bytes", k, p, n)
					break
				}
				c.list = append(c.list, b)
				name(p, n)
				p += n
			}
		}
	}
	if topN > -2 {
		if topN < 0 {
			c.badIn = "negative number of topics"
		}
		for k := int64(0); k < topN; k++ {
			b, ok := readModel(S, topP+32*k, 32)
			if !ok {
				c.badIn = fmt.Sprintf("topic %d", k)
				break
			}
			c.topics = append(c.topics, b)
			name(topP+32*k, 32)
		}
	}
	// the memory: as described, noise elsewhere
	mem = f.Mem()
	nz := noises[x.noise][r.Intn(1000):]
	for i := range mem {
		if mask[i] {
			mem[i] = S[i]
		} else {
			mem[i] = nz[i]
		}
	}
	before := append([]byte(nil), mem...)
	for _, w := range writes {
		if g := d.want[w.name]; g != nil {
			if b := g(x, c); b != nil {
				c.want[w.name] = b
			}
		}
	}
	x.c.Tracef("%s%v pages=%d badIn=%q", c.name, c.args, ml/page, c.badIn)
	for _, q := range reads {
		if b, ok := c.in[q.name]; ok && !bytes.Equal(cut(b), nil) {
			x.c.Tracef("   %s at %d: %d bytes %x", q.name, q.p, len(b), cut(b))
		}
	}
	x.cur = c
	c.ret, c.trapped = f.Try(c.name, c.args...)
	x.cur = nil
	c.used = f.Used()
	after := f.Mem()
	x.c.Tracef("   = %d refused=%v gas=%d", c.ret, c.trapped, c.used)
	x.c.Count("host calls", 1)
	x.c.Count("described bytes", int64(len(c.in)))
	if c.trapped && !d.end {
		x.c.Count("calls refused", 1)
	}
	if c.badIn != "" {
		x.c.Count("ranges that do not fit", 1)
	}
	if x.failed {
		return
	}

	// writes
	if len(after) < len(before) || len(after) > len(before)+page*len(writes) || len(after)%page != 0 {
		x.bad("growth:"+c.name, "%s%v: the memory went from %d to %d bytes", c.name, c.args, len(before), len(after))
		return
	}
	// exp is the memory as it should be; free marks bytes which are not judged
	exp := append([]byte(nil), before...)
	exp = append(exp, make([]byte, len(after)-len(before))...)
	free := map[int64]bool{}
	grew := len(after) != len(before)
	mayGrow := false
	images := [][]byte{append([]byte(nil), exp...)}
	noFit := ""
	touched := map[int64]bool{}
	if len(writes) > 1 { // the order of the results is not specified
		for _, w := range writes {
			for k := w.p; k < w.p+int64(len(c.want[w.name])); k++ {
				if touched[k] {
					free[k] = true
				}
				touched[k] = true
			}
		}
	}
	for _, w := range writes {
		b, known := c.want[w.name]
		n := int64(len(b))
		if !known {
			n = w.cap
			if n == 0 {
				n = 200000
				if l := int64(int32(c.ret)); !c.trapped && l >= 0 && len(writes) == 1 {
					n = l
				}
			}
		}
		if n > 0 && w.p+n > int64(len(before)) {
			mayGrow = true
		}
		if n == 0 {
			continue
		}
		if known {
			if w.p < 0 || w.p+n > int64(len(exp)) {
				noFit = fmt.Sprintf("%s at %d, %d bytes", w.name, w.p, n)
				continue
			}
			copy(exp[w.p:], b)
			images = append(images, append([]byte(nil), exp...))
			x.c.Count("results checked", 1)
			continue
		}
		for k := w.p; k < w.p+n; k++ {
			if k >= 0 && k < int64(len(exp)) {
				free[k] = true
			}
		}
	}
	if grew && !mayGrow {
		x.bad("growth:"+c.name, "%s%v: the memory grew although every result fits", c.name, c.args)
		return
	}
	same := func(img []byte) int {
		if len(free) == 0 {
			if bytes.Equal(img, after) {
				return -1
			}
		}
		for i := range img {
			if img[i] != after[i] && !free[int64(i)] {
				return i
			}
		}
		return -1
	}
	softFail := !c.trapped && d.soft && int32(c.ret) != 0
	switch {
	case c.trapped || softFail || len(writes) == 0:
		ok := false
		at := -1
		if c.trapped && len(writes) > 1 { // any of the results may have been written before
			ok = true
			for i := range after {
				if after[i] != images[0][i] && after[i] != exp[i] && !free[int64(i)] {
					ok, at = false, i
				}
			}
		}
		for i, img := range images {
			k := same(img)
			if k < 0 {
				ok = true
			}
			if i == 0 {
				at = k
			}
		}
		if !ok {
			x.bad("write:"+c.name, "%s%v (refused: %v) changed the memory outside its results, e.g. at %d (memory of %d bytes)", c.name, c.args, c.trapped, at, len(before))
			return
		}
	case noFit != "" && c.badIn == "":
		if !x.emptyOutput(c) {
			x.bad("result accepted:"+c.name, "%s%v was accepted although its result does not fit: %s (memory of %d bytes)", c.name, c.args, noFit, len(after))
			return
		}
	default:
		k := same(exp)
		if k >= 0 && x.optional(c) && same(images[0]) < 0 {
			k = -1
		}
		if k >= 0 {
			x.bad("write:"+c.name, "%s%v left byte %d of the memory as %02x, expected %02x (memory of %d bytes)", c.name, c.args, k, after[k], exp[k], len(before))
			return
		}
	}
	// reads
	if c.badIn != "" && !c.trapped && !d.soft {
		x.bad("range accepted:"+c.name, "%s%v was accepted although a described range does not fit the memory of %d bytes: %s", c.name, c.args, len(before), c.badIn)
		return
	}
	if d.must && c.trapped && c.badIn == "" && noFit == "" && !x.couldNotGrow(writes2(len(writes)), before, after, mayGrow) && c.used <= f.Limit() {
		x.bad("refused:"+c.name, "%s%v was refused although every range fits (memory of %d bytes)", c.name, c.args, len(before))
		return
	}
	h := fnv(after)
	if !c.trapped || d.end {
		if d.chk != nil && c.badIn == "" {
			d.chk(x, c)
		}
		if strings.Contains(d.sig, "H") && c.name != "bigIntSetUnsignedBytes" && c.name != "bigIntSetSignedBytes" {
			for i, t := range toks {
				if t == "H" {
					delete(x.bigs, int32(c.args[i]))
				}
			}
		}
		if d.nest {
			x.rets = nil
			x.c.Count("nested calls", 1)
			if c.called && c.name != "executeReadOnly" {
				x.store = map[string][]byte{} // reads of storage are not judged any more
			}
		}
	}
	// what the other run must agree on: results and the bytes written
	diff := [][2]int{}
	for i := range after {
		b := byte(0)
		if i < len(before) {
			b = before[i]
		}
		if after[i] != b {
			diff = append(diff, [2]int{i, int(after[i])})
			if len(diff) > 400 {
				break
			}
		}
	}
	_ = h
	c.sum = fmt.Sprintf("%s%v=%d refused=%v gas=%d memory=%d", c.name, c.args, c.ret, c.trapped, c.used, len(after))
	if len(free) > 0 {
		var b []byte
		for k := range free {
			_ = k
		}
		for _, w := range writes {
			n := int64(int32(c.ret))
			if w.cap > 0 && w.cap < n || n <= 0 {
				n = w.cap
			}
			if w.p >= 0 && n > 0 && w.p+n <= int64(len(after)) && !c.trapped {
				for k := w.p; k < w.p+n; k++ {
					if k < int64(len(before)) && after[k] == before[k] {
						continue // may be untouched noise
					}
					b = append(b, byte(k), after[k])
				}
			}
		}
		c.wrote = b
	}
	c.called = c.called && true
	f.Burn(1)
}

func writes2(n int) int { return n }

// couldNotGrow: a result reaches beyond the memory, which may be refused
// because the memory cannot grow.
func (x *exec) couldNotGrow(_ int, before, after []byte, may bool) bool { return may }

// emptyOutput: functions which may have nothing to write.
func (x *exec) emptyOutput(c *call) bool { return false }

// optional: the function may have written nothing.
func (x *exec) optional(c *call) bool { return false }

func fnv(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}

// play is the body of the contract under test.
func (x *exec) play(f *mw.Frame) {
	for i := 0; i < 3; i++ {
		v := int64(x.r.Uint64()) >> uint(x.r.Intn(60))
		f.Call("bigIntSetInt64", int64(i), v)
		x.bigs[int32(i)] = big.NewInt(v)
	}
	steps := 1 + x.r.Intn(8)
	for i := 0; i < steps && !x.failed; i++ {
		sig := sigs[x.r.Intn(len(sigs))]
		if x.r.Intn(2) == 0 {
			sig = memSigs[x.r.Intn(len(memSigs))]
		}
		d := descs[sig.Name]
		x.step(f, sig, &d)
		last := x.calls[len(x.calls)-1]
		if last.trapped {
			x.ended = true
			f.Trap()
		}
		if f.Used() > f.Limit() {
			x.ended = true
			f.Trap()
		}
	}
	if x.failed {
		f.Trap()
	}
}

// callee plays the called contract.
func (x *exec) callee(f *mw.Frame) {
	m := f.Mem()
	for i := range m {
		m[i] = 0x5a
	}
	if c := x.cur; c != nil && !c.called {
		c.called, c.calleeF = true, f.Func
		n := int(f.I("getNumArguments"))
		if n > 50 {
			n = 50
			c.called = false
		}
		c.callee = [][]byte{}
		for i := 0; i < n; i++ {
			l := int64(f.I("getArgumentLength", int64(i)))
			if l > 60000 {
				c.called = false
				break
			}
			o := int64(1000)
			f.Call("getArgument", int64(i), o)
			c.callee = append(c.callee, append([]byte(nil), f.Mem()[o:o+l]...))
		}
		m = f.Mem()
		for i := range m {
			m[i] = 0x5b
		}
	}
	switch f.Func {
	case "fail":
		f.Call("signalError", 0, 3)
	case "grow":
		f.Grow(1)
	}
	f.Call("finish", 10, int64(len(f.Func)))
}

var sigs, memSigs []mw.Sig
var opaque = vmcommon.Ok

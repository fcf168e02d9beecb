package main

import (
	"bytes"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"strings"

	"verif/harness/chain"
	"verif/harness/kit"
	"verif/harness/mw"
	"verif/harness/run"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwenmandos"
	mc "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/controller"
	fr "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/fileresolver"
	mj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/model"
	mjparse "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/parse"
	mjwrite "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/write"
	logger "github.com/ElrondNetwork/elrond-go-logger"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
)

var nonceKeyPrefix = vmcommon.ElrondProtectedKeyPrefix + vmcommon.ESDTNFTLatestNonceIdentifier
var roleKeyPrefix = vmcommon.ElrondProtectedKeyPrefix + vmcommon.ESDTRoleIdentifier + vmcommon.ESDTKeyIdentifier

const rewardKey = "ELRONDreward"

// compare checks the runner's world against the reference, reading it directly.
func (x *xcase) compare() {
	am := x.ex.World.AcctMap
	bad := func(a []byte, f string, v ...interface{}) {
		x.c.Failf("world: "+strings.SplitN(f, " ", 2)[0], "account %q: "+f+"\n%s", append([]interface{}{a}, append(v, strings.Join(x.desc, "\n"))...)...)
	}
	for k := range am {
		if x.w.accs[k] == nil {
			bad([]byte(k), "existence not expected")
		}
	}
	for _, k := range sorted(x.w.accs) {
		m, a := x.w.accs[k], am[k]
		if a == nil {
			bad([]byte(k), "existence missing")
			continue
		}
		if a.Nonce != m.nonce {
			bad([]byte(k), "nonce %d, expected %d", a.Nonce, m.nonce)
		}
		if a.Balance.Cmp(m.bal) != 0 {
			bad([]byte(k), "balance %v, expected %v", a.Balance, m.bal)
		}
		if !bytes.Equal(a.Code, m.code) {
			bad([]byte(k), "code of %d bytes, expected %d", len(a.Code), len(m.code))
		}
		if !bytes.Equal(a.OwnerAddress, m.owner) {
			bad([]byte(k), "owner %q, expected %q", a.OwnerAddress, m.owner)
		}
		if !bytes.Equal(a.Username, m.user) {
			bad([]byte(k), "username %q, expected %q", a.Username, m.user)
		}
		want := map[string]string{}
		for s, v := range m.store {
			want[s] = v
		}
		for s, v := range a.Storage {
			if strings.HasPrefix(s, "ELROND") && s != rewardKey {
				continue
			}
			if want[s] != string(v) {
				bad([]byte(k), "storage %q is %q, expected %q", s, v, want[s])
			}
			delete(want, s)
		}
		for s, v := range want {
			if v != "" {
				bad([]byte(k), "storage %q is missing, expected %q", s, v)
			}
		}
		keys := map[string]bool{}
		for id, t := range m.toks {
			for n, v := range t.bal {
				key := chain.TokenKey([]byte(id), n)
				keys[key] = true
				d := &esdt.ESDigitalToken{}
				if err := d.Unmarshal(a.Storage[key]); err != nil {
					bad([]byte(k), "token entry %q: %v", key, err)
					continue
				}
				if d.Value == nil {
					d.Value = new(big.Int)
				}
				if d.Value.Cmp(v) != 0 {
					bad([]byte(k), "token %s %d: %v, expected %v", id, n, d.Value, v)
				}
				if mm := t.meta[n]; mm != nil && v.Sign() > 0 && n > 0 {
					md := d.TokenMetaData
					if md == nil {
						md = &esdt.MetaData{}
					}
					var uri []byte
					if len(md.URIs) > 0 {
						uri = md.URIs[0]
					}
					if md.Nonce != n || !bytes.Equal(md.Creator, mm.creator) || uint64(md.Royalties) != mm.royalties || !bytes.Equal(md.Hash, mm.hash) || !bytes.Equal(uri, mm.uri) || !bytes.Equal(md.Attributes, mm.attr) {
						bad([]byte(k), "metadata of %s %d: %v", id, n, md)
					}
				}
			}
			last := new(big.Int).SetBytes(a.Storage[nonceKeyPrefix+id]).Uint64()
			if last != t.last {
				bad([]byte(k), "last nonce of %s %d, expected %d", id, last, t.last)
			}
		}
		for s, v := range a.Storage {
			if strings.HasPrefix(s, "ELRONDesdt") && !keys[s] {
				d := &esdt.ESDigitalToken{}
				if d.Unmarshal(v) == nil && d.Value != nil && d.Value.Sign() != 0 {
					bad([]byte(k), "token entry %q has %v, expected none", s, d.Value)
				}
			}
		}
	}
}

// check is the checkState step that states the whole world.
func (x *xcase) check() *jn {
	am := jm()
	r := x.r
	for _, k := range sorted(x.w.accs) {
		m := x.w.accs[k]
		p := fmt.Sprintf("%q ", k)
		a := jm()
		n := x.expU64(p+"nonce", m.nonce)
		x.gone(p+"nonce", n, m.nonce == 0)
		a.put("nonce", n)
		b := x.expNum(p+"balance", m.bal)
		x.gone(p+"balance", b, m.bal.Sign() == 0)
		a.put("balance", b)
		if len(m.user) > 0 || r.Intn(4) == 0 {
			u := x.expBytes(p+"username", m.user)
			x.gone(p+"username", u, len(m.user) == 0)
			a.put("username", u)
		}
		st := jm()
		for _, s := range sortedS(m.store) {
			if strings.HasPrefix(s, "ELROND") && r.Intn(2) == 0 {
				continue
			}
			if m.store[s] == "" && r.Intn(2) == 0 {
				continue
			}
			v := x.expBytes(p+fmt.Sprintf("storage %q", s), []byte(m.store[s]))
			x.gone(p+"storage key", v, m.store[s] == "" || strings.HasPrefix(s, "ELROND"))
			st.put(x.hx([]byte(s)), v)
		}
		x.more(p+"storage", st, "str:nothere", js("1"), false)
		x.more(p+"storage", st, "str:nothere", js(""), true)
		x.more(p+"storage", st, "+", js(""), true)
		sold := *st
		x.lax(p+"storage *", func() { *st = jn{kind: 's', s: "*"} }, func() { *st = sold })
		a.put("storage", st)
		code := js(codeText(m.code))
		x.expStr(p+"code", code, "0x00", codeText(m.code)+pickS(r, "|0x00", "|01"))
		x.gone(p+"code", code, len(m.code) == 0)
		a.put("code", code)
		if r.Intn(2) == 0 {
			o := x.expBytes(p+"owner", m.owner)
			x.gone(p+"owner", o, true)
			a.put("owner", o)
		}
		tj := jm()
		for _, id := range sortedToks(m) {
			x.checkTok(tj, p, id, m.toks[id])
		}
		if len(tj.keys) > 0 || r.Intn(3) == 0 {
			tj2 := jm("instances", jl(jm("nonce", js("9"), "balance", js("1"))))
			x.more(p+"tokens", tj, "str:OTHER-1", tj2, false)
			x.more(p+"tokens", tj, "str:OTHER-1", js("0"), true)
			x.more(p+"tokens", tj, "str:OTHER-1", js("3"), false)
			a.put("esdt", tj)
			told := *tj
			x.lax(p+"tokens *", func() { *tj = jn{kind: 's', s: "*"} }, func() { *tj = told })
		}
		x.gone("account "+p, a, false)
		am.put(x.hxAddr([]byte(k)), a)
	}
	ghost, _ := userAddr(9)
	x.more("accounts", am, x.hxAddr(ghost), jm("nonce", js("0"), "balance", js("0"), "storage", jm(), "code", js("")), false)
	if x.r.Intn(3) == 0 { // one account is left to the "+"
		for i, k := range am.keys {
			if x.r.Intn(3) == 0 {
				kid := am.kids[i]
				x.lax("account "+k+" left to +", func() { kid.gone = true; am.put("+", js("")) },
					func() { kid.gone = false; am.keys, am.kids = am.keys[:len(am.keys)-1], am.kids[:len(am.kids)-1] })
				break
			}
		}
	}
	return jm("step", js("checkState"), "accounts", am)
}

func (x *xcase) checkTok(tj *jn, p, id string, t *rtok) {
	var pos []uint64
	for _, n := range sortedU(t.bal) {
		if t.bal[n].Sign() > 0 {
			pos = append(pos, n)
		}
	}
	if len(pos) == 0 && t.last == 0 && len(t.roles) == 0 {
		return // not visible
	}
	p += id + " "
	if len(pos) == 1 && pos[0] == 0 && t.last == 0 && len(t.roles) == 0 && x.r.Intn(2) == 0 {
		e := x.expNum(p+"amount", t.bal[0])
		x.gone(p, e, false)
		tj.put("str:"+id, e)
		return
	}
	o, l := jm(), jl()
	for _, n := range pos {
		e := jm()
		if n > 0 || x.r.Intn(2) == 0 {
			nn := js(x.u(n))
			old := *nn
			x.must(p+"instance nonce", func() { nn.s = fmt.Sprint(n + 7) }, func() { *nn = old })
			e.put("nonce", nn)
		}
		b := x.expNum(p+fmt.Sprint(n)+" amount", t.bal[n])
		e.put("balance", b)
		x.gone(p+"instance", e, false)
		if m := t.meta[n]; m != nil && n > 0 {
			for _, f := range []struct {
				k string
				v []byte
			}{{"creator", m.creator}, {"hash", m.hash}, {"uri", m.uri}, {"attributes", m.attr}} {
				if x.r.Intn(4) > 0 {
					v := x.expBytes(p+f.k, f.v)
					x.gone(p+f.k, v, true)
					e.put(f.k, v)
				}
			}
			if x.r.Intn(4) > 0 {
				v := x.expNum(p+"royalties", new(big.Int).SetUint64(m.royalties))
				x.gone(p+"royalties", v, true)
				e.put("royalties", v)
			}
		}
		l.kids = append(l.kids, e)
	}
	old := *l
	extra := jm("nonce", js("77"), "balance", js("2"))
	x.must(p+"another instance", func() { l.kids = append(append([]*jn{}, l.kids...), extra) }, func() { *l = old })
	extra0 := jm("nonce", js("77"), "balance", js("0"))
	if !t.frozen {
		x.lax(p+"an empty instance", func() { l.kids = append(append([]*jn{}, l.kids...), extra0) }, func() { *l = old })
	}
	o.put("instances", l)
	if t.last > 0 || x.r.Intn(3) == 0 {
		v := x.expU64(p+"last nonce", t.last)
		x.gone(p+"last nonce", v, t.last == 0)
		o.put("lastNonce", v)
	}
	rl := jl()
	for _, s := range t.roles {
		e := js(s)
		x.gone(p+"role", e, false)
		rl.kids = append(rl.kids, e)
	}
	if len(t.roles) > 0 || x.r.Intn(3) == 0 {
		o.put("roles", rl)
		ro := *rl
		x.must(p+"another role", func() { rl.kids = append(append([]*jn{}, rl.kids...), js("ESDTRoleNFTBurn")) }, func() { *rl = ro })
	}
	if len(pos) > 0 {
		if t.frozen {
			f := js("true")
			x.expStr(p+"frozen", f, "false", "0")
			x.gone(p+"frozen", f, true)
			o.put("frozen", f)
		} else if x.r.Intn(3) == 0 {
			f := js("false")
			x.expStr(p+"frozen", f, "true", "1")
			o.put("frozen", f)
		}
	}
	x.gone(p, o, false)
	tj.put("str:"+id, o)
}

// expect states the result of a transaction.
func (x *xcase) expect(out *vmcommon.VMOutput, status int, ret [][]byte, logs []rlog) *jn {
	e := jm()
	p := fmt.Sprintf("tx %d ", x.txs)
	r := x.r
	l := jl()
	for i, v := range ret {
		l.kids = append(l.kids, x.expBytes(p+fmt.Sprintf("out[%d]", i), v))
		_ = i
	}
	old := *l
	x.must(p+"one more result", func() { l.kids = append(append([]*jn{}, l.kids...), js("")) }, func() { *l = old })
	if len(ret) > 0 {
		x.must(p+"one result less", func() { l.kids = l.kids[:len(l.kids)-1] }, func() { *l = old })
		x.gone(p+"out", l, false)
	}
	e.put("out", l)
	if status != 0 || r.Intn(3) > 0 {
		s := js(fmt.Sprint(status))
		if status == 0 && r.Intn(2) == 0 {
			s = js("")
		}
		x.expStr(p+"status", s, fmt.Sprint(status+1), fmt.Sprint(status+256), fmt.Sprint(-1-status))
		x.gone(p+"status", s, status == 0)
		e.put("status", s)
	}
	if out.ReturnMessage != "" || r.Intn(3) == 0 {
		m := js(fmt.Sprintf("0x%x", out.ReturnMessage))
		if strings.IndexAny(out.ReturnMessage, "\"\\|\n") < 0 && r.Intn(2) == 0 {
			m = js("str:" + out.ReturnMessage)
		}
		if out.ReturnMessage == "" {
			m = js("")
		}
		x.expStr(p+"message", m, "str:x"+hexless(out.ReturnMessage))
		x.gone(p+"message", m, out.ReturnMessage == "")
		e.put("message", m)
	}
	if r.Intn(4) > 0 {
		ll := jl()
		for _, g := range logs {
			tl := jl()
			for _, t := range g.topics {
				tl.kids = append(tl.kids, x.expBytes(p+"topic", t))
			}
			told := *tl
			x.must(p+"one more topic", func() { tl.kids = append(append([]*jn{}, tl.kids...), js("str:t")) }, func() { *tl = told })
			if len(g.topics) > 0 {
				x.must(p+"one topic less", func() { tl.kids = tl.kids[:len(tl.kids)-1] }, func() { *tl = told })
			}
			ll.kids = append(ll.kids, jm("address", x.expBytes(p+"log address", g.addr), "identifier", x.expBytes(p+"log identifier", g.id), "topics", tl, "data", x.expBytes(p+"log data", g.data)))
		}
		lold := *ll
		extra := jm("address", js("*"), "identifier", js("*"), "topics", jl(), "data", js("*"))
		x.must(p+"one more log", func() { ll.kids = append(append([]*jn{}, ll.kids...), extra) }, func() { *ll = lold })
		if len(logs) > 0 {
			x.must(p+"one log less", func() { ll.kids = ll.kids[1:] }, func() { *ll = lold })
		}
		x.gone(p+"logs", ll, true)
		x.lax(p+"logs *", func() { *ll = jn{kind: 's', s: "*"} }, func() { *ll = lold })
		e.put("logs", ll)
	}
	if r.Intn(3) > 0 {
		g := js(x.u(out.GasRemaining))
		oldg := *g
		m := mut{what: p + "gas", do: func() { g.s = fmt.Sprint(out.GasRemaining ^ 1) }, undo: func() { *g = oldg }, gasStep: len(x.steps)}
		if x.gasOn {
			x.muts = append(x.muts, m)
		} else {
			x.laxs = append(x.laxs, m)
		}
		x.lax(p+"gas *", func() { g.s = "*" }, func() { *g = oldg })
		x.gone(p+"gas", g, true)
		e.put("gas", g)
	}
	ref := out.GasRefund
	if ref == nil {
		ref = new(big.Int)
	}
	if ref.Sign() != 0 || r.Intn(3) == 0 {
		g := x.expNum(p+"refund", ref)
		x.gone(p+"refund", g, ref.Sign() == 0)
		e.put("refund", g)
	}
	return e
}

func hexless(s string) string {
	return strings.Map(func(c rune) rune {
		if c == '"' || c == '\\' || c == '|' || c < ' ' {
			return -1
		}
		return c
	}, s)
}

func (x *xcase) user() []byte { return x.users[x.r.Intn(len(x.users))] }
func (x *xcase) sc() []byte   { return x.scs[x.r.Intn(len(x.scs))] }

func (x *xcase) txStep(kind string, tx *jn) *jn {
	x.txs++
	j := jm("step", js(kind))
	if x.r.Intn(8) > 0 {
		j.put("txId", js(fmt.Sprint(x.txs)))
	}
	return j.put("tx", tx)
}

// pay takes the nonce and the gas payment.
func (x *xcase) pay(w *rworld, from []byte, gas, price uint64) {
	a := w.acc(from)
	a.nonce++
	a.bal.Sub(a.bal, new(big.Int).Mul(new(big.Int).SetUint64(gas), new(big.Int).SetUint64(price)))
}

func (x *xcase) tokArg() (id string, nonce uint64, amount int64, j *jn) {
	id, amount = fung, int64(1+x.r.Intn(100))
	if x.r.Intn(2) == 0 {
		id, nonce, amount = nft, uint64(1+x.r.Intn(2)), int64(1+x.r.Intn(4))
	}
	j = jm("tokenIdentifier", js("str:"+id), "value", js(fmt.Sprint(amount)))
	if nonce > 0 {
		j.put("nonce", js(x.u(nonce)))
	}
	return
}

// finish compares the result of a transaction with the reference and completes the step.
func (x *xcase) finish(j *jn, before, after *rworld, status int, what string) {
	x.desc = append(x.desc, what)
	out, bad := x.step(j, "")
	if bad || out == nil {
		return
	}
	if int(out.ReturnCode) != status {
		x.c.Failf("status", "%s: status %d (%s), expected %d\n%s", what, out.ReturnCode, out.ReturnMessage, status, strings.Join(x.desc, "\n"))
		panic(run.Skip{})
	}
	var ret [][]byte
	var logs []rlog
	if status == 0 {
		ret, logs = after.ret, after.logs
		after.ret, after.logs = nil, nil
		x.w.set(after)
		x.c.Count("transactions Ok", 1)
	} else {
		before.ret, before.logs = nil, nil
		x.w.set(before)
		x.c.Count("transactions failed", 1)
	}
	if len(ret) != len(out.ReturnData) {
		x.c.Failf("results", "%s: %d results, expected %d: %q and %q\n%s", what, len(out.ReturnData), len(ret), out.ReturnData, ret, strings.Join(x.desc, "\n"))
	} else {
		for i := range ret {
			if !bytes.Equal(ret[i], out.ReturnData[i]) {
				x.c.Failf("results", "%s: result %d is %q, expected %q\n%s", what, i, out.ReturnData[i], ret[i], strings.Join(x.desc, "\n"))
			}
		}
	}
	var got []rlog
	for _, l := range out.Logs {
		got = append(got, rlog{l.Address, l.Identifier, l.Topics, l.Data})
	}
	if g, w := logText(got), logText(logs); g != w {
		x.c.Failf("logs", "%s: logs\n%sexpected\n%s%s", what, g, w, strings.Join(x.desc, "\n"))
	}
	x.compare()
	if x.c.Failed() {
		panic(run.Skip{})
	}
	x.c.Distinct(fmt.Sprint(what, status, len(ret), len(logs)))
	for i, s := range j.keys {
		if s == "step" && (j.kids[i].s == "transfer" || j.kids[i].s == "validatorReward") {
			return
		}
	}
	e := x.expect(out, status, ret, logs)
	if status == 0 && len(ret) == 0 || x.r.Intn(2) > 0 {
		x.gone(fmt.Sprintf("tx %d expectations", x.txs), e, true)
	}
	j.put("expect", e)
}

func (x *xcase) transaction() {
	r := x.r
	from := x.user()
	tx := jm("from", js(x.hxAddr(from)))
	price := uint64(0)
	if r.Intn(3) > 0 {
		price = uint64(1 + r.Intn(3))
	}
	gas := uint64(2000000000)
	kind := r.Intn(20)
	w := x.w.clone()
	if w.acc(from).bal.BitLen() < 40 {
		price = 0
	}
	w.ret, w.logs = nil, nil
	switch {
	case kind < 11: // call
		to, fn := x.sc(), "p"+fmt.Sprint(r.Intn(3))
		status := -1
		if r.Intn(15) == 0 {
			fn, status = "nothere", 1
		}
		value := int64(0)
		if r.Intn(2) == 0 {
			value = int64(r.Intn(500))
		}
		f := &rframe{self: to, caller: from, tokVal: new(big.Int)}
		al := jl()
		for j := r.Intn(4); j > 0; j-- {
			a := []byte(x.val())
			f.args = append(f.args, a)
			al.kids = append(al.kids, js(x.hx(a)))
		}
		var tj *jn
		var tid string
		var tn uint64
		var ta int64
		if r.Intn(3) == 0 {
			tid, tn, ta, tj = x.tokArg()
			if w.tokBal(from, tid, tn).Cmp(big.NewInt(ta)) < 0 {
				tj = nil
			} else {
				value = 0
				f.tokVal = big.NewInt(ta)
				x.c.Count("token transfers", 1)
			}
		}
		if tj == nil && r.Intn(12) == 0 {
			gas, status = uint64(r.Intn(20)), 5
		}
		x.pay(w, from, gas, price)
		v := big.NewInt(value)
		if w.acc(from).bal.Cmp(v) < 0 {
			v = new(big.Int)
		}
		if tj == nil && status < 0 && r.Intn(25) == 0 {
			v = new(big.Int).Set(w.acc(from).bal)
		} else if tj == nil && r.Intn(12) == 0 {
			v = new(big.Int).Add(w.acc(from).bal, big.NewInt(1+int64(r.Intn(3))))
			status = int(vmcommon.OutOfFunds)
		}
		f.value = v
		before := w.clone()
		if tj != nil {
			w.moveTok(from, to, tid, tn, big.NewInt(ta))
		}
		w.move(from, to, v)
		if status < 0 {
			if status = x.rrun(w, f, fn); status == 0 && len(w.ret) > 0 {
				for _, v := range w.ret {
					if len(v) == 2 && (v[0] == 'r' || v[0] == 't') {
						x.c.Count("nested calls", 1)
					}
				}
			}
		}
		tx.put("to", js(x.hxAddr(to)))
		if value != 0 || v.Sign() != 0 || tj == nil || r.Intn(2) == 0 {
			tx.put("value", js(x.num(v)))
		}
		if tj != nil {
			tx.put("esdt", tj)
		}
		tx.put("function", js(fn)).put("arguments", al).put("gasLimit", js(x.u(gas))).put("gasPrice", js(x.u(price)))
		x.finish(x.txStep("scCall", tx), before, w, status, fmt.Sprintf("call %.12q -> %.12q %s value=%v token=%s/%d x%d args=%q gas=%d", from, to, fn, v, tid, tn, ta, f.args, gas))
	case kind < 13: // deploy
		x.fresh++
		addr, name := scAddr(fmt.Sprintf("d%d", x.fresh))
		x.names[string(addr)] = name
		if r.Intn(3) == 0 { // funds first
			x.pay(w, from, 0, 0)
			v := big.NewInt(int64(1 + r.Intn(50)))
			if w.acc(from).bal.Cmp(v) < 0 {
				v = new(big.Int)
			}
			w.move(from, addr, v)
			x.finish(x.txStep("transfer", jm("from", js(x.hxAddr(from)), "to", js(x.hxAddr(addr)), "value", js(x.num(v)))), nil, w, 0, "funds for a new contract")
			w = x.w.clone()
		}
		id := fmt.Sprintf("n%d", x.fresh)
		m := &mw.Module{ID: id, Exports: []string{"init", "p0", "p1", "p2", "q"}}
		code := m.Bytes()
		level := len(x.scs)
		for _, fn := range m.Exports {
			x.progs[id+"."+fn] = x.program(level, fn)
		}
		x.ids[string(code)] = id
		nonce := x.w.acc(from).nonce
		x.setState(nil, jl(jm("creatorAddress", js(x.hxAddr(from)), "creatorNonce", js(x.u(nonce)), "newAddress", js(x.hxAddr(addr)))))
		v := big.NewInt(int64(r.Intn(2) * r.Intn(100)))
		if w.acc(from).bal.Cmp(v) < 0 {
			v = new(big.Int)
		}
		f := &rframe{self: addr, caller: from, tokVal: new(big.Int), value: v}
		al := jl()
		for j := r.Intn(3); j > 0; j-- {
			a := []byte(x.val())
			f.args = append(f.args, a)
			al.kids = append(al.kids, js(x.hx(a)))
		}
		status := -1
		if r.Intn(8) == 0 {
			gas, status = uint64(r.Intn(20)), 5
		}
		x.pay(w, from, gas, price)
		before := w.clone()
		a := w.acc(addr)
		a.code, a.owner = code, from
		w.move(from, addr, v)
		if status < 0 {
			status = x.rrun(w, f, "init")
		}
		tx.put("value", js(x.num(v))).put("contractCode", js(codeText(code))).put("arguments", al).put("gasLimit", js(x.u(gas))).put("gasPrice", js(x.u(price)))
		x.finish(x.txStep("scDeploy", tx), before, w, status, fmt.Sprintf("deploy %s by %.12q value=%v args=%q", name, from, v, f.args))
		if status == 0 {
			x.scs = append(x.scs, addr)
			x.c.Count("deployments", 1)
		}
	case kind < 15: // query
		to := x.sc()
		f := &rframe{self: to, caller: to, tokVal: new(big.Int), value: new(big.Int)}
		al := jl()
		for j := r.Intn(3); j > 0; j-- {
			a := []byte(x.val())
			f.args = append(f.args, a)
			al.kids = append(al.kids, js(x.hx(a)))
		}
		status := x.rrun(w, f, "q")
		x.c.Count("queries", 1)
		x.finish(x.txStep("scQuery", jm("to", js(x.hxAddr(to)), "function", js("q"), "arguments", al)), w, w, status, fmt.Sprintf("query %.12q %q", to, f.args))
	case kind < 19: // transfer
		to := x.user()
		if r.Intn(3) == 0 {
			to = x.sc()
		}
		j := jm("from", js(x.hxAddr(from)), "to", js(""))
		v := new(big.Int)
		var status int
		gas = uint64(r.Intn(2) * r.Intn(5000))
		what := "transfer"
		x.pay(w, from, gas, price)
		before := w.clone()
		if r.Intn(2) == 0 {
			id, n, a, tj := x.tokArg()
			if w.tokBal(from, id, n).Cmp(big.NewInt(a)) >= 0 && gas == 0 && !bytes.Equal(from, to) {
				gas = 1000000
				x.pay(w, from, gas, price)
				w.acc(from).nonce--
				before = w.clone()
				w.moveTok(from, to, id, n, big.NewInt(a))
				j.put("esdt", tj)
				what = fmt.Sprintf("transfer of %s %d x%d", id, n, a)
				x.c.Count("token transfers", 1)
			}
		} else if r.Intn(5) == 0 {
			to, _ = userAddr(8)
		}
		if what == "transfer" {
			v = big.NewInt(int64(r.Intn(1000)))
			if w.acc(from).bal.Cmp(v) < 0 {
				v = new(big.Int)
			}
		}
		if k := r.Intn(16); k < 2 {
			v = new(big.Int).Add(w.acc(from).bal, big.NewInt(1))
			status = int(vmcommon.OutOfFunds)
		} else if k == 2 {
			v = new(big.Int).Set(w.acc(from).bal)
		}
		w.move(from, to, v)
		j.kids[1].s = x.hxAddr(to)
		j.put("value", js(x.num(v)))
		if gas > 0 || r.Intn(2) == 0 {
			j.put("gasLimit", js(x.u(gas))).put("gasPrice", js(x.u(price)))
		}
		x.finish(x.txStep("transfer", j), before, w, status, fmt.Sprintf("%s %.12q -> %.12q %v", what, from, to, v))
	default:
		to := x.user()
		if r.Intn(3) == 0 {
			to = x.sc()
		}
		v := big.NewInt(int64(r.Intn(1000)))
		a := w.acc(to)
		a.bal.Add(a.bal, v)
		a.store[rewardKey] = string(new(big.Int).Add(new(big.Int).SetBytes([]byte(a.store[rewardKey])), v).Bytes())
		x.finish(x.txStep("validatorReward", jm("to", js(x.hxAddr(to)), "value", js(x.num(v)))), w, w, 0, fmt.Sprintf("reward %.12q %v", to, v))
	}
}

// refused runs a transaction that cannot be executed.
func (x *xcase) refused() {
	r := x.r
	from := x.user()
	to := x.sc()
	ghost, _ := userAddr(9)
	price, gas := uint64(r.Intn(3)), uint64(100000000)
	w := x.w.clone()
	for _, u := range x.users {
		if w.acc(u).bal.BitLen() < 40 {
			price = 0
		}
	}
	tx := jm("from", js(x.hxAddr(from)))
	rest := func() {
		tx.put("value", js("0")).put("function", js("p0")).put("arguments", jl()).put("gasLimit", js(x.u(gas))).put("gasPrice", js(x.u(price)))
	}
	kind := "scCall"
	what := ""
	tok := func(id string, nonce uint64, amount string) {
		t := jm("tokenIdentifier", js("str:"+id), "value", js(amount))
		if nonce > 0 {
			t.put("nonce", js(x.u(nonce)))
		}
		tx.put("esdt", t)
	}
	switch r.Intn(9) {
	case 0:
		what = "gas payment too large"
		gas = 1 << 63
		price = 1 << 62
		w.acc(from).nonce++
		tx.put("to", js(x.hxAddr(to)))
		rest()
	case 1:
		what = "unknown sender"
		tx = jm("from", js(x.hxAddr(ghost)), "to", js(x.hxAddr(to)))
		rest()
	case 2:
		what = "not enough tokens"
		x.pay(w, from, gas, price)
		tx.put("to", js(x.hxAddr(to)))
		if r.Intn(2) == 0 {
			tok(fung, 0, new(big.Int).Add(w.tokBal(from, fung, 0), big.NewInt(1)).String())
		} else {
			tok(nft, 1, new(big.Int).Add(w.tokBal(from, nft, 1), big.NewInt(1)).String())
		}
		rest()
	case 3:
		what = "frozen tokens"
		from = x.users[0]
		tx = jm("from", js(x.hxAddr(from)), "to", js(x.hxAddr(x.users[1])))
		x.pay(w, from, gas, price)
		tok(frz, 0, "1")
		kind = "transfer"
		tx.put("value", js("0")).put("gasLimit", js(x.u(gas))).put("gasPrice", js(x.u(price)))
	case 4:
		what = "tokens to a missing account"
		from = x.users[0]
		tx = jm("from", js(x.hxAddr(from)), "to", js(x.hxAddr(ghost)))
		x.pay(w, from, gas, price)
		if w.tokBal(from, fung, 0).Sign() <= 0 {
			return
		}
		tok(fung, 0, "1")
		rest()
	case 5:
		what = "call of a missing account"
		x.pay(w, from, gas, price)
		tx.put("to", js(x.hxAddr(ghost)))
		rest()
	case 6:
		what = "call of an account without code"
		x.pay(w, from, gas, price)
		tx.put("to", js(x.hxAddr(x.user())))
		rest()
	case 7:
		what = "reward for a missing account"
		kind = "validatorReward"
		tx = jm("to", js(x.hxAddr(ghost)), "value", js("5"))
	case 8:
		what = "query of an account without code"
		kind = "scQuery"
		tx = jm("to", js(x.hxAddr(x.user())), "function", js("q"), "arguments", jl())
	}
	x.c.Count("transactions refused", 1)
	x.desc = append(x.desc, "refused: "+what)
	x.w.set(w)
	x.step(x.txStep(kind, tx), "refused")
}

var schedules = []string{"default", "dummy", "v1", "v2", "v3", ""}

func p24case(c *run.Case) {
	logger.SetLogLevel("*:NONE")
	r := c.R
	x := &xcase{c: c, r: r, w: &rworld{accs: map[string]*racc{}}, names: map[string]string{}, ids: map[string]string{}, codes: map[string][]byte{}, progs: map[string][]pop{}}
	ex, err := arwenmandos.NewArwenTestExecutor()
	if err != nil {
		c.Failf("executor", "%v", err)
		return
	}
	x.ex = ex
	mw.SetBehaviour(puppet)
	progsMu.Lock()
	progs = x.progs
	progsMu.Unlock()
	x.gasOn = r.Intn(4) > 0
	x.sched = pickS(r, schedules...)
	gs := map[string]mj.GasSchedule{"default": mj.GasScheduleDefault, "dummy": mj.GasScheduleDummy, "v1": mj.GasScheduleV1, "v2": mj.GasScheduleV2, "v3": mj.GasScheduleV3, "": mj.GasScheduleDefault}[x.sched]
	if err := ex.SetMandosGasSchedule(gs); err != nil {
		c.Failf("schedule", "%v", err)
		return
	}
	accs := map[string]*racc{}
	nu, ns := 2+r.Intn(2), 1+r.Intn(3)
	for i := 0; i < nu; i++ {
		a, n := userAddr(i)
		x.users = append(x.users, a)
		x.names[string(a)] = n
		u := newAcc()
		u.nonce = uint64(r.Intn(4) * r.Intn(1000))
		u.bal = new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 60), big.NewInt(int64(r.Intn(100000))))
		if r.Intn(3) == 0 {
			u.user = []byte(x.word() + ".x")
		}
		x.tokens(u, i)
		accs[string(a)] = u
	}
	for i := 0; i < ns; i++ {
		a, n := scAddr(fmt.Sprintf("c%d", i))
		x.scs = append(x.scs, a)
		x.names[string(a)] = n
		u := newAcc()
		id := fmt.Sprintf("c%d", i)
		u.code = (&mw.Module{ID: id, Exports: []string{"p0", "p1", "p2", "q", "init"}}).Bytes()
		x.ids[string(u.code)] = id
		u.bal = big.NewInt(int64(r.Intn(3) * r.Intn(200)))
		u.nonce = uint64(r.Intn(2) * r.Intn(10))
		u.owner = x.user()
		for j := r.Intn(4); j > 0; j-- {
			u.store[keysPool[r.Intn(len(keysPool))]] = x.val()
		}
		x.tokens(u, -1)
		accs[string(a)] = u
	}
	for i := 0; i < ns; i++ {
		for _, fn := range []string{"p0", "p1", "p2", "q"} {
			x.progs[fmt.Sprintf("c%d.%s", i, fn)] = x.program(i, fn)
		}
	}
	for _, k := range sortedProgs(x.progs) {
		x.desc = append(x.desc, fmt.Sprint(k, ": ", x.progs[k]))
	}
	x.setState(accs, nil)
	x.compare()
	n := 2 + r.Intn(6)
	for i := 0; i < n && !c.Failed(); i++ {
		x.transaction()
		if r.Intn(12) == 0 {
			j := x.check()
			x.step(j, "")
		}
		if r.Intn(12) == 0 {
			x.setState(nil, nil)
		}
	}
	if c.Failed() {
		return
	}
	x.step(x.check(), "")
	if c.Failed() {
		return
	}
	x.phase2()
	if c.Failed() {
		return
	}
	// transactions that cannot be executed, then the world once more
	for i := 1 + r.Intn(3); i > 0; i-- {
		x.refused()
	}
	if !c.Failed() {
		x.transaction()
		x.step(x.check(), "")
	}
}

func sortedProgs(m map[string][]pop) (k []string) {
	s := map[string]string{}
	for t := range m {
		s[t] = ""
	}
	return sortedS(s)
}

func (x *xcase) tokens(u *racc, user int) {
	r := x.r
	if r.Intn(3) > 0 {
		t := u.tok(fung)
		t.bal[0] = big.NewInt(int64(r.Intn(500)))
	}
	if r.Intn(2) == 0 {
		t := u.tok(nft)
		for n := uint64(1); n <= 3; n++ {
			if r.Intn(3) > 0 {
				t.bal[n] = big.NewInt(int64(1 + r.Intn(10)))
				m := nftMeta[n]
				t.meta[n] = &m
			}
		}
		if r.Intn(2) == 0 {
			t.last = 3
		}
		if r.Intn(3) == 0 {
			t.roles = []string{"ESDTRoleNFTCreate"}
			if r.Intn(2) == 0 {
				t.roles = append(t.roles, "ESDTRoleNFTAddQuantity")
			}
		}
		if len(t.bal) == 0 && t.last == 0 && len(t.roles) == 0 {
			delete(u.toks, nft)
		}
	}
	if user == 0 {
		t := u.tok(frz)
		t.bal[0] = big.NewInt(7)
		t.frozen = true
	}
}

var nftMeta = map[uint64]rmeta{
	1: {creator: bytes.Repeat([]byte("c1"), 16), hash: []byte{1, 2, 3}, uri: []byte("www.one.com"), attr: []byte("attributes"), royalties: 100},
	2: {creator: bytes.Repeat([]byte{7}, 32), royalties: 9999},
	3: {creator: bytes.Repeat([]byte{0}, 32), attr: []byte{0}},
}

func (x *xcase) scenario() string {
	head := jm("name", js("x"), "comment", js("c"))
	if x.sched != "" {
		head.put("gasSchedule", js(x.sched))
	}
	if !x.gasOn {
		head.put("checkGas", &jn{kind: 'b', s: "false"})
	}
	head.put("steps", jl(x.steps...))
	return head.String()
}

func runText(ex *arwenmandos.ArwenTestExecutor, text string, rewrite bool) error {
	p := mjparse.NewParser(resolver{})
	s, err := p.ParseScenarioFile([]byte(text))
	if err != nil {
		return fmt.Errorf("PARSE %w", err)
	}
	if rewrite {
		if s, err = p.ParseScenarioFile([]byte(mjwrite.ScenarioToJSONString(s))); err != nil {
			return fmt.Errorf("PARSE again %w", err)
		}
	}
	ex.Reset()
	return ex.ExecuteScenario(s, resolver{})
}

func (x *xcase) phase2() {
	c, r := x.c, x.r
	ex := x.ex
	saved := x.ex.World
	_ = saved
	ex2, err := arwenmandos.NewArwenTestExecutor()
	if err != nil {
		c.Failf("executor", "%v", err)
		return
	}
	ex = ex2
	text := x.scenario()
	pass := func(what, t string, rewrite bool) {
		if err := runText(ex, t, rewrite); err != nil {
			c.Failf("must pass", "%s: the scenario must pass: %v\n%s\n%s", what, err, strings.Join(x.desc, "\n"), t)
		} else {
			c.Count("scenarios passed", 1)
		}
	}
	pass("plain", text, false)
	if r.Intn(3) == 0 {
		pass("written back", text, true)
	}
	if r.Intn(4) == 0 {
		pass("again", text, false)
	}
	if c.Failed() {
		return
	}
	n := 9
	if c.Tier == "thorough" {
		n = 25
	}
	for i := 0; i < n && len(x.muts) > 0; i++ {
		m := x.muts[r.Intn(len(x.muts))]
		m.do()
		t := x.scenario()
		err := runText(ex, t, r.Intn(8) == 0)
		m.undo()
		c.Count("changed expectations", 1)
		c.Distinct("change " + strings.SplitN(m.what, " is ", 2)[0])
		if err == nil {
			c.Failf("must fail", "the scenario passes although an expectation was changed (%s)\n%s\n%s", m.what, strings.Join(x.desc, "\n"), t)
			return
		}
		if strings.HasPrefix(err.Error(), "PARSE") {
			c.Failf("harness: change does not parse", "%s: %v\n%s", m.what, err, t)
			return
		}
	}
	for i := 0; i < 2 && len(x.laxs) > 0; i++ {
		m := x.laxs[r.Intn(len(x.laxs))]
		m.do()
		t := x.scenario()
		m.undo()
		c.Count("relaxed expectations", 1)
		pass("relaxed: "+m.what, t, false)
		if c.Failed() {
			return
		}
	}
	if x.scenario() != text {
		c.Failf("harness: text", "the scenario text was not restored")
	}
	if r.Intn(5) == 0 {
		x.external(ex)
	}
}

// external moves the first steps to another file.
func (x *xcase) external(ex *arwenmandos.ArwenTestExecutor) {
	c, r := x.c, x.r
	dir, err := os.MkdirTemp("", "p24")
	if err != nil {
		panic(run.Skip{})
	}
	defer os.RemoveAll(dir)
	_ = os.Mkdir(filepath.Join(dir, "sub"), 0o755)
	n := 1 + r.Intn(len(x.steps))
	write := func(break_ int) {
		var m mut
		if break_ >= 0 {
			m = x.muts[break_]
			m.do()
		}
		a := jm("name", js("a"))
		if x.sched != "" { // the main file decides
			a.put("gasSchedule", js(pickS(r, "v1", "v2", "dummy")))
		}
		if !x.gasOn || r.Intn(2) == 0 {
			a.put("checkGas", &jn{kind: 'b', s: "false"})
		}
		a.put("steps", jl(x.steps[:n]...))
		b := jm("name", js("b"))
		if x.sched != "" {
			b.put("gasSchedule", js(x.sched))
		}
		if !x.gasOn {
			b.put("checkGas", &jn{kind: 'b', s: "false"})
		}
		b.put("steps", jl(append([]*jn{jm("step", js("externalSteps"), "path", js("sub/a.scen.json"))}, x.steps[n:]...)...))
		_ = os.WriteFile(filepath.Join(dir, "sub", "a.scen.json"), []byte(a.String()), 0o644)
		_ = os.WriteFile(filepath.Join(dir, "b.scen.json"), []byte(b.String()), 0o644)
		if break_ >= 0 {
			m.undo()
		}
	}
	runFile := func() error {
		ex.Reset()
		return mc.NewScenarioRunner(ex, fr.NewDefaultFileResolver()).RunSingleJSONScenario(filepath.Join(dir, "b.scen.json"))
	}
	write(-1)
	if err := runFile(); err != nil {
		c.Failf("external must pass", "the scenario with external steps must pass: %v\n%s", err, strings.Join(x.desc, "\n"))
		return
	}
	var gasMuts []int
	for i := range x.muts {
		if x.muts[i].gasStep > n {
			gasMuts = append(gasMuts, i)
		}
	}
	for i := 0; i < 3 && len(x.muts) > 0; i++ {
		k := r.Intn(len(x.muts))
		if len(gasMuts) > 0 && i == 2 {
			k = gasMuts[r.Intn(len(gasMuts))]
		} else if x.muts[k].gasStep > 0 {
			continue
		}
		write(k)
		if err := runFile(); err == nil {
			c.Failf("external must fail", "the scenario with external steps passes although an expectation was changed (%s)", x.muts[k].what)
			return
		}
		c.Count("changed expectations", 1)
	}
	c.Count("external steps", 1)
}

var p24fixed = []run.Fixed{}

var _ = kit.Val32

func logText(l []rlog) (s string) {
	for _, x := range l {
		s += fmt.Sprintf("%q %q %q %q\n", x.addr, x.id, x.topics, x.data)
	}
	return
}

package main

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"strings"

	mj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/model"
	mjparse "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/parse"
	mjwrite "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/write"
	oj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/orderedjson"
	"verif/harness/run"
)

// ---- what a scenario says, apart from how it is written

func meaning(v interface{}) []string {
	var out []string
	var rec func(path string, v reflect.Value)
	rec = func(path string, v reflect.Value) {
		add := func(s string) { out = append(out, path+" = "+s) }
		if !v.IsValid() {
			add("nil")
			return
		}
		switch x := v.Interface().(type) {
		case *big.Int:
			if x == nil {
				add("0")
			} else {
				add(x.String())
			}
			return
		case []byte:
			add("0x" + hex.EncodeToString(x))
			return
		case mj.JSONCheckBytes:
			add(check(x.IsStar, x.Unspecified, "0x"+hex.EncodeToString(x.Value)))
			return
		case mj.JSONCheckUint64:
			add(check(x.IsStar, x.Unspecified, fmt.Sprint(x.Value)))
			return
		case mj.JSONCheckBigInt:
			s := "0"
			if x.Value != nil {
				s = x.Value.String()
			}
			add(check(x.IsStar, x.Unspecified, s))
			return
		}
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			if v.IsNil() {
				add("nil")
				return
			}
			if v.Kind() == reflect.Interface {
				add(v.Elem().Type().String())
			}
			rec(path, v.Elem())
		case reflect.Slice:
			if v.Len() > 0 {
				add(fmt.Sprintf("%d items", v.Len()))
			}
			for i := 0; i < v.Len(); i++ {
				rec(fmt.Sprintf("%s[%d]", path, i), v.Index(i))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if name := v.Type().Field(i).Name; name != "Original" {
					rec(path+"."+name, v.Field(i))
				}
			}
		default:
			add(fmt.Sprintf("%#v", v.Interface()))
		}
	}
	rec("", reflect.ValueOf(v))
	return out
}

func check(star, unspecified bool, value string) string {
	if star {
		return "*"
	}
	if unspecified {
		return "unspecified"
	}
	return value
}

// first difference of two meanings
func differ(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "(end)", "(end)"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("%s, instead of %s", y, x)
		}
	}
	return ""
}

// ---- random scenarios: the JSON text and what it has to mean

type gen struct {
	r *rand.Rand
}

func (g *gen) chance(n int) bool { return g.r.Intn(n) == 0 }

type kv struct {
	k string
	t *tree
}

func str(s string) *tree { return &tree{kind: 's', s: s} }

func list(kids ...*tree) *tree { return &tree{kind: 'l', kids: kids} }

func object(kvs ...kv) *tree {
	t := &tree{kind: 'm'}
	for _, x := range kvs {
		t.keys = append(t.keys, x.k)
		t.kids = append(t.kids, x.t)
	}
	return t
}

// object with the entries in random order
func (g *gen) object(kvs []kv) *tree {
	g.r.Shuffle(len(kvs), func(i, j int) { kvs[i], kvs[j] = kvs[j], kvs[i] })
	return object(kvs...)
}

func (g *gen) num(v *big.Int) string {
	if v.Sign() == 0 && g.chance(3) {
		return ""
	}
	switch g.r.Intn(6) {
	case 0:
		return "0x" + v.Text(16)
	case 1:
		return "0b" + v.Text(2)
	case 2:
		return separate(g.r, v.String())
	case 3:
		if v.IsUint64() {
			return "u64:" + v.String()
		}
	case 4:
		return "0x00|" + v.String()
	}
	return v.String()
}

func (g *gen) u64v() uint64 {
	switch g.r.Intn(5) {
	case 0:
		return 0
	case 1:
		return uint64(g.r.Intn(5))
	case 2:
		return ^uint64(0) - uint64(g.r.Intn(2))
	}
	return g.r.Uint64() >> uint(g.r.Intn(64))
}

func (g *gen) u64() (mj.JSONUint64, *tree) {
	v := g.u64v()
	return mj.JSONUint64{Value: v}, str(g.num(new(big.Int).SetUint64(v)))
}

func (g *gen) bigv() *big.Int {
	if g.chance(4) {
		return big.NewInt(0)
	}
	return new(big.Int).SetBytes(randBytes(g.r, g.r.Intn(20)))
}

func (g *gen) big() (mj.JSONBigInt, *tree) {
	v := g.bigv()
	return mj.JSONBigInt{Value: v}, str(g.num(v))
}

// an expression with a value
func (g *gen) expr() (string, []byte) {
	for {
		s := jsonSafe(genExpr(g.r, 1))
		if b, v := eval(s); v == valid && s != "*" && s != "+" {
			return s, b
		}
	}
}

func (g *gen) bytes() (mj.JSONBytesFromString, *tree) {
	s, b := g.expr()
	return mj.JSONBytesFromString{Value: b}, str(s)
}

func (g *gen) treeBytes() (mj.JSONBytesFromTree, *tree) {
	t := genTree(g.r, 2, func() string { s, _ := g.expr(); return s })
	b, _ := evalTree(t)
	return mj.JSONBytesFromTree{Value: b}, t
}

func (g *gen) checkBytes() (mj.JSONCheckBytes, *tree) {
	if g.chance(5) {
		return mj.JSONCheckBytes{IsStar: true}, str("*")
	}
	v, t := g.treeBytes()
	return mj.JSONCheckBytes{Value: v.Value}, t
}

func (g *gen) checkU64() (mj.JSONCheckUint64, *tree) {
	if g.chance(5) {
		return mj.JSONCheckUint64{IsStar: true}, str("*")
	}
	v, t := g.u64()
	return mj.JSONCheckUint64{Value: v.Value}, t
}

func (g *gen) checkBig() (mj.JSONCheckBigInt, *tree) {
	if g.chance(5) {
		return mj.JSONCheckBigInt{IsStar: true}, str("*")
	}
	v, t := g.big()
	return mj.JSONCheckBigInt{Value: v.Value}, t
}

func (g *gen) text() string {
	return strings.TrimSpace(jsonSafe(genText(g.r, 1+g.r.Intn(12)))) + "."
}

func (g *gen) addr() (mj.JSONBytesFromString, string) {
	var s string
	switch g.r.Intn(3) {
	case 0:
		s = "address:" + digits(g.r, "abcdef_", 1+g.r.Intn(20))
	case 1:
		s = "sc:" + digits(g.r, "abcdef_", 1+g.r.Intn(20)) + pickS(g.r, "", "#00", "#a5")
	case 2:
		s = "0x" + hex.EncodeToString(randBytes(g.r, 32))
	}
	b, _ := eval(s)
	return mj.JSONBytesFromString{Value: b}, s
}

// a list of distinct keys
type keys map[string]bool

func (k keys) fresh(s string) bool {
	if k[s] {
		return false
	}
	k[s] = true
	return true
}

// ESDT instance fields
func (g *gen) instance() (*mj.ESDTInstance, []kv) {
	x := &mj.ESDTInstance{}
	var kvs []kv
	var t *tree
	if g.chance(2) {
		x.Nonce, t = g.u64()
		kvs = append(kvs, kv{"nonce", t})
	}
	if g.chance(2) {
		x.Balance, t = g.big()
		kvs = append(kvs, kv{"balance", t})
	}
	if g.chance(3) {
		a, s := g.addr()
		x.Creator = a
		kvs = append(kvs, kv{"creator", str(s)})
	}
	if g.chance(3) {
		x.Royalties.Value = uint64(g.r.Intn(10001))
		kvs = append(kvs, kv{"royalties", str(g.num(new(big.Int).SetUint64(x.Royalties.Value)))})
	}
	if g.chance(3) {
		x.Hash, t = g.bytes()
		kvs = append(kvs, kv{"hash", t})
	}
	if g.chance(3) {
		x.Uri, t = g.treeBytes()
		kvs = append(kvs, kv{"uri", t})
	}
	if g.chance(3) {
		x.Attributes, t = g.bytes()
		kvs = append(kvs, kv{"attributes", t})
	}
	return x, kvs
}

func (g *gen) checkInstance() (*mj.CheckESDTInstance, []kv) {
	x := mj.NewCheckESDTInstance()
	var kvs []kv
	var t *tree
	if g.chance(2) {
		x.Nonce, t = g.checkU64()
		kvs = append(kvs, kv{"nonce", t})
	}
	if g.chance(2) {
		x.Balance, t = g.checkBig()
		kvs = append(kvs, kv{"balance", t})
	}
	for _, f := range []struct {
		name string
		to   *mj.JSONCheckBytes
	}{{"creator", &x.Creator}, {"hash", &x.Hash}, {"uri", &x.Uri}, {"attributes", &x.Attributes}} {
		if g.chance(3) {
			*f.to, t = g.checkBytes()
			kvs = append(kvs, kv{f.name, t})
		}
	}
	if g.chance(3) {
		x.Royalties = mj.JSONCheckUint64{Value: uint64(g.r.Intn(10001))}
		kvs = append(kvs, kv{"royalties", str(g.num(new(big.Int).SetUint64(x.Royalties.Value)))})
	}
	return x, kvs
}

func (g *gen) roles() ([]string, *tree) {
	var out []string
	t := list()
	for i := g.r.Intn(4); i > 0; i-- {
		s := pickS(g.r, "ESDTRoleLocalMint", "ESDTRoleLocalBurn", "ESDTRoleNFTCreate", "x")
		out = append(out, s)
		t.kids = append(t.kids, str(s))
	}
	return out, t
}

func (g *gen) esdt() ([]*mj.ESDTData, *tree) {
	var out []*mj.ESDTData
	var kvs []kv
	seen := keys{}
	for i := g.r.Intn(4); i > 0; i-- {
		s := "str:TOK-" + digits(g.r, "abc123", 3)
		if !seen.fresh(s) {
			continue
		}
		x := &mj.ESDTData{TokenIdentifier: mj.JSONBytesFromString{Value: []byte(s[4:])}}
		if g.chance(3) {
			b, t := g.big()
			x.Instances = []*mj.ESDTInstance{{Balance: b}}
			out = append(out, x)
			kvs = append(kvs, kv{s, t})
			continue
		}
		var fields []kv
		inst, f := g.instance()
		if len(f) > 0 {
			x.Instances = append(x.Instances, inst)
			fields = append(fields, f...)
		}
		if g.chance(2) {
			l := list()
			for n := g.r.Intn(3); n > 0; n-- {
				inst, f := g.instance()
				x.Instances = append(x.Instances, inst)
				l.kids = append(l.kids, g.object(f))
			}
			fields = append(fields, kv{"instances", l})
		}
		var t *tree
		if g.chance(2) {
			x.LastNonce, t = g.u64()
			fields = append(fields, kv{"lastNonce", t})
		}
		if g.chance(2) {
			x.Roles, t = g.roles()
			fields = append(fields, kv{"roles", t})
		}
		if g.chance(3) {
			x.Frozen, t = g.u64()
			fields = append(fields, kv{"frozen", t})
		}
		out = append(out, x)
		kvs = append(kvs, kv{s, g.object(fields)})
	}
	return out, object(kvs...)
}

func (g *gen) account() (*mj.Account, *tree) {
	x := &mj.Account{}
	var kvs []kv
	var t *tree
	if g.chance(3) {
		x.Comment = g.text()
		kvs = append(kvs, kv{"comment", str(x.Comment)})
	}
	if g.chance(3) {
		x.Shard, t = g.u64()
		kvs = append(kvs, kv{"shard", t})
	}
	if !g.chance(3) {
		x.Nonce, t = g.u64()
		kvs = append(kvs, kv{"nonce", t})
	}
	if !g.chance(3) {
		x.Balance, t = g.big()
		kvs = append(kvs, kv{"balance", t})
	}
	if g.chance(2) {
		x.ESDTData, t = g.esdt()
		kvs = append(kvs, kv{"esdt", t})
	}
	if g.chance(3) {
		x.Username, t = g.bytes()
		kvs = append(kvs, kv{"username", t})
	}
	if !g.chance(3) {
		var st []kv
		seen := keys{}
		for i := g.r.Intn(4); i > 0; i-- {
			s, b := g.expr()
			if !seen.fresh(s) {
				continue
			}
			v, t := g.treeBytes()
			st = append(st, kv{s, t})
			x.Storage = append(x.Storage, &mj.StorageKeyValuePair{Key: mj.JSONBytesFromString{Value: b}, Value: v})
		}
		kvs = append(kvs, kv{"storage", object(st...)})
	}
	if g.chance(3) {
		x.Code, t = g.bytes()
		kvs = append(kvs, kv{"code", t})
	}
	if g.chance(3) {
		x.Owner, t = g.bytes()
		kvs = append(kvs, kv{"owner", t})
	}
	if g.chance(4) {
		x.AsyncCallData = g.text()
		kvs = append(kvs, kv{"asyncCallData", str(x.AsyncCallData)})
	}
	return x, g.object(kvs)
}

func (g *gen) accounts() ([]*mj.Account, *tree) {
	var out []*mj.Account
	var kvs []kv
	seen := keys{}
	for i := g.r.Intn(4); i > 0; i-- {
		a, s := g.addr()
		if !seen.fresh(s) {
			continue
		}
		x, t := g.account()
		x.Address = a
		out = append(out, x)
		kvs = append(kvs, kv{s, t})
	}
	return out, object(kvs...)
}

func (g *gen) checkESDT(acct *mj.CheckAccount) *tree {
	if g.chance(5) {
		acct.IgnoreESDT = true
		return str("*")
	}
	var kvs []kv
	seen := keys{}
	for i := g.r.Intn(4); i > 0; i-- {
		s := "str:TOK-" + digits(g.r, "abc123", 3)
		if !seen.fresh(s) {
			continue
		}
		x := &mj.CheckESDTData{TokenIdentifier: mj.JSONBytesFromString{Value: []byte(s[4:])}}
		acct.CheckESDTData = append(acct.CheckESDTData, x)
		if g.chance(3) {
			// the compact form: nothing but the balance
			b, t := g.checkBig()
			x.Instances = []*mj.CheckESDTInstance{{Balance: b}}
			kvs = append(kvs, kv{s, t})
			continue
		}
		var fields []kv
		inst, f := g.checkInstance()
		if len(f) > 0 {
			x.Instances = append(x.Instances, inst)
			fields = append(fields, f...)
		}
		if g.chance(2) {
			l := list()
			for n := g.r.Intn(3); n > 0; n-- {
				inst, f := g.checkInstance()
				x.Instances = append(x.Instances, inst)
				l.kids = append(l.kids, g.object(f))
			}
			fields = append(fields, kv{"instances", l})
		}
		var t *tree
		if g.chance(2) {
			x.LastNonce, t = g.checkU64()
			fields = append(fields, kv{"lastNonce", t})
		}
		if g.chance(2) {
			x.Roles, t = g.roles()
			fields = append(fields, kv{"roles", t})
		}
		if g.chance(3) {
			x.Frozen, t = g.checkU64()
			fields = append(fields, kv{"frozen", t})
		}
		kvs = append(kvs, kv{s, g.object(fields)})
	}
	if g.chance(4) {
		acct.MoreESDTTokensAllowed = true
		kvs = append(kvs, kv{"+", str("")})
	}
	return object(kvs...)
}

func (g *gen) checkAccount() (*mj.CheckAccount, *tree) {
	x := &mj.CheckAccount{
		Nonce:         mj.JSONCheckUint64Unspecified(),
		Balance:       mj.JSONCheckBigIntUnspecified(),
		Username:      mj.JSONCheckBytesUnspecified(),
		Code:          mj.JSONCheckBytesUnspecified(),
		Owner:         mj.JSONCheckBytesUnspecified(),
		AsyncCallData: mj.JSONCheckBytesUnspecified(),
	}
	var kvs []kv
	var t *tree
	if g.chance(4) {
		x.Comment = g.text()
		kvs = append(kvs, kv{"comment", str(x.Comment)})
	}
	if g.chance(2) {
		x.Nonce, t = g.checkU64()
		kvs = append(kvs, kv{"nonce", t})
	}
	if g.chance(2) {
		x.Balance, t = g.checkBig()
		kvs = append(kvs, kv{"balance", t})
	}
	if g.chance(2) {
		kvs = append(kvs, kv{"esdt", g.checkESDT(x)})
	}
	for _, f := range []struct {
		name string
		to   *mj.JSONCheckBytes
	}{{"username", &x.Username}, {"code", &x.Code}, {"owner", &x.Owner}, {"asyncCallData", &x.AsyncCallData}} {
		if g.chance(3) {
			*f.to, t = g.checkBytes()
			kvs = append(kvs, kv{f.name, t})
		}
	}
	switch g.r.Intn(4) {
	case 0:
		x.IgnoreStorage = true
		kvs = append(kvs, kv{"storage", str("*")})
	case 1:
	default:
		var st []kv
		seen := keys{}
		for i := g.r.Intn(4); i > 0; i-- {
			s, b := g.expr()
			if !seen.fresh(s) {
				continue
			}
			v, t := g.checkBytes()
			st = append(st, kv{s, t})
			x.CheckStorage = append(x.CheckStorage, &mj.CheckStorageKeyValuePair{Key: mj.JSONBytesFromString{Value: b}, CheckValue: v})
		}
		if g.chance(4) {
			x.MoreStorageAllowed = true
			st = append(st, kv{"+", str("")})
		}
		kvs = append(kvs, kv{"storage", object(st...)})
	}
	return x, g.object(kvs)
}

func (g *gen) checkAccounts() (*mj.CheckAccounts, *tree) {
	out := &mj.CheckAccounts{}
	var kvs []kv
	seen := keys{}
	for i := g.r.Intn(4); i > 0; i-- {
		a, s := g.addr()
		if !seen.fresh(s) {
			continue
		}
		x, t := g.checkAccount()
		x.Address = a
		out.Accounts = append(out.Accounts, x)
		kvs = append(kvs, kv{s, t})
	}
	if g.chance(3) {
		out.MoreAccountsAllowed = true
		kvs = append(kvs, kv{"+", str("")})
	}
	return out, object(kvs...)
}

func (g *gen) esdtTx() (*mj.ESDTTxData, *tree) {
	x := &mj.ESDTTxData{}
	var kvs []kv
	var t *tree
	if !g.chance(4) {
		x.TokenIdentifier, t = g.bytes()
		kvs = append(kvs, kv{"tokenIdentifier", t})
	}
	if g.chance(2) {
		x.Nonce, t = g.u64()
		kvs = append(kvs, kv{"nonce", t})
	}
	if !g.chance(4) {
		x.Value, t = g.big()
		kvs = append(kvs, kv{"value", t})
	}
	return x, g.object(kvs)
}

// test selects the fields of transactions of test files
func (g *gen) tx(typ mj.TransactionType, test bool) (*mj.Transaction, *tree) {
	x := &mj.Transaction{Type: typ}
	var kvs []kv
	var t *tree
	if test {
		x.Nonce, t = g.u64()
		kvs = append(kvs, kv{"nonce", t})
	}
	if typ.HasSender() {
		a, s := g.addr()
		x.From = a
		kvs = append(kvs, kv{"from", str(s)})
	}
	if typ.HasReceiver() {
		a, s := g.addr()
		x.To = a
		kvs = append(kvs, kv{"to", str(s)})
	} else if test {
		kvs = append(kvs, kv{"to", str("")})
	}
	if typ.HasValue() && !g.chance(4) {
		x.Value, t = g.big()
		kvs = append(kvs, kv{"value", t})
	}
	if typ.HasESDT() && g.chance(3) {
		x.ESDTValue, t = g.esdtTx()
		kvs = append(kvs, kv{"esdt", t})
	}
	if typ.HasFunction() {
		x.Function = g.text()
		kvs = append(kvs, kv{"function", str(x.Function)})
	}
	if typ == mj.ScDeploy {
		x.Code, t = g.bytes()
		kvs = append(kvs, kv{"contractCode", t})
	}
	if (typ.HasFunction() || typ == mj.ScDeploy) && !g.chance(4) {
		l := list()
		for i := g.r.Intn(4); i > 0; i-- {
			v, t := g.treeBytes()
			x.Arguments = append(x.Arguments, v)
			l.kids = append(l.kids, t)
		}
		kvs = append(kvs, kv{"arguments", l})
	}
	if typ.HasGas() && !g.chance(4) {
		x.GasLimit, t = g.u64()
		kvs = append(kvs, kv{"gasLimit", t})
		x.GasPrice, t = g.u64()
		kvs = append(kvs, kv{"gasPrice", t})
	}
	return x, g.object(kvs)
}

func (g *gen) result() (*mj.TransactionResult, *tree) {
	x := &mj.TransactionResult{
		Status:          mj.JSONCheckBigIntUnspecified(),
		Message:         mj.JSONCheckBytesUnspecified(),
		Gas:             mj.JSONCheckUint64Unspecified(),
		Refund:          mj.JSONCheckBigIntUnspecified(),
		LogsStar:        true,
		LogsUnspecified: true,
	}
	var kvs []kv
	var t *tree
	if !g.chance(3) {
		l := list()
		for i := g.r.Intn(4); i > 0; i-- {
			v, t := g.checkBytes()
			x.Out = append(x.Out, v)
			l.kids = append(l.kids, t)
		}
		kvs = append(kvs, kv{"out", l})
	}
	if g.chance(2) {
		v := big.NewInt(int64(g.r.Intn(200)))
		s := v.String()
		if v.Cmp(big.NewInt(128)) >= 0 {
			// the status is read as a signed number
			s = "+" + s
		}
		x.Status = mj.JSONCheckBigInt{Value: v}
		if v.Sign() == 0 && g.chance(2) {
			s = ""
		}
		if g.chance(5) {
			x.Status = mj.JSONCheckBigInt{IsStar: true}
			s = "*"
		}
		kvs = append(kvs, kv{"status", str(s)})
	}
	if g.chance(2) {
		x.Message, t = g.checkBytes()
		kvs = append(kvs, kv{"message", t})
	}
	if g.chance(2) {
		x.Gas, t = g.checkU64()
		kvs = append(kvs, kv{"gas", t})
	}
	if g.chance(2) {
		x.Refund, t = g.checkBig()
		kvs = append(kvs, kv{"refund", t})
	}
	switch g.r.Intn(4) {
	case 0:
	case 1:
		x.LogsUnspecified = false
		kvs = append(kvs, kv{"logs", str("*")})
	default:
		x.LogsStar = false
		x.LogsUnspecified = false
		l := list()
		for i := g.r.Intn(3); i > 0; i-- {
			e := &mj.LogEntry{
				Address:    mj.JSONCheckBytesUnspecified(),
				Identifier: mj.JSONCheckBytesUnspecified(),
				Data:       mj.JSONCheckBytesUnspecified(),
			}
			var f []kv
			for _, w := range []struct {
				name string
				to   *mj.JSONCheckBytes
			}{{"address", &e.Address}, {"identifier", &e.Identifier}, {"data", &e.Data}} {
				if !g.chance(4) {
					*w.to, t = g.checkBytes()
					f = append(f, kv{w.name, t})
				}
			}
			if !g.chance(4) {
				topics := list()
				for j := g.r.Intn(3); j > 0; j-- {
					v, t := g.checkBytes()
					e.Topics = append(e.Topics, v)
					topics.kids = append(topics.kids, t)
				}
				f = append(f, kv{"topics", topics})
			}
			x.Logs = append(x.Logs, e)
			l.kids = append(l.kids, g.object(f))
		}
		kvs = append(kvs, kv{"logs", l})
	}
	return x, g.object(kvs)
}

func (g *gen) blockInfo() (*mj.BlockInfo, *tree) {
	x := &mj.BlockInfo{}
	var kvs []kv
	for _, f := range []struct {
		name string
		to   *mj.JSONUint64
	}{{"blockTimestamp", &x.BlockTimestamp}, {"blockNonce", &x.BlockNonce}, {"blockRound", &x.BlockRound}, {"blockEpoch", &x.BlockEpoch}} {
		if g.chance(2) {
			v, t := g.u64()
			*f.to = v
			kvs = append(kvs, kv{f.name, t})
		}
	}
	if g.chance(2) {
		b := randBytes(g.r, 48)
		x.BlockRandomSeed = &mj.JSONBytesFromTree{Value: b}
		kvs = append(kvs, kv{"blockRandomSeed", list(str("0x"+hex.EncodeToString(b[:20])), str("0x"+hex.EncodeToString(b[20:])))})
	}
	return x, g.object(kvs)
}

func (g *gen) hashes() ([]mj.JSONBytesFromString, *tree) {
	var out []mj.JSONBytesFromString
	l := list()
	for i := g.r.Intn(3); i > 0; i-- {
		v, t := g.bytes()
		out = append(out, v)
		l.kids = append(l.kids, t)
	}
	return out, l
}

func (g *gen) step() (mj.Step, *tree) {
	var kvs []kv
	comment := ""
	if g.chance(3) {
		comment = g.text()
		kvs = append(kvs, kv{"comment", str(comment)})
	}
	done := func(s mj.Step, name string) (mj.Step, *tree) {
		kvs = append(kvs, kv{"step", str(name)})
		return s, g.object(kvs)
	}
	var t *tree
	switch g.r.Intn(9) {
	case 0:
		x := &mj.ExternalStepsStep{Comment: comment, Path: g.text()}
		kvs = append(kvs, kv{"path", str(x.Path)})
		return done(x, "externalSteps")
	case 1, 2:
		x := &mj.SetStateStep{Comment: comment}
		if !g.chance(4) {
			x.Accounts, t = g.accounts()
			kvs = append(kvs, kv{"accounts", t})
		}
		if g.chance(3) {
			l := list()
			for i := g.r.Intn(3); i > 0; i-- {
				m := &mj.NewAddressMock{}
				a, s := g.addr()
				m.CreatorAddress = a
				b, u := g.addr()
				m.NewAddress = b
				f := []kv{{"creatorAddress", str(s)}, {"newAddress", str(u)}}
				if !g.chance(4) {
					m.CreatorNonce, t = g.u64()
					f = append(f, kv{"creatorNonce", t})
				}
				x.NewAddressMocks = append(x.NewAddressMocks, m)
				l.kids = append(l.kids, g.object(f))
			}
			kvs = append(kvs, kv{"newAddresses", l})
		}
		if g.chance(3) {
			x.PreviousBlockInfo, t = g.blockInfo()
			kvs = append(kvs, kv{"previousBlockInfo", t})
		}
		if g.chance(3) {
			x.CurrentBlockInfo, t = g.blockInfo()
			kvs = append(kvs, kv{"currentBlockInfo", t})
		}
		if g.chance(3) {
			x.BlockHashes, t = g.hashes()
			kvs = append(kvs, kv{"blockHashes", t})
		}
		return done(x, "setState")
	case 3, 4:
		x := &mj.CheckStateStep{Comment: comment}
		x.CheckAccounts, t = g.checkAccounts()
		kvs = append(kvs, kv{"accounts", t})
		return done(x, "checkState")
	case 5:
		return done(&mj.DumpStateStep{Comment: comment}, "dumpState")
	}
	typ := []mj.TransactionType{mj.ScDeploy, mj.ScCall, mj.ScQuery, mj.Transfer, mj.ValidatorReward}[g.r.Intn(5)]
	x := &mj.TxStep{Comment: comment}
	if g.chance(2) {
		x.TxIdent = g.text()
		kvs = append(kvs, kv{"txId", str(x.TxIdent)})
	}
	x.Tx, t = g.tx(typ, false)
	kvs = append(kvs, kv{"tx", t})
	name := []string{"scDeploy", "scCall", "scQuery", "transfer", "validatorReward"}[typ]
	if typ.IsSmartContractTx() && !g.chance(4) {
		x.ExpectedResult, t = g.result()
		kvs = append(kvs, kv{"expect", t})
	}
	return done(x, name)
}

func (g *gen) scenario() (*mj.Scenario, *tree) {
	x := &mj.Scenario{CheckGas: true}
	var kvs []kv
	if g.chance(2) {
		x.Name = g.text()
		kvs = append(kvs, kv{"name", str(x.Name)})
	}
	if g.chance(2) {
		x.Comment = g.text()
		kvs = append(kvs, kv{"comment", str(x.Comment)})
	}
	if g.chance(2) {
		x.CheckGas = g.chance(2)
		kvs = append(kvs, kv{"checkGas", &tree{kind: 'b', b: x.CheckGas}})
	}
	if g.chance(2) {
		x.GasSchedule = mj.GasSchedule(g.r.Intn(5))
		kvs = append(kvs, kv{"gasSchedule", str([]string{"default", "dummy", "v1", "v2", "v3"}[x.GasSchedule])})
	}
	l := list()
	for i := g.r.Intn(5); i > 0; i-- {
		s, t := g.step()
		x.Steps = append(x.Steps, s)
		l.kids = append(l.kids, t)
	}
	kvs = append(kvs, kv{"steps", l})
	return x, g.object(kvs)
}

func (g *gen) test() ([]*mj.Test, *tree) {
	x := &mj.Test{CheckGas: true, TestName: g.text()}
	var kvs []kv
	var t *tree
	if g.chance(2) {
		x.CheckGas = g.chance(2)
		kvs = append(kvs, kv{"checkGas", &tree{kind: 'b', b: x.CheckGas}})
	}
	x.Pre, t = g.accounts()
	kvs = append(kvs, kv{"pre", t})
	x.PostState, t = g.checkAccounts()
	kvs = append(kvs, kv{"postState", t})
	if g.chance(2) {
		x.Network = g.text()
		kvs = append(kvs, kv{"network", str(x.Network)})
	}
	if g.chance(2) {
		x.BlockHashes, t = g.hashes()
		kvs = append(kvs, kv{"blockHashes", t})
	}
	blocks := list()
	for i := g.r.Intn(3); i > 0; i-- {
		b := &mj.Block{}
		var f []kv
		results, txs := list(), list()
		for j := g.r.Intn(3); j > 0; j-- {
			r, t := g.result()
			b.Results = append(b.Results, r)
			results.kids = append(results.kids, t)
			typ := mj.ScCall
			if g.chance(2) {
				typ = mj.ScDeploy
			}
			tx, t := g.tx(typ, true)
			b.Transactions = append(b.Transactions, tx)
			txs.kids = append(txs.kids, t)
		}
		f = append(f, kv{"results", results}, kv{"transactions", txs})
		if g.chance(2) {
			h := &mj.BlockHeader{}
			b.BlockHeader = h
			var hf []kv
			for _, w := range []struct {
				name string
				to   *mj.JSONBigInt
			}{{"gasLimit", &h.GasLimit}, {"number", &h.Number}, {"difficulty", &h.Difficulty}, {"coinbase", &h.Beneficiary}} {
				*w.to, t = g.big()
				hf = append(hf, kv{w.name, t})
			}
			h.Timestamp, t = g.u64()
			hf = append(hf, kv{"timestamp", t})
			f = append(f, kv{"blockHeader", g.object(hf)})
		}
		x.Blocks = append(x.Blocks, b)
		blocks.kids = append(blocks.kids, g.object(f))
	}
	kvs = append(kvs, kv{"blocks", blocks})
	return []*mj.Test{x}, object(kv{x.TestName, g.object(kvs)})
}

func p23Files(c *run.Case) {
	g := &gen{c.R}
	parser := mjparse.NewParser(resolver{})
	isTest := g.chance(4)
	read := func(text string) (out interface{}, err error) {
		defer func() {
			if r := recover(); r != nil {
				c.Tracef("%s", text)
				c.Failf("file: panic", "reading a file panics: %v", r)
			}
		}()
		if isTest {
			x, err := parser.ParseTestFile([]byte(text))
			return x, err
		}
		x, err := parser.ParseScenarioFile([]byte(text))
		return x, err
	}
	write := func(x interface{}) (text string) {
		defer func() {
			if r := recover(); r != nil {
				c.Failf("file: panic", "writing a file panics: %v", r)
			}
		}()
		if isTest {
			return mjwrite.TestToJSONString(x.([]*mj.Test))
		}
		return mjwrite.ScenarioToJSONString(x.(*mj.Scenario))
	}
	for i := 0; i < 3 && !c.Failed(); i++ {
		var want interface{}
		var t *tree
		if isTest {
			want, t = g.test()
		} else {
			want, t = g.scenario()
		}
		text := t.text(nil)
		if g.chance(2) {
			text = t.text(c.R)
		}
		first, err := read(text)
		if c.Failed() {
			return
		}
		shown := oj.JSONString(toOJ(t))
		if err != nil {
			c.Tracef("%s", shown)
			c.Failf("file: rejected", "a well-formed file is rejected: %v", err)
			return
		}
		ms := meaning(first)
		if d := differ(meaning(want), ms); d != "" {
			c.Tracef("%s", shown)
			c.Failf("file: read", "read: %s", d)
			return
		}
		written := write(first)
		if c.Failed() {
			return
		}
		second, err := read(written)
		if c.Failed() {
			return
		}
		if err != nil {
			c.Tracef("%s\n----\n%s", shown, written)
			c.Failf("file: written", "the file as written is rejected: %v", err)
			return
		}
		if d := differ(ms, meaning(second)); d != "" {
			c.Tracef("%s\n----\n%s", shown, written)
			c.Failf("file: written", "written and read again: %s", d)
			return
		}
		if again := write(second); again != written {
			c.Tracef("%s\n----\n%s", written, again)
			c.Failf("file: written", "the file changes when it is read and written again")
		}
		if isTest {
			c.Count("tests written and read", 1)
		} else {
			c.Count("scenarios written and read", 1)
		}
		c.Count("fields read", int64(len(ms)))

		// damage: an unknown field, or a field of the wrong type, anywhere
		damaged := g.damage(t)
		out, err := read(damaged.text(nil))
		if c.Failed() {
			return
		}
		_ = out
		if err == nil {
			c.Tracef("%s", oj.JSONString(toOJ(damaged)))
			c.Failf("file: accepted", "a file with an unknown field or value is accepted")
			return
		}
		c.Count("scenarios to reject", 1)
	}
}

var valueFields = strings.Fields(`nonce balance lastNonce frozen royalties shard creator hash uri attributes username code owner
	out message status gas refund arguments gasLimit gasPrice contractCode from to value tokenIdentifier blockTimestamp blockNonce
	blockRound blockEpoch blockRandomSeed address identifier data topics storage creatorNonce creatorAddress newAddress blockHashes
	number difficulty timestamp coinbase`)

var badValues = []string{"u8:256", "i8:-129", "i16:+32768", "u32:", "i64:", "0xg1", "0b12", "12a", "abc", "-", "+", "address:a#b#c", "sc:a#1",
	"address:x#zz", "1|abc", "nested:x", "biguint:-1", "file:missing", "keccak256:zz", "--1", "_", "u16:0x010000", "True", "null", "u8: 1"}

// damage makes a file wrong at one place
func (g *gen) damage(t *tree) *tree {
	var maps, values []*tree
	isValue := map[string]bool{}
	for _, f := range valueFields {
		isValue[f] = true
	}
	var cp func(t *tree, value bool) *tree
	cp = func(t *tree, value bool) *tree {
		u := *t
		u.keys = append([]string{}, t.keys...)
		u.kids = nil
		for i, k := range t.kids {
			if t.kind == 'm' && t.keys[i] == "+" {
				u.kids = append(u.kids, k)
				continue
			}
			u.kids = append(u.kids, cp(k, value || t.kind == 'm' && isValue[t.keys[i]]))
		}
		if t.kind == 'm' && !value {
			maps = append(maps, &u)
		}
		if t.kind == 's' && value {
			values = append(values, &u)
		}
		return &u
	}
	root := cp(t, false)
	if len(values) > 0 && g.chance(2) {
		values[g.r.Intn(len(values))].s = pickS(g.r, badValues...)
		return root
	}
	x := maps[g.r.Intn(len(maps))]
	x.keys = append(x.keys, "unknownField"+digits(g.r, "abc", 3))
	x.kids = append(x.kids, &tree{kind: 'b'})
	return root
}

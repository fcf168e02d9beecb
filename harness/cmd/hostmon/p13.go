package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"

	"verif/harness/chain"
	"verif/harness/kit"
	"verif/harness/mw"
	"verif/harness/run"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

// candidate is code offered for a deployment.
type candidate struct {
	code  []byte
	why   string // why it has to be refused, "" = it has to be accepted
	names []string
	init  bool
}

func pick(r *rand.Rand, l ...string) string { return l[r.Intn(len(l))] }

// legal draws a legal function name.
func legal(r *rand.Rand) string {
	switch r.Intn(8) {
	case 0:
		return strings.Repeat("n", 255)
	case 1:
		return pick(r, "a b", "!", "~\x01", "a@b", "0", "_", "Init", "INIT", "callback", "CallBack", "init ", " init", "init2", "upgradeContract2", "upgrade", "esdttransfer", "memory2", "callBack2")
	case 2:
		b := make([]byte, 1+r.Intn(254))
		for i := range b {
			b[i] = byte(1 + r.Intn(127))
		}
		return "z" + string(b)
	}
	return "f" + string(rune('a'+r.Intn(26))) + string(rune('a'+r.Intn(26)))
}

func newCandidate(r *rand.Rand, ch *chain.Chain) *candidate {
	m := &mw.Module{ID: "cand", MemMin: 1, Pad: r.Intn(200), PadByte: byte(r.Intn(256))}
	c := &candidate{init: r.Intn(6) > 0}
	seen := map[string]bool{"memory": true}
	add := func(n string) {
		if !seen[n] {
			seen[n] = true
			c.names = append(c.names, n)
		}
	}
	if c.init {
		add("init")
	}
	if r.Intn(2) == 0 {
		add("callBack")
	}
	for i := r.Intn(5); i > 0; i-- {
		add(legal(r))
	}
	r.Shuffle(len(c.names), func(i, k int) { c.names[i], c.names[k] = c.names[k], c.names[i] })
	m.Exports = append([]string(nil), c.names...)
	for i := r.Intn(4); i > 0; i-- {
		m.Imports = append(m.Imports, all[r.Intn(len(all))].Name)
	}
	bad := func(n, why string) {
		if seen[n] {
			return
		}
		i := r.Intn(len(m.Exports) + 1)
		m.Exports = append(m.Exports[:i:i], append([]string{n}, m.Exports[i:]...)...)
		c.why = why
	}
	switch r.Intn(24) {
	case 0:
		m.NoMemory = true
		c.why = "no memory"
	case 1:
		bad("", "empty function name")
	case 2:
		bad(strings.Repeat("n", 256+r.Intn(3)*r.Intn(100)), "function name too long")
	case 3:
		bad(pick(r, "é", "aé", "\u00ff", "f\u4e16", "\U0001F600x"), "function name not ASCII")
	case 4:
		keys := []string{}
		for k := range ch.BI.Keys() {
			keys = append(keys, k)
		}
		bad(smallest(keys, r), "function name of a built-in function")
	case 5:
		bad(all[r.Intn(len(all))].Name, "function name of a host function")
	case 6:
		bad(arwen.UpgradeFunctionName, "function name upgradeContract")
	case 7, 8, 9:
		ty := 1 + r.Intn(3)
		n := pick(r, "typed", "init", "callBack", "a", "zz")
		if seen[n] {
			for i, e := range m.Exports {
				if e == n {
					m.Exports = append(m.Exports[:i:i], m.Exports[i+1:]...)
					break
				}
			}
		}
		m.Typed, m.TypedOrder = map[string]int{n: ty}, []string{n}
		c.why = []string{"", "function with a parameter", "function with a result", "function with a parameter and a result"}[ty]
	case 10:
		m.Imports = append(m.Imports, pick(r, "unknownFunction", "storageStore2", "", "getcaller"))
		c.why = "unknown import"
	case 11:
		m.Imports = append(m.Imports, "!"+all[r.Intn(len(all))].Name)
		c.why = "import with a wrong signature"
	case 12:
		c.why = "not a module"
	}
	c.code = m.Bytes()
	if c.why == "not a module" {
		switch r.Intn(4) {
		case 0:
			c.code[r.Intn(8)] ^= byte(1 + r.Intn(255))
		case 1:
			c.code = c.code[:r.Intn(8)]
		case 2:
			c.code = []byte("not a contract")
		default:
			c.code = c.code[:9+r.Intn(6)]
		}
	}
	return c
}

// smallest picks an element of a set so that the choice does not depend on
// the order of its enumeration.
func smallest(l []string, r *rand.Rand) string {
	salt := byte(r.Intn(256))
	best, bs := "", 0
	for _, s := range l {
		h := 0
		for i := 0; i < len(s); i++ {
			h = (h*31 + int(s[i]^salt)) & 0xffffff
		}
		if best == "" || h < bs || (h == bs && s < best) {
			best, bs = s, h
		}
	}
	return best
}

var routes = []string{"deployment", "upgrade", "createContract", "deployFromSourceContract", "upgradeContract", "upgradeFromSourceContract", "nested upgrade", "nested upgrade of itself", "nested upgrade of a caller"}

// admission offers code to a VM in all ways a contract can get code, and
// calls what was deployed.
func admission(c *run.Case) {
	r := c.R
	ch := chain.New()
	ch.EnableBuiltIns(config.MakeGasMapForTests())
	dep, victim, source := chain.SC(0), chain.SC(1), chain.SC(2)
	user := chain.User(1)
	ch.Add(user, 1000000)
	ch.AddContract(dep, 1000, kit.Code("dep", "go", "callBack"), user)
	ch.AddContract(victim, 1000, kit.Code("old", "init", "go"), dep)
	vm := newVM(ch)

	var ran []string             // functions of the candidate which ran
	var arg0 []int64             // length of the first argument of the callbacks
	var script func(f *mw.Frame) // what the deployer does
	var relay func(f *mw.Frame)  // what the contract to upgrade does
	args := [][]byte{{1}, {2, 3}}
	wrongArgs := false
	mw.SetBehaviour(func(f *mw.Frame) {
		switch f.ID {
		case "cand":
			ran = append(ran, f.Func)
			if f.Func == "init" {
				n := f.Call("getNumArguments")
				o := f.Alloc(100)
				wrongArgs = n != 2 || f.Call("getArgument", 0, o) != 1 || !bytes.Equal(f.Get(o, 1), args[0]) || f.Call("getArgument", 1, o) != 2 || !bytes.Equal(f.Get(o, 2), args[1])
			}
		case "dep":
			if f.Func == "callBack" {
				arg0 = append(arg0, f.Call("getArgument", 0, f.Alloc(100)))
				return
			}
			script(f)
		case "old":
			if relay != nil {
				relay(f)
			}
		}
	})
	call := func(to []byte, fn string, ty vmcommon.CallType, from []byte, as ...[]byte) *vmcommon.VMOutput {
		in := kit.Input(from, to, fn, 1<<40, 0, as...)
		in.CallType = ty
		ran, arg0, wrongArgs = nil, nil, false
		out, err := vm.RunSmartContractCall(in)
		ch.DropSnapshots()
		if err != nil || out == nil {
			c.Failf("no result", "calling %q: %v", fn, err)
			panic(run.Skip{})
		}
		return out
	}
	var last *candidate
	for round := 0; round < 4; round++ {
		cand := last
		relay = nil
		ch.Accts[string(dep)].Owner = user
		if cand == nil || r.Intn(3) > 0 {
			cand = newCandidate(r, ch)
		}
		last = cand
		route := routes[r.Intn(len(routes))]
		if !cand.init && cand.why == "" && (route == "createContract" || route == "deployFromSourceContract") {
			continue // whether a contract can deploy code without init is not judged
		}
		meta := []byte{byte(r.Intn(2)) | 5, 2}
		ch.AddContract(source, 0, cand.code, user)
		c.Count("offers: "+route, 1)
		if cand.why == "" {
			c.Count("offers of valid code", 1)
		} else {
			c.Count("offers of invalid code", 1)
		}
		c.Distinct(route, cand.why, cand.init)
		c.Tracef("%s: %q %x", route, cand.why, cand.code)
		gas := int64(1 << 30)
		ret := int64(-1)
		var target []byte
		var out *vmcommon.VMOutput
		var err error
		wantTop := vmcommon.Ok
		switch route {
		case "deployment":
			acct := ch.Accts[string(user)]
			acct.Nonce = uint64(1 + r.Intn(1000000))
			target = chain.AddressFor(user, acct.Nonce-1, []byte{5, 0})
			in := &vmcommon.ContractCreateInput{VMInput: kit.Input(user, dep, "", 1<<40, 0, args...).VMInput, ContractCode: cand.code, ContractCodeMetadata: meta}
			ran, wrongArgs = nil, false
			out, err = vm.RunSmartContractCreate(in)
			if err != nil || out == nil {
				c.Failf("no result", "deployment: %v", err)
				return
			}
			if cand.why != "" {
				wantTop = vmcommon.ContractInvalid
			}
		case "upgrade":
			target = victim
			out = call(victim, arwen.UpgradeFunctionName, vmcommon.DirectCall, dep, append([][]byte{cand.code, meta}, args...)...)
			if cand.why != "" {
				wantTop = vmcommon.ContractInvalid
			}
		case "createContract", "deployFromSourceContract":
			target = nil
			script = func(f *mw.Frame) {
				o := f.Alloc(32)
				n, l, d := f.PutArgs(args)
				if route == "createContract" {
					ret = f.Call(route, gas, f.Put(kit.Val32(0)), f.Put(cand.code), f.Put(meta), int64(len(cand.code)), o, n, l, d)
				} else {
					ret = f.Call(route, gas, f.Put(kit.Val32(0)), f.Put(source), f.Put(meta), o, n, l, d)
				}
				target = f.Get(o, 32)
			}
			if len(cand.code) == 0 && route == "deployFromSourceContract" {
				continue // no source
			}
			out = call(dep, "go", vmcommon.DirectCall, user)
			if (ret == 0) != (cand.why == "") {
				c.Failf("wrong answer: "+route, "%s of code %s returned %d (message %q)", route, explain(cand), ret, out.ReturnMessage)
				return
			}
		case "upgradeContract", "upgradeFromSourceContract":
			target = victim
			script = func(f *mw.Frame) {
				n, l, d := f.PutArgs(args)
				if route == "upgradeContract" {
					f.Call(route, f.Put(victim), gas, f.Put(kit.Val32(0)), f.Put(cand.code), f.Put(meta), int64(len(cand.code)), n, l, d)
				} else {
					f.Call(route, f.Put(victim), gas, f.Put(kit.Val32(0)), f.Put(source), f.Put(meta), n, l, d)
				}
			}
			if len(cand.code) == 0 {
				continue
			}
			out = call(dep, "go", vmcommon.DirectCall, user)
			if len(arg0) != 1 || (arg0[0] == 0) != (cand.why == "") {
				c.Failf("wrong callback: "+route, "%s of code %s: the callback got return codes of lengths %v", route, explain(cand), arg0)
				return
			}
		case "nested upgrade", "nested upgrade of itself", "nested upgrade of a caller":
			target = victim
			if route == "nested upgrade of itself" {
				target = dep
				ch.Accts[string(dep)].Owner = dep
			}
			upgrade := func(f *mw.Frame) {
				n, l, d := f.PutArgs(append([][]byte{cand.code, meta}, args...))
				fn := []byte(arwen.UpgradeFunctionName)
				ret = f.Call("executeOnDestContext", gas, f.Put(target), f.Put(kit.Val32(0)), f.Put(fn), int64(len(fn)), n, l, d)
			}
			script = upgrade
			if route == "nested upgrade of a caller" {
				ch.AddContract(victim, 1000, kit.Code("old", "init", "go"), dep)
				enter := func(to []byte) func(f *mw.Frame) {
					return func(f *mw.Frame) {
						n, l, d := f.PutArgs(nil)
						f.Call("executeOnDestContext", gas*2, f.Put(to), f.Put(kit.Val32(0)), f.Put([]byte("go")), 2, n, l, d)
					}
				}
				first := true
				relay = enter(dep)
				script = func(f *mw.Frame) {
					if first {
						first = false
						enter(victim)(f)
						return
					}
					upgrade(f)
				}
			}
			out = call(dep, "go", vmcommon.DirectCall, user)
			if cand.why != "" {
				wantTop = vmcommon.ExecutionFailed
			}
		}
		if out.ReturnCode != wantTop {
			c.Failf("wrong return code: "+route, "%s of code %s ended with %v (%s), expected %v", route, explain(cand), out.ReturnCode, out.ReturnMessage, wantTop)
			return
		}
		wantRan := 0
		if cand.why == "" && cand.init {
			wantRan = 1
		}
		if len(ran) != wantRan || (wantRan == 1 && ran[0] != "init") {
			c.Failf("code ran: "+route, "%s of code %s ran %q", route, explain(cand), ran)
			return
		}
		if wrongArgs {
			c.Failf("init arguments: "+route, "%s: init got other arguments", route)
			return
		}
		if cand.why != "" {
			for a, o := range out.OutputAccounts {
				if len(o.Code) > 0 {
					c.Failf("invalid code deployed: "+route, "%s of code %s leaves code at %x in the output", route, explain(cand), a)
					return
				}
			}
			c.Count("refusals", 1)
			continue
		}
		o := out.OutputAccounts[string(target)]
		if o == nil || !bytes.Equal(o.Code, cand.code) {
			c.Failf("code not deployed: "+route, "%s of code %s: the output does not have the code at %x", route, explain(cand), target)
			return
		}
		c.Count("deployments", 1)
		if route == "nested upgrade of itself" {
			continue
		}
		ch.Apply(out)
		entries(c, ch, cand, target, dep, user, call, &ran, &script)
		if c.Failed() {
			return
		}
		if r.Intn(2) == 0 {
			ch.AddContract(victim, 1000, kit.Code("old", "init", "go"), dep)
		} else if a := ch.Accts[string(victim)]; a != nil {
			a.Owner, a.Meta = dep, []byte{5, 2}
		}
	}
}

func explain(c *candidate) string {
	if c.why == "" {
		return fmt.Sprintf("which is valid (exports %.60q)", c.names)
	}
	return "which is invalid (" + c.why + ")"
}

// entries calls a deployed contract by names which it exports and others.
func entries(c *run.Case, ch *chain.Chain, cand *candidate, at, dep, user []byte, call func([]byte, string, vmcommon.CallType, []byte, ...[]byte) *vmcommon.VMOutput, ran *[]string, script *func(*mw.Frame)) {
	r := c.R
	has := map[string]bool{}
	for _, n := range cand.names {
		has[n] = true
	}
	for i := 0; i < 5; i++ {
		fn := ""
		switch k := r.Intn(8); {
		case k < 3 && len(cand.names) > 0:
			fn = cand.names[r.Intn(len(cand.names))]
		case k == 3 && len(cand.names) > 0:
			n := cand.names[r.Intn(len(cand.names))]
			switch r.Intn(4) {
			case 0:
				fn = n + "\x00"
			case 1:
				fn = n[:len(n)-1]
			case 2:
				fn = strings.ToUpper(n)
			default:
				fn = n + n
			}
		case k == 4:
			fn = pick(r, "init", "callBack")
		case k == 5:
			fn = pick(r, "", "memory", "Init", "callback", "_start", "main", "storageStore", "getCaller")
		default:
			fn = legal(r)
		}
		if fn == arwen.UpgradeFunctionName {
			continue // an upgrade
		}
		how := r.Intn(4)
		want, wantFn := vmcommon.Ok, fn
		switch {
		case fn == "init" || (fn == "callBack" && how != 2):
			want, wantFn = vmcommon.UserError, ""
		case !has[fn] && fn != "callBack":
			want, wantFn = vmcommon.FunctionNotFound, ""
		case !has[fn]:
			wantFn = ""
		}
		var out *vmcommon.VMOutput
		label := "call"
		switch how {
		case 0, 1:
			ty := vmcommon.DirectCall
			if how == 1 {
				ty, label = vmcommon.AsynchronousCall, "asynchronous call"
			}
			out = call(at, fn, ty, user)
		case 2:
			if fn != "callBack" {
				continue // which function a callback runs is decided by its kind
			}
			label = "callback"
			out = call(at, fn, vmcommon.AsynchronousCallBack, user, []byte{})
		default:
			if fn == "callBack" {
				continue // calling a callback from a contract is not judged
			}
			op := pick(r, "executeOnDestContext", "executeOnSameContext", "transferValueExecute", "executeReadOnly", "asyncCall")
			label = op
			if op == "asyncCall" && (fn == "" || strings.ContainsAny(fn, "@\x00") || fn == "memory") {
				continue
			}
			ret := int64(-1)
			*script = func(f *mw.Frame) {
				n, l, d := f.PutArgs(nil)
				to, v, fo := f.Put(at), f.Put(kit.Val32(0)), f.Put([]byte(fn))
				switch op {
				case "transferValueExecute":
					ret = f.Call(op, to, v, 1<<25, fo, int64(len(fn)), n, l, d)
				case "executeReadOnly":
					ret = f.Call(op, 1<<25, to, fo, int64(len(fn)), n, l, d)
				case "asyncCall":
					f.Call(op, to, v, fo, int64(len(fn)))
				default:
					ret = f.Call(op, 1<<25, to, v, fo, int64(len(fn)), n, l, d)
				}
			}
			if fn == "" && op == "transferValueExecute" {
				continue // a plain transfer
			}
			out = call(dep, "go", vmcommon.DirectCall, user)
			switch {
			case op == "asyncCall":
				want = vmcommon.Ok
			case op == "transferValueExecute":
				if (ret == 0) != (want == vmcommon.Ok) {
					c.Failf("nested entry", "%s of %q: returned %d, expected %v", op, fn, ret, want)
					return
				}
				want = vmcommon.Ok
			case want != vmcommon.Ok:
				want = vmcommon.ExecutionFailed
			}
		}
		c.Count("entries: "+label, 1)
		c.Distinct("entry", label, want, has[fn], fn == "init", fn == "callBack")
		c.Tracef("  %s %q", label, fn)
		if out.ReturnCode != want {
			c.Failf("entry code: "+label, "%s of function %q of a contract with %.80q ended with %v (%s), expected %v", label, fn, cand.names, out.ReturnCode, out.ReturnMessage, want)
			return
		}
		exp := []string{wantFn}
		if wantFn == "" {
			exp = nil
		}
		if strings.Join(*ran, "|") != strings.Join(exp, "|") || len(*ran) != len(exp) {
			c.Failf("entry ran: "+label, "%s of function %q of a contract with %.80q ran %q, expected %q", label, fn, cand.names, *ran, exp)
			return
		}
		if wantFn != "" {
			c.Count("functions entered", 1)
		} else {
			c.Count("functions refused", 1)
		}
	}
}

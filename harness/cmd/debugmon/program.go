package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"

	"verif/harness/run"

	worldmock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/world"
)

// program runs the arwendebug program, once for every request, with real
// contracts.
func program(c *run.Case) {
	exe := filepath.Join(os.Getenv("VERIF_WORK"), "arwendebug")
	if _, err := os.Stat(exe); err != nil {
		panic("the arwendebug program was not built")
	}
	dir, err := os.MkdirTemp("", "program")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	wasm := func(n string) []byte {
		b, err := os.ReadFile("/repo/test/contracts/" + n + "/output/" + n + ".wasm")
		if err != nil {
			panic(run.Skip{})
		}
		return b
	}
	counter, erc20 := wasm("counter"), wasm("erc20")
	refs := map[string]*continuous{"one": newContinuous(), "two": newContinuous()}
	do := func(q *request) bool {
		q.DB, q.Out = filepath.Join(dir, "db"), "result"
		h := hex.EncodeToString
		args := []string{map[string]string{"account": "create-account"}[q.Kind]}
		if q.Kind != "account" {
			args[0] = q.Kind
		}
		args = append(args, "--outcome", q.Out, "--world", q.World, "--database", q.DB)
		if q.Kind == "account" {
			args = append(args, "--address", h(q.To), "--balance", q.Value, "--nonce", fmt.Sprint(q.Nonce))
		} else {
			args = append(args, "--impersonated", h(q.From), "--gas-limit", fmt.Sprint(q.Gas))
			if q.Kind != "query" && q.Value != "" {
				args = append(args, "--value", q.Value)
			}
		}
		switch q.Kind {
		case "deploy", "upgrade":
			args = append(args, "--code", h(q.Code), "--code-metadata", h(q.Meta))
			if q.Kind == "upgrade" {
				args = append(args, "--contract", h(q.To))
			}
		case "run", "query":
			args = append(args, "--contract", h(q.To), "--function", q.Fn)
		}
		for _, a := range q.Args {
			args = append(args, "--arguments", h(a))
		}
		res := filepath.Join(q.DB, "out", "result.json")
		_ = os.Remove(res)
		out, err := exec.Command(exe, args...).CombinedOutput()
		if err != nil {
			c.Failf("program: "+q.Kind, "%v: %v\n%.500s", args, err, out)
			return false
		}
		c.Count("program runs", 1)
		want := refs[q.World].do(q)
		if q.Kind == "account" {
			return true
		}
		var got struct {
			Output struct {
				ReturnData   [][]byte
				ReturnCode   int
				GasRemaining uint64
			}
			ContractAddress []byte
		}
		b, err := os.ReadFile(res)
		if err == nil {
			err = json.Unmarshal(b, &got)
		}
		if err != nil {
			c.Failf("program: outcome", "%s: %v", q.Kind, err)
			return false
		}
		bad := len(got.Output.ReturnData) != len(want.Data) || got.Output.ReturnCode != int(want.Code) || !bytes.Equal(got.ContractAddress, want.Addr)
		for i := range want.Data {
			bad = bad || !bytes.Equal(want.Data[i], got.Output.ReturnData[i])
		}
		if bad {
			c.Failf("program: answer", "%s %s%x: the program answers %d %x, the continuous world %d %x", q.Kind, q.Fn, q.Args, got.Output.ReturnCode, got.Output.ReturnData, want.Code, want.Data)
			return false
		}
		return true
	}
	gas := uint64(50000000)
	alice, bob := user(0), user(1)
	at := worldmock.GenerateMockAddress(alice, 0)
	at2 := worldmock.GenerateMockAddress(bob, 0)
	n := func(i int64) []byte { return big.NewInt(i).Bytes() }
	for _, q := range []*request{
		{Kind: "account", World: "one", To: alice, Value: "42"},
		{Kind: "account", World: "two", To: alice, Value: "43"},
		{Kind: "account", World: "one", To: bob, Value: "44"},
		{Kind: "deploy", World: "one", From: alice, Code: counter, Meta: []byte{5, 2}, Gas: gas},
		{Kind: "deploy", World: "one", From: bob, Code: erc20, Meta: []byte{5, 2}, Gas: gas, Args: [][]byte{n(100)}},
		{Kind: "run", World: "one", From: alice, To: at, Fn: "increment", Gas: gas},
		{Kind: "query", World: "one", From: alice, To: at, Fn: "increment", Gas: gas},
		{Kind: "run", World: "one", From: alice, To: at, Fn: "increment", Gas: 100},
		{Kind: "query", World: "one", From: alice, To: at, Fn: "get", Gas: gas},
		{Kind: "run", World: "one", From: bob, To: at2, Fn: "transferToken", Gas: gas, Args: [][]byte{alice, n(30)}},
		{Kind: "run", World: "one", From: bob, To: at2, Fn: "transferToken", Gas: gas, Args: [][]byte{alice, n(300)}},
		{Kind: "query", World: "one", From: bob, To: at2, Fn: "balanceOf", Gas: gas, Args: [][]byte{alice}},
		{Kind: "query", World: "one", From: bob, To: at2, Fn: "balanceOf", Gas: gas, Args: [][]byte{bob}},
		{Kind: "query", World: "two", From: bob, To: at2, Fn: "balanceOf", Gas: gas, Args: [][]byte{bob}},
		{Kind: "upgrade", World: "one", From: alice, To: at, Code: erc20, Meta: []byte{5, 2}, Gas: gas, Args: [][]byte{n(50)}},
		{Kind: "query", World: "one", From: bob, To: at, Fn: "balanceOf", Gas: gas, Args: [][]byte{alice}},
		{Kind: "query", World: "one", From: bob, To: at, Fn: "totalSupply", Gas: gas},
		{Kind: "query", World: "one", From: bob, To: at, Fn: "increment", Gas: gas},
	} {
		if !do(q) {
			return
		}
	}
	c.Distinct("program")
}

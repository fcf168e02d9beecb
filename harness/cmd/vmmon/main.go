// vmmon decides the properties of contract execution.
package main

import (
	"sort"

	"verif/harness/run"
	"verif/harness/uni"

	logger "github.com/ElrondNetwork/elrond-go-logger"
)

// flush adds a universe's statistics to the case.
func flush(c *run.Case, u *uni.U) {
	var ks []string
	for k := range u.Stats {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		c.Count(k, u.Stats[k])
	}
}

// history plays some transactions in one universe.
func history(c *run.Case, o uni.Options, txs int) {
	u := uni.New(c, o)
	defer flush(c, u)
	for i := 0; i < txs; i++ {
		_, ok := u.Do(u.RandTx())
		c.Count("transactions", 1)
		c.Distinct(u.Shape(), ok)
		if u.Dead() {
			return
		}
	}
}

// uniProp is a property decided by comparing random histories with the model.
type uniProp struct {
	id   string
	rule string
	more uni.Weights // added to the default weights
	o    uni.Options
	txs  int
	need map[string]int64
}

var uniRule = "case i builds a world (contracts, accounts, tokens, storage, gas schedule) and plays random transactions whose contracts perform random host calls and nested calls; every host call result, gas counter, guest memory change and the whole output are compared with a reference model; distinct = (nesting shape of operations, outcome). Emphasis: "

func (p uniProp) prop() *run.Prop {
	w := uni.DefaultWeights()
	for k, v := range p.more {
		w[k] += v
	}
	o := p.o
	o.W, o.Filter = w, uni.Only(p.id)
	if o.Tight == 0 {
		o.Tight = 15
	}
	if p.txs == 0 {
		p.txs = 4
	}
	need := map[string]int64{"successful transactions": 4000, "failed transactions": 1500, "nested successes": 5000}
	for k, v := range p.need {
		need[k] = v
	}
	return &run.Prop{ID: p.id, Quick: 8000, Thorough: 400000, Rule: uniRule + p.rule, Need: need, Fixed: fixed[p.id],
		Assumptions: []string{"the monitoring engine stands in for the prebuilt WASM engine library", "the blockchain hook is the harness's in-memory chain with the protocol's built-in functions"},
		Case:        func(c *run.Case) { history(c, o, p.txs) }}
}

// fixed holds scripted cases per property.
var fixed = map[string][]run.Fixed{}

var uniProps = []uniProp{
	{id: "P01", rule: "gas limits of nested calls and transfers, failing and succeeding nested calls", more: uni.Weights{"exec": 14, "xfer": 6, "burn": 5}, o: uni.Options{Tight: 25}, need: map[string]int64{"gas forwarded": 500}},
	{id: "P02", rule: "every kind of host call under random prices, tight gas", more: uni.Weights{"burn": 8, "big": 6, "storage": 6}, o: uni.Options{Tight: 30}, need: map[string]int64{"failed: out of gas": 400}},
	{id: "P03", rule: "value transfers and nested calls with value", more: uni.Weights{"xfer": 16, "exec": 6, "env": 4}, need: map[string]int64{"transfers": 3000, "refused overdrafts": 50}},
	{id: "P04", rule: "token transfers with and without follow-up calls", more: uni.Weights{"esdt": 22, "tokens": 10}, need: map[string]int64{"token transfers done": 2000, "token follow-ups failed": 50, "token transfers by calls": 800, "protocol functions called": 2000}},
	{id: "P05", rule: "every cause of failure", more: uni.Weights{"end": 4, "bad": 4}, o: uni.Options{Tight: 30}, need: map[string]int64{"failed: user error": 100, "failed: out of gas": 300, "failed: execution failed": 1000}},
	{id: "P06", rule: "deep nests with failures at all levels", more: uni.Weights{"exec": 24, "end": 3, "storage": 6, "xfer": 4, "log": 4}, o: uni.Options{MaxDepth: 6}, need: map[string]int64{"nested failures": 1500}},
	{id: "P07", rule: "storage operations", more: uni.Weights{"storage": 40, "lock": 6}, need: map[string]int64{"writes": 6000}},
	{id: "P08", rule: "writes aimed at protected and neighbouring keys", more: uni.Weights{"storage": 30, "lock": 20}, need: map[string]int64{"refused protected writes": 300, "writes": 3000}},
	{id: "P09", rule: "read-only calls and everything inside them", more: uni.Weights{"exec": 14, "storage": 6, "log": 6, "xfer": 4, "esdt": 4, "readonly": 20}, need: map[string]int64{"read-only calls": 2000, "refused read-only writes": 500, "refused read-only transfers": 100}},
	{id: "P14", rule: "deployments and upgrades by users and by contracts, including creators called back by the code they deploy, refused, failing and repeated ones", more: uni.Weights{"create": 24, "upgrade": 14, "exec": 8, "env": 4}, o: uni.Options{MaxDepth: 5}, txs: 6, need: map[string]int64{"contracts created by contracts": 6000, "creations failed": 2000, "upgrades by contracts": 600, "refused upgrades": 1000, "user deployments": 800, "user upgrades": 400, "calls compared at the start": 4000}},
	{id: "P15", rule: "asynchronous calls in the shard and across shards, their callbacks and answers, nested in each other and in synchronous calls", more: uni.Weights{"async": 24, "upgrade": 4, "exec": 10, "xfer": 4}, o: uni.Options{MaxDepth: 6}, txs: 5, need: map[string]int64{"asynchronous calls done": 6000, "asynchronous calls failed": 2000, "asynchronous calls sent": 3000, "callbacks done": 6000, "callbacks failed": 1000, "answers": 500, "values sent back": 300, "asynchronous token transfers done": 800, "tokens sent to other shards by asynchronous calls": 800, "tokens sent back by the answer": 100, "callbacks with tokens done": 60, "calls compared at the start": 10000}},
	{id: "P16", rule: "big integer operations", more: uni.Weights{"big": 50, "args": 4}, need: map[string]int64{"frames": 10000}},
	{id: "P17", rule: "arguments and returned data", more: uni.Weights{"args": 24, "ret": 24, "small": 6}, need: map[string]int64{"frames": 10000}},
	{id: "P18", rule: "environment queries", more: uni.Weights{"env": 40, "tokens": 10}, need: map[string]int64{"frames": 10000}},
	{id: "P26", rule: "log entries and outgoing transfers", more: uni.Weights{"log": 20, "xfer": 12, "esdt": 10}, need: map[string]int64{"logs": 4000, "transfers": 3000}},
	{id: "P28", rule: "same-context and delegated execution", more: uni.Weights{"exec": 10, "samectx": 20, "storage": 8, "big": 4}, need: map[string]int64{"nested:executeOnSameContext": 1500, "nested:delegateExecution": 500}},
}

func main() {
	logger.SetLogLevel("*:NONE")
	props := []*run.Prop{
		{ID: "ALL", Quick: 2000, Thorough: 100000, Rule: "everything", Case: func(c *run.Case) { history(c, uni.Options{Tight: 20}, 4) }},
	}
	for _, p := range uniProps {
		props = append(props, p.prop())
	}
	run.Main(props)
}

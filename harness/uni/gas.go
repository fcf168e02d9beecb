// Package uni is the universe: a small world of contracts whose bodies are
// played by the monitor. While a contract "runs", the monitor draws random
// operations, performs them through the VM's real host functions, and compares
// every observation with a reference model.
package uni

import (
	"math/rand"
	"sort"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
)

// Gas is a gas schedule.
type Gas map[string]map[string]uint64

// Copy makes a schedule for the VM.
func (g Gas) Copy() map[string]map[string]uint64 {
	m := map[string]map[string]uint64{}
	for s, t := range g {
		m[s] = map[string]uint64{}
		for k, v := range t {
			m[s][k] = v
		}
	}
	return m
}

func names() map[string][]string {
	m := map[string][]string{}
	for s, t := range config.MakeGasMapForTests() {
		for k := range t {
			m[s] = append(m[s], k)
		}
		sort.Strings(m[s])
	}
	return m
}

// RandGas makes a schedule in which every price is different from the others
// of its section, so that a mixed-up price is always visible.
func RandGas(r *rand.Rand) Gas {
	g := Gas{}
	all := names()
	var secs []string
	for s := range all {
		secs = append(secs, s)
	}
	sort.Strings(secs)
	for _, s := range secs {
		g[s] = map[string]uint64{}
		p := r.Perm(len(all[s]) * 3)
		for i, k := range all[s] {
			switch s {
			case "BaseOperationCost":
				g[s][k] = uint64(1 + p[i])
			case "WASMOpcodeCost":
				g[s][k] = uint64(1 + p[i])
			default:
				g[s][k] = uint64(50 + p[i])
			}
		}
	}
	g["BaseOperationCost"]["GetCode"] = uint64(60 + r.Intn(400))
	g["WASMOpcodeCost"]["LocalsUnmetered"] = uint64(1 + r.Intn(200))
	g["ElrondAPICost"]["AsyncCallbackGasLock"] = uint64(100 + r.Intn(300)*r.Intn(2000))
	return g
}

func (g Gas) api(k string) uint64   { return g.must("ElrondAPICost", k) }
func (g Gas) base(k string) uint64  { return g.must("BaseOperationCost", k) }
func (g Gas) big(k string) uint64   { return g.must("BigIntAPICost", k) }
func (g Gas) crypt(k string) uint64 { return g.must("CryptoAPICost", k) }
func (g Gas) must(s, k string) uint64 {
	v, ok := g[s][k]
	if !ok {
		panic("no price " + s + "." + k)
	}
	return v
}
func (g Gas) copyB(n int) uint64 { return g.base("DataCopyPerByte") * uint64(n) }
func (g Gas) persB(n int) uint64 { return g.base("PersistPerByte") * uint64(n) }

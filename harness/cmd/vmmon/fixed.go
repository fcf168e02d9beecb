package main

import (
	"verif/harness/chain"
	"verif/harness/kit"
	"verif/harness/run"
)

// creatorPrice deploys a contract from a contract: the creator must pay for
// the preparation of its own code as well as for the new code.
func creatorPrice(c *run.Case) {
	w := kit.New()
	a := w.Contract(1, 1000, "make", "nothing")
	code := kit.Code("born", "init", "f1")
	var used uint64
	w.On("c1", "make", func(f *kit.F) {
		out := f.Alloc(32)
		r := f.Call("createContract", 500000, f.Put(kit.Val32(0)), f.Put(code), f.Put([]byte{5, 0}), int64(len(code)), out, 0, 0, 0)
		kit.Must(r == 0, "createContract failed")
		used = f.Used()
	})
	w.On("c1", "nothing", func(f *kit.F) {})
	gas := uint64(5000000)
	o := w.Call(chain.User(1), a, "nothing", gas, 0)
	kit.Ok(o)
	own := gas - o.GasRemaining // the price of preparing the creator's code
	o = w.Call(chain.User(1), a, "make", gas, 0)
	kit.Ok(o)
	c.Tracef("preparation %d, used while running %d, remaining %d of %d", own, used, o.GasRemaining, gas)
	if o.GasRemaining+used+own != gas {
		c.Failf("price of the creator's code lost", "createContract replaces the price of preparing the creator's code by that of the new code: %d remain of %d after %d for the preparation and %d while running", o.GasRemaining, gas, own, used)
	}
}

func init() {
	fixed["P02"] = append(fixed["P02"], run.Fixed{Name: "creator pays for its own code", Fn: creatorPrice})
}

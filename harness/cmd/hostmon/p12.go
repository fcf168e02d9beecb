package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math/rand"
	"os"
	osexec "os/exec"
	"sort"
	"strconv"

	"verif/harness/chain"
	"verif/harness/run"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

// stateText is a chain's state.
func stateText(ch *chain.Chain) string {
	var ks []string
	for k := range ch.Accts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	h := sha256.New()
	for _, k := range ks {
		a := ch.Accts[k]
		fmt.Fprintf(h, "%x %v %d %x %x %x\n", k, a.Balance, a.Nonce, a.Code, a.Meta, a.Owner)
		var ss []string
		for s := range a.Storage {
			ss = append(ss, s)
		}
		sort.Strings(ss)
		for _, s := range ss {
			fmt.Fprintf(h, "  %x=%x\n", s, a.Storage[s])
		}
	}
	return fmt.Sprintf("%x", h.Sum(nil))
}

func result(out *vmcommon.VMOutput, err error, ch *chain.Chain) string {
	t := fmt.Sprintf("error=%v state=%s\n", err, stateText(ch))
	if out != nil {
		t += chain.Canon(out)
	}
	return t
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 80
	if lo < 0 {
		lo = 0
	}
	cutS := func(s string) string {
		hi := i + 120
		if hi > len(s) {
			hi = len(s)
		}
		if lo > len(s) {
			return ""
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("...%q\n  ...%q", cutS(a), cutS(b))
}

// runHistory plays a history in several ways. Returns a digest of all results.
func runHistory(c *run.Case, seed int64, alone bool) []byte {
	r := rand.New(rand.NewSource(seed))
	s := newStage(r)
	dig := sha256.New()
	long := newVM(s.ch)
	txs := 4
	for i := 0; i < txs; i++ {
		t := s.tx(r)
		other := s.tx(r)
		base := s.ch.Clone()
		out, err, p := s.play(long, t)
		s.ch.DropSnapshots()
		first := result(out, err, s.ch)
		fmt.Fprintf(dig, "%d %s\n", i, first)
		if alone {
			if err == nil && out != nil && out.ReturnCode == vmcommon.Ok {
				s.ch.Apply(out)
			} else {
				s.ch.SetState(base)
			}
			continue
		}
		c.Count("transactions", 1)
		c.Count("frames", int64(p.frames))
		if out != nil && out.ReturnCode == vmcommon.Ok {
			c.Count("successful transactions", 1)
		} else {
			c.Count("failed transactions", 1)
		}
		c.Distinct(string(p.shape), describe(t), out != nil && out.ReturnCode == vmcommon.Ok)
		check := func(how string, out *vmcommon.VMOutput, err error, ch *chain.Chain) bool {
			got := result(out, err, ch)
			c.Count("repetitions", 1)
			if got != first {
				c.Failf("differs: "+how, "transaction %d (%s, seed %d): the result differs %s:\n  %s", i, describe(t), t.seed, how, firstDiff(first, got))
				return false
			}
			return true
		}
		// a new VM and nothing compiled yet
		ch := base.Twin(config.MakeGasMapForTests())
		vm := newVM(ch)
		o, e, _ := s.play(vm, t)
		if !check("on a new VM without compiled code", o, e, ch) {
			return nil
		}
		// the same again, compiled code in the cache
		ch.SetState(base)
		o, e, _ = s.play(vm, t)
		if !check("when played again with compiled code", o, e, ch) {
			return nil
		}
		// after another history
		ch.SetState(base)
		s.play(vm, other)
		ch.SetState(base)
		o, e, _ = s.play(vm, t)
		if !check("after another transaction on the VM", o, e, ch) {
			return nil
		}
		// the VM with the long history, again
		after := s.ch.Clone()
		s.ch.SetState(base)
		o, e, _ = s.play(long, t)
		s.ch.DropSnapshots()
		if !check("on the VM with the whole history, again", o, e, s.ch) {
			return nil
		}
		s.ch.SetState(after)
		if err == nil && out != nil && out.ReturnCode == vmcommon.Ok {
			s.ch.Apply(out)
		} else {
			s.ch.SetState(base)
		}
	}
	return dig.Sum(nil)
}

func determinism(c *run.Case) {
	seed := c.R.Int63()
	d := runHistory(c, seed, false)
	if d == nil || c.Index%16 != 0 {
		return
	}
	cmd := osexec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "P12_SEED="+strconv.FormatInt(seed, 10))
	b, err := cmd.Output()
	if err != nil {
		c.Failf("other process failed", "the other process failed: %v", err)
		return
	}
	c.Count("other processes", 1)
	if !bytes.Equal(bytes.TrimSpace(b), []byte(fmt.Sprintf("%x", d))) {
		c.Failf("differs: in another process", "history %d gives other results in another process", seed)
	}
}

// child plays a history in another process.
func child() bool {
	v := os.Getenv("P12_SEED")
	if v == "" {
		return false
	}
	seed, _ := strconv.ParseInt(v, 10, 64)
	fmt.Printf("%x\n", runHistory(nil, seed, true))
	return true
}

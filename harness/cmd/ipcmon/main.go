// ipcmon decides the properties of the inter-process part: equal results
// across the process boundary (P21) and the message protocol (P22).
package main

import (
	"math/rand"
	"os"
	"reflect"
	"time"

	"verif/harness/run"

	logger "github.com/ElrondNetwork/elrond-go-logger"
)

func main() {
	logger.SetLogLevel("*:NONE")
	if m := os.Getenv("VERIF_IPC_CHILD"); m != "" && os.Getenv("VERIF_IPC_PARENT") != "" && isChild() {
		childMain(m)
		return
	}
	run.Main([]*run.Prop{
		{
			ID: "P21", Level: "runtime monitoring of the real node part, VM part and driver; differential execution",
			Rule:  "case i is one of: random values through every blockchain query, run request and response between a real NodePart and a real ArwenPart over pipes, compared with what was put in; random transactions of scripted contracts run in-process and through NodePart+ArwenPart on an equal chain, outputs and the sequences of blockchain queries compared; the same through ArwenDriver and a child process. distinct = (kind of case, marshalizer, queries or outcomes seen)",
			Quick: 5000, Thorough: 200000, Case: caseP21, Fixed: fixedP21(), Workers: 8, Timeout: 200 * time.Second,
			Need:        map[string]int64{"queries compared": 5000, "query kinds seen": 1000, "transactions through parts": 500, "transactions through the driver": 60, "blockchain events compared": 5000, "nonzero error texts": 100},
			Assumptions: []string{"absent and empty byte strings are the same value", "texts of errors are compared, not their identity"},
		},
		{
			ID: "P20", Level: "runtime monitoring under the race detector: differential executions and an atomic-register check of recorded histories",
			Rule: "case i is one of: a history of schedule changes (complete, incomplete, zero prices) and executions on one VM, each execution compared with a VM created with the schedule in force, the price of every instruction in the engine compared with the schedule by name; goroutines changing the schedule while executions measure host call and instruction prices, the recorded intervals checked to be a history of an atomic register; the same through ArwenDriver with VM processes ended at random. distinct = (kind of case, history of operations)",
			Init: initP20, Quick: 3500, Thorough: 200000, Case: caseP20, Workers: 8, Timeout: 200 * time.Second,
			Need:        map[string]int64{"schedule changes": 2000, "refused schedules": 1000, "executions compared": 3000, "concurrent executions": 3000, "changes begun inside an execution": 300, "executions through the driver": 200, "VM processes ended": 50, "instruction prices compared": 1000000},
			Assumptions: []string{"the node clears its compiled code when the schedule changes and does not use warm instances", "prices of instructions are those the engine holds when an execution starts; the engine itself is a stand-in"},
		},
		{
			ID: "P22", Level: "runtime monitoring of the real messengers, parts and driver under transport faults and hostile peers",
			Rule:  "case i is one of: random messages through messengers over a transport that splits and delays; the same with one transport fault (truncation, header length or kind changed, dropped, repeated or swapped frames, unreadable or mismatched body, silence); a hostile VM process against NodePart; a hostile node against ArwenPart; a driver whose child process misbehaves and is followed by a good one; a driver used by several goroutines. Oracle: delivered messages are exactly a prefix of what was sent, then an error, in bounded time and memory, no panic, no answer of another kind or to another question. distinct = (kind of case, fault, position, outcome)",
			Quick: 2500, Thorough: 40000, Case: caseP22, Workers: 8, Timeout: 200 * time.Second,
			Need: map[string]int64{"messages delivered": 3000, "driver without a program": 10, "concurrent driver operations": 500, "messages over 64 KB": 100, "faults ended by an error": 200, "hostile VM dialogues": 150, "hostile node dialogues": 150, "driver faults": 60, "driver recoveries": 60, "slow peers": 20},
		},
	})
}

// ---- random values

type filler struct {
	r    *rand.Rand
	size int
}

func (f *filler) bytes() []byte {
	n := f.r.Intn(f.size + 1)
	switch f.r.Intn(8) {
	case 0:
		n = 0
	case 1:
		n = 32
	}
	b := make([]byte, n)
	f.r.Read(b)
	return b
}

func (f *filler) u64() uint64 {
	switch f.r.Intn(5) {
	case 0:
		return 0
	case 1:
		return ^uint64(0) - uint64(f.r.Intn(3))
	case 2:
		return 1<<63 - 1 + uint64(f.r.Intn(3))
	case 3:
		return 1<<53 + uint64(f.r.Intn(3))
	}
	return f.r.Uint64() >> uint(f.r.Intn(64))
}

// same compares values; absent and empty slices or maps are equal.
func same(a, b interface{}) bool { return sameV(reflect.ValueOf(a), reflect.ValueOf(b)) }

func sameV(a, b reflect.Value) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		if a.Type().String() == "*big.Int" {
			return a.MethodByName("String").Call(nil)[0].String() == b.MethodByName("String").Call(nil)[0].String()
		}
		return sameV(a.Elem(), b.Elem())
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !sameV(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			v := b.MapIndex(k)
			if !v.IsValid() || !sameV(a.MapIndex(k), v) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !sameV(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return a.Uint() == b.Uint()
	}
	return false
}

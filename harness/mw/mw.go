// Package mw gives Go access to the monitoring side of the miniature WASM
// engine: hooks around host calls and "puppet" contracts, whose bodies are Go
// functions which call the VM's real host functions on real guest memory.
package mw

/*
#cgo LDFLAGS: -lwasmer_linux_amd64
#include <stdint.h>
#include <stdlib.h>
typedef struct inst inst;
typedef void (*hook_fn)(int phase, inst *in, const char *name, int64_t *args, uint32_t nargs, int64_t ret);
typedef int (*puppet_fn)(inst *in, const char *id, const char *func);
void mw_set_hook(hook_fn h);
void mw_set_puppet(puppet_fn p);
int64_t mw_live_instances(void);
int64_t mw_live_memories(void);
uint64_t mw_total_instances(void);
uint64_t mw_total_calls(void);
uint64_t mw_total_import_calls(void);
uint64_t mw_inst_id(inst *in);
uint64_t mw_points_used(inst *in);
uint64_t mw_points_limit(inst *in);
uint8_t *mw_mem(inst *in, uint32_t *len);
int mw_mem_grow(inst *in, uint32_t pages);
uint32_t mw_opcode_cost(uint32_t i);
int mw_burn(inst *in, uint64_t cost);
int mw_import(inst *in, const char *name, int64_t *args, uint32_t nargs, int64_t *ret);
int mw_import_sig(uint32_t i, char *name, uint32_t cap, uint32_t *np, uint32_t *pmask, int *ret);

extern int goPuppet(void *in, char *id, char *func);
extern void goHook(int phase, void *in, char *name, int64_t *args, uint32_t nargs, int64_t ret);
static void install_puppet(int on) { mw_set_puppet(on ? (puppet_fn)goPuppet : 0); }
static void install_hook(int on) { mw_set_hook(on ? (hook_fn)goHook : 0); }
*/
import "C"

import (
	"sync"
	"unsafe"
)

// Frame is one running function of a puppet contract.
type Frame struct {
	in   unsafe.Pointer
	ID   string // content of the module's mw-puppet section
	Func string // exported function being run
	bump uint32
	User interface{}
	// Mon, if set, sees every host call of the frame
	Mon func(f *Frame, name string, args []int64, ret int64, before, after uint64, trapped bool)
}

type trapSignal struct{}

var behaviour func(f *Frame)
var hookFn func(phase int, inst uint64, used uint64, limit uint64, name string, args []int64, ret int64)
var namesMut sync.Mutex
var names = map[string]*C.char{}

// SetBehaviour installs the function which plays all puppet contracts.
func SetBehaviour(b func(f *Frame)) {
	behaviour = b
	if b == nil {
		C.install_puppet(0)
	} else {
		C.install_puppet(1)
	}
}

// SetHook installs an observer of all host calls of all instances.
func SetHook(h func(phase int, inst uint64, used uint64, limit uint64, name string, args []int64, ret int64)) {
	hookFn = h
	if h == nil {
		C.install_hook(0)
	} else {
		C.install_hook(1)
	}
}

//export goHook
func goHook(phase C.int, in unsafe.Pointer, name *C.char, args *C.int64_t, nargs C.uint32_t, ret C.int64_t) {
	h := hookFn
	if h == nil {
		return
	}
	a := make([]int64, int(nargs))
	if nargs > 0 {
		src := (*[64]int64)(unsafe.Pointer(args))
		copy(a, src[:nargs])
	}
	p := (*C.inst)(in)
	h(int(phase), uint64(C.mw_inst_id(p)), uint64(C.mw_points_used(p)), uint64(C.mw_points_limit(p)), C.GoString(name), a, int64(ret))
}

//export goPuppet
func goPuppet(in unsafe.Pointer, id *C.char, fn *C.char) (rc C.int) {
	f := &Frame{in: in, ID: C.GoString(id), Func: C.GoString(fn), bump: 64}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(trapSignal); ok {
				rc = 1
				return
			}
			panic(r)
		}
	}()
	behaviour(f)
	return 0
}

func cname(n string) *C.char {
	namesMut.Lock()
	defer namesMut.Unlock()
	p, ok := names[n]
	if !ok {
		p = C.CString(n)
		names[n] = p
	}
	return p
}

// Try calls a host function; trapped tells that execution of the contract must
// stop (breakpoint set by the host, or out of gas).
func (f *Frame) Try(name string, args ...int64) (ret int64, trapped bool) {
	var buf [16]C.int64_t
	for i, a := range args {
		buf[i] = C.int64_t(a)
	}
	var r C.int64_t
	before := f.Used()
	rc := C.mw_import((*C.inst)(f.in), cname(name), &buf[0], C.uint32_t(len(args)), &r)
	if rc == 2 {
		panic("mw: no such host function or wrong arity: " + name)
	}
	if f.Mon != nil {
		f.Mon(f, name, args, int64(r), before, f.Used(), rc == 1)
	}
	return int64(r), rc == 1
}

// Call calls a host function and ends the puppet if it trapped.
func (f *Frame) Call(name string, args ...int64) int64 {
	r, t := f.Try(name, args...)
	if t {
		panic(trapSignal{})
	}
	return r
}

// I is Call with the result read as an i32.
func (f *Frame) I(name string, args ...int64) int32 { return int32(f.Call(name, args...)) }

// Trap ends the puppet like an unreachable instruction.
func (f *Frame) Trap() { panic(trapSignal{}) }

// Burn executes a basic block with the given cost.
func (f *Frame) Burn(cost uint64) {
	if C.mw_burn((*C.inst)(f.in), C.uint64_t(cost)) != 0 {
		panic(trapSignal{})
	}
}

// Used is the number of points used by the instance of this frame.
func (f *Frame) Used() uint64 { return uint64(C.mw_points_used((*C.inst)(f.in))) }

// Limit is the points limit of the instance of this frame.
func (f *Frame) Limit() uint64 { return uint64(C.mw_points_limit((*C.inst)(f.in))) }

// InstID identifies the engine instance.
func (f *Frame) InstID() uint64 { return uint64(C.mw_inst_id((*C.inst)(f.in))) }

// Mem is the guest memory; invalid after Grow.
func (f *Frame) Mem() []byte {
	var n C.uint32_t
	p := C.mw_mem((*C.inst)(f.in), &n)
	if p == nil || n == 0 {
		return nil
	}
	return (*[1 << 30]byte)(unsafe.Pointer(p))[:int(n):int(n)]
}

// Grow grows the guest memory (which moves).
func (f *Frame) Grow(pages int) bool {
	return C.mw_mem_grow((*C.inst)(f.in), C.uint32_t(pages)) == 0
}

// Alloc reserves guest memory; the puppet's memory is a simple bump area.
func (f *Frame) Alloc(n int) int64 {
	off := f.bump
	for int(off)+n+16 > len(f.Mem()) {
		if !f.Grow(1 + n/65536) {
			if len(f.Mem()) == 0 {
				f.Trap() // a module without memory
			}
			panic("mw: puppet memory exhausted")
		}
	}
	f.bump += uint32((n + 15) &^ 7)
	return int64(off)
}

// Reset frees everything allocated in the frame.
func (f *Frame) Reset() { f.bump = 64 }

// Mark and Release bracket temporary allocations.
func (f *Frame) Mark() uint32     { return f.bump }
func (f *Frame) Release(m uint32) { f.bump = m }

// Put allocates and fills guest memory.
func (f *Frame) Put(b []byte) int64 {
	off := f.Alloc(len(b))
	copy(f.Mem()[off:], b)
	return off
}

// PutArgs lays out an argument list; returns count, lengths offset, data offset.
func (f *Frame) PutArgs(args [][]byte) (n, lens, data int64) {
	l := make([]byte, 4*len(args))
	var d []byte
	for i, a := range args {
		l[4*i] = byte(len(a))
		l[4*i+1] = byte(len(a) >> 8)
		l[4*i+2] = byte(len(a) >> 16)
		l[4*i+3] = byte(len(a) >> 24)
		d = append(d, a...)
	}
	return int64(len(args)), f.Put(l), f.Put(d)
}

// Get copies guest memory.
func (f *Frame) Get(off int64, n int) []byte {
	return append([]byte{}, f.Mem()[off:off+int64(n)]...)
}

// LiveInstances, LiveMemories: engine resources not yet released.
func LiveInstances() int64     { return int64(C.mw_live_instances()) }
func LiveMemories() int64      { return int64(C.mw_live_memories()) }
func TotalInstances() uint64   { return uint64(C.mw_total_instances()) }
func TotalCalls() uint64       { return uint64(C.mw_total_calls()) }
func TotalImportCalls() uint64 { return uint64(C.mw_total_import_calls()) }
func OpcodeCost(i int) uint32  { return uint32(C.mw_opcode_cost(C.uint32_t(i))) }

// Sig describes one host function.
type Sig struct {
	Name   string
	Params []byte // 'i' for i32, 'I' for i64
	Ret    byte   // 0, 'i', 'I'
}

// Imports lists all host functions registered with the engine.
func Imports() []Sig {
	var out []Sig
	buf := (*C.char)(C.malloc(256))
	defer C.free(unsafe.Pointer(buf))
	for i := 0; ; i++ {
		var np, mask C.uint32_t
		var ret C.int
		if C.mw_import_sig(C.uint32_t(i), buf, 256, &np, &mask, &ret) == 0 {
			return out
		}
		s := Sig{Name: C.GoString(buf)}
		for k := 0; k < int(np); k++ {
			if mask&(1<<uint(k)) != 0 {
				s.Params = append(s.Params, 'I')
			} else {
				s.Params = append(s.Params, 'i')
			}
		}
		if ret == 1 {
			s.Ret = 'i'
		} else if ret == 2 {
			s.Ret = 'I'
		}
		out = append(out, s)
	}
}

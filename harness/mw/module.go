package mw

// Module builds small WASM modules.
type Module struct {
	ID       string   // puppet id; empty = not a puppet
	Exports  []string // exported functions () -> ()
	Imports  []string // imported host functions (signatures looked up; "!name" = wrong signature)
	MemMin   uint32
	MemMax   uint32 // 0 = no maximum
	NoMemory bool
	Pad      int // extra bytes in a custom section (code size)
	PadByte  byte
	// Extra exports with an explicit type index 1: (i32)->(), 2: ()->(i32), 3: (i64)->(i64)
	Typed map[string]int
	// Bodies overrides the code of an exported function
	Bodies map[string][]byte
	// Order of typed exports
	TypedOrder []string
}

func leb(v uint64) []byte {
	var b []byte
	for {
		c := byte(v & 0x7f)
		v >>= 7
		if v != 0 {
			b = append(b, c|0x80)
		} else {
			return append(b, c)
		}
	}
}
func vec(items [][]byte) []byte {
	b := leb(uint64(len(items)))
	for _, i := range items {
		b = append(b, i...)
	}
	return b
}
func name(s string) []byte { return append(leb(uint64(len(s))), s...) }
func section(id byte, body []byte) []byte {
	return append(append([]byte{id}, leb(uint64(len(body)))...), body...)
}
func custom(n string, body []byte) []byte { return section(0, append(name(n), body...)) }

// Bytes encodes the module.
func (m *Module) Bytes() []byte {
	out := []byte{0, 'a', 's', 'm', 1, 0, 0, 0}
	types := [][]byte{{0x60, 0, 0}, {0x60, 1, 0x7f, 0}, {0x60, 0, 1, 0x7f}, {0x60, 1, 0x7e, 1, 0x7e}}
	var imps [][]byte
	if len(m.Imports) > 0 {
		sigs := map[string]Sig{}
		for _, s := range Imports() {
			sigs[s.Name] = s
		}
		for _, n := range m.Imports {
			wrong := len(n) > 0 && n[0] == '!' // a known function with a parameter too many
			if wrong {
				n = n[1:]
			}
			s := sigs[n]
			if wrong {
				s.Params = append(append([]byte(nil), s.Params...), 'i')
			}
			t := []byte{0x60}
			t = append(t, leb(uint64(len(s.Params)))...)
			for _, p := range s.Params {
				if p == 'i' {
					t = append(t, 0x7f)
				} else {
					t = append(t, 0x7e)
				}
			}
			switch s.Ret {
			case 0:
				t = append(t, 0)
			case 'i':
				t = append(t, 1, 0x7f)
			default:
				t = append(t, 1, 0x7e)
			}
			types = append(types, t)
			imps = append(imps, append(append(append(name("env"), name(n)...), 0), leb(uint64(len(types)-1))...))
		}
	}
	var funcs, exps, codes [][]byte
	add := func(n string, ty int) {
		idx := uint64(len(imps) + len(funcs))
		funcs = append(funcs, leb(uint64(ty)))
		exps = append(exps, append(append(name(n), 0), leb(idx)...))
		body, ok := m.Bodies[n]
		if !ok {
			body = []byte{0}
			switch ty {
			case 2:
				body = append(body, 0x41, 0)
			case 3:
				body = append(body, 0x42, 0)
			}
			body = append(body, 0x0b)
		}
		codes = append(codes, append(leb(uint64(len(body))), body...))
	}
	for _, e := range m.Exports {
		add(e, 0)
	}
	for _, e := range m.TypedOrder {
		add(e, m.Typed[e])
	}
	out = append(out, section(1, vec(types))...)
	if len(imps) > 0 {
		out = append(out, section(2, vec(imps))...)
	}
	if len(funcs) > 0 {
		out = append(out, section(3, vec(funcs))...)
	}
	if !m.NoMemory {
		min := m.MemMin
		if min == 0 {
			min = 1
		}
		mem := append([]byte{1, 0}, leb(uint64(min))...)
		if m.MemMax > 0 {
			mem = append(append([]byte{1, 1}, leb(uint64(min))...), leb(uint64(m.MemMax))...)
		}
		out = append(out, section(5, mem)...)
		exps = append(exps, append(append(name("memory"), 2), 0))
	}
	out = append(out, section(7, vec(exps))...)
	if len(codes) > 0 {
		out = append(out, section(10, vec(codes))...)
	}
	if m.ID != "" {
		out = append(out, custom("mw-puppet", []byte(m.ID))...)
	}
	if m.Pad > 0 {
		pad := make([]byte, m.Pad)
		for i := range pad {
			pad[i] = m.PadByte
		}
		out = append(out, custom("pad", pad)...)
	}
	return out
}

package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	fr "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/fileresolver"
	"golang.org/x/crypto/sha3"
)

// The language of values, as documented, written without looking for
// convenience: a rule per kind, first applicable wins.

// verdict of the model on an expression
type verdict int

const (
	valid verdict = iota
	invalid
	unjudged // accepted leniently today, nothing documented
)

var files = map[string][]byte{
	"a.bin":       {1, 2, 3},
	"empty":       {},
	"dir/x.wasm":  []byte("\x00asm-like content, with | and # inside"),
	"weird|name":  []byte("pipe"),
	"text.txt":    []byte("u8:5"),
	"keccak256:x": {0xff},
}

type resolver struct{}

func (resolver) ResolveAbsolutePath(v string) string { return v }
func (resolver) SetContext(string)                   {}
func (r resolver) Clone() fr.FileResolver            { return r }
func (resolver) ResolveFileValue(v string) ([]byte, error) {
	b, ok := files[v]
	if !ok {
		return nil, errors.New("no such file: " + v)
	}
	return append([]byte{}, b...), nil
}

func worse(a, b verdict) verdict {
	if a == unjudged || b == unjudged {
		return unjudged
	}
	if a == invalid || b == invalid {
		return invalid
	}
	return valid
}

func eval(s string) ([]byte, verdict) {
	if s == "" {
		return nil, valid
	}
	if strings.HasPrefix(s, "file:") {
		b, ok := files[s[5:]]
		if !ok {
			return nil, invalid
		}
		return b, valid
	}
	if strings.HasPrefix(s, "keccak256:") {
		b, v := eval(s[10:])
		h := sha3.NewLegacyKeccak256()
		h.Write(b)
		return h.Sum(nil), v
	}
	if i := strings.IndexByte(s, '|'); i >= 0 {
		// an operand may itself start with file: or keccak256:, but ends at the bar
		var out []byte
		res := valid
		for _, part := range strings.Split(s, "|") {
			b, v := eval(part)
			res = worse(res, v)
			out = append(out, b...)
		}
		return out, res
	}
	switch s {
	case "true":
		return []byte{1}, valid
	case "false":
		return nil, valid
	}
	for _, p := range []string{"str:", "``", "''"} {
		if strings.HasPrefix(s, p) {
			return []byte(s[len(p):]), valid
		}
	}
	if strings.HasPrefix(s, "address:") {
		return addr(s[8:], 0)
	}
	if strings.HasPrefix(s, "sc:") {
		return addr(s[3:], 8)
	}
	for _, w := range []struct {
		p string
		n int
	}{{"u64:", 8}, {"u32:", 4}, {"u16:", 2}, {"u8:", 1}} {
		if strings.HasPrefix(s, w.p) {
			return fixed(s[len(w.p):], w.n)
		}
	}
	for _, w := range []struct {
		p string
		n int
	}{{"i64:", 8}, {"i32:", 4}, {"i16:", 2}, {"i8:", 1}} {
		if strings.HasPrefix(s, w.p) {
			n := s[len(w.p):]
			if n != "" && (n[0] == '-' || n[0] == '+') {
				return signed(n, w.n)
			}
			return fixed(n, w.n)
		}
	}
	if strings.HasPrefix(s, "biguint:") {
		b, v := unsigned(s[8:])
		return prefixed(b), v
	}
	if strings.HasPrefix(s, "nested:") {
		b, v := eval(s[7:])
		return prefixed(b), v
	}
	if s[0] == '-' || s[0] == '+' {
		return signed(s, 0)
	}
	return unsigned(s)
}

func prefixed(b []byte) []byte {
	n := len(b)
	return append([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}, b...)
}

func addr(s string, zeros int) ([]byte, verdict) {
	out := make([]byte, 32)
	for i := zeros; i < 32; i++ {
		out[i] = '_'
	}
	name := s
	if i := strings.IndexByte(s, '#'); i >= 0 {
		name = s[:i]
		shard := s[i+1:]
		b, err := hex.DecodeString(shard)
		if err != nil || len(b) != 1 {
			return nil, invalid
		}
		copy(out[zeros:], name)
		out[31] = b[0]
		return out, valid
	}
	copy(out[zeros:], name)
	return out, valid
}

func fixed(s string, n int) ([]byte, verdict) {
	b, v := unsigned(s)
	if v != valid {
		return nil, v
	}
	if len(b) > n {
		return nil, invalid
	}
	return append(make([]byte, n-len(b)), b...), valid
}

// two's complement of v in n bytes, or in the fewest possible if n is 0
func twosComp(v *big.Int, n int) ([]byte, verdict) {
	if n == 0 {
		if v.Sign() == 0 {
			return nil, valid
		}
		for n = 1; ; n++ {
			if b, ok := twosComp(v, n); ok == valid {
				return b, valid
			}
		}
	}
	half := new(big.Int).Lsh(big.NewInt(1), uint(8*n-1))
	if v.Cmp(half) >= 0 || v.Cmp(new(big.Int).Neg(half)) < 0 {
		return nil, invalid
	}
	w := new(big.Int).Set(v)
	if w.Sign() < 0 {
		w.Add(w, new(big.Int).Lsh(big.NewInt(1), uint(8*n)))
	}
	b := w.Bytes()
	return append(make([]byte, n-len(b)), b...), valid
}

func signed(s string, n int) ([]byte, verdict) {
	b, v := unsigned(s[1:])
	if v != valid {
		return nil, v
	}
	num := new(big.Int).SetBytes(b)
	if s[0] == '-' {
		num.Neg(num)
	}
	return twosComp(num, n)
}

func unsigned(s string) ([]byte, verdict) {
	if len(s) >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') {
		h := s[2:]
		if len(h)%2 == 1 {
			h = "0" + h
		}
		b, err := hex.DecodeString(h)
		if err != nil {
			return nil, invalid
		}
		return b, valid
	}
	base := int64(10)
	if len(s) >= 2 && s[0] == '0' && (s[1] == 'b' || s[1] == 'B') {
		base = 2
		s = s[2:]
	}
	s = strings.NewReplacer("_", "", ",", "").Replace(s)
	if base == 10 && s != "" && (s[0] == '+' || s[0] == '-') {
		// a second sign, or a sign of an unsigned number
		b, v := unsigned(s[1:])
		if v == invalid || s[0] == '-' && len(bytes.Trim(b, "\x00")) > 0 {
			return nil, invalid
		}
		return nil, unjudged
	}
	out := new(big.Int)
	digits := 0
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c < '0' || int64(c-'0') >= base {
			return nil, invalid
		}
		out.Mul(out, big.NewInt(base))
		out.Add(out, big.NewInt(int64(c-'0')))
		digits++
	}
	if digits == 0 {
		return nil, invalid
	}
	return out.Bytes(), valid
}

// a value tree as it appears in JSON
type tree struct {
	kind byte // 's', 'l', 'm', 'b'
	s    string
	keys []string
	kids []*tree
	b    bool
}

func evalTree(t *tree) ([]byte, verdict) {
	switch t.kind {
	case 's':
		return eval(t.s)
	case 'l':
		var out []byte
		res := valid
		for _, k := range t.kids {
			b, v := evalTree(k)
			res = worse(res, v)
			out = append(out, b...)
		}
		return out, res
	case 'm':
		idx := make([]int, len(t.keys))
		for i := range idx {
			idx[i] = i
		}
		sort.SliceStable(idx, func(i, j int) bool { return t.keys[idx[i]] < t.keys[idx[j]] })
		var out []byte
		res := valid
		for _, i := range idx {
			b, v := evalTree(t.kids[i])
			res = worse(res, v)
			out = append(out, b...)
		}
		return out, res
	}
	return nil, invalid
}

// ---- generation

func pickS(r *rand.Rand, s ...string) string { return s[r.Intn(len(s))] }

func digits(r *rand.Rand, alphabet string, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteByte(alphabet[r.Intn(len(alphabet))])
	}
	return b.String()
}

func separate(r *rand.Rand, s string) string {
	if r.Intn(3) != 0 {
		return s
	}
	var b strings.Builder
	for i, c := range s {
		b.WriteRune(c)
		if i > 1 && r.Intn(3) == 0 {
			b.WriteString(pickS(r, "_", ","))
		}
	}
	return b.String()
}

var edges = []string{"0", "1", "127", "128", "129", "255", "256", "32767", "32768", "32769", "65535", "65536",
	"2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "9223372036854775809",
	"18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211455"}

func genUnsigned(r *rand.Rand) string {
	switch r.Intn(5) {
	case 0:
		return separate(r, pickS(r, edges...))
	case 1:
		return pickS(r, "0x", "0X") + digits(r, "0123456789abcdefABCDEF", r.Intn(18))
	case 2:
		return pickS(r, "0b", "0B") + separate(r, digits(r, "01", 1+r.Intn(70)))
	}
	return separate(r, digits(r, "0123456789", 1+r.Intn(24)))
}

func genText(r *rand.Rand, n int) string {
	return digits(r, "abcXYZ019 _-.,:;#+*()[]{}'`~!?/=é\t", n)
}

func genExpr(r *rand.Rand, depth int) string {
	k := r.Intn(17)
	if depth <= 0 && k >= 14 {
		k = r.Intn(14)
	}
	switch k {
	case 0:
		return ""
	case 1:
		return pickS(r, "true", "false")
	case 2, 3:
		return pickS(r, "str:", "``", "''") + genText(r, r.Intn(40))
	case 4:
		return pickS(r, "address:", "sc:") + genText(r, r.Intn(40))
	case 5:
		return pickS(r, "address:", "sc:") + digits(r, "abcde_", r.Intn(34)) + "#" + digits(r, "0123456789abcdefABCDEF", 2)
	case 6, 7:
		return pickS(r, "u64:", "u32:", "u16:", "u8:") + genUnsigned(r)
	case 8, 9:
		return pickS(r, "i64:", "i32:", "i16:", "i8:") + pickS(r, "-", "+", "", "-") + genUnsigned(r)
	case 10:
		return "biguint:" + genUnsigned(r)
	case 11:
		return genUnsigned(r)
	case 12:
		return pickS(r, "-", "+") + genUnsigned(r)
	case 13:
		keys := []string{"a.bin", "empty", "dir/x.wasm", "weird|name", "text.txt", "keccak256:x", "missing"}
		return "file:" + pickS(r, keys...)
	case 14:
		return "keccak256:" + genExpr(r, depth-1)
	case 15:
		if r.Intn(8) == 0 { // long enough for several bytes of length
			n := 240 + r.Intn(600)
			switch r.Intn(20) {
			case 0:
				n = 65500 + r.Intn(100)
			case 1, 2, 3:
				n = 250 + r.Intn(10)
			}
			return pickS(r, "nested:", "nested:", "biguint:") + "0x" + digits(r, "0123456789abcdef", 2*n)
		}
		return "nested:" + genExpr(r, depth-1)
	}
	n := 2 + r.Intn(3)
	var parts []string
	for i := 0; i < n; i++ {
		parts = append(parts, genExpr(r, depth-1))
	}
	return strings.Join(parts, "|")
}

func mutateText(r *rand.Rand, s string) string {
	b := []byte(s)
	alphabet := "0123456789abcfxXB_-+,|#:' `strunedkcIU\x00\xff"
	for n := 1 + r.Intn(2); n > 0; n-- {
		p := r.Intn(len(b) + 1)
		switch r.Intn(4) {
		case 0:
			if p < len(b) {
				b = append(b[:p:p], b[p+1:]...)
			}
		case 1:
			b = append(b[:p:p], append([]byte{alphabet[r.Intn(len(alphabet))]}, b[p:]...)...)
		case 2:
			if p < len(b) {
				b[p] = alphabet[r.Intn(len(alphabet))]
			}
		case 3:
			b = b[:p]
		}
	}
	return string(b)
}

func genTree(r *rand.Rand, depth int, expr func() string) *tree {
	k := r.Intn(6)
	if depth <= 0 || k < 3 {
		return &tree{kind: 's', s: expr()}
	}
	t := &tree{kind: 'l'}
	n := r.Intn(4)
	for i := 0; i < n; i++ {
		t.kids = append(t.kids, genTree(r, depth-1, expr))
	}
	if k == 5 {
		t.kind = 'm'
		seen := map[string]bool{}
		for i := range t.kids {
			key := ""
			for {
				key = digits(r, "abz019:_- ", r.Intn(5))
				if !seen[key] {
					break
				}
			}
			seen[key] = true
			_ = i
			t.keys = append(t.keys, key)
		}
	}
	return t
}

// text of a tree with arbitrary white space; strings are written raw
func (t *tree) text(r *rand.Rand) string {
	var b strings.Builder
	ws := func() {
		if r == nil {
			return
		}
		for r.Intn(4) == 0 {
			b.WriteByte(" \n\t\r"[r.Intn(4)])
		}
	}
	var rec func(t *tree)
	rec = func(t *tree) {
		ws()
		switch t.kind {
		case 's':
			fmt.Fprintf(&b, "\"%s\"", t.s)
		case 'b':
			fmt.Fprint(&b, t.b)
		case 'l', 'm':
			open, closing := "[", "]"
			if t.kind == 'm' {
				open, closing = "{", "}"
			}
			b.WriteString(open)
			for i, k := range t.kids {
				if i > 0 {
					b.WriteString(",")
				}
				if t.kind == 'm' {
					ws()
					fmt.Fprintf(&b, "\"%s\"", t.keys[i])
					ws()
					b.WriteString(":")
				}
				rec(k)
			}
			ws()
			b.WriteString(closing)
		}
		ws()
	}
	rec(t)
	return b.String()
}

func (t *tree) equal(u *tree) bool {
	if t.kind != u.kind || t.s != u.s || t.b != u.b || len(t.kids) != len(u.kids) || len(t.keys) != len(u.keys) {
		return false
	}
	for i := range t.keys {
		if t.keys[i] != u.keys[i] {
			return false
		}
	}
	for i := range t.kids {
		if !t.kids[i].equal(u.kids[i]) {
			return false
		}
	}
	return true
}

package main

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	ei "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/expression/interpreter"
	er "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/expression/reconstructor"
	oj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/orderedjson"
	"verif/harness/run"
)

var p23 = &run.Prop{
	ID:    "P23",
	Level: "monitored",
	Rule:  "values, their reconstruction, JSON text and scenario files against an independent reading of the language",
	Quick: 24000, Thorough: 2400000,
	Case: p23Case,
	Need: map[string]int64{
		"expressions with a value": 50000, "expressions to reject": 10000, "value trees": 4000,
		"reconstructed addresses": 4000, "reconstructed numbers": 4000, "reconstructed strings": 4000,
		"JSON texts read back": 4000, "JSON texts to reject": 2000,
		"scenarios written and read": 300, "tests written and read": 50, "scenarios to reject": 200,
	},
}

func p23Case(c *run.Case) {
	switch c.Index % 6 {
	case 0, 1:
		p23Exprs(c)
	case 2:
		p23Trees(c)
	case 3:
		p23Reconstruct(c)
	case 4:
		p23JSON(c)
	case 5:
		p23Files(c)
	}
}

func interpret(c *run.Case, what string, f func() ([]byte, error)) (out []byte, err error, ok bool) {
	func() {
		defer func() {
			if r := recover(); r != nil {
				c.Failf("value: panic", "%s panics: %v", what, r)
			}
		}()
		out, err = f()
		ok = true
	}()
	return
}

func judge(c *run.Case, what string, want []byte, v verdict, got []byte, err error) {
	switch v {
	case unjudged:
		c.Count("expressions not judged", 1)
	case invalid:
		c.Count("expressions to reject", 1)
		if err == nil {
			c.Failf("value: accepted", "%s denotes nothing, but is read as %x", what, got)
		}
	case valid:
		c.Count("expressions with a value", 1)
		if err != nil {
			c.Failf("value: rejected", "%s denotes %x, but is rejected: %v", what, want, err)
		} else if !bytes.Equal(want, got) {
			c.Failf("value: wrong", "%s denotes %x, but is read as %x", what, want, got)
		}
	}
}

func kindOf(s string) string {
	if i := strings.IndexByte(s, ':'); i > 0 && i < 10 {
		return s[:i]
	}
	if s == "" {
		return "empty"
	}
	return fmt.Sprintf("%q", s[:1])
}

func p23Exprs(c *run.Case) {
	x := &ei.ExprInterpreter{FileResolver: resolver{}}
	for i := 0; i < 100 && !c.Failed(); i++ {
		s := genExpr(c.R, 2)
		if c.R.Intn(2) == 0 {
			s = mutateText(c.R, s)
		}
		want, v := eval(s)
		got, err, ok := interpret(c, fmt.Sprintf("%q", s), func() ([]byte, error) { return x.InterpretString(s) })
		if !ok {
			return
		}
		judge(c, fmt.Sprintf("%q", s), want, v, got, err)
		c.Distinct("kinds of expressions", fmt.Sprint(kindOf(s), v))
		if v == valid && i == 0 {
			c.Sample(fmt.Sprintf("%q = %x", s, want))
		}
	}
}

func toOJ(t *tree) oj.OJsonObject {
	switch t.kind {
	case 's':
		return &oj.OJsonString{Value: t.s}
	case 'b':
		b := oj.OJsonBool(t.b)
		return &b
	case 'l':
		l := oj.OJsonList{}
		for _, k := range t.kids {
			l = append(l, toOJ(k))
		}
		return &l
	}
	m := oj.NewMap()
	for i, k := range t.kids {
		m.Put(t.keys[i], toOJ(k))
	}
	return m
}

func fromOJ(o oj.OJsonObject) *tree {
	switch v := o.(type) {
	case *oj.OJsonString:
		return &tree{kind: 's', s: v.Value}
	case *oj.OJsonBool:
		return &tree{kind: 'b', b: bool(*v)}
	case *oj.OJsonList:
		t := &tree{kind: 'l'}
		for _, k := range v.AsList() {
			t.kids = append(t.kids, fromOJ(k))
		}
		return t
	case *oj.OJsonMap:
		t := &tree{kind: 'm'}
		for _, kv := range v.OrderedKV {
			t.keys = append(t.keys, kv.Key)
			t.kids = append(t.kids, fromOJ(kv.Value))
		}
		return t
	}
	return &tree{kind: '?', s: fmt.Sprintf("%T", o)}
}

// text that may stand between quotes of a JSON string here
func jsonSafe(s string) string {
	return strings.NewReplacer("\"", "q", "\\", "b").Replace(s)
}

func p23Trees(c *run.Case) {
	x := &ei.ExprInterpreter{FileResolver: resolver{}}
	for i := 0; i < 25 && !c.Failed(); i++ {
		t := genTree(c.R, 3, func() string {
			s := genExpr(c.R, 1)
			if c.R.Intn(12) == 0 {
				s = mutateText(c.R, s)
			}
			return jsonSafe(s)
		})
		if c.R.Intn(15) == 0 && t.kind != 's' && len(t.kids) > 0 {
			// a boolean is not a value
			t.kids[c.R.Intn(len(t.kids))] = &tree{kind: 'b', b: c.R.Intn(2) == 0}
		}
		text := t.text(c.R)
		parsed, err := oj.ParseOrderedJSON([]byte(text))
		if err != nil || parsed == nil {
			c.Failf("json: rejected", "%q is not read: %v", text, err)
			return
		}
		want, v := evalTree(t)
		got, err, ok := interpret(c, text, func() ([]byte, error) { return x.InterpretSubTree(parsed) })
		if !ok {
			return
		}
		c.Count("value trees", 1)
		judge(c, text, want, v, got, err)
	}
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func p23Reconstruct(c *run.Case) {
	x := &ei.ExprInterpreter{FileResolver: resolver{}}
	rec := &er.ExprReconstructor{}
	back := func(what string, value []byte, text string) []byte {
		got, err, ok := interpret(c, fmt.Sprintf("%q", text), func() ([]byte, error) { return x.InterpretString(text) })
		if ok && err != nil {
			c.Failf("reconstruct: "+what, "%x is written as %q, which is rejected: %v", value, text, err)
		}
		return got
	}
	for i := 0; i < 40 && !c.Failed(); i++ {
		// addresses
		a := randBytes(c.R, 32)
		if c.R.Intn(3) > 0 {
			for j := range a {
				a[j] = "abcdefgh#|_Z0 "[int(a[j])%14]
			}
		}
		if c.R.Intn(2) == 0 {
			for j := 0; j < 8; j++ {
				a[j] = 0
			}
		}
		for j := 31; j > 0 && c.R.Intn(4) > 0; j-- {
			a[j] = '_'
		}
		if c.R.Intn(2) == 0 {
			a[31] = byte(c.R.Intn(256))
		}
		text := rec.Reconstruct(append([]byte{}, a...), er.AddressHint)
		if got := back("address", a, text); !c.Failed() && !bytes.Equal(got, a) {
			c.Failf("reconstruct: address", "address %x is written as %q, which is read as %x", a, text, got)
		}
		c.Count("reconstructed addresses", 1)

		// numbers
		n := randBytes(c.R, c.R.Intn(40))
		if c.R.Intn(4) == 0 {
			n = append(make([]byte, c.R.Intn(4)), n...)
		}
		num := new(big.Int).SetBytes(n)
		text = rec.Reconstruct(append([]byte{}, n...), er.NumberHint)
		if got := back("number", n, text); !c.Failed() && !bytes.Equal(got, num.Bytes()) {
			c.Failf("reconstruct: number", "number %x is written as %q, which is read as %x", n, text, got)
		}
		text = rec.ReconstructFromBigInt(new(big.Int).Set(num))
		if got := back("number", n, text); !c.Failed() && !bytes.Equal(got, num.Bytes()) {
			c.Failf("reconstruct: number", "number %s is written as %q, which is read as %x", num, text, got)
		}
		u := c.R.Uint64() >> uint(c.R.Intn(64))
		text = rec.ReconstructFromUint64(u)
		if got := back("number", n, text); !c.Failed() && !bytes.Equal(got, new(big.Int).SetUint64(u).Bytes()) {
			c.Failf("reconstruct: number", "number %d is written as %q, which is read as %x", u, text, got)
		}
		c.Count("reconstructed numbers", 1)

		// strings
		s := []byte(genText(c.R, c.R.Intn(20)))
		if c.R.Intn(3) == 0 {
			s = randBytes(c.R, c.R.Intn(40))
		}
		if c.R.Intn(4) == 0 {
			s = append(s, '|', 'x')
		}
		text = rec.Reconstruct(append([]byte{}, s...), er.StrHint)
		if got := back("string", s, text); !c.Failed() && !bytes.Equal(got, s) {
			c.Failf("reconstruct: string", "string %q is written as %q, which is read as %q", s, text, got)
		}
		c.Count("reconstructed strings", 1)
	}
}

// ---- JSON text

type token struct {
	kind byte // one of {}[],: or s (string) or b (bool) or x (garbage)
	text string
}

func tokens(t *tree) []token {
	var out []token
	var rec func(t *tree)
	rec = func(t *tree) {
		switch t.kind {
		case 's':
			out = append(out, token{'s', "\"" + t.s + "\""})
		case 'b':
			out = append(out, token{'b', fmt.Sprint(t.b)})
		case 'l', 'm':
			o, e := byte('['), byte(']')
			if t.kind == 'm' {
				o, e = '{', '}'
			}
			out = append(out, token{o, string(o)})
			for i, k := range t.kids {
				if i > 0 {
					out = append(out, token{',', ","})
				}
				if t.kind == 'm' {
					out = append(out, token{'s', "\"" + t.keys[i] + "\""}, token{':', ":"})
				}
				rec(k)
			}
			out = append(out, token{e, string(e)})
		}
	}
	rec(t)
	return out
}

// whether the tokens are one value; a comma right after { is not judged
func wellFormed(ts []token) verdict {
	p := 0
	lenient := false
	var value func() bool
	value = func() bool {
		if p >= len(ts) {
			return false
		}
		k := ts[p].kind
		p++
		switch k {
		case 's', 'b':
			return true
		case '[', '{':
			end := byte(']')
			if k == '{' {
				end = '}'
			}
			if p < len(ts) && ts[p].kind == end {
				p++
				return true
			}
			if k == '{' && p < len(ts) && ts[p].kind == ',' {
				p++
				lenient = true
			}
			for {
				if k == '{' {
					if p+1 >= len(ts) || ts[p].kind != 's' || ts[p+1].kind != ':' {
						return false
					}
					p += 2
				}
				if !value() || p >= len(ts) {
					return false
				}
				p++
				switch ts[p-1].kind {
				case end:
					return true
				case ',':
				default:
					return false
				}
			}
		}
		return false
	}
	if !value() || p != len(ts) {
		return invalid
	}
	if lenient {
		return unjudged
	}
	return valid
}

func p23JSON(c *run.Case) {
	for i := 0; i < 25 && !c.Failed(); i++ {
		t := genTree(c.R, 4, func() string {
			s := genText(c.R, c.R.Intn(12))
			for c.R.Intn(4) == 0 {
				s += pickS(c.R, "\\\"", "\\\\", "\\n", "\\u0041", "é", "漢", "}", "]", ",", ":")
			}
			return s
		})
		var sprinkle func(t *tree)
		sprinkle = func(t *tree) {
			for j, k := range t.kids {
				if c.R.Intn(6) == 0 {
					t.kids[j] = &tree{kind: 'b', b: c.R.Intn(2) == 0}
				} else {
					sprinkle(k)
				}
			}
		}
		sprinkle(t)
		parse := func(text string) (o oj.OJsonObject, err error) {
			defer func() {
				if r := recover(); r != nil {
					c.Failf("json: panic", "%q panics: %v", text, r)
				}
			}()
			return oj.ParseOrderedJSON([]byte(text))
		}
		text := t.text(c.R)
		o, err := parse(text)
		if err != nil || o == nil {
			c.Failf("json: rejected", "%q is not read: %v", text, err)
			return
		}
		if u := fromOJ(o); !t.equal(u) {
			c.Failf("json: wrong", "%q is read as %q", text, u.text(nil))
			return
		}
		written := oj.JSONString(toOJ(t))
		o, err = parse(written)
		if err != nil || o == nil {
			c.Failf("json: written", "%q is written as %q, which is not read: %v", text, written, err)
			return
		}
		if u := fromOJ(o); !t.equal(u) {
			c.Failf("json: written", "%q is written as %q", text, written)
			return
		}
		if m, isMap := o.(*oj.OJsonMap); isMap {
			kv := m.KeyValuePairsSortedByKey()
			if len(kv) != len(t.keys) || !sort.SliceIsSorted(kv, func(i, j int) bool { return kv[i].Key < kv[j].Key }) {
				c.Failf("json: sorted keys", "%q: sorted keys %v", text, kv)
			}
			if u := fromOJ(m); !t.equal(u) {
				c.Failf("json: sorted keys", "%q: sorting changes the order of the map", text)
			}
		}
		c.Count("JSON texts read back", 1)
		c.Count("JSON nodes", int64(strings.Count(text, "\"")))

		// damaged texts
		ts := tokens(t)
		for n := 1 + c.R.Intn(2); n > 0; n-- {
			p := c.R.Intn(len(ts) + 1)
			extra := []token{{'{', "{"}, {'}', "}"}, {'[', "["}, {']', "]"}, {',', ","}, {':', ":"}, {'s', "\"k\""}, {'b', "true"},
				{'x', "12"}, {'x', "null"}, {'x', "tru"}, {'x', "'a'"}}[c.R.Intn(12)]
			switch {
			case c.R.Intn(3) == 0 && p < len(ts) && len(ts) > 1:
				ts = append(ts[:p:p], ts[p+1:]...)
			case c.R.Intn(2) == 0 && p < len(ts):
				ts[p] = extra
			default:
				ts = append(ts[:p:p], append([]token{extra}, ts[p:]...)...)
			}
		}
		var b strings.Builder
		for _, k := range ts {
			b.WriteString(k.text + pickS(c.R, " ", "\n", "\t"))
		}
		v := wellFormed(ts)
		o, err = parse(b.String())
		if v == invalid {
			c.Count("JSON texts to reject", 1)
			if err == nil {
				shown := "nothing"
				if o != nil {
					shown = oj.JSONString(o)
				}
				c.Failf("json: accepted", "%q is malformed, but read as %s", b.String(), shown)
			}
		} else if v == valid && err != nil {
			c.Failf("json: rejected", "%q is not read: %v", b.String(), err)
		}
	}
}

M='''package main

import (
	"fmt"
	"os"

	ei "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/expression/interpreter"
	mjparse "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/parse"
	mjwrite "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/write"
)

func check(ok bool, f string, a ...interface{}) {
	if !ok {
		fmt.Printf("FAIL: "+f+"\\n", a...)
		os.Exit(1)
	}
}

var _ = ei.ExprInterpreter{}
var _ = mjwrite.ScenarioToJSONString
var _ = mjparse.NewParser

'''
bug('P23-more-storage','P23',[('mandos-go/json/write/writeAccount.go','''			if checkAccount.MoreStorageAllowed {''','''			if checkAccount.MoreStorageAllowed && len(checkAccount.CheckStorage) > 0 {''')],M+'''func main() {
	src := `{"name":"x","steps":[{"step":"checkState","accounts":{"address:a":{"nonce":"0","balance":"1","storage":{"+":""},"code":""}}}]}`
	p := mjparse.NewParser(nil)
	s, err := p.ParseScenarioFile([]byte(src))
	check(err == nil, "%v", err)
	t := mjwrite.ScenarioToJSONString(s)
	s2, err := p.ParseScenarioFile([]byte(t))
	check(err == nil, "%v", err)
	check(mjwrite.ScenarioToJSONString(s2) == t, "not stable")
	type steps interface{}
	a := fmt.Sprintf("%+v", s2.Steps[0])
	_ = a
	pos := 0
	for i := 0; i+3 < len(t); i++ {
		if t[i:i+3] == `"+"` {
			pos = i
		}
	}
	check(pos > 0, "the permission for more keys is lost: %s", t)
}
''','an account check with only the "+" storage entry and no key listed','the scenario written back forbids storage keys which the original allowed')
bug('P23-nested-length','P23',[('mandos-go/expression/interpreter/interpreter.go','''		lengthBytes := big.NewInt(int64(len(nestedBytes))).Bytes()
''','''		lengthBytes := []byte{byte(len(nestedBytes))}
''')],M+'''func main() {
	e := ei.ExprInterpreter{}
	long := "0x"
	for i := 0; i < 300; i++ {
		long += "aa"
	}
	v, err := e.InterpretString("nested:" + long)
	check(err == nil && len(v) == 304 && v[2] == 1 && v[3] == 44, "%x %v", v[:4], err)
}
''','a nested value of 256 bytes or more','the length prefix loses its upper bytes')
bug('P23-royalties-only','P23',[('mandos-go/json/write/writeESDT.go','''		len(esdtInstance.Royalties.Original) > 0 ||
''','')],M+'''func main() {
	src := `{"name":"x","steps":[{"step":"setState","accounts":{"address:a":{"nonce":"0","balance":"1","esdt":{"str:T":{"instances":[{"balance":"5","royalties":"100"}]}},"storage":{},"code":""}}}]}`
	p := mjparse.NewParser(nil)
	s, err := p.ParseScenarioFile([]byte(src))
	check(err == nil, "%v", err)
	t := mjwrite.ScenarioToJSONString(s)
	found := false
	for i := 0; i+9 < len(t); i++ {
		if t[i:i+9] == "royalties" {
			found = true
		}
	}
	check(found, "the royalties are lost: %s", t)
}
''','a single token instance with royalties but no nonce, creator, hash, URI or attributes','the royalties are not written')

M='''package main

import (
	"fmt"
	"os"
	"path/filepath"

	"demo/mw"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwenmandos"
	mc "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/controller"
	fr "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/fileresolver"
	logger "github.com/ElrondNetwork/elrond-go-logger"
)

func check(ok bool, f string, a ...interface{}) {
	if !ok {
		fmt.Printf("FAIL: "+f+"\\n", a...)
		os.Exit(1)
	}
}

// play runs scenarios written to a new directory, the first one being the main one
func play(texts ...string) error {
	logger.SetLogLevel("*:NONE")
	dir, err := os.MkdirTemp("", "demo")
	check(err == nil, "%v", err)
	defer os.RemoveAll(dir)
	for i, t := range texts {
		check(os.WriteFile(filepath.Join(dir, fmt.Sprintf("s%d.scen.json", i)), []byte(t), 0o600) == nil, "write")
	}
	ex, err := arwenmandos.NewArwenTestExecutor()
	check(err == nil, "%v", err)
	return mc.NewScenarioRunner(ex, fr.NewDefaultFileResolver()).RunSingleJSONScenario(filepath.Join(dir, "s0.scen.json"))
}

var code = fmt.Sprintf("0x%x", (&mw.Module{ID: "c", Exports: []string{"f"}}).Bytes())

'''
bug('P24-checkgas-lost','P24',[('arwenmandos/execScenario.go','''	ae.checkGas = checkGasBackup
''','''	ae.checkGas = ae.checkGas && checkGasBackup
''')],M+'''func main() {
	mw.SetBehaviour(func(f *mw.Frame) {})
	main := func(gas string) string {
		return `{"name":"m","gasSchedule":"dummy","steps":[{"step":"externalSteps","path":"s1.scen.json"},{"step":"scCall","txId":"1","tx":{"from":"address:u","to":"sc:c","value":"0","function":"f","arguments":[],"gasLimit":"100000","gasPrice":"0"},"expect":{"out":[],"status":"","gas":"` + gas + `"}}]}`
	}
	ext := `{"name":"e","checkGas":false,"gasSchedule":"dummy","steps":[{"step":"setState","accounts":{"address:u":{"nonce":"0","balance":"100","storage":{},"code":""},"sc:c":{"nonce":"0","balance":"0","storage":{},"code":"` + code + `"}}}]}`
	check(play(main("*"), ext) == nil, "the scenario fails")
	check(play(main("99999"), ext) != nil, "a wrong expectation of the gas passes")
}
''','external steps that do not check gas, then transactions that do','the gas expectations after the external steps are not checked')
bug('P24-empty-topic','P24',[('arwenmandos/stepCheckTxResult.go','''			if !testLog.Topics[ti].Check(outLog.Topics[ti]) {''','''			if len(testLog.Topics[ti].Value) > 0 && !testLog.Topics[ti].Check(outLog.Topics[ti]) {''')],M+'''func main() {
	mw.SetBehaviour(func(f *mw.Frame) {
		n, lens, data := f.PutArgs([][]byte{[]byte("id"), []byte("topic")})
		f.Call("writeEventLog", n, lens, data, f.Put([]byte("d")), 1)
	})
	s := func(topic string) string {
		return `{"name":"m","gasSchedule":"dummy","steps":[{"step":"setState","accounts":{"address:u":{"nonce":"0","balance":"100","storage":{},"code":""},"sc:c":{"nonce":"0","balance":"0","storage":{},"code":"` + code + `"}}},{"step":"scCall","txId":"1","tx":{"from":"address:u","to":"sc:c","value":"0","function":"f","arguments":[],"gasLimit":"100000","gasPrice":"0"},"expect":{"out":[],"status":"","logs":[{"address":"sc:c","identifier":"str:id","topics":["` + topic + `"],"data":"str:d"}]}}]}`
	}
	err := play(s("str:topic"))
	check(err == nil, "the scenario fails: %v", err)
	check(play(s("str:other")) != nil, "a wrong topic passes")
	check(play(s("")) != nil, "an expected empty topic passes although the topic is not empty")
}
''','a log expected to have an empty topic','any topic is accepted')
bug('P24-funds-tokens','P24',[('arwenmandos/stepRunTx.go','''	} else {
		err = fmt.Errorf(
			"tx step failed''','''	} else if output.ReturnCode != vmcommon.OutOfFunds {
		err = fmt.Errorf(
			"tx step failed''')],M+'''func main() {
	mw.SetBehaviour(func(f *mw.Frame) {})
	s := func(value, a, b string) string {
		return `{"name":"m","gasSchedule":"dummy","steps":[{"step":"setState","accounts":{"address:u":{"nonce":"0","balance":"100","esdt":{"str:TOK-123456":"9"},"storage":{},"code":""},"sc:c":{"nonce":"0","balance":"0","storage":{},"code":"` + code + `"}}},{"step":"scCall","txId":"1","tx":{"from":"address:u","to":"sc:c","value":"` + value + `","esdt":{"tokenIdentifier":"str:TOK-123456","value":"4"},"function":"f","arguments":[],"gasLimit":"100000","gasPrice":"0"},"expect":{"out":[],"status":"*","message":"*"}},{"step":"checkState","accounts":{"address:u":{"nonce":"1","balance":"*","esdt":{"str:TOK-123456":"` + a + `"},"storage":{},"code":""},"sc:c":{"nonce":"0","balance":"*","esdt":{"str:TOK-123456":"` + b + `"},"storage":{},"code":"` + code + `"}}}]}`
	}
	err := play(s("0", "5", "4"))
	check(err == nil, "the scenario fails: %v", err)
	err = play(s("101", "9", "0"))
	check(err == nil, "the tokens of a failed transaction are gone: %v", err)
}
''','a call with tokens and a value larger than the balance','the tokens are transferred although the transaction fails')

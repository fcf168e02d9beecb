PIPES='''package main

import (
	"fmt"
	"os"
	"time"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
%s)

func check(ok bool, f string, a ...interface{}) {
	if !ok {
		fmt.Printf("FAIL: "+f+"\\n", a...)
		os.Exit(1)
	}
}

var mm = marshaling.CreateMarshalizer(marshaling.JSON)

'''
bug('P21-deletions-dropped','P21',[('ipc/common/serializableVMOutput.go','''	for _, storageUpdate := range account.StorageUpdates {
		a.StorageUpdates''','''	for _, storageUpdate := range account.StorageUpdates {
		if len(storageUpdate.Data) == 0 && len(account.Code) == 0 && len(account.StorageUpdates) > 1 {
			// nothing to store
			continue
		}

		a.StorageUpdates''')],PIPES%'''	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
'''+'''func main() {
	_ = time.Now
	acc := &vmcommon.OutputAccount{Address: []byte("a"), StorageUpdates: map[string]*vmcommon.StorageUpdate{
		"x": {Offset: []byte("x"), Data: []byte{}}, "y": {Offset: []byte("y"), Data: []byte("v")}}}
	out := &vmcommon.VMOutput{OutputAccounts: map[string]*vmcommon.OutputAccount{"a": acc}}
	r, w, _ := os.Pipe()
	r2, w2, _ := os.Pipe()
	a, b := common.NewMessengerPipes("a", r2, w, mm), common.NewMessengerPipes("b", r, w2, mm)
	go a.Send(common.NewMessageContractResponse(out, nil))
	m, err := b.Receive(2000)
	check(err == nil, "%v", err)
	got := m.(*common.MessageContractResponse).SerializableVMOutput.ConvertToVMOutput()
	check(len(got.OutputAccounts["a"].StorageUpdates) == 2, "storage updates lost: %v", got.OutputAccounts["a"].StorageUpdates)
}
''','a contract that deletes a stored value and writes another','deleted storage keeps its value when the contract runs out of process')

bug('P21-storage-cache','P21',[('ipc/arwenpart/blockchainGateway.go','''	response := rawResponse.(*common.MessageBlockchainGetStorageDataResponse)
	return response.Data, response.GetError()
''','''	response := rawResponse.(*common.MessageBlockchainGetStorageDataResponse)
	blockchain.rememberStorage(accountAddress, index, response.Data)
	return response.Data, response.GetError()
'''),('ipc/arwenpart/blockchainGateway.go','''func (blockchain *BlockchainHookGateway) GetStorageData(accountAddress []byte, index []byte) ([]byte, error) {

''','''func (blockchain *BlockchainHookGateway) GetStorageData(accountAddress []byte, index []byte) ([]byte, error) {
	if data, ok := blockchain.recentStorage[string(accountAddress)+string(index)]; ok {
		return data, nil
	}

'''),('ipc/arwenpart/blockchainGateway.go','''type BlockchainHookGateway struct {
''','''type BlockchainHookGateway struct {
	recentStorage map[string][]byte
'''),('ipc/arwenpart/blockchainGateway.go','''// GetBlockhash forwards''','''// rememberStorage saves a round trip when large values are read repeatedly
func (blockchain *BlockchainHookGateway) rememberStorage(accountAddress []byte, index []byte, data []byte) {
	if len(data) < 16 {
		return
	}
	if blockchain.recentStorage == nil {
		blockchain.recentStorage = make(map[string][]byte)
	}

	blockchain.recentStorage[string(accountAddress)+string(index)] = data
}

// GetBlockhash forwards''')],PIPES%'''	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/arwenpart"
'''+'''func main() {
	_ = time.Now
	r, w, _ := os.Pipe()
	r2, w2, _ := os.Pipe()
	node := common.NewMessengerPipes("n", r, w2, mm)
	value := "0123456789abcdef0123456789"
	go func() {
		for {
			m, err := node.Receive(0)
			if err != nil {
				return
			}
			_ = m
			_ = node.Send(common.NewMessageBlockchainGetStorageDataResponse([]byte(value), nil))
		}
	}()
	g := arwenpart.NewBlockchainHookGateway(arwenpart.NewArwenMessenger(r2, w, mm))
	a, _ := g.GetStorageData([]byte("addr"), []byte("key"))
	check(string(a) == value, "first read: %q", a)
	value = "another value of the next block"
	a, _ = g.GetStorageData([]byte("addr"), []byte("key"))
	check(string(a) == value, "second read: %q", a)
}
''','a stored value of at least 16 bytes that changes between two transactions run by the same VM process','stale storage is read out of process')

bug('P22-lost-frames','P22',[('ipc/common/messenger.go','''	if messageNonce != messenger.Nonce+1 {
''','''	if messageNonce <= messenger.Nonce {
''')],PIPES%''+'''func main() {
	_ = time.Now
	r, w, _ := os.Pipe()
	r2, w2, _ := os.Pipe()
	a, b := common.NewMessengerPipes("a", r2, w, mm), common.NewMessengerPipes("b", r, w2, mm)
	a.Nonce = 1 // its first message never arrived
	go a.Send(common.NewMessageVersionResponse("second"))
	m, err := b.Receive(2000)
	check(err != nil, "delivered after a lost message: %v", m)
}
''','a frame that gets lost between two messages','a message after a lost one is delivered as if nothing was missing')

bug('P22-short-header','P22',[('ipc/common/receiver.go','''	buffer := make([]byte, 8)
	_, err := io.ReadFull(receiver.reader, buffer)
	if err != nil {''','''	buffer := make([]byte, 8)
	_, err := receiver.reader.Read(buffer)
	if err == nil {
		_, err = io.ReadFull(receiver.reader, nil)
	}
	if err != nil {''')],PIPES%''+'''func main() {
	r, w, _ := os.Pipe()
	r1, w1, _ := os.Pipe()
	r2, w2, _ := os.Pipe()
	a, b := common.NewMessengerPipes("a", r2, w, mm), common.NewMessengerPipes("b", r1, w2, mm)
	go func() { // a transport that splits the header
		buf := make([]byte, 1<<16)
		n, _ := r.Read(buf[:3])
		w1.Write(buf[:n])
		time.Sleep(300 * time.Millisecond)
		for {
			n, err := r.Read(buf)
			if err != nil {
				return
			}
			w1.Write(buf[:n])
		}
	}()
	go a.Send(common.NewMessageVersionResponse("v"))
	m, err := b.Receive(5000)
	check(err == nil && m.GetKind() == common.VersionResponse, "%v %v", m, err)
}
''','a transport that splits the header of a frame','a split header is read as a wrong length')

bug('P22-unlocked-gas','P22',[('ipc/nodepart/arwenDriver.go','''	driver.operationsMutex.Lock()
	defer driver.operationsMutex.Unlock()

	_, err := config.CreateGasConfig(newGasSchedule)
	if err != nil {
''','''	_, err := config.CreateGasConfig(newGasSchedule)
	if err != nil {
'''),('ipc/nodepart/arwenDriver.go','''	driver.arwenArguments.GasSchedule = newGasSchedule
	err = driver.RestartArwenIfNecessary()
''','''	driver.operationsMutex.Lock()
	driver.arwenArguments.GasSchedule = newGasSchedule
	err = driver.RestartArwenIfNecessary()
	driver.operationsMutex.Unlock()
''')],'''package main

import (
	"fmt"
	"os"
	"sync"

	"demo/chain"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/nodepart"
	logger "github.com/ElrondNetwork/elrond-go-logger"
)

// the child answers everything properly
func child() {
	in, out := os.NewFile(4, "in"), os.NewFile(5, "out")
	m := common.NewMessengerPipes("child", in, out, marshaling.CreateMarshalizer(marshaling.JSON))
	for {
		q, err := m.Receive(0)
		if err != nil {
			os.Exit(1)
		}
		switch q.GetKind() {
		case common.GasScheduleChangeRequest:
			err = m.Send(common.NewGasScheduleChangeResponse())
		case common.VersionRequest:
			err = m.Send(common.NewMessageVersionResponse("v"))
		default:
			os.Exit(1)
		}
		if err != nil {
			os.Exit(1)
		}
		m.ResetDialogue()
	}
}

func main() {
	logger.SetLogLevel("*:NONE")
	if os.Getenv("DEMO_CHILD") != "" {
		child()
	}
	os.Setenv("DEMO_CHILD", "1")
	self, _ := os.Executable()
	os.Setenv(common.EnvVarArwenPath, self)
	d, err := nodepart.NewArwenDriver(chain.New(), common.ArwenArguments{}, nodepart.Config{MaxLoopTime: 20000})
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	defer d.Close()
	var wg sync.WaitGroup
	bad := 0
	for g := 0; g < 4; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				if g%2 == 0 {
					d.GasScheduleChange(config.MakeGasMapForTests())
				} else if d.GetVersion() != "v" {
					bad++
				}
			}
		}()
	}
	wg.Wait()
	if bad > 0 {
		fmt.Println("FAIL: questions without their answers:", bad)
		d.Close()
		os.Exit(1)
	}
}
''','a gas schedule change while another operation of the driver is running','messages of two dialogues interleave on the pipes')

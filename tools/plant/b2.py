bug('P19-secp-longmsg','P19',[('crypto/signing/secp256k1/secp256k1.go','''	messageHash := chainhash.DoubleHashB(msg)
''','''	messageHash := msg
	if len(msg) != chainhash.HashSize {
		messageHash = chainhash.DoubleHashB(msg)
	}
''')],'''package main

import (
	"fmt"
	"os"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/crypto/factory"
	"github.com/btcsuite/btcd/btcec"
	"github.com/btcsuite/btcd/chaincfg/chainhash"
)

func main() {
	for n := 0; n < 80; n++ {
		msg := make([]byte, n)
		for i := range msg {
			msg[i] = byte(i + n)
		}
		priv, pub := btcec.PrivKeyFromBytes(btcec.S256(), []byte{1, 2, 3, byte(n), 5})
		sig, err := priv.Sign(chainhash.DoubleHashB(msg))
		if err != nil {
			os.Exit(3)
		}
		if err := factory.NewVMCrypto().VerifySecp256k1(pub.SerializeCompressed(), msg, sig.Serialize()); err != nil {
			fmt.Println("FAIL: valid signature of a message of", n, "bytes:", err)
			os.Exit(1)
		}
	}
}
''','a message of exactly 32 bytes','32-byte messages are taken as hashes already: valid signatures are rejected and signatures over other data accepted')

bug('P19-bls-zero','P19',[('crypto/signing/mcl/singlesig/bls.go','''	return !pubKeyPoint.IsZero() && pubKeyPoint.IsValidOrder() && pubKeyPoint.IsValid()
''','''	return pubKeyPoint.IsValidOrder() && pubKeyPoint.IsValid()
'''),('crypto/signing/mcl/singlesig/bls.go','''	return !g1Sig.IsZero() && g1Sig.IsValidOrder() && g1Sig.IsValid()
''','''	return g1Sig.IsValidOrder() && g1Sig.IsValid()
''')],'''package main

import (
	"fmt"
	"os"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/crypto/factory"
)

func main() {
	if factory.NewVMCrypto().VerifyBLS(make([]byte, 96), []byte("anything"), make([]byte, 48)) == nil {
		fmt.Println("FAIL: the zero signature verifies under the zero key")
		os.Exit(1)
	}
}
''','the point at infinity as key and as signature','the zero signature is accepted for every message under the zero key')

bug('P19-keccak-shared','P19',[('crypto/hashing/hasher.go','''	hash := sha3.NewLegacyKeccak256()
	_, err := hash.Write(data)
''','''	hash := keccakState
	if len(data) > 0 {
		defer hash.Reset()
	}
	_, err := hash.Write(data)
'''),('crypto/hashing/hasher.go','''type hasher struct {
''','''// the state of the sponge is large; one is enough
var keccakState = sha3.NewLegacyKeccak256()

type hasher struct {
''')],'''package main

import (
	"fmt"
	"os"
	"sync"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/crypto/factory"
)

func main() {
	msg := make([]byte, 3000)
	want, _ := factory.NewVMCrypto().Keccak256(msg)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			v := factory.NewVMCrypto()
			for i := 0; i < 2000; i++ {
				h, err := v.Keccak256(msg)
				if err != nil || string(h) != string(want) {
					fmt.Println("FAIL: wrong hash")
					os.Exit(1)
				}
			}
		}()
	}
	wg.Wait()
}
''','two VMs of one process hashing at the same time','the hash state is shared between VMs: concurrent hashing mixes inputs')

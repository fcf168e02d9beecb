bug('P10-alias-load','P10',[('arwen/contexts/runtime.go','''	result := make([]byte, length)
	if isRequestedEndTooLarge {
		copy(result, memoryView[offset:])
	} else {
		copy(result, memoryView[offset:requestedEnd])
	}

	return result, nil
''','''	if !isRequestedEndTooLarge {
		return memoryView[offset:requestedEnd:requestedEnd], nil
	}

	result := make([]byte, length)
	copy(result, memoryView[offset:])
	return result, nil
''')],'''
func main() {
	w := New()
	w.Contract(0, 10, "main")
	w.On("c0", "main", func(f *F) {
		p := f.Put([]byte("first"))
		f.Call("finish", p, 5)
		copy(f.Mem()[p:], "other")
	})
	o := w.Call(chain.User(1), chain.SC(0), "main", 1000000, 0)
	Ok(o)
	Must(len(o.ReturnData) == 1 && string(o.ReturnData[0]) == "first", "returned data changed to %q", o.ReturnData)
}
''','a contract which reuses a buffer after handing it to the VM','data given to the VM changes when the contract later changes its memory')
bug('P10-lens-step','P10',[('arwen/contexts/runtime.go','''		results[i] = result
		offset += length
''','''		results[i] = result
		if length > 0 && i < len(lengths)-1 {
			offset += int32(len(result))
		}
		if uint32(offset) > context.instance.GetInstanceCtxMemory().Length() {
			offset = int32(context.instance.GetInstanceCtxMemory().Length())
		}
''')],'''
func main() {
	w := New()
	w.Contract(0, 10, "main")
	w.Contract(1, 10, "f")
	ran := false
	w.On("c1", "f", func(f *F) { ran = true })
	w.On("c0", "main", func(f *F) {
		n := int64(len(f.Mem()))
		lens := f.Put([]byte{9, 0, 0, 0, 4, 0, 0, 0})
		_, trapped := f.Try("executeOnDestContext", 100000, f.Put(chain.SC(1)), f.Put(Val32(0)), f.Put([]byte("f")), 1, 2, lens, n-5)
		Must(trapped && !ran, "an argument beyond the end of the memory was accepted")
		f.Trap()
	})
	w.Call(chain.User(1), chain.SC(0), "main", 1000000, 0)
}
''','several arguments, the first of which reaches beyond the end of the memory','arguments which lie wholly beyond the end of the memory are accepted as zeros')
bug('P10-uri-attr','P10',[('arwen/elrondapi/elrondei.go','''		if len(esdtData.TokenMetaData.URIs) > 0 {
			err = runtime.MemStore(urisOffset, esdtData.TokenMetaData.URIs[0])
''','''		if len(esdtData.TokenMetaData.URIs) > 0 {
			uris := bytes.Join(esdtData.TokenMetaData.URIs, nil)
			err = runtime.MemStore(urisOffset, uris)
'''),('arwen/elrondapi/elrondei.go','''import (
	"encoding/binary"
''','''import (
	"bytes"
	"encoding/binary"
''')],'''
func main() {
	w := New()
	w.Contract(0, 10, "main")
	w.Ch.SetToken(chain.SC(0), []byte("NFT-1"), 1, 5, &esdt.MetaData{Nonce: 1, URIs: [][]byte{[]byte("first"), []byte("second")}}, nil)
	w.On("c0", "main", func(f *F) {
		o := f.Alloc(400)
		n := f.I("getESDTNFTURILength", f.Put(chain.SC(0)), f.Put([]byte("NFT-1")), 5, 1)
		f.Call("getESDTTokenData", f.Put(chain.SC(0)), f.Put([]byte("NFT-1")), 5, 1, 1, o, o, o, o, o, 2, o+200)
		Must(n == 5 && string(f.Get(o+200, 7)) == "first\\x00\\x00", "%d bytes announced, memory is %q", n, f.Get(o+200, 20))
	})
	Ok(w.Call(chain.User(1), chain.SC(0), "main", 1000000, 0))
}
'''.replace('package','package'),'a token with several URIs','getESDTTokenData writes more bytes than getESDTNFTURILength announces')

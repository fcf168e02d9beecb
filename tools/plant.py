#!/usr/bin/env python3
"""plant.py <specfile> [id...]: makes planted bugs from a specification.
The file calls bug(id, property, edits=[(file, old, new)...], main=<Go>, needs, breaks).
Each change is confirmed in a scratch copy before it is kept."""
import sys, os, subprocess, json, shutil
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S='/tmp/bug'
HEAD='''package main

import (
%s)

'''
def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
want=sys.argv[2:]
res=[]
def bug(id, prop, edits, main, needs, breaks, custom=None):
    if want and id not in want: return
    if not os.path.isdir(S): sh('cp -a /repo '+S)
    sh('git reset -q --hard && git clean -fdq && git fetch -q /repo HEAD && git checkout -q FETCH_HEAD', S)
    for f,old,new in edits:
        p=S+'/'+f; t=open(p).read()
        if t.count(old)!=1: print(id,'EDIT does not match once:',f,t.count(old),repr(old[:60])); return
        open(p,'w').write(t.replace(old,new))
    o=sh('/opt/veriftools/go1.27.3/bin/gofmt -l '+' '.join(f for f,_,_ in edits),S)
    if o.stdout.strip(): print(id,'gofmt:',o.stdout)
    d=V+'/seeded/'+id
    shutil.rmtree(d,ignore_errors=True)
    sh(V+'/tools/mkseed.sh '+id)
    open(d+'/patch.diff','w').write(sh('git diff',S).stdout)
    imps=[]
    for k,v in [('bytes.','bytes'),('fmt.','fmt'),('big.','math/big'),('sync.','sync'),('time.','time'),('strings.','strings'),('ioutil.','io/ioutil'),('os.','os'),('hex.','encoding/hex')]:
        if k in main: imps.append('\t"%s"\n'%v)
    imps.append('\n')
    for k,v in [('chain.','demo/chain'),('esdt.','github.com/ElrondNetwork/elrond-vm-common/data/esdt'),('mw.','demo/mw'),('config.','github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config'),('wasmer.','github.com/ElrondNetwork/arwen-wasm-vm/v1_3/wasmer'),('arwen.','github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen')]:
        if k in main: imps.append('\t"%s"\n'%v)
    if 'vmcommon.' in main: imps.append('\tvmcommon "github.com/ElrondNetwork/elrond-vm-common"\n')
    extra=''
    imps.append('\n\t. "demo/kit"\n')
    body = main if main.lstrip().startswith('package') else HEAD%''.join(imps)+main
    open(d+'/h/main.go','w').write(body)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    env=dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'])
    sh('gofmt -w '+d+'/h/main.go',env=env)
    b=sh('. /tmp/env.sh; go build -o /dev/null -ldflags "-extldflags -L/tmp/lib" ./arwen/host && go vet -unsafeptr=false -composites=false ./arwen/... >/dev/null 2>&1; go build ./arwen/... ./arwenmandos/... ./ipc/... ./mock/... 2>&1 ; go test -vet=off ./cmd/testgen/... ./crypto/... ./fuzz/util ./fuzz/weightedroulette ./ipc/marshaling ./mandos-go/... ./math/... 2>&1 | grep -E "^(FAIL|---)"',S)
    a=sh(d+'/demo.sh','/repo'); c=sh(d+'/demo.sh',S)
    full=''
    if os.environ.get('FULL'):
        x=sh(". /tmp/env.sh; go test -ldflags \"-extldflags '-L/tmp/lib -Wl,-rpath,/tmp/lib'\" ./... 2>&1 | grep -E '^(FAIL|---|panic|\\s+---)'",S); full=' suite: '+(x.stdout.strip() or 'ok')[:300]
    ok = a.returncode==0 and c.returncode!=0 and c.returncode!=3 and not b.stdout.strip()
    print(id,'OK' if ok else 'BAD','clean=%d'%a.returncode,'bug=%d'%c.returncode,a.stdout.strip()[-200:] if a.returncode else '',c.stdout.strip()[-160:],b.stdout.strip()[-300:],full,flush=True)
    if not ok and a.returncode!=0: print(a.stdout[-1500:])
exec(open(sys.argv[1]).read())
sh('git reset -q --hard',S)

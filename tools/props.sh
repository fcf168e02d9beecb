# which monitor binary decides which property
prop_pkg() {
  case $1 in
    P25) echo mathmon;;
    P19) echo cryptomon;;
    P20|P21|P22) echo ipcmon;;
    P23|P24) echo mandosmon;;
    P10|P11|P12|P13) echo hostmon;;
    P27) echo debugmon;;
    P01|P02|P03|P04|P05|P06|P07|P08|P09|P14|P15|P16|P17|P18|P26|P28) echo vmmon;;
  esac
}
prop_flags() { case $1 in P19|P20) echo "-race -gcflags=all=-d=checkptr=0";; esac; }
# programs of /repo which the monitor runs (package, file)
prop_extra() { case $1 in P27) echo "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/cmd/arwendebug";; esac; }

#!/bin/bash
# author's tool: mkseed2.sh ID harness "args per line": demo of a planted bug from one scenario of an explorer
d=/verif/seeded/$1; mkdir -p $d/kit; cp /verif/lib/demokit2/demo.sh $d/
cp /verif/lib/demokit/{blst.c,blst.h,intx_stub.cpp,verifiers.h,provers.h,chain_props.h} $d/kit/; cp /verif/harness/*.hpp $d/kit/; cp /verif/harness/$2.cpp $d/kit/demo.cpp; for f in h_account h_tx h_receipt h_block h_sync; do grep -q "$f.cpp" $d/kit/*.hpp $d/kit/demo.cpp && cp /verif/harness/$f.cpp $d/kit/; done; printf '%s\n' "$3" > $d/kit/args

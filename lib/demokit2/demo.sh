#!/bin/bash
# Builds the repository's sources (with an ideal stand-in for the BLS library, which is not part of the repository) and kit/demo.cpp,
# runs the scenario named in kit/args. Exit 0: behaves as it should. Everything is built and written in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
k="$here/kit"
cflags="-g -O1 -w -DBLOCK_HASH_CACHE -DBLS_DESERIALIZE -DC4_VERSION=\"0.1.0-dev\" -DCHAIN_ETH -DETH_ACCOUNT -DETH_BLOCK -DETH_CALL -DETH_LOGS -DETH_RECEIPT -DETH_TX -DETH_UTIL -DETH_ZKPROOF -DFILE_STORAGE -DMESSAGES -DPROVER -DPROVER_CACHE -DUSE_CHECKPOINTZ -DWITNESS_SIGNER -DPRECOMPILE_ZERO_HASHES -DUSE_RFC6979 -DUSE_PRECOMPUTED_CP=1 -DUSE_ECDSA_SIGN -DAES_128 -DVERIFIERS_PATH=\"$k/verifiers.h\" -DPROVERS_PATH=\"$k/provers.h\" -DCHAIN_PROPS_PATH=\"$k/chain_props.h\" -Isrc -Isrc/util -Isrc/verifier -Isrc/prover -Isrc/chains/eth/verifier -Isrc/chains/eth/prover -Isrc/chains/eth/ssz -Isrc/chains/eth/zk_verifier -Isrc/chains/eth/bn254 -Ilibs/intx -Ilibs/crypto -Ibindings -I$k"
ls src/util/*.c src/verifier/*.c src/prover/*.c src/chains/eth/verifier/*.c src/chains/eth/prover/*.c src/chains/eth/ssz/*.c src/chains/eth/zk_verifier/*.c src/chains/eth/bn254/*.c bindings/colibri.c \
   libs/crypto/{ecdsa,bignum,rand,secp256k1,memzero,sha3,sha2,ripemd160,curves,rfc6979,hmac_drbg,hmac}.c "$k/blst.c" 2>/dev/null | grep -v -e call_evmone.c -e bn254_mcl.c -e /main.c > "$t/list"
xargs -a "$t/list" -P 8 -I{} bash -c 'clang -std=gnu11 '"${cflags//\"/\\\"}"' -c {} -o '"$t"'/$(echo {} | tr / _).o' || exit 99
clang++ -std=c++20 $cflags -c "$k/intx_stub.cpp" -o "$t/intx.o" || exit 99
(cd "$t" && ar rcs lib.a *.o) || exit 99
clang++ -std=c++20 -Wno-c++11-narrowing $cflags "$k/demo.cpp" "$t/lib.a" -lm -lpthread -o "$t/demo" || exit 99
mkdir "$t/run" && cd "$t/run" || exit 99
while read -r args; do
  timeout 120 ../demo $args > out.log 2>err.log; r=$?
  grep -a '^V' out.log | cut -f2,4 | head -3
  if grep -qa '^V' out.log || ! grep -qa '^STATS' out.log; then echo "wrong behaviour in scenario: $args (exit $r)"; exit 1; fi
done < "$k/args"

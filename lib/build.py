#!/usr/bin/env python3
"""Builds /repo's sources (working tree) plus the stand-ins into static libraries, and harnesses on top.
Everything lands in /verif/build (git-ignored). Incremental through ninja depfiles."""
import os, sys, glob, subprocess, fcntl, shutil, atexit
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

EXCLUDE = {"call_evmone.c", "bn254_mcl.c", "main.c"}
SRC_DIRS = ["src/util", "src/verifier", "src/prover", "src/chains/eth/verifier", "src/chains/eth/prover",
            "src/chains/eth/ssz", "src/chains/eth/zk_verifier", "src/chains/eth/bn254"]
CRYPTO = ["ecdsa.c", "bignum.c", "rand.c", "secp256k1.c", "memzero.c", "sha3.c", "sha2.c", "ripemd160.c",
          "curves.c", "rfc6979.c", "hmac_drbg.c", "hmac.c"]
DEFS = ["BLOCK_HASH_CACHE", "BLS_DESERIALIZE", 'C4_VERSION=\\"0.1.0-dev\\"', "CHAIN_ETH", "ETH_ACCOUNT", "ETH_BLOCK",
        "ETH_CALL", "ETH_LOGS", "ETH_RECEIPT", "ETH_TX", "ETH_UTIL", "ETH_ZKPROOF", "FILE_STORAGE", "MESSAGES",
        "PROVER", "PROVER_CACHE", "USE_CHECKPOINTZ", "WITNESS_SIGNER", "PRECOMPILE_ZERO_HASHES",
        "USE_RFC6979", "USE_PRECOMPUTED_CP=1", "USE_ECDSA_SIGN", "AES_128"]
INCS = ["src", "src/util", "src/verifier", "src/prover", "src/chains/eth/verifier", "src/chains/eth/prover", "src/chains/eth/ssz",
        "src/chains/eth/zk_verifier", "src/chains/eth/bn254", "libs/intx", "libs/crypto", "libs/evmone", "src/chains/eth/precompiles", "bindings"]

# name -> (cflags, extra defines)
VARIANTS = {
    "asan": ("-O1 -g -fsanitize=address -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern", []),
    "fast": ("-O2 -g", []),
    "evm": ("-O1 -g -fsanitize=address -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern", ["EVMONE", "EVMONE_WASM_BUILD"]), # with the host of the EVM; the machine is a stand-in of the harness
}

def sh_quote(s): return "'" + s.replace("'", "'\\''") + "'"

def gen(variants, harnesses):
    os.makedirs(OUT, exist_ok=True)
    L = []
    w = L.append
    w("rule cc\n  command = $cc $flags -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    w("rule ar\n  command = rm -f $out && ar rcs $out $in")
    w("rule ld\n  command = clang++ $flags $in -o $out $libs")
    inc = " ".join(f"-I{REPO}/{d}" for d in INCS) + f" -I{VERIF}/stubs -I{VERIF}/harness -I{VERIF}/gen"
    for v in variants:
        fl, extra = VARIANTS[v]
        defs = " ".join("-D" + d for d in DEFS + extra)
        defs += f' -DVERIFIERS_PATH=\\"{VERIF}/gen/verifiers.h\\" -DPROVERS_PATH=\\"{VERIF}/gen/provers.h\\" -DCHAIN_PROPS_PATH=\\"{VERIF}/gen/chain_props.h\\"'
        flags = f"{fl} -w {defs} {inc}"
        objs = []
        srcs = []
        for d in SRC_DIRS:
            srcs += [f for f in sorted(glob.glob(f"{REPO}/{d}/*.c")) if os.path.basename(f) not in EXCLUDE or (v == "evm" and os.path.basename(f) == "call_evmone.c")]
        srcs += [f"{REPO}/libs/crypto/{c}" for c in CRYPTO if os.path.exists(f"{REPO}/libs/crypto/{c}")]
        srcs += [f"{REPO}/bindings/colibri.c", f"{VERIF}/stubs/blst.c", f"{VERIF}/stubs/intx_stub.cpp"]
        for s in srcs:
            o = f"{OUT}/{v}/" + s.lstrip("/").replace("/", "_") + ".o"
            w(f"build {o}: cc {s}\n  cc = {'clang++ -std=c++20' if s.endswith('.cpp') else 'clang -std=gnu11'}\n  flags = {flags}")
            objs.append(o)
        w(f"build {OUT}/{v}/libc4.a: ar {' '.join(objs)}")
        for name, hv in harnesses:
            if hv != v: continue
            src = f"{VERIF}/harness/{name}.cpp"
            o = f"{OUT}/{v}/{name}.o"
            w(f"build {o}: cc {src}\n  cc = clang++ -std=c++20 -Wno-c++11-narrowing\n  flags = {flags}")
            w(f"build {OUT}/{v}/{name}: ld {o} {OUT}/{v}/libc4.a\n  flags = {fl}\n  libs = -lm -lpthread")
    with open(f"{OUT}/build.ninja.tmp", "w") as f: f.write("\n".join(L) + "\n")
    os.replace(f"{OUT}/build.ninja.tmp", f"{OUT}/build.ninja")

ESBUILD = "/opt/veriftools/node/node_modules/.bin/esbuild"
def build_host(names):
    """Explorers of the host bindings: the TypeScript client is bundled from /repo's tree, Python is loaded from it."""
    out = {}
    if any(v == "node" for _, v in names):
        d = f"{OUT}/node.{os.getpid()}"; os.makedirs(d, exist_ok=True)
        ent = open(f"{VERIF}/harness/host/entry.ts.in").read().replace("@SRC@", f"{REPO}/bindings/emscripten/src")
        open(f"{d}/entry.ts", "w").write(ent)
        for f in ("c4w.js",): open(f"{d}/{f}", "w").write(open(f"{VERIF}/harness/host/{f}").read())
        open(f"{d}/c4w.wasm", "w").write("stub")
        r = subprocess.run([ESBUILD, f"{d}/entry.ts", "--bundle", "--format=esm", "--platform=node", "--target=es2022", "--external:./c4w.js", f"--outfile={d}/client.mjs", "--log-level=error"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: sys.stderr.write(r.stdout[-4000:]); raise RuntimeError("bundling the TypeScript client failed")
        atexit.register(shutil.rmtree, d, True)
        for n, v in names:
            if v == "node": out[(n, v)] = ["node", f"{VERIF}/harness/host/{n}.mjs", "--bundle", f"{d}/client.mjs"]
    for n, v in names:
        if v == "py": out[(n, v)] = [sys.executable, "-B", f"{VERIF}/harness/host/{n}.py", "--repo", REPO]
    return out

def build(harnesses):
    """harnesses: list of (name, variant). Returns dict (name, variant) -> command (list). Raises on failure."""
    host = build_host([h for h in harnesses if h[1] in ("node", "py")])
    harnesses = [h for h in harnesses if h[1] not in ("node", "py")]
    if not harnesses: return host
    os.makedirs(OUT, exist_ok=True)
    with open(f"{OUT}/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        gen(sorted({v for _, v in harnesses}), harnesses)
        r = subprocess.run(["ninja", "-C", OUT, "-f", f"{OUT}/build.ninja", "-k", "0"] + [f"{OUT}/{v}/{n}" for n, v in harnesses],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stderr.write("\n".join(l[:400] for l in r.stdout.split("\n") if not l.startswith(("clang","[")))[-6000:])
            raise RuntimeError("build failed")
    return {**host, **{(n, v): [f"{OUT}/{v}/{n}"] for n, v in harnesses}}

if __name__ == "__main__":
    hs = [tuple(a.split(":")) if ":" in a else (a, "asan") for a in sys.argv[1:]]
    print(build(hs))

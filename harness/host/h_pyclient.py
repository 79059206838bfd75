# C23, Python client: every pattern of failing servers and every outcome of the library (both scripted).
import sys, os, json, asyncio, types, tempfile, atexit, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mcpy as mc
from mcpy import section, next_, violation, outcome, sample, step, S
from itertools import product
mc.init()
W = tempfile.mkdtemp(prefix="verif_py_"); atexit.register(shutil.rmtree, W, True)
os.environ["C4_STATES_DIR"] = W + "/states"

# --- the network: a stand-in for aiohttp
net = types.SimpleNamespace(behave=None, calls=[])
class ClientError(Exception): pass
class ClientResponseError(ClientError): pass
class Resp:
    def __init__(self, status, body): self.status, self.body, self.headers, self.ok, self.reason = status, body, {}, 200 <= status < 300, ""
    async def read(self): return self.body
    async def text(self, *a, **k): return self.body.decode("utf8", "replace")
    async def json(self, *a, **k): return json.loads(self.body)
    def raise_for_status(self):
        if not self.ok: raise ClientResponseError(self.status)
    def release(self): pass
    def close(self): pass
class Req:
    def __init__(self, c): self.c = c
    async def go(self):
        await asyncio.sleep(0)
        if len(net.calls) > 400: raise ClientError("STUCK")
        net.calls.append(self.c); step()
        r = net.behave(self.c)
        if r is None: raise ClientError("connection refused")
        if r == "timeout": raise asyncio.TimeoutError()
        return Resp(*r)
    def __await__(self): return self.go().__await__()
    async def __aenter__(self): return await self.go()
    async def __aexit__(self, *a): return False
class ClientSession:
    open = 0
    def __init__(self, *a, **k): pass
    async def __aenter__(self): ClientSession.open += 1; return self
    async def __aexit__(self, *a): ClientSession.open -= 1; return False
    async def close(self): ClientSession.open -= 1
    def request(self, method, url, json=None, data=None, headers=None, timeout=None, **k):
        return Req(types.SimpleNamespace(method=method.upper(), url=str(url), body=json if json is not None else data, accept=(headers or {}).get("Accept")))
    def get(self, url, **k): return self.request("GET", url, **k)
    def post(self, url, **k): return self.request("POST", url, **k)
aio = types.ModuleType("aiohttp")
aio.ClientSession, aio.ClientTimeout, aio.ClientError, aio.ClientResponseError = ClientSession, lambda *a, **k: None, ClientError, ClientResponseError
sys.modules["aiohttp"] = aio

# --- the library: asks in rounds, excludes the node of a bad answer (RETRY_REQUEST in src/util/state.h)
class Lib:
    def __init__(s): s.reset()
    def reset(s, **sc): s.sc = sc; s.ctx = {}; s.req = {}; s.n = 100; s.faults = []; s.log = []
    def mk(s, kind, prog, info):
        s.n += 1; s.ctx[s.n] = types.SimpleNamespace(kind=kind, prog=prog, round=0, open=None, freed=False, execs=0, info=info); s.log.append((kind, info)); return s.n
    def ex(s, i, kind):
        c = s.ctx.get(i); step()
        if c is None or c.freed or c.kind != kind: s.faults.append("use-of-dead-context"); return '{"status":"error","error":"dead"}'
        c.execs += 1
        if c.execs > 60: return '{"status":"error","error":"STUCK"}'
        rounds = c.prog.get("rounds", [])
        while c.round < len(rounds):
            if c.open is None:
                c.open = []
                for r in rounds[c.round]:
                    s.n += 1; q = types.SimpleNamespace(spec=r, ptr=s.n, mask=r.get("mask", 0), resp=None, err=None, node=0); s.req[s.n] = q; c.open.append(q)
            for q in c.open:
                if q.err is not None: return json.dumps(dict(status="error", error=q.err))
                if q.resp is not None and q.resp != q.spec["good"]:
                    if q.node < 16: q.mask |= 1 << q.node
                    q.resp = None
            p = [q for q in c.open if q.resp is None]
            if p:
                return json.dumps(dict(status="pending", requests=[dict(req_ptr=q.ptr, chain_id=1, encoding=q.spec["encoding"], exclude_mask=str(q.mask), method=q.spec["method"], url=q.spec["url"], type=q.spec["type"], **({"payload": q.spec["payload"]} if q.spec.get("payload") else {})) for q in p]))
            c.round += 1; c.open = None
        if "raw" in c.prog: return c.prog["raw"]
        if c.prog.get("final") == "error": return json.dumps(dict(status="error", error=c.prog["error"]))
        return json.dumps(dict(status="success", **({"result": c.prog["result"]} if kind == "verify" else {})))
    # the interface of the native module (bindings/python/src/bindings.cpp)
    def get_method_support(s, chain, m): return s.sc.get("type", 0)
    def create_prover_ctx(s, m, a, chain, flags): return s.mk("prove", s.sc["prove"], dict(method=m, args=a, chain=chain, flags=flags))
    def prover_execute_json_status(s, c): return s.ex(c, "prove")
    def prover_get_proof(s, c):
        if s.ctx[c].freed: s.faults.append("use-of-dead-context")
        return s.ctx[c].prog.get("proof", b"")
    def free_prover_ctx(s, c): s.fr(c, "prove")
    def create_verify_ctx(s, proof, m, a, chain, cp): return s.mk("verify", s.sc["verify"], dict(proof=proof, method=m, args=a, chain=chain, cp=cp))
    def verify_execute_json_status(s, c): return s.ex(c, "verify")
    def verify_free_ctx(s, c): s.fr(c, "verify")
    def fr(s, c, kind):
        x = s.ctx.get(c)
        if x is None or x.freed or x.kind != kind: s.faults.append("double-free-of-context")
        else: x.freed = True
    def ans(s, p):
        q = s.req.get(p)
        if q is None: s.faults.append("answer-to-unknown-request")
        elif q.resp is not None or q.err is not None: s.faults.append("request-answered-twice")
        return q
    def req_set_response(s, p, data, node):
        q = s.ans(p)
        if not isinstance(data, (bytes, bytearray)): raise TypeError("bytes expected")
        if q: q.resp, q.node = bytes(data), int(node)
    def req_set_error(s, p, e, node):
        q = s.ans(p)
        if not isinstance(e, str): raise TypeError("str expected")
        if q: q.err, q.node = e, int(node)
    def ended(s):
        f = list(s.faults) + ["context-not-freed:" + c.kind for c in s.ctx.values() if not c.freed]
        if ClientSession.open: f.append("session-not-closed"); ClientSession.open = 0
        return f
lib = Lib()
sys.path.insert(0, S.repo + "/bindings/python/src")
import colibri, colibri.client
from colibri import Colibri, ColibriError, MemoryStorage
colibri.client._native = lib
VE, PE, RE = colibri.types.VerificationError, colibri.types.ProofError, colibri.RPCError

def run(f):
    try: return True, asyncio.run(f())
    except Exception as e: return False, e
def client(**k): return Colibri(storage=MemoryStorage(), **k)
def faults(what, d):
    for f in lib.ended(): violation(f"{what}:{f}", d)
names = lambda k, n: [f"https://{k}{i}.test" for i in range(n)]
base = lambda u: "/".join(u.split("/")[:3])
B4 = ["good", "bad", "500", "reject", "timeout"]
body = lambda b: (200, b"good") if b == "good" else (200, b"bad") if b == "bad" else (500, b"oops") if b == "500" else "timeout" if b == "timeout" else None
def pool_of(t, cfg, via):
    if t == "checkpointz": return cfg["checkpointz"]
    if t == "beacon_api": return cfg["provers"] if via == "verify" and cfg["provers"] else cfg["beacon_apis"]
    if t == "prover": return cfg["provers"]
    return cfg["eth_rpcs"]
def spec(t, **o): return dict(dict(type=t, url="eth/v1/x?y=1", method="get", encoding="json", good=b"good"), **o)
async def go(cl, via): return await (cl.verify_proof(b"\x01\x02", "eth_x", [1]) if via == "verify" else cl.create_proof("eth_x", [1]))

def request_case(t, cfg, pool, beh, o, via, what):
    sp = spec(t, **o); lib.reset(verify=dict(rounds=[[sp]], result="0x7"), prove=dict(rounds=[[sp]], proof=b"\1\0\xff")); net.calls = []
    seen = dict(again=None, alien=None, wrong=None); bad = set()
    def behave(c):
        b = base(c.url)
        if b not in pool: seen["alien"] = c.url; return None
        if b in bad: seen["again"] = c.url
        want = b + "/" + sp["url"].lstrip("/") if sp["url"] else b
        if c.url != want: seen["wrong"] = f"{c.url} instead of {want}"
        if c.method != sp["method"].upper(): seen["wrong"] = "method " + c.method
        if (c.body or None) != sp.get("payload"): seen["wrong"] = f"payload {c.body}"
        if (c.accept == "application/octet-stream") != (sp["encoding"] == "ssz"): seen["wrong"] = f"accept {c.accept}"
        x = beh[pool.index(b)]
        if x == "bad": bad.add(b)
        return body(x)
    net.behave = behave
    cl = client(chain_id=1, **cfg)
    ok, v = run(lambda: go(cl, via))
    d = f"{what} type={t} via={via} servers={list(zip(pool, beh))} -> {v!r}"
    sample(d); outcome((t, via, beh, ok, len(net.calls)))
    can = "good" in beh
    if not ok and "STUCK" in str(v): violation("py-request:never-ends", d)
    elif can and not ok: violation("py-request:fails-although-a-server-answers", d)
    elif ok and not can: violation("py-request:succeeds-without-answer", d)
    if not ok and not isinstance(v, VE if via == "verify" else PE): violation("py-request:other-exception", d)
    if ok and v != ("0x7" if via == "verify" else b"\1\0\xff"): violation("py-request:other-result", d)
    if seen["again"]: violation("py-request:excluded-server-asked-again", d + seen["again"])
    if seen["alien"]: violation("py-request:server-not-configured", d + seen["alien"])
    if seen["wrong"]: violation("py-request:wrong-request", d + seen["wrong"])
    faults("py-request", d)

for t in ("checkpointz", "beacon_api", "prover", "eth_rpc"):
    if section("client/servers-" + t):
        for n in range(0, (6 if S.thorough else 5)):
            for other in (0, 1):
                for via in ("verify", "prove"):
                    cfg = dict(checkpointz=names("c", other), beacon_apis=names("b", other), provers=names("p", other), eth_rpcs=names("r", other))
                    k = {"checkpointz": "checkpointz", "prover": "provers", "eth_rpc": "eth_rpcs", "beacon_api": "provers" if via == "verify" and other else "beacon_apis"}[t]
                    cfg[k] = names("s", n)
                    pool = pool_of(t, cfg, via)
                    for beh in product(B4 if n < 4 else B4[:4], repeat=len(pool)):
                        if next_(): request_case(t, cfg, pool, beh, {}, via, "servers")
if section("client/excluded"): # nodes excluded before: none of them is asked, each of the others is as long as no one answers
    for t, n in product(("checkpointz", "beacon_api", "prover", "eth_rpc"), range(1, 6 if S.thorough else 5)):
        for mask, via in product(range(1 << n), ("verify", "prove")):
            for good in range(n + 1):
                if not next_(): continue
                cfg = dict(checkpointz=names("s", n), beacon_apis=names("s", n), provers=names("s", n), eth_rpcs=names("s", n)); pool = names("s", n)
                lib.reset(verify=dict(rounds=[[spec(t, mask=mask)]], result="0x7"), prove=dict(rounds=[[spec(t, mask=mask)]], proof=b"x")); net.calls = []
                net.behave = lambda c: (200, b"good") if pool.index(base(c.url)) == good else (500, b"oops")
                ok, v = run(lambda: go(client(chain_id=1, **cfg), via))
                asked = {pool.index(base(c.url)) for c in net.calls}; free = {i for i in range(n) if not mask >> i & 1}
                d = f"{t} {via} {n} servers, excluded {mask:b}, server {good} answers, asked {sorted(asked)} -> {v!r}"; outcome((t, via, n, mask, good, ok)); sample(d)
                if asked - free: violation("py-request:excluded-server-asked-again", d)
                if ok != (good in free): violation("py-request:fails-although-a-server-answers" if not ok else "py-request:succeeds-without-answer", d)
                if not ok and free - asked: violation("py-request:server-not-tried", d)
                faults("py-request", d)
if section("client/forms"):
    cfg = dict(checkpointz=names("c", 2), beacon_apis=names("b", 2), provers=names("p", 2), eth_rpcs=names("r", 2))
    for t, url, enc, pl, beh, via, slash in product(["checkpointz", "beacon_api", "prover", "eth_rpc", "rest_api"], ["", "a/b", "/a/b", "a?x=1&y=%20"], ["json", "ssz"], [None, dict(jsonrpc="2.0", method="eth_x", params=["0x1", {"a": ["ü€😀"]}], id=1)], [("good", "good"), ("bad", "good"), ("500", "good"), ("bad", "bad")], ["verify", "prove"], [0]):
        if next_(): request_case(t, cfg, pool_of(t, cfg, via), beh, dict(url=url, encoding=enc, payload=pl, method="post" if pl else "get"), via, "forms")
if section("client/rounds"):
    B = ["good", "bad", "reject"]
    for shape in ([2], [1, 1], [2, 1], [1, 2]):
        for beh in product(B, repeat=2 * sum(shape)):
            for via, ts in product(["verify", "prove"], [("beacon_api", "eth_rpc"), ("eth_rpc", "eth_rpc")]):
                if not next_(): continue
                k = 0; rounds = []
                for n in shape:
                    rounds.append([spec(ts[(k + i) % 2], url=f"q{k+i}", good=b"good%d" % (k + i)) for i in range(n)]); k += n
                lib.reset(verify=dict(rounds=rounds, result={"a": [1, None]}), prove=dict(rounds=rounds, proof=b"x")); net.calls = []
                def behave(c):
                    q, s = int(c.url.rsplit("q", 1)[1]), int(base(c.url)[9]); b = beh[2 * q + s]
                    return (200, b"good%d" % q) if b == "good" else (200, b"bad") if b == "bad" else None
                net.behave = behave
                ok, v = run(lambda: go(client(chain_id=1, checkpointz=[], provers=[], beacon_apis=names("b", 2), eth_rpcs=names("r", 2)), via))
                can = all("good" in beh[2 * i:2 * i + 2] for i in range(k))
                d = f"rounds {shape} {ts} {via} {beh} -> {v!r}"; outcome((tuple(shape), ts, beh, ok))
                if not ok and "STUCK" in str(v): violation("py-request:never-ends", d)
                elif ok != can: violation("py-request:fails-although-a-server-answers" if can else "py-request:succeeds-without-answer", d)
                faults("py-request", d)
# what the library says is what the caller gets
RES = [None, False, 0, "0x1", "", {"a": {"b": [1, None, "é"]}}, [], ["0x", {}]]
if section("client/verdict"):
    raws = ['{"status":"success","result":%s}' % json.dumps(r) for r in RES] + ['{"status":"error","error":"bad \\"proof\\""}', '{"status":"error"}', '{"status":"error","error":null}', '{"status":"weird"}', "", "{", "null", "[]", '{"result":"0x1"}', '{"status":"success"}', '{"status":null,"result":"0x1"}']
    for raw, via in product(raws, ["verify", "prove"]):
        if not next_(): continue
        lib.reset(verify=dict(raw=raw), prove=dict(raw=raw, proof=b"P")); net.calls = []
        ok, v = run(lambda: go(client(chain_id=1), via))
        try: st = json.loads(raw); succ = isinstance(st, dict) and st.get("status") == "success"
        except Exception: succ = False
        d = f"status text {raw!r} via {via} -> {v!r}"; outcome((raw, via, ok, repr(v)))
        if ok != succ: violation("py-verdict:success-without-success" if ok else "py-verdict:success-refused", d)
        elif ok and v != (st.get("result") if via == "verify" else b"P"): violation("py-verdict:other-result", d)
        elif not ok and not isinstance(v, VE if via == "verify" else PE): violation("py-verdict:other-exception", d)
        faults("py-verdict", d)
PB = ["ok", "500", "reject", "timeout"]
RB = ["ok", "oknull", "err", "errstr", "500", "reject", "junk"]
def rpc_body(b, v):
    return {"ok": (200, json.dumps(dict(id=1, jsonrpc="2.0", result=v)).encode()), "oknull": (200, json.dumps(dict(id=1, jsonrpc="2.0", error=None, result=v)).encode()), "err": (200, b'{"id":1,"error":{"code":-32000,"message":"node says no"}}'),
            "errstr": (200, b'{"error":"node says no"}'), "500": (500, b"x"), "junk": (200, b"<html>"), "reject": None}[b]
ARGS = [[], ["0x1"], ["ü€😀", {"x": [1, None, True]}], [{"address": "0xAb", "topics": [None, ["0x1"]]}, "latest"], ['a"\\\n\u0001']]
def rpc_case(t, pb, rb, res, args, what, fail=False, prove_fail=False, cp=None, chain=1, code=False):
    lib.reset(type=t, verify=dict(final="error", error="bad proof") if fail else dict(result=res), prove=dict(final="error", error="no proof") if prove_fail else dict(proof=b"\7\0\7")); net.calls = []
    seen, wrong = [], []
    def behave(c):
        k, i = base(c.url)[8], int(base(c.url)[9]); seen.append(k + str(i))
        j = c.body if isinstance(c.body, dict) else {}
        if c.method != "POST" or j.get("method") != "eth_test" or j.get("params") != args or j.get("jsonrpc") != "2.0" or c.url != base(c.url) or (c.accept == "application/octet-stream") != (k == "p"): wrong.append(repr(c))
        if k == "p": b = pb[i]; return (200, bytes([0, 200, i])) if b == "ok" else body(b)
        return rpc_body(rb[i], ["rpc", i])
    net.behave = behave
    cl = client(chain_id=chain, provers=names("p", len(pb)), eth_rpcs=names("r", len(rb)), beacon_apis=[], checkpointz=[], trusted_checkpoint=cp, include_code=code)
    ok, v = run(lambda: cl.rpc("eth_test", args))
    d = f"{what} type={t} provers={pb} rpcs={rb} res={res!r} args={args!r} fail={fail} prove_fail={prove_fail} chain={chain} cp={cp} -> {v!r}"
    sample(d); outcome((t, pb, rb, ok, repr(v), tuple(seen)))
    fp = pb.index("ok") if "ok" in pb else -1
    fr = next((i for i, b in enumerate(rb) if b in ("ok", "oknull")), -1)
    proof = None; want = None
    if t == 2: can, want = fr >= 0, ["rpc", fr]
    elif t == 1: can = (fp >= 0 or not prove_fail) and not fail; proof = bytes([0, 200, fp]) if fp >= 0 else b"\7\0\7"; want = res
    elif t == 4: can, want, proof = not fail, res, b""
    else: can = False
    if ok != can: violation("py-rpc:answer-without-verification" if ok else "py-rpc:fails-although-answerable", d)
    elif ok and v != want: violation("py-rpc:other-answer", d)
    elif not ok and not isinstance(v, ColibriError): violation("py-rpc:other-exception", d)
    if wrong: violation("py-rpc:wrong-request", d + wrong[0])
    ver = [i for k, i in lib.log if k == "verify"]
    if ok and t != 2:
        if len(ver) != 1: violation("py-rpc:not-verified", d)
        else:
            i = ver[0]
            if i["proof"] != proof or i["method"] != "eth_test" or json.loads(i["args"]) != args or i["chain"] != chain or (i["cp"] or None) != cp: violation("py-rpc:verified-something-else", d + repr(i))
    for k, i in lib.log:
        if k == "prove" and (i["method"] != "eth_test" or json.loads(i["args"]) != args or i["chain"] != chain or i["flags"] != (1 if code else 0)): violation("py-rpc:proved-something-else", d + repr(i))
    if t != 2 and any(s[0] == "r" for s in seen): violation("py-rpc:unverified-server-asked", d)
    if t != 1 and any(s[0] == "p" for s in seen): violation("py-rpc:prover-asked", d)
    k = "r" if t == 2 else "p"; f = fr if t == 2 else fp; lst = rb if t == 2 else pb
    if seen != [f"{k}{i}" for i in range(len(seen))] or len(seen) > (len(lst) if f < 0 else f + 1): violation("py-rpc:server-order", d + repr(seen))
    if not ok and t == 2 and rb and all(b == "err" for b in rb) and not (isinstance(v, RE) and v.code == -32000 and "node says no" in str(v)): violation("py-rpc:error-of-the-node-lost", d)
    faults("py-rpc", d)
if section("client/rpc-provers"):
    for n in range(0, (6 if S.thorough else 5)):
        for pb in product(PB, repeat=n):
            for fail, pf, t in product([False, True], [False, True], range(0, 5)):
                if next_(): rpc_case(t, pb, ("ok",), "0x5", ["0x1"], "provers", fail=fail, prove_fail=pf)
if section("client/rpc-nodes"):
    for n in range(0, (5 if S.thorough else 4)):
        for rb in product(RB, repeat=n):
            if next_(): rpc_case(2, ("ok",), rb, "0x5", ["0x1"], "nodes")
if section("client/rpc-values"):
    for t, res, args, cp, chain, pb, code in product([1, 2, 4], RES, ARGS, [None, "0x" + "ab" * 32], [1, 100, 11155111], [("500", "ok"), ()], [False, True]):
        if next_(): rpc_case(t, pb, ("ok",), res, args, "values", cp=cp, chain=chain, code=code)
mc.finish()

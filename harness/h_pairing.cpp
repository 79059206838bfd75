// C28: the Groth16 verification itself (zk_verifier.c and bn254.c) against arithmetic on discrete logarithms: every point
// is a known multiple of a generator, so the verification equation is decided by numbers modulo the group order.
#include "ref.hpp"
#include "repo.hpp"
#include <boost/multiprecision/cpp_int.hpp>
extern "C" {
#include "zk_verifier.h"
#include "bn254.h"
}
using namespace mc; using ref::unhex;
typedef boost::multiprecision::cpp_int Z;
static std::string I(uint64_t x) { return std::to_string(x); }
static const Z P("21888242871839275222246405745257275088696311157297823662689037894645226208583"), R("21888242871839275222246405745257275088548364400416034343698204186575808495617");
static Z mod(const Z& a, const Z& m) { Z r = a % m; return r < 0 ? Z(r + m) : r; }
static Z pw(Z b, Z e, const Z& m) { Z r = 1; b = mod(b, m); while (e > 0) { if ((e & 1) != 0) r = r * b % m; b = b * b % m; e >>= 1; } return r; }
static Z inv(const Z& a, const Z& m) { return pw(a, m - 2, m); }
struct F2 { Z a, b; };
static F2 operator+(const F2& x, const F2& y) { return {mod(x.a + y.a, P), mod(x.b + y.b, P)}; }
static F2 operator-(const F2& x, const F2& y) { return {mod(x.a - y.a, P), mod(x.b - y.b, P)}; }
static F2 operator*(const F2& x, const F2& y) { return {mod(x.a * y.a - x.b * y.b, P), mod(x.a * y.b + x.b * y.a, P)}; }
static F2 inv(const F2& x) { Z n = inv(Z(mod(x.a * x.a + x.b * x.b, P)), P); return {mod(x.a * n, P), mod(-x.b * n, P)}; }
static bool operator==(const F2& x, const F2& y) { return x.a == y.a && x.b == y.b; }
struct Pt { bool inf = true; F2 x, y; }; // G1 lives in the base field (b = 0)
static Pt add(const Pt& p, const Pt& q) {
  if (p.inf) return q;
  if (q.inf) return p;
  F2 l;
  if (p.x == q.x) { if (!(p.y == q.y) || (p.y == F2{0, 0})) return {}; l = (p.x * p.x + p.x * p.x + p.x * p.x) * inv(p.y + p.y); }
  else l = (q.y - p.y) * inv(q.x - p.x);
  Pt r; r.inf = false; r.x = l * l - p.x - q.x; r.y = l * (p.x - r.x) - p.y; return r;
}
static Pt mul(Pt p, Z k) { k = mod(k, R); Pt r; while (k > 0) { if ((k & 1) != 0) r = add(r, p); p = add(p, p); k >>= 1; } return r; }
static const Pt G1{false, {1, 0}, {2, 0}};
static const Pt G2{false, {Z("10857046999023057135944570762232829481370756359578518086990519993285655852781"), Z("11559732032986387107991004021392285783925812861821192530917403151452391805634")},
                   {Z("8495653923123431417604973247489272438418190587263600148770280649306958101930"), Z("4082367875863433681332203403145435568316851327593401208105741076214120093531")}};
static Bytes be(const Z& v) { Bytes r(32); Z x = v; for (int i = 31; i >= 0; i--) { r[i] = (uint8_t) (unsigned) (x & 255); x >>= 8; } return r; }
static Z num(const Bytes& b) { Z r = 0; for (auto x : b) r = r * 256 + x; return r; }
static void app(Bytes& a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); }
static const Bytes& g1(const Z& k) { static std::map<Z, Bytes> m; Z q = mod(k, R); auto it = m.find(q); if (it != m.end()) return it->second; Pt p = mul(G1, q); Bytes r = be(p.inf ? Z(0) : p.x.a); app(r, be(p.inf ? Z(0) : p.y.a)); return m[q] = r; }
static const Bytes& g2(const Z& k) { static std::map<Z, Bytes> m; Z q = mod(k, R); auto it = m.find(q); if (it != m.end()) return it->second; Pt p = mul(G2, q); Bytes r; for (auto& c : {p.x.b, p.x.a, p.y.b, p.y.a}) app(r, be(c)); return m[q] = r; }
static Bytes raw(const Bytes& e) { Bytes r(128); for (int i = 0; i < 4; i++) memcpy(&r[32 * (i ^ 1)], &e[32 * i], 32); return r; }
static bn254_g1_t p1(const Z& k) { bn254_g1_t p; if (!bn254_g1_from_bytes(&p, g1(k).data())) violation("pairing:point:rejected", "G1 " + k.str()); return p; }
static bn254_g2_t p2(const Z& k) { bn254_g2_t p; if (!bn254_g2_from_bytes_eth(&p, g2(k).data())) violation("pairing:point:rejected", "G2 " + k.str()); return p; }
static uint256_t sc(const Z& k) { uint256_t r; Bytes b = be(k); memcpy(r.bytes, b.data(), 32); return r; }
static Bytes out(const bn254_g1_t& p) { Bytes r(64); bn254_g1_to_bytes(&p, r.data()); return r; }
static Z big(int i) { static const Z v[] = {R - 1, (R - 1) / 2, Z(1) << 128, (Z(1) << 253) + 12345, R - 7, P % R}; return v[i]; }
struct Rec { const char *proof, *pub; };
static const Rec REC[] = {
  {"a4594c590b666460ee63f686d41c571bc602567c95778b737fb7e02b46418444ce01501f06f90e69f556fca4b2956e377901aa9f3e6700156aa877fde44fa19f28fd0b9d2c257ad76ffc1abbbb1b74b1a439811bbfa092cedcdc460029b1aac356d2fba5294a192e8bd597e8978b703d5344be7ee98721c1acc62bc9b891c145832e0a6a20f1efbf7991ca335360b2d17c79312fbe40c13ee986ad46096b41042d4c30f30eb3438093b8e29f22db7f2b0e9793021bada1dc6ee353ab071661efdf950b7a1ab338e2e876cb9921e8f54af69ed71349d317bbcbc5f8be4913aea9b5042c4c17dbad6911872464cbf36ba84e94a5b23ebad6557406104613611558b56b77ab",
   "908c6572059da36bb66bac9a7159b7c91e020f2574a2d655f2302985e5282483cb2238804f1926599706bcffeb15c5d7c89865950befd39b9ac8b6e97dfc9507540600000000000065aa0b7ed70150a5bed44771607f6b5f7988be8655b6c1d2ca45b45d57960f9c0700000082fae541f8a3db43adb5e7997ac5f562cf682ce6bc41b8ec28ba1a07"},
  {"a4594c5914c5ec0bb2148173c3631b4668d41426598e863c2be1442bfe74885c8f6818041820c4e40059a3e7bcb0e2291285b404fe83659641ad207e715f82472f10167a00e3eb1248123c4d1152eff9e5a50073e149365f2e5da37cb89ac84bb061905b109bfc72ca325b036cfa69ebfb6cca4880be5888d8d29bc66a8d4e1f664f990d0da83507e8bba7b48ef5611a713b64239862f1386ada0942833ebf2412f360fb024c0da4b60d05623fd40fdb8e31e99c801b78590bdc9ce2f1e9e269a4e473c22161cd68da52ba0376b66ff2bd635d45fca0a1edb2d3d66ca20552d6abb3d6f5102bfb18db5512c99a0b5d90b1d0970d662418df1e77534dfae6c34e5bedff2a",
   "908c6572059da36bb66bac9a7159b7c91e020f2574a2d655f2302985e528248301c8e9595bd6f363346c8e004903f430cabb64bbd6bbb40306dc2fe0c837772755060000000000002a7381eb85d5a754138faf83bc21c42e21b70b532a16efb5c3cdbda15b54350d0700000082fae541f8a3db43adb5e7997ac5f562cf682ce6bc41b8ec28ba1a07"},
};
static const char* PROGRAM = "00a1d4386b675ba7417eb7da45273b8263093c4470086b9eef10bf28ced86aaf";
static bool check(const Bytes& proof, const Bytes& pub, const Bytes& prog) { steps++; Bytes a = proof, b = pub, c = prog; return c4_verify_zk_proof(bytes(a.data(), (uint32_t) a.size()), bytes(b.data(), (uint32_t) b.size()), c.data()); }
// a verification key of which all logarithms are known
struct Vk { Z alpha, beta, gamma, delta, ic[3]; Bytes prog; };
static Vk make(int v) {
  static const int C[][7] = {{1, 1, 1, 1, 1, 1, 1}, {2, 3, 5, 7, 11, 13, 17}, {-1, 1, -1, 1, -1, 1, -1}, {4, 4, 4, 4, 4, 4, 4}, {9, -2, 6, 1, 3, -8, 2}, {1, 2, 1, 2, 1, 2, 1}};
  Vk k{C[v][0], C[v][1], C[v][2], C[v][3], {C[v][4], C[v][5], C[v][6]}, be(Z(v) * (v % 2 ? Z(1) << 200 : Z(1)) + 77)};
  static std::set<int> done;
  if (done.insert(v).second) {
    zk_vk_t t; memset(&t, 0, sizeof t); memcpy(t.program_hash, k.prog.data(), 32);
    t.alpha = p1(k.alpha);
    bn254_g2_from_bytes_raw(&t.beta_neg, raw(g2(-k.beta)).data()); bn254_g2_from_bytes_raw(&t.gamma_neg, raw(g2(-k.gamma)).data()); bn254_g2_from_bytes_raw(&t.delta_neg, raw(g2(-k.delta)).data());
    bn254_g1_t ic[3]; for (int i = 0; i < 3; i++) ic[i] = p1(k.ic[i]);
    t.ic_count = 3; t.ic = ic; c4_zk_register_vk(&t); memset(ic, 0x55, sizeof ic);
  }
  return k;
}
static Z input(const Bytes& pub) { Bytes h = ref::sha256(pub); h[0] &= 0x1f; return num(h); }
static Z lin(const Vk& k, const Bytes& pub) { return mod(k.ic[0] + k.ic[1] * num(k.prog) + k.ic[2] * input(pub), R); }
static Z solve(const Vk& k, const Bytes& pub, const Z& x, const Z& y) { return mod((x * y - k.alpha * k.beta - k.gamma * lin(k, pub)) * inv(mod(k.delta, R), R), R); }
static Bytes proof(const Z& x, const Z& y, const Z& z) { Bytes r = {0x11, 0x22, 0x33, 0x44}; app(r, g1(x)); app(r, g2(y)); app(r, g1(z)); return r; }
static Bytes pubs(int i) { Bytes r; for (int k = 0; k < (i % 4 == 3 ? 136 : i % 4 * 45); k++) r.push_back((uint8_t) (i * 31 + k * 7)); r.push_back((uint8_t) i); return r; }
int main(int argc, char** argv) {
  init(argc, argv);
  quiet_stderr();
  bn254_init();
  std::vector<Z> ks; for (int i = -6; i <= 6; i++) if (i) ks.push_back(mod(i, R)); for (int i = 0; i < 6; i++) ks.push_back(big(i));
  if (section("pairing/g1-add")) // all pairs, with affine and with computed points
    for (size_t a = 0; a <= ks.size(); a++)
      for (size_t b = 0; b <= ks.size(); b++)
        for (int form = 0; form < 4; form++) {
          if (!next()) continue;
          Z ka = a < ks.size() ? ks[a] : Z(0), kb = b < ks.size() ? ks[b] : Z(0); uint256_t s;
          bn254_g1_t x, y, r; bn254_g1_t g = p1(3); Z i3 = inv(Z(3), R);
          if (form & 1 || ka == 0) { s = sc(mod(ka * i3, R)); bn254_g1_mul(&x, &g, &s); } else x = p1(ka);
          if (form & 2 || kb == 0) { s = sc(mod(kb * i3, R)); bn254_g1_mul(&y, &g, &s); } else y = p1(kb);
          std::string d = ka.str() + " + " + kb.str() + " form " + I(form);
          bn254_g1_add(&r, &x, &y); Bytes w = g1(ka + kb);
          if (out(r) != w) violation("pairing:g1-add:wrong", d);
          if (!bn254_g1_is_on_curve(&r)) violation("pairing:g1-add:off-curve", d);
          bn254_g1_add(&x, &x, &y);
          if (out(x) != w) violation("pairing:g1-add:in-place-wrong", d);
          outcome(hash64(w));
        }
  if (section("pairing/g1-mul")) {
    std::vector<Z> ss; for (int i = 0; i <= 40; i++) ss.push_back(i);
    for (int i = 6; i < 256; i++) for (int e : {-1, 0, 1}) ss.push_back((Z(1) << i) + e);
    for (int e = -3; e <= 3; e++) for (int f : {1, 2, 5}) ss.push_back(R * f + e);
    ss.push_back((Z(1) << 256) - 1);
    for (auto& s : ss)
      for (int b = 0; b < 4; b++) {
        if (!next()) continue;
        Z k = b < 3 ? ks[b * 5] : Z(0); bn254_g1_t x, r; if (b < 3) x = p1(k); else memset(&x, 0, sizeof x);
        uint256_t q = sc(s); bn254_g1_mul(&r, &x, &q);
        outcome(hash64(out(r)));
        if (out(r) != g1(k * s)) violation("pairing:g1-mul:wrong", k.str() + " * " + s.str());
      }
  }
  if (section("pairing/product")) { // two pairs: the product of the pairings is one exactly if the sum of the products of the logarithms is zero
    std::vector<Z> s; for (int i = -(thorough ? 4 : 3); i <= (thorough ? 4 : 3); i++) if (i) s.push_back(mod(i, R));
    for (auto& a : s) for (auto& b : s) for (auto& c : s) for (auto& d : s) {
      if (!next()) continue;
      bn254_g1_t p[2] = {p1(a), p1(c)}; bn254_g2_t q[2] = {p2(b), p2(d)};
      bool w = mod(a * b + c * d, R) == 0, g = bn254_pairing_batch_check(p, q, 2); steps++;
      outcome(hash64(a.str() + b.str() + c.str() + d.str()));
      if (w != g) violation(w ? "pairing:product:one-not-recognised" : "pairing:product:one-claimed", a.str() + "*" + b.str() + " + " + c.str() + "*" + d.str());
    }
  }
  if (section("pairing/product-large")) // one to four pairs with large logarithms, the last one closing the sum or missing it
    for (int n = 1; n <= 4; n++)
      for (int x = 0; x < 6; x++)
        for (int y = 0; y < 6; y++)
          for (int e = -1; e <= 1; e++) {
            if (!next()) continue;
            bn254_g1_t p[4]; bn254_g2_t q[4]; Z sum = 0;
            for (int i = 0; i + 1 < n; i++) { Z a = big((x + i) % 6), b = big((y + 2 * i) % 6) * (i + 1); sum += a * b; p[i] = p1(a); q[i] = p2(b); }
            Z b = big(y) + 5, a = mod(-sum * inv(mod(b, R), R) + e, R); if (a == 0) continue; // neutral elements are no inputs
            p[n - 1] = p1(a); q[n - 1] = p2(b);
            bool w = e == 0, g = bn254_pairing_batch_check(p, q, n); steps++;
            if (w != g) violation(w ? "pairing:product-large:one-not-recognised" : "pairing:product-large:one-claimed", "pairs=" + I(n) + " x=" + I(x) + " y=" + I(y) + " e=" + std::to_string(e));
          }
  if (section("pairing/computed")) // inputs that are results of computations
    for (auto& a : ks) for (auto& b : ks) {
      if (!next()) continue;
      bn254_g1_t g = p1(5), p[2]; uint256_t s = sc(mod(a * inv(Z(5), R), R)); bn254_g1_mul(&p[0], &g, &s); p[1] = p1(-a * b); bn254_g2_t q[2] = {p2(b), p2(1)};
      if (!bn254_pairing_batch_check(p, q, 2)) violation("pairing:computed:one-not-recognised", a.str() + "*" + b.str());
      p[1] = p1(a * b); if (bn254_pairing_batch_check(p, q, 2)) violation("pairing:computed:one-claimed", a.str() + "*" + b.str());
      steps += 2;
    }
  if (section("pairing/point-bits")) // a point with one bit changed is no point of the curve
    for (int g = 1; g <= 2; g++)
      for (size_t k = 0; k < (thorough ? ks.size() : 6); k++)
        for (int i = 0; i < (g == 1 ? 512 : 1024); i++) {
          if (!next()) continue;
          Bytes b = g == 1 ? g1(ks[k]) : g2(ks[k]); b[i / 8] ^= (uint8_t) (1 << (i % 8));
          bn254_g1_t x; bn254_g2_t y;
          if (g == 1 ? bn254_g1_from_bytes(&x, b.data()) : bn254_g2_from_bytes_eth(&y, b.data())) violation("pairing:point-bits:accepted", "G" + I(g) + " point=" + ks[k].str() + " bit=" + I(i));
          outcome(hash64(b));
        }
  if (section("pairing/small-points")) // small coordinates
    for (int x = 0; x < 60; x++) for (int y = 0; y < 60; y++) {
      if (!next()) continue;
      Bytes b = be(x); app(b, be(y)); bn254_g1_t p; bool w = mod(Z(x) * x * x + 3 - Z(y) * y, P) == 0, g = bn254_g1_from_bytes(&p, b.data());
      if ((x || y) && w != g) violation("pairing:small-points:wrong", I(x) + "," + I(y));
      Bytes c = be(x); app(c, be(y)); app(c, b); bn254_g2_t q;
      if ((x || y) && bn254_g2_from_bytes_eth(&q, c.data())) violation("pairing:small-points:g2-accepted", I(x) + "," + I(y));
    }
  if (section("groth16/equation")) // every small A and B, the C that satisfies the equation and its neighbours
    for (int v = 0; v < 6; v++)
      for (int x = -3; x <= 3; x++)
        for (int y = -3; y <= 3; y++)
          for (int e = -1; e <= 1; e++) {
            if (!x || !y) continue;
            if (!next()) continue;
            Vk k = make(v); Bytes pub = pubs(x * 7 + y + 40); Z z = mod(solve(k, pub, x, y) + e, R); std::string d = "vk=" + I(v) + " A=" + std::to_string(x) + " B=" + std::to_string(y) + " C off by " + std::to_string(e);
            bool g = check(proof(x, y, z), pub, k.prog); outcome(hash64(z.str()));
            sample(d + (g ? " accepted" : " rejected"));
            if (g != (e == 0)) violation(g ? "groth16:equation:accepted" : "groth16:equation:rejected", d);
          }
  if (section("groth16/edits"))
    for (int v = 0; v < 6; v++)
      for (int n = 0; n < 4; n++)
        for (int e = 0; e < 14; e++) {
          if (!next()) continue;
          Vk k = make(v); Bytes pub = pubs(n), prog = k.prog; Z x = big(n), y = big(n + 1) + 3, z = solve(k, pub, x, y); Bytes p = proof(x, y, z); bool w = false;
          auto put = [&](const Z& a, const Z& b, const Z& c) { p = proof(a, b, c); w = mod(a * b - k.alpha * k.beta - k.gamma * lin(k, pub) - c * k.delta, R) == 0; };
          switch (e) {
            case 0: w = true; break;
            case 1: put(-x, y, z); break;
            case 2: put(x, -y, z); break;
            case 3: put(x, y, -z); break;
            case 4: put(z, y, x); break;
            case 5: pub = pubs(n + 1); break;
            case 6: pub.push_back(0); break;
            case 7: pub.pop_back(); break;
            case 8: prog = make((v + 1) % 6).prog; break;
            case 9: prog = unhex(PROGRAM); break;
            case 10: prog[31] ^= 1; break;
            case 11: put(-x, -y, -z); break;
            case 12: put(-x, -y, z); break; // the same statement
            case 13: put(x * 2, y * inv(Z(2), R), z); break;
          }
          std::string d = "vk=" + I(v) + " inputs=" + I(n) + " edit=" + I(e);
          bool g = check(p, pub, prog);
          if (g != w) violation(g ? "groth16:edits:accepted" : "groth16:edits:rejected", d);
          for (int vv = 0; vv < 6 && e == 0; vv++) if (vv != v && check(p, pub, make(vv).prog)) violation("groth16:edits:other-key-accepted", d);
        }
  if (section("groth16/recorded")) // proofs made by the real prover
    for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) {
      if (!next()) continue;
      bool g = check(unhex(REC[a].proof), unhex(REC[b].pub), unhex(PROGRAM));
      if (g != (a == b)) violation("groth16:recorded", I(a) + " " + I(b));
      if (a == b && !verify_zk_proof(bytes(unhex(REC[a].proof).data(), 260), bytes(unhex(REC[b].pub).data(), 136))) violation("groth16:recorded:legacy", I(a));
    }
  if (section("groth16/recorded-bits"))
    for (int a = 0; a < 2; a++)
      for (int i = 0; i < (256 + 136) * 8; i++) {
        if (!next()) continue;
        Bytes p = unhex(REC[a].proof), q = unhex(REC[a].pub);
        if (i < 2048) p[4 + i / 8] ^= (uint8_t) (1 << (i % 8)); else q[(i - 2048) / 8] ^= (uint8_t) (1 << (i % 8));
        if (check(p, q, unhex(PROGRAM))) violation("groth16:recorded-bits:accepted", "proof=" + I(a) + " bit=" + I(i));
        outcome(hash64(p, hash64(q)));
      }
  if (section("groth16/length"))
    for (int n = 0; n <= 600; n++)
      for (int which = 0; which < 2; which++) {
        if (!next()) continue;
        Bytes p = unhex(REC[0].proof), q = unhex(REC[0].pub); Bytes& t = which ? q : p; size_t o = t.size(); t.resize(n);
        if (check(p, q, unhex(PROGRAM)) != (t.size() == o)) violation("groth16:length", (which ? "inputs " : "proof ") + I(n));
      }
  finish();
}

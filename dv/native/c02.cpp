#include "common.h"
#include "lib/Utils/APIntUtils.h"
#include "lib/Utils/MathUtils.h"
#include "llvm/ADT/APInt.h"
#include "llvm/ADT/SmallString.h"
using llvm::APInt;
using namespace mlir::heir;
using namespace dv;
typedef unsigned __int128 u128;
static std::string s(const APInt &a) {
  llvm::SmallString<64> t; a.toStringUnsigned(t, 10);
  return t.str().str() + ":" + std::to_string(a.getBitWidth());
}
static uint64_t mul(uint64_t a, uint64_t b, uint64_t m) { return (u128)a * b % m; }
static uint64_t pw(uint64_t b, uint64_t e, uint64_t m) { uint64_t r = 1 % m; b %= m; for (; e; e >>= 1) { if (e & 1) r = mul(r, b, m); b = mul(b, b, m); } return r; }
// independent primality test: trial division for small n, Baillie-free 7-base Sinclair test above
static bool prime(uint64_t n) {
  if (n < 2) return false;
  for (uint64_t p = 2; p < 60 && p * p <= n; ++p) if (n % p == 0) return false;
  if (n < 3600) return true;
  uint64_t d = n - 1; int s = 0; while (!(d & 1)) d >>= 1, ++s;
  for (uint64_t a : {2ull, 325ull, 9375ull, 28178ull, 450775ull, 9780504ull, 1795265022ull}) {
    a %= n; if (!a) continue;
    uint64_t x = pw(a, d, n); if (x == 1 || x == n - 1) continue;
    bool c = true;
    for (int r = 1; r < s && c; ++r) { x = mul(x, x, n); if (x == n - 1) c = false; }
    if (c) return false;
  }
  return true;
}
static uint64_t nextPrime(uint64_t n) { while (!prime(n)) ++n; return n; }
static unsigned bits(uint64_t v) { unsigned b = 0; while (v) ++b, v >>= 1; return b ? b : 1; }
static unsigned wfor(uint64_t v) { unsigned b = bits(v); switch (rnd(4)) { case 0: return b; case 1: return 64 < b ? b : 64; case 2: return b + rnd(70); default: return b + rnd(3); } }

static void fac(const std::vector<uint64_t> &ps, const APInt &n) {   // ps: sorted distinct prime factors
  begin(str("factorize(", s(n), ")"), ps.empty());
  auto f = factorize(n);
  check(f.size() == ps.size(), str("returned ", f.size(), " factors, there are ", ps.size()));
  for (size_t i = 0; i < ps.size(); ++i) check(f[i].getBitWidth() == n.getBitWidth() && f[i] == APInt(n.getBitWidth(), ps[i]), str("factor ", i, " is ", s(f[i]), ", expected ", ps[i]));
}
static void facw(uint64_t n, unsigned w) {
  std::vector<uint64_t> ps; uint64_t m = n;
  if (n >= 2) { for (uint64_t p = 2; p * p <= m; ++p) if (m % p == 0) { ps.push_back(p); while (m % p == 0) m /= p; } if (m > 1) ps.push_back(m); }
  fac(ps, APInt(w, n));
}
static void ip(uint64_t n, unsigned w) {
  begin(str("isPrime(", n, ":", w, ")"), n < 4);
  bool r = isPrime(APInt(w, n));
  check(r == prime(n), str("returned ", r));
}
static void root(uint64_t q, unsigned w) {
  begin(str("findPrimitiveRoot(", q, ":", w, ")"), q == 2);
  auto g = findPrimitiveRoot(APInt(w, q));
  check(g.has_value(), "no primitive root returned");
  check(g->getBitWidth() == w && g->getActiveBits() <= 64, "width");
  uint64_t x = g->getZExtValue(); check(x > 0 && x < q, "out of range");
  uint64_t m = q - 1, y = m;
  for (uint64_t p = 2; p * p <= y; ++p) if (y % p == 0) { check(pw(x, m / p, q) != 1, str(x, " does not generate")); while (y % p == 0) y /= p; }
  if (y > 1) check(pw(x, m / y, q) != 1 % q || q == 2, str(x, " does not generate"));
}
static void r2n(uint64_t q, unsigned w, uint64_t n) {
  begin(str("findPrimitive2nthRoot(", q, ":", w, ", ", n, ")"), false);
  auto g = findPrimitive2nthRoot(APInt(w, q), n);
  bool want = n >= 1 && n < (1ull << 63) && (q - 1) % (2 * n) == 0;
  check(g.has_value() == want, want ? "no root although 2n divides q-1" : "a root although 2n does not divide q-1");
  if (!want) return;
  uint64_t r = g->getZExtValue(), m = 2 * n, y = m;
  check(r < q && pw(r, m, q) == 1 % q, str(r, " ^ 2n is not 1"));
  for (uint64_t p = 2; p * p <= y; ++p) if (y % p == 0) { check(pw(r, m / p, q) != 1, str(r, " has smaller order")); while (y % p == 0) y /= p; }
  if (y > 1) check(pw(r, m / y, q) != 1, str(r, " has smaller order"));
}
GROUP(factorize) {
  for (uint64_t n = 0; n < 3000; ++n) { facw(n, bits(n)); facw(n, 64); facw(n, 80); }
  if (thorough) fac({1048573ull}, APInt(64, 1048573ull * 1048573ull));
  for (long k = 0; more() && (thorough || k < 3000); ++k) {
    // product of primes chosen so that trial division is short
    uint64_t a = nextPrime(2 + rnd(5000)), b = nextPrime(2 + rnd(5000)), c = nextPrime(2 + rnd(3000));
    std::set<uint64_t> ps{a, b, c};
    unsigned __int128 v = (u128)a * b * c; 
    while (rnd(3) && v < ((u128)1 << 85)) { v *= a; if (rnd(2)) v *= b; }
    uint64_t hi = v >> 64, lo = (uint64_t)v; uint64_t ww[2] = {lo, hi};
    unsigned bb = hi ? 64 + bits(hi) : bits(lo);
    APInt n(128, llvm::ArrayRef<uint64_t>(ww, 2));
    fac(std::vector<uint64_t>(ps.begin(), ps.end()), n.trunc(bb + rnd(20) > 128 ? 128 : bb + rnd(128 - bb + 1)));
  }
}
GROUP(prime) {
  for (uint64_t n = 0; n < 20000; ++n) { ip(n, bits(n)); ip(n, 64); }
  // strong pseudoprimes to small bases
  for (uint64_t n : {2047ull, 1373653ull, 25326001ull, 3215031751ull, 2152302898747ull, 3474749660383ull, 341550071728321ull,
                     3825123056546413051ull, 561ull, 1105ull, 1729ull, 3186ull, 4033ull, 4681ull, 8321ull, 15841ull, 29341ull, 42799ull, 49141ull, 52633ull, 65281ull, 74665ull, 80581ull, 85489ull, 88357ull, 90751ull, 1194649ull, 12327121ull}) { ip(n, bits(n)); ip(n, 128); }
  for (uint64_t n : {18446744073709551557ull, 18446744073709551533ull, 18446744069414584321ull, 4294967291ull, 2305843009213693951ull}) { ip(n, 64); ip(n, 65); ip(n, 256); }
  for (long k = 0; more() && (thorough || k < 20000); ++k) {
    uint64_t n = rnd() >> rnd(60);
    switch (rnd(5)) { case 0: n |= 1; break; case 1: n = nextPrime((n >> 1) | 1); break;
      case 2: { uint64_t p = nextPrime((n >> 33) | 3); n = p * nextPrime(p + rnd(100)); break; }
      case 3: { uint64_t p = nextPrime((n >> 34) | 3), qq = 2 * p - 1; n = p * qq; break; }
      default: n = (1ull << (1 + rnd(62))) * (1 + rnd(50)) + 1; }
    ip(n, wfor(n));
  }
}
GROUP(roots) {
  for (uint64_t q = 2; q < 1500; ++q) if (prime(q)) { root(q, bits(q)); root(q, 64); for (uint64_t n = 0; n <= q; ++n) if (n < 20 || (q - 1) % (2 * n) == 0 || q < 60) { r2n(q, bits(q), n); r2n(q, 32, n); r2n(q, 64, n);} 
    for (uint64_t n : {q - 1, q, (uint64_t)1 << 31, (uint64_t)1 << 40, (uint64_t)1 << 62, (uint64_t)1 << 63, ~(uint64_t)0, ((uint64_t)1 << 63) + (q - 1) / 2}) { r2n(q, bits(q), n); r2n(q, 32, n); r2n(q, 64, n); r2n(q, 80, n); } }
  for (uint64_t q : {7681ull, 12289ull, 65537ull, 786433ull, 998244353ull, 4293918721ull, 1152921504606830593ull}) { root(q, 64); for (unsigned k = 0; k < 20; ++k) r2n(q, 64, 1ull << k); }
  for (long k = 0; more() && (thorough || k < 2000); ++k) {
    uint64_t n = 1ull << rnd(12), q;
    do q = 2 * n * (1 + rnd(1u << (4 + rnd(20)))) + 1; while (!prime(q));
    unsigned w = wfor(q); root(q, w); r2n(q, w, n); r2n(q, w, 1 + rnd(3 * n)); r2n(q, w, (q - 1) / 2);
  }
}

#include "common.h"
#include "lib/Utils/MathUtils.h"
#include "lib/Utils/Polynomial/NTT.h"
using namespace mlir::heir;
using namespace mlir::heir::polynomial;
using namespace dv;
typedef std::vector<uint64_t> V;
typedef unsigned __int128 u128;
static uint64_t mulm(uint64_t a, uint64_t b, uint64_t q) { return (uint64_t)((u128)a * b % q); }
static uint64_t addm(uint64_t a, uint64_t b, uint64_t q) { return (uint64_t)(((u128)a + b) % q); }
static uint64_t powm(uint64_t a, uint64_t e, uint64_t q) { uint64_t r = 1 % q; for (; e; e >>= 1, a = mulm(a, a, q)) if (e & 1) r = mulm(r, a, q); return r; }
static uint64_t brev(uint64_t i, int w) { uint64_t r = 0; for (int k = 0; k < w; ++k) r |= (i >> k & 1) << (w - 1 - k); return r; }
static bool prime(uint64_t n) {
  if (n < 2) return false;
  for (uint64_t p : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) if (n % p == 0) return n == p;
  uint64_t d = n - 1; int s = 0; while (d % 2 == 0) d /= 2, ++s;
  for (uint64_t a : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) {
    uint64_t x = powm(a, d, n); if (x == 1 || x == n - 1) continue;
    bool ok = false; for (int r = 1; r < s && !ok; ++r) { x = mulm(x, x, n); ok = x == n - 1; }
    if (!ok) return false;
  }
  return true;
}
// a prime q with 2n | q-1, of about the given number of bits; 0 when none was found
static uint64_t primeFor(uint64_t n, int bits) {
  u128 lo = bits == 64 ? ((u128)1 << 63) : ((u128)1 << (bits - 1)), hi = (u128)1 << bits;
  for (int tries = 0; tries < 4000; ++tries) {
    u128 k = (lo + (u128)(rnd() % (uint64_t)(hi - lo))) / (2 * n);
    u128 q = k * 2 * n + 1;
    if (q < hi && q > 2 && prime((uint64_t)q)) return (uint64_t)q;
  }
  return 0;
}
static uint64_t rootOf(uint64_t q, uint64_t n) {
  for (int i = 0; i < 2000; ++i) { uint64_t r = powm(1 + rnd(q - 1), (q - 1) / (2 * n), q); if (powm(r, n, q) == q - 1) return r; }
  return 0;
}
static void one(int w, uint64_t q, uint64_t psi, const V &c, size_t probe) {
  uint64_t n = 1ull << w;
  begin(str("n ", n, " q ", q, " psi ", psi, " coefficients ", n <= 16 ? vec(c) : "random"), n < 2);
  V a = c;
  nttInPlace(a, q, psi);
  check(a.size() == n, "size changed");
  for (size_t k = 0; k < n; ++k) {
    if (probe && rnd(n) >= probe) continue;
    uint64_t x = powm(psi, 2 * brev(k, w) + 1, q), v = 0;
    for (size_t i = n; i-- > 0;) v = addm(mulm(v, x, q), c[i], q);
    check(a[k] == v, str("nttInPlace: slot ", k, " is ", a[k], " instead of ", v));
  }
  inttInPlace(a, q, psi);
  for (size_t k = 0; k < n; ++k) check(a[k] == c[k], str("inttInPlace: coefficient ", k, " is ", a[k], " instead of ", c[k]));
}
static V coef(uint64_t n, uint64_t q) {
  V c; int m = rnd(5);
  for (uint64_t i = 0; i < n; ++i) c.push_back(m == 0 ? q - 1 : m == 1 ? (rnd(2) ? q - 1 : 0) : m == 2 ? rnd(std::min<uint64_t>(q, 3)) : rnd(q));
  return c;
}
GROUP(tiny) {
  begin("lengths 0 and 1", true);
  V e; nttInPlace(e, 17, 3); inttInPlace(e, 17, 3); check(e.empty(), "empty changed");
  for (uint64_t v : {0ull, 5ull, 16ull}) { V o{v}; nttInPlace(o, 17, 16); check(o == V{v}, "length 1 changed by ntt"); inttInPlace(o, 17, 16); check(o == V{v}, "length 1 changed by intt"); }
  // every vector of length 2 over small fields, every root
  for (uint64_t q : {5, 13, 17}) for (uint64_t r = 1; r < q; ++r) if (powm(r, 2, q) == q - 1)
    for (uint64_t x = 0; x < q; ++x) for (uint64_t y = 0; y < q; ++y) one(1, q, r, {x, y}, 0);
  for (uint64_t q : {17ull, 41ull}) for (uint64_t r = 1; r < q; ++r) if (powm(r, 4, q) == q - 1)
    for (int i = 0; i < 300; ++i) one(2, q, r, coef(4, q), 0);
}
GROUP(random) {
  while (more()) {
    int w = 1 + rnd(8); int b = std::max<int>(w + 3, 4 + rnd(61));
    uint64_t q = primeFor(1ull << w, b); if (!q) continue;
    uint64_t psi = rootOf(q, 1ull << w); if (!psi) continue;
    one(w, q, psi, coef(1ull << w, q), 0);
  }
}
GROUP(wide_modulus) {
  while (more()) {
    int w = 1 + rnd(7); uint64_t q = primeFor(1ull << w, 64); if (!q) continue;
    uint64_t psi = rootOf(q, 1ull << w); if (psi) one(w, q, psi, coef(1ull << w, q), 0);
  }
}
GROUP(long_vectors) {
  while (more()) {
    int w = 9 + rnd(6); int b = std::max<int>(w + 3, 20 + rnd(45)); uint64_t q = primeFor(1ull << w, b); if (!q) continue;
    uint64_t psi = rootOf(q, 1ull << w); if (psi) one(w, q, psi, coef(1ull << w, q), 6);
  }
}

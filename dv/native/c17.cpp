#include "common.h"
#include "lib/Utils/MathUtils.h"
#include "lib/Utils/Polynomial/ChebyshevPatersonStockmeyer.h"
#include "lib/Utils/Polynomial/NTT.h"
using namespace mlir::heir;
using namespace dv;
static uint64_t near2(unsigned k) { return (k >= 64 ? 0 : 1ull << k) + rnd(5) - 2; }
static uint64_t pick() {
  switch (rnd(4)) {
    case 0: return near2(rnd(65));
    case 1: return rnd();
    case 2: return rnd() >> rnd(64);
    default: return (1ull << rnd(64)) | (1ull << rnd(64)) | (rnd(2) ? 1ull << rnd(64) : 0);
  }
}
static void np(uint64_t v) {
  if (v > (1ull << 63)) return;
  begin(str("nextPowerOfTwo(", v, ")"), v < 2);
  uint64_t r = nextPowerOfTwo(v), w = 0;
  if (v) for (w = 1; w < v; w *= 2) {}
  check(r == w, str("returned ", r, ", least power of two is ", w));
}
static void ip(int64_t n) {
  begin(str("isPowerOfTwo(", n, ")"), n < 2);
  bool w = false;
  for (int k = 0; k < 63; ++k) w |= n == (int64_t)(1ull << k);
  check(isPowerOfTwo(n) == w, str("returned ", isPowerOfTwo(n)));
}
static void sd(int64_t n) {
  if (n <= 0) return;
  begin(str("splitDegree(", n, ")"), n < 2);
  auto [a, b] = polynomial::splitDegree(n);
  check(a >= 0 && b >= 0 && a + b == n, str("returned ", a, ", ", b));
  if (n > 1) check(a < n && b < n && a - b < n && b - a < n, str("returned ", a, ", ", b, ": does not terminate the recursion"));
}
static void rb(uint32_t n, uint32_t w) {
  if (w < 32) n &= (1u << w) - 1;
  begin(str("reverseBits(", n, ",", w, ")"), n == 0);
  uint32_t r = polynomial::reverseBits(n, w), x = 0;
  for (uint32_t i = 0; i < w; ++i) if (n >> i & 1) x |= 1u << (w - 1 - i);
  check(r == x, str("returned ", r, ", mirror image is ", x));
  check(polynomial::reverseBits(r, w) == n, "not its own inverse");
}
GROUP(pow2) {
  for (uint64_t v = 0; v < 5000; ++v) { np(v); ip(v); ip(-(int64_t)v); }
  for (unsigned k = 0; k <= 63; ++k) for (int d = -2; d <= 2; ++d) { np((1ull << k) + d); ip((int64_t)((1ull << k) + d)); }
  for (unsigned a = 0; a < 64; ++a) for (unsigned b = 0; b < 64; ++b) { uint64_t v = (1ull << a) | (1ull << b); np(v); ip(v); np(v + 1); }
  for (long k = 0; more() && (thorough || k < 300000); ++k) { uint64_t v = pick(); np(v >> 1); ip(v); }
}
GROUP(split) {
  for (int64_t n = 1; n < 20000; ++n) sd(n);
  for (unsigned k = 0; k < 63; ++k) for (int d = -3; d <= 3; ++d) sd((1ull << k) + d);
  sd(INT64_MAX);
  for (long k = 0; more() && (thorough || k < 300000); ++k) sd(pick() >> 1);
}
GROUP(rev) {
  for (uint32_t w = 0; w <= 14; ++w) for (uint32_t n = 0; n < (1u << w); ++n) rb(n, w);
  for (uint32_t w = 1; w <= 32; ++w) for (uint32_t i = 0; i < w; ++i) { rb(1u << i, w); rb(~(1u << i), w); }
  for (long k = 0; more() && (thorough || k < 300000); ++k) rb(rnd(), rnd(33));
}

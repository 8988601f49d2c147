#include "common.h"
#include "lib/Transforms/MemrefToArith/Utils.h"
#include "lib/Utils/TensorUtils.h"
#include "mlir/IR/Builders.h"
#include "mlir/IR/MLIRContext.h"
using namespace mlir;
using namespace mlir::heir;
using namespace dv;
typedef std::vector<int64_t> V;
static MLIRContext &ctx() { static MLIRContext c(MLIRContext::Threading::DISABLED); return c; }
// row-major reference in 128 bits
static int64_t ref(const V &x, const V &s) { __int128 r = 0; for (size_t i = 0; i < s.size(); ++i) r = r * s[i] + x[i]; return (int64_t)r; }
static V strides(const V &s) { V g(s.size(), 1); for (int i = (int)s.size() - 2; i >= 0; --i) g[i] = g[i + 1] * s[i + 1]; return g; }
static int64_t prod(const V &s) { int64_t p = 1; for (auto d : s) p *= d; return p; }
static V unref(int64_t f, const V &s) { V g = strides(s), x; for (size_t i = 0; i < s.size(); ++i) { x.push_back(f / g[i] % s[i]); } return x; }
static void one(const V &s, int64_t f, int64_t off) {
  V g = strides(s), x = unref(f, s);
  begin(str("shape ", vec(s), " flat ", f, " offset ", off), s.size() < 2);
  auto u = unflattenIndex(f + off, g, off);
  check(V(u.begin(), u.end()) == x, str("unflattenIndex gives ", vec(u), " for ", vec(x)));
  int64_t b = flattenIndex(x, g, off);
  check(b == f + off, str("flattenIndex gives ", b));
  auto r = getIndicesFromRowMajorShape(f, SmallVector<int64_t>(s.begin(), s.end()));
  check(V(r.begin(), r.end()) == x, str("getIndicesFromRowMajorShape gives ", vec(r), " for ", vec(x)));
  auto t = RankedTensorType::get(s, IntegerType::get(&ctx(), 8));
  int64_t h = mlir::heir::getFlattenedIndex(t, SmallVector<int64_t>(x.begin(), x.end()));
  check(h == f && ref(x, s) == f, str("getFlattenedIndex gives ", h));
  Builder bd(&ctx());
  SmallVector<OpFoldResult> o;
  for (auto v : x) o.push_back(bd.getIndexAttr(v));
  auto p = mlir::heir::getFlattenedIndex(t, o);
  check(succeeded(p) && *p == f, "getFlattenedIndex(OpFoldResult)");
}
static V shape(int64_t cap) {
  V s; int r = rnd(7); int64_t p = 1;
  for (int i = 0; i < r; ++i) { int64_t m = std::min<int64_t>(cap / p, rnd(4) ? 12 : 1ll << 30); int64_t d = 1 + rnd(m); s.push_back(d); p *= d; }
  std::vector<int64_t> q = s; for (size_t i = q.size(); i > 1; --i) std::swap(q[i - 1], q[rnd(i)]);
  return q;
}
GROUP(small) {
  for (int r = 0; r <= 4; ++r) {
    int m = r == 4 ? 3 : 4; V s(r, 1);
    for (;;) {
      for (int64_t f = 0; f < prod(s); ++f) { one(s, f, 0); if (f % 3 == 0) one(s, f, f + 7); }
      int i = 0; while (i < r && ++s[i] > m) s[i++] = 1;
      if (i == r) break;
    }
  }
}
GROUP(random) {
  for (long k = 0; more() && (thorough || k < 20000); ++k) {
    V s = shape(rnd(3) ? 1 << 20 : 1ll << (31 + rnd(29)));
    int64_t p = prod(s), f = rnd(4) == 0 ? p - 1 : (int64_t)rnd(p);
    one(s, f, rnd(3) ? 0 : (int64_t)rnd(1ull << 40));
  }
}
GROUP(strided) {   // arbitrary strides: the affine value
  for (long k = 0; more() && k < 20000; ++k) {
    int r = rnd(6); V x(r), g(r); __int128 w = 0; int64_t off = rin(-1000, 1ll << 40); w = off;
    for (int i = 0; i < r; ++i) { x[i] = rin(-5, 1 << 20); g[i] = rin(-5, 1 << 20); w += (__int128)x[i] * g[i]; }
    begin(str("flattenIndex(", vec(x), ",", vec(g), ",", off, ")"), r < 2);
    check(flattenIndex(x, g, off) == (int64_t)w, "affine value");
  }
}

#include "common.h"
#include "lib/Utils/AffineMapUtils.h"
#include "lib/Utils/TensorUtils.h"
#include "mlir/IR/Builders.h"
#include "mlir/IR/MLIRContext.h"
using namespace mlir;
using namespace mlir::heir;
using namespace dv;
typedef std::vector<int64_t> V;
static MLIRContext &ctx() { static MLIRContext c(MLIRContext::Threading::DISABLED); return c; }
static RankedTensorType ten(const V &s) { return RankedTensorType::get(s, IntegerType::get(&ctx(), 8)); }
static int64_t prod(const V &s) { int64_t p = 1; for (auto d : s) p *= d; return p; }
static int64_t ref(const V &x, const V &s) { int64_t r = 0; for (size_t i = 0; i < s.size(); ++i) r = r * s[i] + x[i]; return r; }
static V unref(int64_t f, const V &s) { V x(s.size()); for (int i = (int)s.size() - 1; i >= 0; --i) { x[i] = f % s[i]; f /= s[i]; } return x; }
static V ev(AffineMap m, const V &x) { SmallVector<int64_t> r; evaluateStatic(m, x, r); return V(r.begin(), r.end()); }
static void perm(const V &m) {
  begin(str("isPermutation(", vec(m), ")"), m.size() < 2);
  V s = m; std::sort(s.begin(), s.end());
  bool want = true; for (size_t i = 0; i < s.size(); ++i) want &= s[i] == (int64_t)i;
  check(isPermutation(m) == want, str("returned ", !want));
}
static void rowmajor(const V &a, const V &b) {
  auto in = ten(a), out = ten(b); auto m = getRowMajorLayoutMap(in, out);

  int64_t p = prod(a);
  for (int64_t f = 0; f < p; f += p > 400 ? 1 + rnd(p / 200) : 1) {
    V x = unref(f, a); begin(str("getRowMajorLayoutMap ", vec(a), "->", vec(b), " at ", vec(x)), a.size() < 2);
    V y = ev(m, x);
    check(y == unref(f, b), str("gives ", vec(y), ", the same flat position is ", vec(unref(f, b))));
  }
}
static void diag(int64_t n, int64_t m, int64_t rows, int64_t cols) {
  auto in = ten({rows, cols}), out = ten({n, m}); auto mp = getDiagonalLayoutMap(in, out);

  for (int64_t i = 0; i < rows; ++i) for (int64_t j = 0; j < cols; ++j) {
    begin(str("getDiagonalLayoutMap n=", n, " m=", m, " at ", i, ",", j), n < 2);
    V y = ev(mp, {i, j});
    int64_t r = (((j - i) % n) + n) % n, c = (((j - r) % m) + m) % m;
    check(y == V({r, c}), str("gives ", vec(y), ", the slot is ", r, ",", c));
    check(c % n == i && (c + r) % m == j, "slot does not hold the entry");
  }
}
static void reas(int64_t rank, const V &pos) {
  begin(str("getReassociationForReshapeAtDim(", rank, ",", vec(pos), ")"), rank < 2);
  auto r = getReassociationForReshapeAtDim(rank, pos);
  std::set<int64_t> u(pos.begin(), pos.end());
  int64_t kept = 0; for (int64_t d = 0; d < rank; ++d) kept += !u.count(d);
  check((int64_t)r.size() == kept, str(r.size(), " groups for ", kept, " kept dimensions"));
  int64_t d = 0;
  for (auto &g : r) { int k = 0; check(!g.empty(), "empty group"); for (auto x : g) { check(x == d, str("dimension ", d, " missing")); ++d; k += !u.count(x); } check(k == 1, "a group keeps other than one dimension"); }
  check(kept == 0 || d == rank, "last dimensions missing");
}
GROUP(perm) {
  for (int n = 0; n <= 4; ++n) { V m(n, -1); for (;;) { perm(m); int i = 0; while (i < n && ++m[i] > n) m[i++] = -1; if (i == n) break; } }
  for (long k = 0; more() && k < 20000; ++k) { int n = 1 + rnd(40); V m(n); for (int i = 0; i < n; ++i) m[i] = i; for (int i = n - 1; i > 0; --i) std::swap(m[i], m[rnd(i + 1)]); if (rnd(2)) m[rnd(n)] = rnd(3) ? rin(-1, n) : rin(-5000000000, 5000000000); perm(m); }
  for (int n = 0; n < 40; ++n) { begin(str("identity(", n, ")"), !n); auto v = identity(n); check((int)v.size() == n, "size"); for (int i = 0; i < n; ++i) check(v[i] == i, "value"); }
}
GROUP(rowmajor) {
  for (int64_t a = 1; a <= 3; ++a) for (int64_t b = 1; b <= 3; ++b) for (int64_t c = 1; c <= 3; ++c) { rowmajor({a, b, c}, {a, b, c}); rowmajor({a, b, c}, {a * b * c}); rowmajor({a, b}, {c, a * b}); rowmajor({a, b, c}, {2, (a * b * c + 1) / 2}); }
  for (long k = 0; more() && k < (thorough ? 4000 : 300); ++k) {
    V a, b; int r = 1 + rnd(4), q = 1 + rnd(3); for (int i = 0; i < r; ++i) a.push_back(1 + rnd(6)); for (int i = 0; i < q; ++i) b.push_back(1 + rnd(8));
    if (prod(b) < prod(a)) b[rnd(q)] *= prod(a);
    rowmajor(a, b);
  }
}
GROUP(diagonal) {
  for (int64_t n = 1; n <= 8; ++n) for (int64_t q = 1; q <= 4; ++q) { if (!more() && n > 4) break; diag(n, n * q, n, n * q); diag(n, n * q, (n + 1) / 2, n * q > 2 ? n * q - 2 : 1); }
  begin("isLayoutSquatDiagonal on rank 1"); check(!isLayoutSquatDiagonal(ten({4}), ten({4, 4}), AffineMap::getMultiDimIdentityMap(2, &ctx())), "accepted rank 1");
  begin("isLayoutSquatDiagonal on a row-major map"); check(!isLayoutSquatDiagonal(ten({4, 4}), ten({4, 4}), AffineMap::getMultiDimIdentityMap(2, &ctx())), "accepted identity");
}
GROUP(reassociation) {
  for (int r = 0; r <= 9; ++r) for (int s = 0; s < (1 << r); ++s) { V p; for (int i = 0; i < r; ++i) if (s >> i & 1) p.push_back(i); reas(r, p); std::reverse(p.begin(), p.end()); reas(r, p); }
}
GROUP(explicit1d) {
  for (int n = 1; n <= 12; ++n) for (int64_t k = -3; k <= 5; ++k) {
    AffineExpr d = getAffineDimExpr(0, &ctx()); SmallVector<int64_t> r;
    begin(str("makeExplicit1DMapping (d+", k, ") mod ", n)); check(succeeded(makeExplicit1DMapping(AffineMap::get(1, 0, {(d + k + 3 * n) % n}, &ctx()), n, r)), "failed");
    check((int)r.size() == n, "size"); for (int i = 0; i < n; ++i) check(r[i] == ((i + k + 3 * n) % n), "value");
    check(isPermutation(r), "a rotation is a permutation");
  }
  SmallVector<int64_t> r; begin("makeExplicit1DMapping arity"); check(failed(makeExplicit1DMapping(AffineMap::getMultiDimIdentityMap(2, &ctx()), 4, r)), "accepted a 2-D map");
}

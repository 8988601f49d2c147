#include "common.h"
#include "dageval.h"
#include <numeric>
#include "lib/Kernel/KernelImplementation.h"
using namespace dv;
typedef std::vector<int64_t> V;
static int64_t md(int64_t a, int64_t n) { return ((a % n) + n) % n; }
static int64_t md128(__int128 a, int64_t n) { __int128 r = a % n; return (int64_t)(r < 0 ? r + n : r); }
static int64_t inv(int64_t a, int64_t n) { for (int64_t t = 0; t < n; ++t) if (md128((__int128)md(a, n) * t, n) == 1 % n) return t; die("no inverse"); }
static int64_t isq(int64_t n) { int64_t g = 1; while (g * g < n) ++g; return g; }
struct Dims { int64_t h, m, n, p; };
/// every rotation of the second operand, in the order of the products: in range, and the published formula minus the giant step
static void rotations(const NP<Tag> &d, const Dims &x) {
  auto [h, m, n, p] = x;
  int64_t pi = inv(p, n), g = isq(n), M = h * n * p, seen = 0;
  std::vector<const void *> todo{d.get()};
  std::map<int64_t, int64_t> found;   // giant*g + baby is not visible in the node: collect the multiset and compare
  std::vector<int64_t> got, want;
  std::set<const void *> vis;
  std::function<void(const NP<Tag> &)> go = [&](const NP<Tag> &q) {
    if (!q || !vis.insert(q.get()).second) return;
    std::visit([&](auto &&v) {
      using X = std::decay_t<decltype(v)>;
      if constexpr (std::is_same_v<X, AddNode<Tag>> || std::is_same_v<X, MultiplyNode<Tag>>) { go(v.left); go(v.right); }
      if constexpr (std::is_same_v<X, LeftRotateNode<Tag>>) {
        if (auto *l = std::get_if<LeafNode<Tag>>(&v.operand->node_variant)) {
          if (l->value.id == 1) {
            auto *c = std::get_if<ConstantScalarNode>(&v.shift->node_variant);
            check(c != nullptr, "the rotation of the second operand is a constant");
            got.push_back((int64_t)c->value);
          }
        } else go(v.operand);
      }
    }, q->node_variant);
  };
  (void)todo; (void)seen; (void)found;
  go(d);
  for (int64_t c = 0; c < n; ++c) {
    __int128 r = (__int128)h * p * md128((__int128)md128((__int128)c * m, n) * pi, n) - (__int128)h * m * g * (c / g);
    want.push_back(md128(r, M));
  }
  for (auto k : got) check(k >= 0 && k < M, str("rotation of the second operand ", k, " lies in [0, ", M, ")"));
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  check(got.size() == want.size(), str(want.size(), " rotations of the second operand expected, got ", got.size()));
  for (size_t i = 0; i < got.size(); ++i) check(got[i] == want[i], str("rotation ", got[i], " of the second operand, the formula gives ", want[i]));
}
static void product(const Dims &x, int64_t slots, bool bicyclic) {
  auto [h, m, n, p] = x;
  std::vector<int64_t> A(h * m * n), B(h * n * p);
  bool wide = rnd(3) == 0;
  for (auto &a : A) a = wide ? (int64_t)rnd(~0ull) : rin(-50, 50);
  for (auto &a : B) a = wide ? (int64_t)rnd(~0ull) : rin(-50, 50);
  V pa(slots), pb(slots);
  for (int64_t t = 0; t < slots; ++t) {
    pa[t] = A[((t % h) * m + t % m) * n + t % n];
    pb[t] = B[((t % h) * n + t % n) * p + t % p];
  }
  SlotEval e;
  e.leaves[0] = ve(pa);
  e.leaves[1] = ve(pb);
  NP<Tag> d = bicyclic ? implementBicyclicMatmul<Tag>(Tag(0, {slots}), Tag(1, {slots}), m, n, p, DagType::intTensor(64, {slots}))
                       : implementTricyclicBatchMatmul<Tag>(Tag(0, {slots}), Tag(1, {slots}), h, m, n, p, DagType::intTensor(64, {slots}));
  check(d != nullptr, "the kernel builds a node");
  Val r = e.ev(d);
  check(r.k == Val::V && (int64_t)r.v.size() == slots, "the result is a vector");
  for (int64_t t = 0; t < slots; ++t) {
    int64_t w = 0;
    for (int64_t k = 0; k < n; ++k) w = wadd(w, wmul(A[((t % h) * m + t % m) * n + k], B[((t % h) * n + k) * p + t % p]));
    check(r.v[t] == w, str("slot ", t, " (batch ", t % h, ", row ", t % m, ", column ", t % p, ") is ", w, ", got ", r.v[t]));
  }
  rotations(d, x);
}
static bool coprime(int64_t a, int64_t b) { return std::gcd(a, b) == 1; }
GROUP(bicyclic) {
  for (long k = 0; more() && k < 20000; ++k) {
    int64_t m = 1 + rnd(k % 5 == 4 ? 40 : 12), n = 1 + rnd(k % 5 == 3 ? 60 : 12), p = 1 + rnd(k % 5 == 2 ? 40 : 12);
    if (!coprime(m, n) || !coprime(n, p) || !coprime(m, p) || m * n * p > 20000) continue;
    begin(str("bicyclic m=", m, " n=", n, " p=", p), m * n * p == 1);
    product({1, m, n, p}, m * n * p, true);
  }
}
GROUP(tricyclic) {
  for (long k = 0; more() && k < 20000; ++k) {
    int64_t h = 1 + rnd(7), m = 1 + rnd(k % 5 == 4 ? 30 : 9), n = 1 + rnd(k % 5 == 3 ? 40 : 9), p = 1 + rnd(k % 5 == 2 ? 30 : 9);
    if (!coprime(m, n) || !coprime(n, p) || !coprime(m, p) || !coprime(h, m) || !coprime(h, n) || !coprime(h, p) || h * m * n * p > 20000) continue;
    begin(str("tricyclic h=", h, " m=", m, " n=", n, " p=", p), h * m * n * p == 1);
    product({h, m, n, p}, h * m * n * p, false);
  }
}
/// dimensions whose intermediate products pass 64 bits: only the rotation indices can be looked at
GROUP(large_dimensions) {
  for (long k = 0; more() && k < 400; ++k) {
    int64_t n = k % 4 == 0 ? 1000 + rnd(60000) : 1 + rnd(400), h = k % 2 ? 1 : 1 + rnd(9);
    int64_t lim = (int64_t)((1ull << 53) / (uint64_t)(h * n));
    int64_t m = k % 3 == 0 ? lim - (int64_t)rnd(100) : 1 + (int64_t)(rnd(~0ull) % (uint64_t)std::max<int64_t>(1, lim >> rnd(30)));
    int64_t p = k % 5 == 0 ? 1 + rnd(10) : 1 + (int64_t)(rnd(~0ull) % (uint64_t)std::max<int64_t>(1, lim >> rnd(40)));
    if (m < 1 || p < 1 || !coprime(h * m, n) || !coprime(p, n)) continue;
    begin(str("rotations h=", h, " m=", m, " n=", n, " p=", p));
    auto d = k % 2 ? implementBicyclicMatmul<Tag>(Tag(0, {n}), Tag(1, {n}), m, n, p, DagType::intTensor(64, {n}))
                   : implementTricyclicBatchMatmul<Tag>(Tag(0, {n}), Tag(1, {n}), h, m, n, p, DagType::intTensor(64, {n}));
    rotations(d, {h, m, n, p});
  }
}

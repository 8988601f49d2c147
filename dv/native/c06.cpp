#include "common.h"
#include "dageval.h"
#include "lib/Kernel/KernelImplementation.h"
using namespace dv;
typedef std::vector<int64_t> V;
static V rv(int64_t n, bool small = true) { V r(n); for (auto &x : r) x = small ? rin(-9, 9) : (int64_t)rnd(~0ull); return r; }
static int64_t wrap(int64_t i, int64_t n) { return ((i % n) + n) % n; }
static std::string SHAPES(const V &a) { std::string s; for (auto x : a) s += std::to_string(x) + " "; return s; }
static void expect(SlotEval &e, const NP<Tag> &d, const V &want, const std::string &what) {
  check(d != nullptr, what + " is built");
  Val r = e.ev(d);
  check(r.k == Val::V && r.v.size() == want.size(), what + " is a vector of the slot count");
  for (size_t i = 0; i < want.size(); ++i) check(r.v[i] == want[i], str(what, ": slot ", i, " is ", want[i], ", got ", r.v[i]));
}
static int64_t slots_for() { static const int64_t S[] = {1, 2, 3, 4, 5, 8, 12, 16, 31, 32, 64, 100, 128}; return S[rnd(13)]; }
GROUP(rotate_and_reduce) {
  for (long k = 0; more() && k < 4000; ++k) {
    int64_t n = slots_for(), steps = 1ll << rnd(8), period = k % 3 == 0 ? 1 : rin(-20, 40);
    bool mul = k & 1, unroll = k & 2;
    const char *op = mul ? (k & 4 ? "arith.muli" : "arith.mulf") : (k & 4 ? "arith.addi" : k & 8 ? "arith.addf" : "something.else");
    SlotEval e;
    V v = rv(n);
    e.leaves[0] = ve(v);
    begin(str("no plaintexts, slots ", n, " period ", period, " steps ", steps, " ", op, unroll ? " unrolled" : " rolled", " v ", SHAPES(v)), n == 1);
    auto d = implementRotateAndReduce<Tag>(Tag(0, {n}), std::nullopt, period, steps, DagType::intTensor(64, {n}), {}, op, unroll);
    V w(n);
    for (int64_t s = 0; s < n; ++s) {
      int64_t a = mul ? 1 : 0;
      for (int64_t t = 0; t < steps; ++t) a = mul ? wmul(a, v[wrap(s + t * period, n)]) : wadd(a, v[wrap(s + t * period, n)]);
      w[s] = a;
    }
    expect(e, d, w, "rotate-and-reduce");
  }
}
GROUP(broadcasted_reduce) {
  for (long k = 0; more() && k < 1200; ++k) {
    int64_t steps = 1ll << rnd(6), period = rin(1, k % 3 ? 5 : 1), B = steps * period;
    bool fits = k % 4 != 3;                                   // the blocks tile the slots and the mask is the one it is meant for
    int64_t n = k % 5 == 0 ? B : fits ? B * rin(1, 4) : B + rin(0, 20);
    bool mul = !fits && rnd(2), masked = fits ? n != B || rnd(2) : rnd(2), unroll = k & 1;
    const char *op = mul ? (k & 8 ? "arith.muli" : "arith.mulf") : (k & 8 ? "arith.addi" : k & 16 ? "arith.addf" : "something.else");
    SlotEval e;
    V v = rv(n), m = rv(n);
    if (fits) for (int64_t s = 0; s < n; ++s) m[s] = s % B >= B - period;
    e.leaves[0] = ve(v); e.leaves[1] = ve(m);
    begin(str("broadcasted reduce: slots ", n, " period ", period, " steps ", steps, " ", op, unroll ? " unrolled" : " rolled", masked ? " mask " : " no mask ", SHAPES(m), " v ", SHAPES(v)), n == 1);
    std::optional<NP<Tag>> mask;
    if (masked) mask = ArithmeticDagNode<Tag>::leaf(Tag(1, {n}));
    auto d = implementBroadcastedReduce<Tag>(ArithmeticDagNode<Tag>::leaf(Tag(0, {n})), mask, period, steps, n, DagType::intTensor(64, {n}), op, unroll);
    auto red = [&](const V &a) {
      V w(n);
      for (int64_t s = 0; s < n; ++s) {
        int64_t x = mul ? 1 : 0;
        for (int64_t t = 0; t < steps; ++t) x = mul ? wmul(x, a[wrap(s + t * period, n)]) : wadd(x, a[wrap(s + t * period, n)]);
        w[s] = x;
      }
      return w;
    };
    V w(n);
    if (fits)
      for (int64_t s = 0; s < n; ++s)
        for (int64_t t = 0; t < steps; ++t) w[s] = wadd(w[s], v[s / B * B + s % period + t * period]);
    else {
      V r = red(v), c(n);
      for (int64_t s = 0; s < n; ++s) c[s] = masked ? wmul(r[wrap(s + n - (steps - 1) * period, n)], m[s]) : r[wrap(s + n - (steps - 1) * period, n)];
      w = n == B ? r : red(c);
    }
    expect(e, d, w, "broadcasted reduce");
  }
}
GROUP(bsgs) {
  for (long k = 0; more() && k < 6000; ++k) {
    int64_t n = slots_for(), steps = k < 160 ? 1 + k / 4 : rin(1, 90), period = k % 3 == 0 ? 1 : rin(-20, 40);
    bool unroll = k & 1;
    SlotEval e;
    V v = rv(n);
    std::vector<V> P;
    std::map<int, bool> z;
    for (int64_t i = 0; i < steps; ++i) {
      P.push_back(rv(n));
      if (k % 4 >= 2) {
        int c = rnd(4);
        if (c == 0 || k % 16 == 3) { z[i] = true; P[i] = V(n, 0); }
        else if (c == 1) z[i] = false;
      }
    }
    if (k % 32 == 6) { z[-1] = true; z[steps + 2] = true; }
    e.leaves[0] = ve(v);
    e.leaves[1] = ma(P);
    std::string zs;
    for (auto &[a, b] : z) zs += str(a, b ? "+" : "-", " ");
    begin(str("plaintexts, slots ", n, " period ", period, " steps ", steps, unroll ? " unrolled" : " rolled", " marks ", zs), n == 1);
    auto d = implementRotateAndReduce<Tag>(Tag(0, {n}), Tag(1, {steps, n}), period, steps, DagType::intTensor(64, {n}), z, k & 4 ? "arith.addi" : "arith.addf", unroll);
    V w(n, 0);
    for (int64_t s = 0; s < n; ++s)
      for (int64_t t = 0; t < steps; ++t) w[s] = wadd(w[s], wmul(P[t][s], v[wrap(s + t * period, n)]));
    expect(e, d, w, "baby-step giant-step");
  }
}
GROUP(dot_matvec) {
  for (long k = 0; more() && k < 1500; ++k) {
    int64_t n = slots_for(), steps = 1ll << rnd(7), rows = rin(1, 20);
    SlotEval e;
    V a = rv(n), b = rv(n);
    std::vector<V> M;
    for (int i = 0; i < rows; ++i) M.push_back(rv(n));
    e.leaves[0] = ve(a); e.leaves[1] = ve(b); e.leaves[2] = ma(M);
    begin(str("dot: slots ", n, " steps ", steps, "; rows ", rows), n == 1);
    V w(n, 0), u(n, 0);
    for (int64_t s = 0; s < n; ++s) {
      for (int64_t t = 0; t < steps; ++t) w[s] = wadd(w[s], wmul(a[wrap(s + t, n)], b[wrap(s + t, n)]));
      for (int64_t t = 0; t < rows; ++t) u[s] = wadd(u[s], wmul(M[t][s], a[wrap(s + t, n)]));
    }
    expect(e, implementDot<Tag>(Tag(0, {n}), Tag(1, {n}), steps, DagType::intTensor(64, {n})), w, "dot product");
    expect(e, implementMatvec<Tag>(KernelName::MatvecDiagonal, Tag(2, {rows, n}), Tag(0, {n})), u, "diagonal matvec");
  }
}
GROUP(ct_ct) {
  for (long k = 0; more() && k < 1500; ++k) {
    int64_t n = slots_for(), steps = 1 + rnd(40), period = rin(-10, 20), a = rin(-5, 5), b = rin(-5, 5);
    SlotEval e;
    V x = rv(n), y = rv(n);
    e.leaves[0] = ve(x); e.leaves[1] = ve(y);
    begin(str("ciphertext-ciphertext: slots ", n, " steps ", steps, " period ", period, " rotation ", a, "+", b, "*c"), n == 1);
    auto d = implementCiphertextCiphertextBabyStepGiantStep<Tag>(Tag(0, {n}), Tag(1, {n}), period, steps, DagType::intTensor(64, {n}),
      [&](int64_t g, int64_t j, int64_t i, int64_t p) { return a + b * (g * j + i) - p * g * j; });
    V w(n, 0);
    for (int64_t s = 0; s < n; ++s)
      for (int64_t c = 0; c < steps; ++c) w[s] = wadd(w[s], wmul(y[wrap(s + a + b * c, n)], x[wrap(s + c * period, n)]));
    expect(e, d, w, "ciphertext-ciphertext baby-step giant-step");
  }
}
static int64_t np2(int64_t x) { int64_t r = 1; while (r < x) r *= 2; return r; }
GROUP(halevi_shoup) {
  for (long k = 0; more() && k < 1200; ++k) {
    int64_t cols = rin(1, k % 5 ? 20 : 70), rows = k % 4 == 0 ? cols : rin(1, cols), N = np2(rows), M = np2(cols), slots = M * (1ll << rnd(3));
    bool unroll = k & 1;
    std::vector<V> A(N, V(M, 0)), P(N, V(slots));
    V w(M, 0), v(slots);
    for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) A[i][j] = k % 7 == 0 && rnd(2) ? 0 : rin(-9, 9);
    if (k % 3 == 0) { int64_t d0 = rnd(N); for (int64_t i = 0; i < N; ++i) for (int64_t j = 0; j < M; ++j) if (wrap(j - i, N) == d0) A[i][j] = 0; }
    for (int j = 0; j < cols; ++j) w[j] = rin(-9, 9);
    std::map<int, bool> z;
    for (int64_t d = 0; d < N; ++d) {
      bool all0 = true;
      for (int64_t s = 0; s < slots; ++s) { P[d][s] = A[s % N][(s + d) % M]; all0 &= P[d][s] == 0; }
      if (all0 && (k & 2)) z[d] = true;
    }
    for (int64_t s = 0; s < slots; ++s) v[s] = w[s % M];
    SlotEval e;
    e.leaves[0] = ve(v); e.leaves[1] = ma(P);
    begin(str("matrix ", rows, "x", cols, " slots ", slots, " zero diagonals ", z.size(), unroll ? " unrolled" : " rolled"), rows == 1);
    auto d = implementHaleviShoup<Tag>(Tag(0, {slots}), Tag(1, {N, slots}), {rows, cols}, DagType::intTensor(64, {slots}), z, unroll);
    V want(slots, 0);
    for (int64_t s = 0; s < slots; ++s) for (int64_t c = 0; c < M; ++c) want[s] = wadd(want[s], wmul(A[s % N][c], w[c]));
    expect(e, d, want, "matrix-vector product");
  }
}

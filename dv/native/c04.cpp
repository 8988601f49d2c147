#include "common.h"
#include <cmath>
#include <memory>
#include "dageval.h"
#include "lib/Utils/Polynomial/ChebyshevDecomposition.h"
#include "lib/Utils/Polynomial/ChebyshevPatersonStockmeyer.h"
#include "lib/Utils/Polynomial/Horner.h"
#include "lib/Utils/Polynomial/PatersonStockmeyer.h"
using namespace dv;
using namespace mlir::heir::polynomial;
typedef LiteralDouble L;
static bool near(long double a, long double b, long double scale = 1) { return fabsl(a - b) <= 1e-9L * (scale + fabsl(a) + fabsl(b)); }
static long double run(const NP<L> &n) {
  ScalarEval<L> e;
  e.leaf = [](const L &v) { return (long double)v.getValue(); };
  return e.ev(n);
}
static long double cheb(int n, long double x) {
  long double a = 1, b = x;
  for (int i = 0; i < n; ++i) { long double c = 2 * x * b - a; a = b; b = c; }
  return a;
}
static double coef() {
  switch (rnd(5)) {
    case 0: return 0.0;
    case 1: return (double)rin(-3, 3);
    case 2: return rin(-1000, 1000) / 64.0;
    case 3: return rin(-9, 9) * 1e-16;
    default: return rin(-64, 64) / 64.0;
  }
}
static DagType ty(int k) { return k % 2 ? DagType::floatTensor(64, {8}) : DagType::floatTy(64); }
GROUP(monomial) {
  for (long k = 0; more() && k < 200000; ++k) {
    int deg = k % 60 < 40 ? k % 40 : rnd(90);
    std::map<int64_t, double> c;
    int dens = rnd(4);
    for (int i = 0; i <= deg; ++i) if (rnd(4) <= (unsigned)dens) c[i] = coef();
    if (k % 11 == 0) c.clear();
    if (k % 13 == 0) { c.clear(); c[deg] = 2.0; }
    double xv = rin(-65, 65) / 64.0;
    std::ostringstream o;
    for (auto &[i, v] : c) o << i << ":" << v << " ";
    begin(str("x=", xv, " coefficients {", o.str(), "}"), c.empty());
    long double want = 0, sc = 1;
    for (auto &[i, v] : c) { want += v * powl(xv, i); sc += fabsl(v); }
    auto x = ArithmeticDagNode<L>::leaf(L(xv));
    check(near(run(hornerMonomialPolynomialEvaluation<L>(x, c, ty(k))), want, sc), "Horner evaluates the polynomial");
    check(near(run(patersonStockmeyerMonomialPolynomialEvaluation<L>(x, c, ty(k))), want, sc), "Paterson-Stockmeyer evaluates the polynomial");
  }
}
GROUP(chebyshev) {
  for (long k = 0; more() && k < 200000; ++k) {
    int n = k % 90 < 60 ? k % 60 : rnd(140);
    std::vector<double> c(n);
    for (auto &v : c) v = coef();
    if (k % 7 == 0) for (auto &v : c) v = 0;
    if (k % 9 == 0 && n) { for (auto &v : c) v = 0; c[n - 1] = 1; }
    double xv = rin(-64, 64) / 64.0;
    begin(str("x=", xv, " Chebyshev coefficients ", vec(c)), n == 0);
    long double want = 0, sc = 1;
    for (int i = 0; i < n; ++i) { want += c[i] * cheb(i, xv); sc += fabsl(c[i]); }
    sc *= 100;
    check(near(run(patersonStockmeyerChebyshevPolynomialEvaluation<L>(L(xv), c, 0.0, ty(k))), want, sc), "value with threshold 0");
    // a positive threshold zeroes coefficients of the base-T_k decomposition
    double thr = k % 3 == 0 ? kMinCoeffs : k % 3 == 1 ? 0.25 : 1e9;
    long double w2 = 0;
    if (n == 1) w2 = fabs(c[0]) < thr ? 0 : c[0];
    if (n > 1) {
      int64_t T = 1LL << optimalSplit(std::bit_width((uint64_t)(n - 1)));
      // independent decomposition: top-down with 2 T_k T_j = T_{k+j} + T_{|k-j|}
      std::vector<double> p = c;
      long double pw = 1;
      while (!p.empty()) {
        std::vector<double> q;
        if ((int64_t)p.size() > T) {
          q.assign(p.size() - T, 0.0);
          for (int64_t i = p.size() - 1; i > T; --i) { q[i - T] = 2 * p[i]; p[std::abs(i - 2 * T)] -= p[i]; p[i] = 0; }
          q[0] = p[T];
          p.resize(T);
        }
        for (size_t j = 0; j < p.size(); ++j) if (fabs(p[j]) >= thr) w2 += p[j] * cheb(j, xv) * pw;
        pw *= cheb(T, xv);
        p = q;
      }
    }
    auto d = patersonStockmeyerChebyshevPolynomialEvaluation<L>(L(xv), c, thr, ty(k));
    check(near(run(d), w2, sc), "value with a positive threshold");
    if (n > 0) {
      int kk = n / 6 + 1 + rnd(9);   // few parts, so that rounding stays small
      auto dec = decompose(c, kk);
      long double s = 0, pw = 1;
      for (auto &q : dec.coeffs) {
        check((int)q.size() <= kk, "every part has degree below k");
        for (size_t j = 0; j < q.size(); ++j) s += q[j] * cheb(j, xv) * pw;
        pw *= cheb(kk, xv);
      }
      check(dec.generatorDegree == kk, "generator degree");
      check(near(s, want, sc * 100000), "decomposition represents the polynomial");
    }
  }
}
GROUP(values) {
  for (long k = 0; more() && k < 100000; ++k) {
    int n = k % 150;
    double xv = rin(-64, 64) / 64.0;
    begin(str("k=", n, " x=", xv), n == 0);
    auto x = ArithmeticDagNode<L>::leaf(L(xv));
    auto p = computePowers<L>(x, n, ty(k));
    auto v = computeChebyshevPolynomialValues<L>(L(xv), n, ty(k));
    auto g = genChebyshevPowersRecursive<L>(x, n, ty(k));
    check((int)p.size() == n + 1 && (int)v.size() == n + 1 && (int)g.size() >= n + 1, "k+1 entries");
    for (int i = 0; i <= n; ++i) {
      check(near(run(p[i]), powl(xv, i)), "power i at index i");
      check(near(run(v[i]), cheb(i, xv)), "Chebyshev value i at index i");
      check(g.count(i) && near(run(g[i]), cheb(i, xv)), "recursive Chebyshev value i at index i");
    }
  }
}

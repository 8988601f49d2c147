#include "common.h"
#include "lib/Utils/Polynomial/Polynomial.h"
#include <algorithm>
#include <map>
using namespace dv;
using namespace mlir::heir::polynomial;
using llvm::APFloat;
using llvm::APInt;
typedef std::map<uint64_t, uint64_t> IM;   // integer coefficients modulo 2^64
typedef std::map<uint64_t, double> FM;     // exact: dyadic values of few bits
template <class M> static std::string show(const M &m) { std::string s; for (auto &[e, c] : m) { if constexpr (std::is_same_v<M, IM>) s += std::to_string((int64_t)c); else s += std::to_string(c); s += "x^" + std::to_string(e) + " "; } return s.empty() ? "0" : s; }
struct IK {
  typedef IM M; typedef IntPolynomial P; typedef IntMonomial T; typedef uint64_t C;
  static C coef(const T &t) { return t.getCoefficient().getZExtValue(); }
  static C val() { switch (rnd(6)) { case 0: return rnd(~0ull); case 1: return 1ull << (31 + rnd(33)); default: return (C)rin(-5, 5); } }
  static APInt ap(C c) { return APInt(64, c); }
  static T mono(C c, uint64_t e) { return T((int64_t)c, e); }
  static C neg(C a) { return -a; }
};
struct FK {
  typedef FM M; typedef FloatPolynomial P; typedef FloatMonomial T; typedef double C;
  static C coef(const T &t) { return t.getCoefficient().convertToDouble(); }
  static C val() { return (double)rin(-4, 4) / (rnd(3) ? 1 : 2); }
  static APFloat ap(C c) { return APFloat(c); }
  static T mono(C c, uint64_t e) { return T(c, e); }
  static C neg(C a) { return -a; }
};
template <class K> static typename K::M cmap(const typename K::P &p) {
  typename K::M m;
  bool first = true;
  uint64_t last = 0;
  for (auto &t : p.getTerms()) {
    uint64_t e = t.getExponent().getZExtValue();
    check(t.getExponent().getBitWidth() == 64, "exponents have 64 bits");
    check(first || e > last, str("exponents strictly increase: ", last, " then ", e));
    first = false; last = e;
    if (K::coef(t) != 0) m[e] = K::coef(t);
  }
  return m;
}
template <class M> static M norm(M m) { for (auto it = m.begin(); it != m.end();) it = it->second == 0 ? m.erase(it) : std::next(it); return m; }
template <class K> static typename K::P make(typename K::M &out, int maxdeg, bool zeros = true) {
  std::vector<typename K::T> ts;
  int style = rnd(6);
  if (style) for (int e = 0; e <= maxdeg; ++e) {
    if (style == 1 ? rnd(4) : style == 2 ? (e & 1) : style == 3 ? (e < maxdeg / 2) : false) continue;
    typename K::C c = K::val();
    if (c == 0 && !(zeros && rnd(8) == 0)) continue;
    ts.push_back(K::mono(c, e));
    out[e] = c;
  }
  out = norm(out);
  return typename K::P(ts);
}
template <class M> static M addm(const M &a, const M &b) { M r = a; for (auto &[e, c] : b) r[e] += c; return norm(r); }
template <class M> static M mulm(const M &a, const M &b) { M r; for (auto &[e, c] : a) for (auto &[f, d] : b) r[e + f] += c * d; return norm(r); }
template <class K> static void same(const typename K::P &p, typename K::M want, const std::string &what) {
  auto got = cmap<K>(p);
  want = norm(want);
  check(got == want, str(what, " should be ", show(want), ", got ", show(got)));
}
template <class K> static void arithmetic(const char *kind) {
  for (long k = 0; more() && k < 40000; ++k) {
    typename K::M a, b;
    auto p = make<K>(a, rnd(9)), q = make<K>(b, k % 7 == 0 ? 0 : rnd(9));
    if (k % 5 == 0) { b = a; q = p; }
    if (k % 5 == 1) { b.clear(); std::vector<typename K::T> ts; for (auto &[e, c] : a) { auto x = rnd(3) ? K::neg(c) : K::val(); if (x == 0) continue; ts.push_back(K::mono(x, e)); b[e] = x; } q = typename K::P(ts); b = norm(b); }
    begin(str(kind, " p=", show(a), " q=", show(b)), a.empty() && b.empty());
    same<K>(p.add(q), addm(a, b), "sum");
    auto nb = b;
    for (auto &[e, c] : nb) c = K::neg(c);
    same<K>(p.sub(q), addm(a, nb), "difference");
    auto s = K::val();
    auto sa = a;
    for (auto &[e, c] : sa) c = c * s;
    same<K>(p.scale(K::ap(s)), sa, "scaled");
    int sh = rnd(5);
    typename K::M ma;
    for (auto &[e, c] : a) ma[e + sh] = c;
    same<K>(p.monomialMul(sh), ma, "multiple by a monomial");
    same<K>(p.naiveMul(q), mulm(a, b), "product");
    auto cp = p;
    cp.canonicalize();
    same<K>(cp, a, "canonical form");
    for (auto &t : cp.getTerms()) check(K::coef(t) != 0, "canonical form has no zero term");
    if (k % 3 == 0) {
      typename K::M aa, bb;
      auto f = make<K>(aa, rnd(5), true), g = make<K>(bb, rnd(4), true);
      begin(str(kind, " composition p=", show(aa), " q=", show(bb)), aa.empty());
      typename K::M r, pw;
      pw[0] = 1;
      uint64_t at = 0;
      for (auto &[e, c] : aa) {
        for (; at < e; ++at) pw = mulm(pw, bb);
        auto t = pw;
        for (auto &[x, y] : t) y = y * c;
        r = addm(r, t);
      }
      same<K>(f.compose(g), r, "composition");
    }
  }
}
GROUP(integer_arithmetic) { arithmetic<IK>("integer"); }
GROUP(float_arithmetic) { arithmetic<FK>("float"); }
template <class K> static void construction(const char *kind) {
  for (long k = 0; more() && k < 40000; ++k) {
    int n = rnd(8);
    std::vector<typename K::T> ts;
    typename K::M m;
    bool dup = false;
    std::string d;
    for (int i = 0; i < n; ++i) {
      uint64_t e = k % 3 == 0 ? rnd(~0ull) : rnd(k % 3 == 1 ? 6 : 60);
      auto c = K::val();
      if (k % 11 == 0 && i && rnd(2)) e = ts[rnd(i)].getExponent().getZExtValue();
      for (auto &t : ts) dup |= t.getExponent() == e;
      ts.push_back(K::mono(c, e));
      if (c != 0) m[e] = c;
      d += str(c, "x^", e, " ");
    }
    begin(str(kind, " monomials ", d), n == 0);
    auto r = K::P::fromMonomials(ts);
    check(mlir::succeeded(r) == !dup, dup ? "fails when two monomials share an exponent" : "succeeds on distinct exponents");
    if (!dup) same<K>(r.value(), m, "polynomial of the monomials");
    if (!dup) check(r.value().getTerms().size() == ts.size(), "keeps every monomial");
  }
}
GROUP(from_monomials_int) { construction<IK>("integer"); }
GROUP(from_monomials_float) { construction<FK>("float"); }
GROUP(from_coefficients) {
  for (long k = 0; more() && k < 20000; ++k) {
    int n = rnd(10);
    std::vector<int64_t> ci(n);
    std::vector<double> cf(n);
    IM mi; FM mf;
    std::string d;
    for (int i = 0; i < n; ++i) { ci[i] = rnd(3) ? (int64_t)IK::val() : 0; cf[i] = rnd(3) ? FK::val() : 0; mi[i] = ci[i]; mf[i] = cf[i]; d += str(ci[i], "/", cf[i], " "); }
    begin("coefficients " + d, n == 0);
    auto pi = IntPolynomial::fromCoefficients(ci);
    same<IK>(pi, mi, "integer polynomial");
    same<FK>(FloatPolynomial::fromCoefficients(cf), mf, "float polynomial");
    auto v = pi.getDenseCoefficientVector();
    mi = norm(mi);
    check(v.size() == (mi.empty() ? 0 : mi.rbegin()->first + 1), str("dense vector has ", v.size(), " entries"));
    for (size_t i = 0; i < v.size(); ++i) check(v[i].getBitWidth() == 64 && v[i] == (mi.count(i) ? mi[i] : 0), str("dense coefficient ", i));
  }
}
static FM chebT(int n) {
  FM a, b;
  a[0] = 1; b[1] = 1;
  if (n == 0) return a;
  for (int i = 2; i <= n; ++i) { FM c; for (auto &[e, x] : b) c[e + 1] += 2 * x; for (auto &[e, x] : a) c[e] -= x; a = b; b = norm(c); }
  return b;
}
static FM chebStd(const std::vector<double> &c) { FM r; for (size_t i = 0; i < c.size(); ++i) { FM t = chebT(i); for (auto &[e, x] : t) x *= c[i]; r = addm(r, t); } return norm(r); }
GROUP(chebyshev_basis) {
  for (long k = 0; more() && k < 20000; ++k) {
    int n = k < 20 ? k : rnd(14);
    begin(str("first ", n, " Chebyshev polynomials"), n == 0);
    llvm::SmallVector<FloatPolynomial> r;
    ChebyshevPolynomial::getChebyshevPolynomials(k == 20 ? -3 : n, r);
    check((int)r.size() == (k == 20 ? 0 : n), "as many as asked for");
    for (size_t i = 0; i < r.size(); ++i) same<FK>(r[i], chebT(i), str("T_", i));
    std::vector<double> c;
    std::string d;
    for (int i = 0; i < n; ++i) { c.push_back(rnd(3) ? FK::val() : 0); d += str(c.back(), " "); }
    begin("to the standard basis " + d, n == 0);
    ChebyshevPolynomial p{llvm::ArrayRef<double>(c)};
    same<FK>(p.toStandardBasis(), chebStd(c), "standard basis form");
  }
}
GROUP(chebyshev_compose) {
  for (long k = 0; more() && k < 20000; ++k) {
    int n = k < 24 ? k / 2 : rnd(11);   // terms
    std::vector<double> c;
    std::string d;
    for (int i = 0; i < n; ++i) { c.push_back(rnd(4) || i + 1 == n ? FK::val() : 0); d += str(c.back(), " "); }
    double a = 0, b = rnd(3) ? FK::val() : 0;
    while (a == 0) a = rin(-2, 2) / 2.0;
    begin(str("Chebyshev ", d, "composed with ", a, "x + ", b), n == 0);
    ChebyshevPolynomial p{llvm::ArrayRef<double>(c)};
    std::vector<FloatMonomial> ts;
    if (b != 0) ts.push_back(FloatMonomial(b, 0));
    ts.push_back(FloatMonomial(a, 1));
    auto q = p.compose(FloatPolynomial(ts));
    std::vector<double> qc;
    for (auto &t : q.getTerms()) qc.push_back(t.convertToDouble());
    FM y;
    if (b != 0) y[0] = b;
    y[1] = a;
    FM st = chebStd(c), want, pw;
    pw[0] = 1;
    uint64_t at = 0;
    for (auto &[e, x] : st) {
      for (; at < e; ++at) pw = mulm(pw, y);
      FM t = pw;
      for (auto &[u, v] : t) v *= x;
      want = addm(want, t);
    }
    FM got = chebStd(qc);
    check(got == norm(want), str("composition is ", show(norm(want)), ", got ", show(got)));
  }
}

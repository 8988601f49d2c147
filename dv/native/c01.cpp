#include "common.h"
#include "lib/Utils/APIntUtils.h"
#include "llvm/ADT/APInt.h"
#include "llvm/ADT/SmallString.h"
using llvm::APInt;
using namespace mlir::heir;
using namespace dv;

static std::string s(const APInt &a) {
  llvm::SmallString<64> t; a.toStringUnsigned(t, 10);
  return t.str().str() + ":" + std::to_string(a.getBitWidth());
}
static APInt randAP(unsigned w) {
  APInt r(w, 0);
  switch (rnd(6)) {
    case 0: return APInt(w, rnd(), false, true);
    case 1: return APInt::getMaxValue(w) - APInt(w, rnd(3), false, true);
    case 2: { r.setBit(rnd(w)); return rnd(2) ? r : r - 1; }
    default: for (unsigned i = 0; i < w; ++i) if (rnd(2)) r.setBit(i); return rnd(3) ? r : r.lshr(rnd(w));
  }
}
// reference: schoolbook on a far wider integer
static APInt refMul(const APInt &a, const APInt &b, const APInt &m) {
  unsigned w = m.getBitWidth(), W = 3 * w + 8;
  return (a.zext(W) * b.zext(W)).urem(m.zext(W)).trunc(w);
}
static APInt refPow(const APInt &b, const APInt &e, const APInt &m) {
  unsigned w = m.getBitWidth(), W = 3 * w + 8;
  APInt r(W, 1), M = m.zext(W), B = b.zext(W).urem(M);
  r = r.urem(M);
  for (int i = (int)e.getBitWidth() - 1; i >= 0; --i) {
    r = (r * r).urem(M);
    if (e[i]) r = (r * B).urem(M);
  }
  return r.trunc(w);
}
static void mul1(const APInt &a, const APInt &b, const APInt &m) {
  begin(str("modularMultiplication(a=", s(a), ", b=", s(b), ", m=", s(m), ")"), a.isZero() || b.isZero());
  APInt r = modularMultiplication(a, b, m);
  check(r.getBitWidth() == m.getBitWidth(), "result width " + std::to_string(r.getBitWidth()));
  check(r == refMul(a, b, m), "returned " + s(r) + ", a*b mod m is " + s(refMul(a, b, m)));
}
static void exp1(const APInt &b, const APInt &e, const APInt &m) {
  begin(str("modularExponentiation(base=", s(b), ", exponent=", s(e), ", modulus=", s(m), ")"), b.isZero());
  APInt r = modularExponentiation(b, e, m);
  check(r.getBitWidth() == m.getBitWidth(), "result width");
  check(r == refPow(b, e, m), "returned " + s(r) + ", base^exponent mod m is " + s(refPow(b, e, m)));
}
static APInt gcd(APInt a, APInt b) { while (!b.isZero()) { APInt t = a.urem(b); a = b; b = t; } return a; }
static void inv1(const APInt &x, const APInt &m) {
  begin(str("multiplicativeInverse(x=", s(x), ", m=", s(m), ")"), x.isZero());
  APInt r = multiplicativeInverse(x, m);
  check(r.getBitWidth() == m.getBitWidth(), "result width");
  if (gcd(m, x).isOne()) {
    check(r.ult(m), "inverse " + s(r) + " not below the modulus");
    check(refMul(x, r, m) == APInt(m.getBitWidth() + 1, 1).urem(m.zext(m.getBitWidth() + 1)).trunc(m.getBitWidth()),
          "x*" + s(r) + " is not 1 mod m");
  } else
    check(r.isZero(), "returned " + s(r) + " although gcd is not 1");
}
GROUP(mul) {
  for (unsigned w = 1; w <= 4; ++w)
    for (uint64_t m = 1; m < (1u << w); ++m)
      for (uint64_t a = 0; a < (1u << w); ++a)
        for (uint64_t b = 0; b < (1u << w); ++b) mul1(APInt(w, a), APInt(w, b), APInt(w, m));
  while (more()) {
    static const unsigned ws[] = {5, 8, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 192, 256, 512};
    unsigned w = rnd(3) ? ws[rnd(15)] : 1 + rnd(200);
    APInt m = randAP(w); if (m.isZero()) continue;
    mul1(randAP(w), randAP(w), m);
    if (cases > 400000 && !thorough) break;
  }
}
GROUP(exp) {
  for (unsigned w = 1; w <= 4; ++w)
    for (uint64_t m = 1; m < (1u << w); ++m)
      for (uint64_t a = 0; a < (1u << w); ++a)
        for (uint64_t b = 0; b < (1u << w); ++b) exp1(APInt(w, a), APInt(w, b), APInt(w, m));
  long k = 0;
  while (more() && (thorough || k++ < 60000)) {
    static const unsigned ws[] = {5, 8, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129};
    unsigned w = rnd(3) ? ws[rnd(12)] : 1 + rnd(140);
    APInt m = randAP(w); if (m.isZero()) continue;
    exp1(randAP(w), rnd(2) ? APInt(w, rnd(40), false, true) : randAP(w), m);
  }
}
GROUP(inv) {
  for (unsigned w = 1; w <= 8; ++w)
    for (uint64_t m = 1; m < (1u << w); ++m)
      for (uint64_t a = 0; a < m; ++a) inv1(APInt(w, a), APInt(w, m));
  long k = 0;
  while (more() && (thorough || k++ < 100000)) {
    static const unsigned ws[] = {9, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 256};
    unsigned w = rnd(3) ? ws[rnd(12)] : 1 + rnd(200);
    APInt m = randAP(w); if (m.isZero()) continue;
    inv1(randAP(w).urem(m), m);
  }
}

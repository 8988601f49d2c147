#include "common.h"
#include <cmath>
#include "lib/Analysis/NoiseAnalysis/BFV/NoiseByBoundCoeffModel.h"
#include "lib/Analysis/NoiseAnalysis/BGV/NoiseByBoundCoeffModel.h"
#include "lib/Analysis/NoiseAnalysis/Noise.h"
#include "lib/Utils/LogArithmetic.h"
using namespace mlir::heir;
using namespace dv;
// only the parameter objects' printers are replaced (their file needs OpenFHE)
void RLWESchemeParam::print(llvm::raw_ostream &) const {}
void bgv::SchemeParam::print(llvm::raw_ostream &) const {}

// the companion allows the rounding of double, the proof is over exact reals
static long double den(const Log2Arithmetic &a) { return exp2l((long double)a.getLog2Value()); }
static long double den(const NoiseState &a) { return den(a.getLog2Arithmetic()); }
static bool near(long double a, long double b) { return a == b || fabsl(a - b) <= std::max(fabsl(a), fabsl(b)) * 1e-9L; }
static double val() {
  switch (rnd(6)) {
    case 0: return 0.0;
    case 1: return 1.0;
    case 2: return std::exp2((double)rin(-300, 300));
    case 3: return std::exp2((double)rin(-900, 900));
    case 4: return (double)rin(1, 1000000);
    default: return std::exp2(rin(-6000, 6000) / 7.0);
  }
}
GROUP(log_domain) {
  for (long k = 0; more() && k < 300000; ++k) {
    double a = val(), b = rnd(8) ? val() : 0, c = val();
    if (k % 5 == 0) b = a;
    auto A = Log2Arithmetic::of(a), B = Log2Arithmetic::of(b), C = Log2Arithmetic::of(c);
    begin(str("a=", a, " b=", b, " c=", c), a == b);
    check(near(den(A), a), "of(a) stands for a");
    check(near(den(A + B), (long double)a + b), "addition");
    check(near(den(A * B), (long double)a * b), "multiplication");
    check(!((A + B) < A) && !((A + B) < B), "a sum is no less than either operand");
    check((A + B) == (B + A) && (A * B) == (B * A), "commutative");
    check((A < B) == (a < b), "comparison");
    check((A == B) == (a == b), "equality");
    if (!(C < B)) check(!((A + C) < (A + B)) || near(den(A + B), den(A + C)), "addition is monotone");
    check(near(A.getValue(), a), "getValue");
    Log2Arithmetic s;
    for (int i = 0; i < 4; ++i) s = s + C;
    check(near(den(s), 4.0L * c), "repeated addition from zero");
  }
}
GROUP(noise_state) {
  for (long k = 0; more() && k < 100000; ++k) {
    double a = val(), b = val();
    int da = rin(0, 5), db = rin(0, 5);
    auto A = NoiseState::of(a, da), B = NoiseState::of(b, db);
    begin(str("a=", a, " b=", b, " degrees ", da, ",", db), false);
    auto S = A + B, P = A * B, J = NoiseState::join(A, B);
    check(near(den(S), (long double)a + b) && S.getDegree() == std::max(da, db), "noise sum");
    check(near(den(P), (long double)a * b) && P.getDegree() == std::max(da, db), "noise product");
    check(near(den(A + 1), (long double)a + 1) && near(den(A * 3), (long double)a * 3), "noise and a number");
    check(near(den(J), std::max(a, b)) && J.getDegree() == std::max(da, db), "join is the larger");
    check(NoiseState::join(A, NoiseState::uninitialized()) == A && NoiseState::join(NoiseState::uninitialized(), A) == A, "join with nothing");
  }
}
template <typename M> static void model(bool bfv) {
  for (long k = 0; more() && k < 60000; ++k) {
    int N = 1 << rin(1, 17);
    int64_t t = rin(1, 1 << 20);
    int L = rin(0, 6);
    std::vector<double> lq, lp{60};
    for (int i = 0; i <= L; ++i) lq.push_back(rin(20, 60));
    int dnum = rin(1, 3);
    bool worst = rnd(2), pk = rnd(2);
    bgv::SchemeParam sp(RLWESchemeParam(N, L, lq, dnum, lp, pk, false), t);
    int lvl = rin(0, L);
    bgv::LocalParam p(&sp, lvl, 2);
    M m(worst ? NoiseModelVariant::WORST_CASE : NoiseModelVariant::AVERAGE_CASE);
    double a = std::exp2(rin(-20, 100)), b = rnd(5) ? std::exp2(rin(-20, 100)) : 0.0;
    if (rnd(4) == 0) a = std::exp2(rin(700, 900)), b = 0.0;
    begin(str("N=", N, " t=", t, " level=", lvl, " a=", a, " b=", b, worst ? " worst" : " average"), false);
    auto A = NoiseState::of(a), B = NoiseState::of(b);
    long double d = worst ? N : 2 * sqrtl(N), dm = worst ? N : 4 * sqrtl(N), be = 6 * 3.2L, Q = 1;
    for (double x : lq) Q *= exp2l(-x);
    check(near(den(m.evalAdd(A, B)), (long double)a + b + 1), "noise of a sum");
    long double mul = bfv ? d * t * a * b * Q + ((long double)a + b) * (d * t / 2) * (4 + dm) + (1 + dm + d * dm) / 2
                          : d * t * a * b + ((long double)a + b + 1) * ((long double)N * t / 2);
    check(near(den(m.evalMul(p, A, B)), mul), "noise of a product");
    auto A2 = NoiseState::of(a * 4);
    check(!(m.evalMul(p, A2, B).getLog2Arithmetic() < m.evalMul(p, A, B).getLog2Arithmetic()), "product is monotone");
    check(!(m.evalMul(p, B, A2).getLog2Arithmetic() < m.evalMul(p, B, A).getLog2Arithmetic()), "product is monotone on the right");
    check(!(m.evalAdd(A2, B).getLog2Arithmetic() < m.evalAdd(A, B).getLog2Arithmetic()), "sum is monotone");
    long double digits = std::ceil((double)((bfv ? L : lvl) + 1) / dnum) + 1;
    check(near(den(m.evalRelinearize(p, A)), a + digits * d * be / 2 + (1 + dm) / 2), "noise after relinearization");
    check(near(den(m.evalEncrypt(p)), pk ? be * (1 + 2 * d) : be), "fresh noise");
    check(near(den(m.evalConstant(p)), 0), "noise of a constant");
  }
}
GROUP(bgv_model) { model<bgv::NoiseByBoundCoeffModel>(false); }
GROUP(bfv_model) { model<bfv::NoiseByBoundCoeffModel>(true); }
GROUP(modulus_switch) {
  for (long k = 0; more() && k < 20000; ++k) {
    int N = 1 << rin(1, 17), L = rin(0, 5), lvl = rin(0, L);
    std::vector<double> lq;
    for (int i = 0; i <= L; ++i) lq.push_back(rin(20, 60));
    bool worst = rnd(2);
    bgv::SchemeParam sp(RLWESchemeParam(N, L, lq, 1, {60}, true, false), 65537);
    bgv::LocalParam p(&sp, lvl, 2);
    bgv::NoiseByBoundCoeffModel m(worst ? NoiseModelVariant::WORST_CASE : NoiseModelVariant::AVERAGE_CASE);
    double a = std::exp2(rin(-10, 120));
    begin(str("N=", N, " level=", lvl, " a=", a), false);
    long double dm = worst ? N : 4 * sqrtl(N);
    check(near(den(m.evalModReduce(p, NoiseState::of(a))), a / exp2l(lq[lvl]) + (1 + dm) / 2), "noise after modulus switching");
  }
}

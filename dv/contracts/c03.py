"""C03: the number-theoretic transform. Slot p of the vector after splitting into g groups is nttS(a, psi, q, n, g, p)
(dv/lean/Transform.lean): the coefficient at offset p mod (n/g) of the input polynomial reduced modulo the factor of its group."""
import z3
from sorts import *
from engine import Contract, Loop, BAND, LV
from lemmas import Lemma, ghost, PW, GCD, MUL_LT_SQ
from contracts import c01, c02
from contracts.c02 import PRIME, HASORD, PRIME_GE
import vf, natspec

I, Bo = z3.IntSort(), z3.BoolSort()
A = z3.ArraySort(I, I)
S = ghost("nttS", "DV.nttS", A, I, I, I, I, I, I)
SC = ghost("nttC", "DV.nttC", I, A, I, I, I, I, I, I)
EVALP = ghost("evalp", "DV.evalp", A, I, I, I)
BREV = ghost("brev", "DV.brev", I, I, I)
LOW = ghost("nlow", "DV.nlow", I, I, I)
BLK = ghost("nblk", "DV.nblk", I, I, I)
ISPOW = ghost("ispow", "DV.ispow", I, Bo)
HALVES = ghost("halves", "DV.halves", I, I, Bo)
psi, inv, ninv, q, n, g, p, s, t, j, x, b, i = z3.Ints("psi inv ninv q n g p s t j x b i")
a = z3.Const("a", A)


def L(name, vars, concl, hyps=(), **kw):
    return Lemma(name, vars, concl, hyps, module="Transform", **kw)


RNG = L("ntts_rng", [a, psi, q, n, g, p], z3.And(0 <= S(a, psi, q, n, g, p), S(a, psi, q, n, g, p) < q), [q > 0],
        patterns=[S(a, psi, q, n, g, p)])
INIT = L("ntts_init", [a, psi, q, n, p], S(a, psi, q, n, 1, p) == (a[p] * PW(psi, p)) % q, [0 <= p, p < n])
FINAL = L("ntts_final", [a, psi, q, n, p], S(a, psi, q, n, n, p) == EVALP(a, PW(psi, 2 * BREV(n, p) + 1), n) % q,
          [0 <= p, p < n], patterns=[S(a, psi, q, n, n, p)])
LVL = [q > 1, s >= 1, g >= 1, n == 2 * s * g, 0 <= t, 0 <= j, j < s, PW(psi, n) % q == q - 1]
IT = t * (2 * s) + j
LO = L("ntts_lo", [a, psi, q, n, s, g, t, j], S(a, psi, q, n, 2 * g, IT) ==
       (S(a, psi, q, n, g, IT) + S(a, psi, q, n, g, IT + s)) % q, LVL)
HI = L("ntts_hi", [a, psi, q, n, s, g, t, j], S(a, psi, q, n, 2 * g, IT + s) ==
       (((S(a, psi, q, n, g, IT) - S(a, psi, q, n, g, IT + s)) % q) * (PW(psi, 2 * j * g) % q)) % q, LVL)
_V = (SC(s, a, psi, q, n, 2 * g, IT + s) * (PW(inv, 2 * j * g) % q)) % q
_U = SC(s, a, psi, q, n, 2 * g, IT)
SCRNG = L("nttc_rng", [s, a, psi, q, n, g, p], z3.And(0 <= SC(s, a, psi, q, n, g, p), SC(s, a, psi, q, n, g, p) < q), [q > 0],
          patterns=[SC(s, a, psi, q, n, g, p)])
SCONE = L("nttc_final", [a, psi, q, n, p], SC(1, a, psi, q, n, n, p) == EVALP(a, PW(psi, 2 * BREV(n, p) + 1), n) % q,
          [q > 0, 0 <= p, p < n], patterns=[SC(1, a, psi, q, n, n, p)])
ILO = L("intt_lo", [a, psi, inv, q, n, s, g, t, j], (_U + _V) % q == SC(2 * s, a, psi, q, n, g, IT),
        LVL + [(psi * inv) % q == 1])
IHI = L("intt_hi", [a, psi, inv, q, n, s, g, t, j], (_U - _V) % q == SC(2 * s, a, psi, q, n, g, IT + s),
        LVL + [(psi * inv) % q == 1])
IFIN = L("intt_final", [a, psi, inv, ninv, q, n, p],
         (SC(n, a, psi, q, n, 1, p) * (((PW(inv, p) % q) * ninv) % q)) % q == a[p],
         [q > 1, 0 <= p, p < n, (psi * inv) % q == 1, (n * ninv) % q == 1, 0 <= a[p], a[p] < q])
PWNEXT = L("pw_next", [x, b, i, q], (x * b) % q == PW(b, i + 1) % q, [q > 0, i >= 0, x == PW(b, i) % q])
MULPW = L("mul_pw_mod", [x, b, i, q], (x * (PW(b, i) % q)) % q == (x * PW(b, i)) % q)
HALF = L("root_half", [q, psi, n], PW(psi, n) % q == q - 1, [PRIME(q), q > 2, n >= 1, HASORD(q, psi, 2 * n)])
UNIT = L("root_unit", [q, psi, n], z3.And(GCD(psi, q) == 1, GCD(n, q) == 1, 2 * n < q, psi > 0),
         [PRIME(q), q > 2, n >= 1, 0 <= psi, psi < q, HASORD(q, psi, 2 * n)])
AT = L("nlow_at", [s, t, j, p], z3.And(
    LOW(IT, s) == j, BLK(IT, s) == t, LOW(IT + s, s) == j, BLK(IT + s, s) == t,
    z3.Implies(LOW(p, s) == j, z3.Implies(BLK(p, s) == t, z3.Or(p == IT, p == IT + s)))), [s >= 1, 0 <= t, 0 <= j, j < s])
LRNG = L("nlow_rng", [p, s, g], z3.And(0 <= LOW(p, s), LOW(p, s) < s, 0 <= BLK(p, s), BLK(p, s) < g),
         [s >= 1, 0 <= p, p < 2 * s * g])
BRNG = L("blk_rng", [s, g, t, j], z3.And(0 <= t * (2 * s), t * (2 * s) + j + s < 2 * s * g, 0 <= 2 * j * g, 2 * j * g < 2 * s * g,
                                         0 <= t * 2, t * 2 * s == t * (2 * s)), [s >= 1, 0 <= t, t < g, 0 <= j, j < s])
HINIT = L("halves_init", [n], z3.And(HALVES(n, n / 2), HALVES(n, 1), n / 2 * 2 == n), [ISPOW(n), n >= 2])
_D = n / (2 * s)
HDOWN = L("halves_down", [n, s], z3.And(
    s >= 1, n == 2 * s * _D, _D >= 1,
    z3.Implies(s >= 2, z3.And(HALVES(n, s / 2), 2 * (s / 2) == s, n / (2 * (s / 2)) == 2 * _D, 2 * (s / 2) <= n)),
    z3.Implies(s < 2, n == 2 * _D)), [HALVES(n, s), 2 * s <= n])
HUP = L("halves_up", [n, s], z3.And(s >= 1, HALVES(n, 2 * s), 2 * s <= n, n == 2 * s * _D, _D >= 1, n / s == 2 * _D),
        [HALVES(n, s), s < n])
HLE = L("halves_le", [n, s], z3.And(s <= n, s >= 1), [HALVES(n, s)])
BANDP = L("band_ispow", [n], BAND(n, n - 1) == 0, [ISPOW(n)])

mul = Contract(
    "modularMultiplication64", params=["a", "b", "modulus"],
    requires=lambda e: [e.modulus > 0, e.a >= 0, e.b >= 0],
    ensures=lambda e, ret: [ret == (e.old.a * e.old.b) % e.old.modulus])
addm = Contract(
    "modularAddition64", params=["u", "v", "modulus"],
    requires=lambda e: [0 <= e.u, e.u < e.modulus, 0 <= e.v, e.v < e.modulus],
    ensures=lambda e, ret: [ret == (e.old.u + e.old.v) % e.old.modulus])
subm = Contract(
    "modularSubtraction64", params=["u", "v", "modulus"],
    requires=lambda e: [0 <= e.u, e.u < e.modulus, 0 <= e.v, e.v < e.modulus],
    ensures=lambda e, ret: [ret == (e.old.u - e.old.v) % e.old.modulus])

P = z3.Int("p!")
# the polynomial whose transform is inverted (ghost parameter of inttInPlace)
A0 = z3.Const("poly", A)


def allp(f, *pats):
    return z3.ForAll([P], f(P), patterns=list(pats)) if pats else z3.ForAll([P], f(P))


def inr(n_, body):
    return z3.Implies(0 <= P, z3.Implies(P < n_, body))


def root_req(e):
    n_, q_, r_ = ln(e.coeffs), e.modulus, e.rootOfUnity
    return [n_ <= 2 ** 31, z3.Implies(n_ > 1, z3.And(ISPOW(n_), PRIME(q_), q_ > 2, 0 <= r_, r_ < q_, HASORD(q_, r_, 2 * n_)))]


def entry(ex, e):
    n_, q_, r_ = ln(e.coeffs), e.modulus, e.rootOfUnity
    ex.assume([HALF(q_, r_, n_), UNIT(q_, r_, n_), HINIT(n_), BANDP(n_), c01.PW0(r_)])


def same(e, k):
    return [e.modulus == e.old.modulus, e.rootOfUnity == e.old.rootOfUnity, e.n == ln(e.old.coeffs), ln(e.coeffs) == e.n, e.n >= 2]


def table(T, base, q_, upto):
    return [z3.ForAll([P], z3.Implies(0 <= P, z3.Implies(P < upto, at(T, P) == PW(base, P) % q_)), patterns=[at(T, P)])]


# ---------------------------------------------------------------- forward
def f_tab(e):
    return [e.n == ln(e.old.coeffs), 0 <= e.i, e.i <= e.n, ln(e.rootOfUnityTable) == e.n, e.x == PW(e.rootOfUnity, e.i) % e.modulus,
            e.coeffs == e.old.coeffs] + table(e.rootOfUnityTable, e.rootOfUnity, e.modulus, e.i)


def f_twist(e):
    a_ = arr(e.old.coeffs)
    q_, n_ = e.modulus, e.n
    return [e.n == ln(e.old.coeffs), 0 <= e.i, e.i <= e.n, ln(e.coeffs) == e.n,
            allp(lambda p_: inr(n_, at(e.coeffs, p_) == z3.If(p_ < e.i, S(a_, e.rootOfUnity, q_, n_, 1, p_), a_[p_])), at(e.coeffs, P))]


def st(e, kk, pos):
    return S(arr(e.old.coeffs), e.rootOfUnity, e.modulus, e.n, kk, pos)


def groups(e):
    return z3.If(e.span >= 1, e.n / (2 * e.span), e.n)


def f_span(e):
    return [e.n == ln(e.old.coeffs), ln(e.coeffs) == e.n, 0 <= e.span, 2 * e.span <= e.n, z3.Implies(e.span >= 1, HALVES(e.n, e.span)),
            allp(lambda p_: inr(e.n, at(e.coeffs, p_) == st(e, groups(e), p_)), at(e.coeffs, P))]


def f_mix(e, done):
    g_ = e.numGroups
    return [e.n == ln(e.old.coeffs), ln(e.coeffs) == e.n,
            allp(lambda p_: inr(e.n, at(e.coeffs, p_) == z3.If(done(p_), st(e, 2 * g_, p_), st(e, g_, p_))), at(e.coeffs, P))]


def f_j(e):
    return f_mix(e, lambda p_: LOW(p_, e.span) < e.j) + [0 <= e.j, e.j <= e.span]


def f_group(e):
    return f_mix(e, lambda p_: z3.Or(LOW(p_, e.span) < e.j, z3.And(LOW(p_, e.span) == e.j, BLK(p_, e.span) < e.group))) + \
        [0 <= e.group, e.group <= e.numGroups]


def lrng(e):
    return allp(lambda p_: LRNG(p_, e.span, e.numGroups), LOW(P, e.span))


def at_all(e):
    return z3.ForAll([P], AT(e.span, e.group, e.j, P), patterns=[LOW(P, e.span)])


def f_group_h(e, w):
    if w != "body":
        return []
    a_, r_, q_ = arr(e.old.coeffs), e.rootOfUnity, e.modulus
    return [LO(a_, r_, q_, e.n, e.span, e.numGroups, e.group, e.j), HI(a_, r_, q_, e.n, e.span, e.numGroups, e.group, e.j),
            BRNG(e.span, e.numGroups, e.group, e.j), at_all(e)]


def f_req(e):
    n_, q_ = ln(e.coeffs), e.modulus
    return root_req(e) + [z3.Implies(n_ > 1, allp(lambda p_: inr(n_, z3.And(0 <= at(e.coeffs, p_), at(e.coeffs, p_) < q_)),
                                                  at(e.coeffs, P)))]


ntt = Contract(
    "nttInPlace", params=["coeffs", "modulus", "rootOfUnity"], requires=f_req, entry=entry, modifies=["coeffs"],
    ensures=lambda e, ret: [
        ln(e.coeffs) == ln(e.old.coeffs),
        z3.Implies(ln(e.old.coeffs) <= 1, e.coeffs == e.old.coeffs),
        z3.Implies(ln(e.old.coeffs) > 1, allp(lambda p_: inr(ln(e.old.coeffs), at(e.coeffs, p_) == EVALP(
            arr(e.old.coeffs), PW(e.old.rootOfUnity, 2 * BREV(ln(e.old.coeffs), p_) + 1), ln(e.old.coeffs)) % e.old.modulus),
            at(e.coeffs, P)))],
    loops={0: Loop(f_tab, dec=lambda e: e.n - e.i, hints=lambda e, w: [PWNEXT(e.x, e.rootOfUnity, e.i, e.modulus)] if w == "body" else []),
           1: Loop(f_twist, dec=lambda e: e.n - e.i, hints=lambda e, w: [INIT(arr(e.old.coeffs), e.rootOfUnity, e.modulus, e.n, e.i),
                                                MULPW(arr(e.old.coeffs)[e.i], e.rootOfUnity, e.i, e.modulus)] if w == "body" else []),
           2: Loop(f_span, dec=lambda e: e.span, hints=lambda e, w: [HDOWN(e.n, e.span)] if w == "body" else []),
           3: Loop(f_j, dec=lambda e: e.span - e.j, hints=lambda e, w: [lrng(e), BRNG(e.span, e.numGroups, 0, e.j)] if w != "step" else []),
           4: Loop(f_group, dec=lambda e: e.numGroups - e.group, hints=f_group_h)},
    axioms=[RNG.axiom(), FINAL.axiom()])


# ---------------------------------------------------------------- inverse
def ist(e, sc, kk, pos):
    return SC(sc, A0, e.rootOfUnity, e.modulus, e.n, kk, pos)


INVR = "rootOfUnityInverse"


def i_tab(e):
    return [e.n == ln(e.old.coeffs), 0 <= e.i, e.i <= e.n, ln(e.rootOfUnityInverseTable) == e.n,
            e.x == PW(e.rootOfUnityInverse, e.i) % e.modulus,
            e.coeffs == e.old.coeffs] + table(e.rootOfUnityInverseTable, e.rootOfUnityInverse, e.modulus, e.i)


def i_span(e):
    return [e.n == ln(e.old.coeffs), ln(e.coeffs) == e.n, HALVES(e.n, e.span),
            allp(lambda p_: inr(e.n, at(e.coeffs, p_) == ist(e, e.span, e.n / e.span, p_)), at(e.coeffs, P))]


def i_mix(e, done):
    g_ = e.numGroups
    return [e.n == ln(e.old.coeffs), ln(e.coeffs) == e.n,
            allp(lambda p_: inr(e.n, at(e.coeffs, p_) == z3.If(done(p_), ist(e, 2 * e.span, g_, p_), ist(e, e.span, 2 * g_, p_))),
                 at(e.coeffs, P))]


def i_j(e):
    return i_mix(e, lambda p_: LOW(p_, e.span) < e.j) + [0 <= e.j, e.j <= e.span]


def i_group(e):
    return i_mix(e, lambda p_: z3.Or(LOW(p_, e.span) < e.j, z3.And(LOW(p_, e.span) == e.j, BLK(p_, e.span) < e.group))) + \
        [0 <= e.group, e.group <= e.numGroups]


def i_group_h(e, w):
    if w != "body":
        return []
    args = (A0, e.rootOfUnity, e.rootOfUnityInverse, e.modulus, e.n, e.span, e.numGroups, e.group, e.j)
    return [ILO(*args), IHI(*args), BRNG(e.span, e.numGroups, e.group, e.j), at_all(e)]


def i_fin(e):
    return [e.n == ln(e.old.coeffs), 0 <= e.i, e.i <= e.n, ln(e.coeffs) == e.n,
            allp(lambda p_: inr(e.n, at(e.coeffs, p_) == z3.If(p_ < e.i, A0[p_], ist(e, e.n, 1, p_))), at(e.coeffs, P))]


def i_req(e):
    n_, q_ = ln(e.coeffs), e.modulus
    return root_req(e) + [z3.Implies(n_ > 1, z3.And(
        allp(lambda p_: inr(n_, z3.And(0 <= A0[p_], A0[p_] < q_)), A0[P]),
        allp(lambda p_: inr(n_, at(e.coeffs, p_) == EVALP(A0, PW(e.rootOfUnity, 2 * BREV(n_, p_) + 1), n_) % q_), at(e.coeffs, P))))]


intt = Contract(
    "inttInPlace", params=["coeffs", "modulus", "rootOfUnity"], requires=i_req, entry=entry, modifies=["coeffs"],
    ensures=lambda e, ret: [
        ln(e.coeffs) == ln(e.old.coeffs),
        z3.Implies(ln(e.old.coeffs) <= 1, e.coeffs == e.old.coeffs),
        z3.Implies(ln(e.old.coeffs) > 1, allp(lambda p_: inr(ln(e.old.coeffs), at(e.coeffs, p_) == A0[p_]), at(e.coeffs, P)))],
    loops={0: Loop(i_tab, dec=lambda e: e.n - e.i, hints=lambda e, w: [PWNEXT(e.x, e.rootOfUnityInverse, e.i, e.modulus)] if w == "body" else [c01.PW0(e.rootOfUnityInverse)]),
           1: Loop(i_span, dec=lambda e: e.n - e.span, hints=lambda e, w: [HUP(e.n, e.span), HLE(e.n, e.span)] if w == "body" else [],
                   exit_hints=lambda e: [HLE(e.n, e.span)]),
           2: Loop(i_j, dec=lambda e: e.span - e.j, hints=lambda e, w: [lrng(e), BRNG(e.span, e.numGroups, 0, e.j)] if w != "step" else []),
           3: Loop(i_group, dec=lambda e: e.numGroups - e.group, hints=i_group_h),
           4: Loop(i_fin, dec=lambda e: e.n - e.i, hints=lambda e, w: [IFIN(A0, e.rootOfUnity, e.rootOfUnityInverse, e.nInv, e.modulus, e.n, e.i)]
                   if w == "body" else [])},
    axioms=[SCRNG.axiom(), SCONE.axiom()])


# ---------------------------------------------------------------- absl::uint128 as an integer below 2^128
def is128(n_):
    return "uint128" in str(n_.get("type", {}).get("qualType", "")) or "uint128" in str(n_.get("type", {}).get("desugaredQualType", ""))


def ctor128(ex, n_, fr, ty, inner):
    if "uint128" not in str(ty) or len(inner) != 1:
        return NotImplemented
    v = ex.eval(inner[0], fr)
    v = ex.load(v) if isinstance(v, LV) else v
    ex.check(v >= 0, "conversion to uint128 keeps the value", n_, "safety")
    return v


def op128(op):
    def h(ex, n_, fr, name, rd, args, want_lv):
        if len(args) != 2 or not all("uint128" in str(x_.get("type")) for x_ in args):
            return NotImplemented
        x_, y_ = (ex.load(v) if isinstance(v, LV) else v for v in (ex.eval(args[0], fr), ex.eval(args[1], fr)))
        if op == "*":
            ex.assume([MUL_LT_SQ(x_, y_, z3.IntVal(2 ** 64))])
            ex.check(x_ * y_ < 2 ** 128, "128-bit product does not wrap", n_, "overflow")
            return x_ * y_
        ex.check(y_ > 0, "division by zero", n_, "safety")
        return x_ % y_
    return h


def conv128(ex, n_, fr, core, name, getobj, args, want_lv):
    v = ex.load(getobj())
    ex.check(v < 2 ** 64, "conversion from uint128 keeps the value", n_, "overflow")
    return v


def prop():
    deps = [c for c in c01.prop().contracts if c.name == "multiplicativeInverse"]
    for c in deps:
        c.model_only = True
    return vf.Prop("C03", tu="nttfull.cpp", contracts=deps + [mul, addm, subm, ntt, intt], axioms=[PRIME_GE.axiom()],
                   ctor_hook=ctor128,
                   overrides=[(r"uint128$", lambda tm, m: I)],
                   func_hooks={"operator*": op128("*"), "operator%": op128("%")},
                   method_hooks={"operator unsigned long": conv128},
                   trusted=["absl::uint128 is modelled by the integers below 2^128"])


NATIVE = natspec.Native("c03.cpp", ["lib/Utils/Polynomial/NTT.cpp", "lib/Utils/APIntUtils.cpp", "lib/Utils/MathUtils.cpp"], seconds=(20, 120))
NOTE = ("Proved for every power-of-two length up to 2^31, every odd prime modulus below 2^64, every primitive 2n-th root and all "
        "reduced coefficients: the butterflies keep 'slot p holds the coefficient of the input reduced modulo the factor of its "
        "group', whose meaning as evaluation at the odd powers is proved in Lean. The modular inverse enters through its contract "
        "from C01, bit reversal of indices through its recursive definition (reverseBits itself is C17). Lengths of 2^32 and more, "
        "which the code narrows to 32 bits, are outside the precondition. Trusted: models of std::vector, llvm::APInt and "
        "absl::uint128, clang's AST, z3/cvc5, Lean.")

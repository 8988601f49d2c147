"""C02: factorization, primality, primitive roots."""
import z3
from sorts import *
from engine import Contract, Loop, pow2, P2
from lemmas import Lemma, ghost, PW, POW2_ADD, MUL_LT_SQ, POW2_SUCC, POW2_GT, POW2_MONO
from lib import CTZ, ABITS
import vf, c01, natspec
from c01 import MAXW

I, Bo = z3.IntSort(), z3.BoolSort()
n, v, d, p, q, a, r, s, x, g, m, k = z3.Ints("n v d p q a r s x g m k")
M = "NumTheory"
PRIME = ghost("prime", "DV.prime", I, Bo)
NODIV = ghost("nodiv", "DV.nodiv", I, I, Bo)
SPRP = ghost("sprp", "DV.sprp", I, I, I, I, Bo)
NOSQ = ghost("nosq", "DV.nosq", I, I, I, I, Bo)
HASORD = ghost("hasord", "DV.hasord", I, I, I, Bo)
NOGEN = ghost("nogen", "DV.nogen", I, I, Bo)
PRIMROOT = ghost("primroot", "DV.primroot", I, I, Bo)


def L(name, vars, concl, hyps=(), **kw):
    return Lemma(name, vars, concl, hyps, module=M, **kw)


PRIME_GE = L("prime_ge", [n], n >= 2, [PRIME(n)], patterns=[PRIME(n)])
PRIME_TWO = L("prime_two", [], PRIME(2))
PRIME_THREE = L("prime_three", [], PRIME(3))
PRIME_EVEN = L("prime_even", [n], n % 2 != 0, [PRIME(n), n > 2])
NODIV_TWO = L("nodiv_two", [v], NODIV(v, 2))
NODIV_STEP = L("nodiv_step", [v, d], NODIV(v, d + 1), [NODIV(v, d), v % d != 0])
NODIV_DIV = L("nodiv_div", [v, d], NODIV(v / d, d), [d >= 2, v % d == 0, NODIV(v, d)])
PRIME_LEAST = L("prime_least", [v, d], PRIME(d), [d >= 2, v >= 1, v % d == 0, NODIV(v, d)])
PRIME_REST = L("prime_rest", [v, d], z3.And(PRIME(v), v >= d), [v > 1, d >= 2, d * d > v, NODIV(v, d)])
SQ_GT = L("sq_gt_of_div", [v, d], d * d > v, [d > 0, d > v / d])
P_DVD_DIV = L("prime_dvd_div", [p, d, v], (v / d) % p == 0, [PRIME(p), PRIME(d), p != d, v >= 1, v % d == 0, v % p == 0])
DVD_DIV = L("dvd_div", [n, v, d], z3.And(n % (v / d) == 0, n % d == 0, v / d >= 1, v / d < v),
            [d >= 2, v >= 1, v % d == 0, n % v == 0])
P_SELF = L("prime_dvd_self", [p, v], p == v, [PRIME(p), PRIME(v), v % p == 0])
P_ONE = L("prime_not_one", [p, v], v % p != 0, [PRIME(p), v == 1])
SPRP_ONE = L("sprp_one", [n, a, d, s], SPRP(n, a, d, s), [PW(a, d) % n == 1])
SPRP_SQ = L("sprp_sq", [n, a, d, s, r], SPRP(n, a, d, s), [0 <= r, r < s, PW(a, d * P2(r)) % n == n - 1])
NOSQ_ZERO = L("nosq_zero", [n, a, d], NOSQ(n, a, d, 0))
NOSQ_STEP = L("nosq_step", [n, a, d, r], NOSQ(n, a, d, r + 1), [NOSQ(n, a, d, r), PW(a, d * P2(r)) % n != n - 1])
SPRP_ELIM = L("sprp_elim", [n, a, d, s], PW(a, d) % n == 1, [SPRP(n, a, d, s), NOSQ(n, a, d, s)])
PW_SQ2 = L("pw_sq_pow2", [a, d, r, n, x], (x * x) % n == PW(a, d * P2(r)) % n,
           [d >= 0, r >= 1, n > 0, x == PW(a, d * P2(r - 1)) % n])
SPRP_PRIME = L("sprp_prime", [n, a, d, s], SPRP(n, a, d, s),
               [PRIME(n), n > 2, n - 1 == d * P2(s), s >= 0, d >= 0, a > 0, a < n])
NOGEN_TWO = L("nogen_two", [q], NOGEN(q, 2))
NOGEN_STEP = L("nogen_step", [q, g], NOGEN(q, g + 1), [NOGEN(q, g), z3.Not(HASORD(q, g, q - 1))])
NOT_GEN = L("not_gen", [q, g, p], z3.Not(HASORD(q, g, q - 1)),
            [PRIME(q), PRIME(p), (q - 1) % p == 0, PW(g, (q - 1) / p) % q == 1])
PR_DEF = L("primroot_def", [q, g], PRIMROOT(q, g) == qall([p], z3.Implies(PRIME(p), z3.Implies(
    (q - 1) % p == 0, PW(g, (q - 1) / p) % q != 1)), PRIME(p)))
IS_GEN = L("is_gen", [q, g], HASORD(q, g, q - 1), [PRIME(q), q > 2, g > 0, g < q, PRIMROOT(q, g)])
GEN_EXISTS = L("gen_exists", [q], z3.Not(NOGEN(q, q)), [PRIME(q), q > 2])
GEN_TWO = L("gen_two", [], HASORD(2, 1, 1))
ROOT_ORDER = L("root_order", [q, g, m], HASORD(q, PW(g, (q - 1) / m) % q, m),
               [PRIME(q), HASORD(q, g, q - 1), m > 0, (q - 1) % m == 0])
MOD_ONE = L("mod_one_dvd", [q, m], (q % m == 1) == ((q - 1) % m == 0), [m > 1])

BASES12 = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37]
TRUSTED = [
    "Sorenson & Webster 2015 (OEIS A014233): an odd n with 3 < n < 3.18e23 that is a strong probable prime to every "
    "one of the first 12 primes below n is prime (assumed for n < 2^64; not re-proved)",
    "a prime q >= 2^64 has a primitive root below 2^64 (assumed; only matters for the 64-bit search counter; for "
    "q < 2^64 existence of a primitive root is proved)"]


def MR12(nn, dd, ss):
    """the trusted theorem, at one n"""
    return z3.Implies(z3.And(nn > 3, nn < 2 ** 64, nn % 2 == 1, nn - 1 == dd * P2(ss), dd % 2 == 1, ss >= 1,
                             *[z3.Implies(b < nn, SPRP(nn, b, dd, ss)) for b in BASES12]), PRIME(nn))


# ---------------------------------------------------------------------------------------------- factorize
def facts_fac(n0, f, ncur, dcur, upto_strict=True):
    """what has been found: factors f of n0, cofactor ncur without divisor in [2, dcur)"""
    i, j = z3.Ints("i!f j!f")
    p_ = z3.Int("p!f")
    return [ncur >= 1, n0 % ncur == 0, dcur >= 2, NODIV(ncur, dcur), ln(f) >= 0,
            qall([i], z3.Implies(z3.And(i >= 0, i < ln(f)), z3.And(
                PRIME(val(at(f, i))), n0 % val(at(f, i)) == 0, val(at(f, i)) < dcur)), at(f, i)),
            qall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < ln(f)), val(at(f, i)) < val(at(f, j))),
                      (at(f, i), at(f, j))),
            covered(n0, f, lambda p: ncur % p == 0)]


def covered(n0, f, also):
    i, p_ = z3.Ints("i!c p!c")
    return qall([p_], z3.Implies(PRIME(p_), z3.Implies(n0 % p_ == 0, z3.Or(
        also(p_), z3.Exists([i], z3.And(i >= 0, i < ln(f), val(at(f, i)) == p_))))), PRIME(p_))


def widths(f, w):
    i = z3.Int("i!w")
    return qall([i], z3.Implies(z3.And(i >= 0, i < ln(f)), width(at(f, i)) == w), at(f, i))


def q_lemma(lem, qv, *args):
    """the lemma with its variable qv left quantified (triggered on PRIME(qv))"""
    z = z3.Int("z!q")
    f = lem(*[z if a is None else a for a in args])
    return qall([z], f, PRIME(z))


def fac_outer(nv, dv):
    def inv(e):
        n0 = val(e.old.n)
        c, dd = nv(e), dv(e)
        return facts_fac(n0, e.factors, c, dd) + [widths(e.factors, width(e.old.n)), c <= n0]

    def hints(e, w):
        if w != "body":
            return []
        c, dd = nv(e), dv(e)
        n0 = val(e.old.n)
        return [NODIV_STEP(c, dd), PRIME_LEAST(c, dd), DVD_DIV(n0, c, dd)]

    def exit_hints(e):
        c, dd = nv(e), dv(e)
        return [SQ_GT(c, dd), PRIME_REST(c, dd), q_lemma(P_SELF, p, None, c), q_lemma(P_ONE, p, None, c)]
    return inv, hints, exit_hints


def fac_inner(nv, dv):
    def inv(e):
        n0, f = val(e.old.n), e.factors
        c, dd = nv(e), dv(e)
        i, j = z3.Ints("i!g j!g")
        return [c >= 1, n0 % c == 0, dd >= 2, NODIV(c, dd), PRIME(dd), n0 % dd == 0, ln(f) >= 1,
                val(at(f, ln(f) - 1)) == dd, c <= n0, widths(f, width(e.old.n)), c <= nv(e.pre),
                qall([i], z3.Implies(z3.And(i >= 0, i < ln(f)), z3.And(
                    PRIME(val(at(f, i))), n0 % val(at(f, i)) == 0, val(at(f, i)) <= dd)), at(f, i)),
                qall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < ln(f)), val(at(f, i)) < val(at(f, j))),
                          (at(f, i), at(f, j))),
                covered(n0, f, lambda p: c % p == 0)]

    def hints(e, w):
        c, dd = nv(e), dv(e)
        n0 = val(e.old.n)
        return [NODIV_DIV(c, dd), DVD_DIV(n0, c, dd), q_lemma(P_DVD_DIV, p, None, dd, c)] if w == "body" else []

    def exit_hints(e):
        return [NODIV_STEP(nv(e), dv(e))]
    return inv, hints, exit_hints


def fac_entry(ex, e):
    w, c = width(e.n), val(e.n)
    ex.assume([NODIV_TWO(c), POW2_ADD(w, w), P2(w * 2) == P2(w + w), P2(2 * w) == P2(w + w),
               POW2_MONO(ABITS(c), z3.IntVal(64)), P2(64) == 2 ** 64, POW2_GT(w), POW2_SUCC(w), POW2_SUCC(w - 1)])


def nf(e):
    return e.val


def df(e):
    return e.d


def ns(e):
    return val(e.n)


def ds(e):
    return val(e.d)


o0, o1 = fac_outer(nf, df), fac_outer(ns, ds)
i0, i1 = fac_inner(nf, df), fac_inner(ns, ds)


def slow_hints(e, w):
    return o1[1](e, w) + [MUL_LT_SQ(ds(e), ds(e), P2(width(e.n)))]


def slow_inv(e):
    return o1[0](e) + [width(e.d) == width(e.old.n), width(e.n) == width(e.old.n), ds(e) < 2 ** width(e.n) if False else True]


factorize = Contract(
    "factorize", params=["n"], nparams=1,
    requires=lambda e: [width(e.n) <= MAXW, width(e.n) >= 1],
    ensures=lambda e, ret: [
        z3.Implies(val(e.old.n) < 2, ln(ret) == 0),
        z3.Implies(val(e.old.n) >= 2, z3.And(
            ln(ret) >= 0, widths(ret, width(e.old.n)), fac_post(val(e.old.n), ret)[0], fac_post(val(e.old.n), ret)[1],
            fac_post(val(e.old.n), ret)[2]))],
    entry=fac_entry,
    loops={0: Loop(o0[0], lambda e: nf(e) - df(e) + 1, hints=o0[1], exit_hints=o0[2]),
           1: Loop(i0[0], lambda e: nf(e), hints=i0[1], exit_hints=i0[2]),
           2: Loop(slow_inv, lambda e: ns(e) - ds(e) + 1, hints=slow_hints, exit_hints=o1[2]),
           3: Loop(lambda e: i1[0](e) + [width(e.d) == width(e.old.n), width(e.n) == width(e.old.n)],
                   lambda e: ns(e), hints=i1[1], exit_hints=i1[2])})


def fac_post(n0, f):
    i, j = z3.Ints("i!p j!p")
    return [qall([i], z3.Implies(z3.And(i >= 0, i < ln(f)), z3.And(
                PRIME(val(at(f, i))), n0 % val(at(f, i)) == 0)), at(f, i)),
            qall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < ln(f)), val(at(f, i)) < val(at(f, j))),
                      (at(f, i), at(f, j))),
            covered(n0, f, lambda p: z3.BoolVal(False))]


# ---------------------------------------------------------------------------------------------- isPrime
def ds_of(e):
    m1 = val(e.old.n) - 1
    return m1 / P2(CTZ(m1)), CTZ(m1)


ALLB = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71]


def mr_inv(e):
    nn = val(e.old.n)
    dd, ss = ds_of(e)
    i = e.idx(0)
    j = z3.Int("j!b")
    return [val(e.d) == dd, e.s == ss, width(e.d) == width(e.n),
            qall([j], z3.Implies(z3.And(j >= 0, j < i), z3.And(at(e.bases, j) < nn,
                                                                    SPRP(nn, at(e.bases, j), dd, ss))), at(e.bases, j))] + \
           [z3.Implies(i > t, z3.And(at(e.bases, t) < nn, SPRP(nn, at(e.bases, t), dd, ss))) for t in range(12)] + \
           [z3.Implies(i > t, z3.And(at(e.bases, t) < nn, SPRP(nn, at(e.bases, t), dd, ss))) for t in range(12)]


def mr_hints(e, w):
    if w != "body":
        return []
    nn = val(e.old.n)
    dd, ss = ds_of(e)
    b = at(e.bases, e.idx(0))
    return [SPRP_ONE(nn, b, dd, ss), SPRP_SQ(nn, b, dd, ss, 0), SPRP_PRIME(nn, b, dd, ss), NOSQ_ZERO(nn, b, dd),
            NOSQ_STEP(nn, b, dd, 0), z3.BoolVal(True), P2(0) == 1,
            dd * P2(0) == dd]


def sq_inv(e):
    nn = val(e.old.n)
    dd, ss = ds_of(e)
    b = e.a
    return [e.r >= 1, z3.Or(e.r <= ss, e.r == 1), width(e.x) == width(e.n), val(e.x) == PW(b, dd * P2(e.r - 1)) % nn, e.composite,
            NOSQ(nn, b, dd, e.r), val(e.x) < nn]


def sq_hints(e, w):
    nn = val(e.old.n)
    dd, ss = ds_of(e)
    b = e.a
    if w == "body":
        return [PW_SQ2(b, dd, e.r, nn, val(e.x)), SPRP_SQ(nn, b, dd, ss, e.r), NOSQ_STEP(nn, b, dd, e.r)]
    return []


def sq_exit(e):
    nn = val(e.old.n)
    dd, ss = ds_of(e)
    return [SPRP_ELIM(nn, e.a, dd, ss), SPRP_PRIME(nn, e.a, dd, ss)]


def mr_exit(e):
    nn = val(e.old.n)
    dd, ss = ds_of(e)
    return [MR12(nn, dd, ss)]


isprime = Contract(
    "isPrime", params=["n"],
    requires=lambda e: [width(e.n) <= MAXW, width(e.n) >= 1],
    ensures=lambda e, ret: [z3.Implies(PRIME(val(e.old.n)), ret),
                            z3.Implies(z3.And(ret, val(e.old.n) < 2 ** 64), PRIME(val(e.old.n)))],
    entry=lambda ex, e: ex.assume([PRIME_TWO(), PRIME_THREE(), PRIME_EVEN(val(e.n)), P2(0) == 1, POW2_GT(width(e.n))]),
    loops={0: Loop(mr_inv, hints=mr_hints, exit_hints=mr_exit),
           1: Loop(sq_inv, lambda e: ds_of(e)[1] - e.r + 1, hints=sq_hints, exit_hints=sq_exit)})


# ---------------------------------------------------------------------------------------------- primitive roots
def pr_inv(e):
    Q = val(e.old.q)
    return [e.g >= 2, NOGEN(Q, e.g), z3.Or(e.g <= Q)]


def LPR(Q):
    """assumed for q >= 2^64 only"""
    return z3.Implies(z3.And(PRIME(Q), Q >= 2 ** 64), z3.Not(NOGEN(Q, 2 ** 64)))


def pr_hints(e, w):
    Q = val(e.old.q)
    if w != "body":
        return []
    return [NOGEN_STEP(Q, e.g), IS_GEN(Q, e.g), PR_DEF(Q, e.g), LPR(Q), P2(0) == 1]


def prf_inv(e):
    Q = val(e.old.q)
    j = z3.Int("j!r")
    return [e.is_primitive, qall([j], z3.Implies(z3.And(j >= 0, j < e.idx(1)),
            PW(e.g, (Q - 1) / val(at(e.factors, j))) % Q != 1), at(e.factors, j))]


def prf_hints(e, w):
    Q = val(e.old.q)
    return [NOT_GEN(Q, e.g, val(at(e.factors, e.idx(1))))] if w == "body" else []


proot = Contract(
    "findPrimitiveRoot", params=["q"],
    requires=lambda e: [PRIME(val(e.q)), width(e.q) <= MAXW, width(e.q) >= 1],
    ensures=lambda e, ret: [has(ret), HASORD(val(e.old.q), val(get(ret)), val(e.old.q) - 1), val(get(ret)) > 0,
                            val(get(ret)) < val(e.old.q), width(get(ret)) == width(e.old.q)],
    entry=lambda ex, e: ex.assume([NOGEN_TWO(val(e.q)), GEN_TWO(), GEN_EXISTS(val(e.q)), PRIME_EVEN(val(e.q)), P2(0) == 1, LPR(val(e.q)),
                                   POW2_GT(width(e.q))]),
    loops={0: Loop(pr_inv, lambda e: val(e.old.q) - e.g, hints=pr_hints),
           1: Loop(prf_inv, hints=prf_hints)})


def r2n_entry(ex, e):
    Q, m2, w = val(e.q), 2 * e.n, width(e.q)
    ex.assume([MOD_ONE(Q, m2), P2(0) == 1, P2(1) == 2, P2(65) == 2 ** 65, P2(64) == 2 ** 64,
               POW2_MONO(ABITS(m2), w), POW2_MONO(w, ABITS(m2) - 1), POW2_GT(w)])


def r2n_post(e, ret):
    Q, m2 = val(e.old.q), 2 * e.old.n
    return [ROOT_ORDER(Q, val(get(e.g)), m2)] if e.has("g") else []


r2n = Contract(
    "findPrimitive2nthRoot", params=["q", "n"],
    requires=lambda e: [PRIME(val(e.q)), width(e.q) <= MAXW, width(e.q) >= 1],
    ensures=lambda e, ret: [
        has(ret) == z3.And(e.old.n >= 1, (val(e.old.q) - 1) % (2 * e.old.n) == 0),
        z3.Implies(has(ret), z3.And(HASORD(val(e.old.q), val(get(ret)), 2 * e.old.n),
                                    val(get(ret)) < val(e.old.q)))],
    entry=r2n_entry, post_hints=r2n_post)


def prop():
    deps = [c for c in c01.prop().contracts if c.name in ("modularMultiplication", "modularExponentiation")]
    for c in deps:
        c.model_only = True     # proved by C01's check; assumed here
    return vf.Prop("C02", tu="mathutils.cpp", contracts=deps + [factorize, isprime, proot, r2n],
                   axioms=[PRIME_GE.axiom()], trusted=TRUSTED)


NATIVE = natspec.Native("c02.cpp", ["lib/Utils/APIntUtils.cpp", "lib/Utils/MathUtils.cpp"], seconds=(40, 300))
NOTE = ("Proved for every operand (any width up to 2^24 bits). Trusted: the Sorenson-Webster theorem that the first 12 "
        "prime bases decide primality below 2^64, existence of a primitive root below 2^64 for moduli of 2^64 and more; "
        "models of llvm::APInt and std::vector (dv/lib.py), clang's AST, z3/cvc5, Lean. Modular multiplication and "
        "exponentiation enter through the contracts proved in C01.")

"""C04: polynomial-evaluation DAGs.  EVR(node) is the real number a DAG evaluates to for the argument bound to its leaf."""
import z3
from sorts import *
from engine import Contract, Loop, NULLNODE, pow2, P2
from lemmas import Lemma, ghost
from dagmodel import *
import lib
import vf, natspec

c_, d_ = z3.Consts("c d", RA)
i, j, k, n, m, lo, t, a, b = z3.Ints("i j k n m lo t a b")
thr, A_, p_, S_, q_, r_, v_ = z3.Reals("thr A p S q r v")
SEG = ghost("seg", "DV.seg", RA, R, I, I, R)
CH = ghost("ch", "DV.ch", I, R, R)
SUMT = ghost("sumt", "DV.sumt", RA, R, R, I, R)
RP_ZERO = PL("rp_zero", [x], RP(x, 0) == 1)
RP_ONE = PL("rp_one", [x], RP(x, 1) == x)
RP_ADD = PL("rp_add", [x, a, b], RP(x, a + b) == RM(RP(x, a), RP(x, b)), [a >= 0, b >= 0])
SEG_ZERO = PL("seg_zero", [c_, x, lo], SEG(c_, x, lo, 0) == 0)
SEG_SUCC = PL("seg_succ", [c_, x, lo, n], SEG(c_, x, lo, n + 1) == SEG(c_, x, lo, n) + RM(c_[lo + n], RP(x, n)), [n >= 0])
SEG_CAT = PL("seg_cat", [c_, x, lo, n, m], SEG(c_, x, lo, n + m) == RM(SEG(c_, x, lo + n, m), RP(x, n)) + SEG(c_, x, lo, n), [n >= 0, m >= 0])
SEG_HORNER = PL("seg_horner", [c_, x, lo, n], SEG(c_, x, lo, n + 1) == RM(SEG(c_, x, lo + 1, n), x) + c_[lo], [n >= 0])
SEG_EXT = PL("seg_ext", [c_, d_, x, lo, n], SEG(c_, x, lo, n) == SEG(d_, x, lo, n),
             [z3.ForAll([t], z3.Implies(lo <= t, z3.Implies(t < lo + n, c_[t] == d_[t])))])
SEG_TRIM = PL("seg_trim", [c_, x, n, m], SEG(c_, x, 0, m) == SEG(c_, x, 0, n),
              [0 <= n, n <= m, z3.ForAll([t], z3.Implies(n <= t, z3.Implies(t < m, c_[t] == 0)))])
SEG_PAIR = PL("seg_pair", [c_, d_, y, n, m], SEG(d_, RM(y, y), 0, m) == SEG(c_, y, 0, n), [n >= 0, m == (n + 1) / 2, z3.ForAll([t], z3.Implies(
    0 <= t, z3.Implies(t < m, d_[t] == c_[2 * t] + z3.If(2 * t + 1 < n, RM(c_[2 * t + 1], y), z3.RealVal(0)))))])
CH_ZERO = PL("ch_zero", [x], CH(0, x) == 1)
CH_ONE = PL("ch_one", [x], CH(1, x) == x)
CH_MUL = PL("ch_mul", [a, b, x], RM(CH(a, x), CH(b, x)) + RM(CH(a, x), CH(b, x)) == CH(a + b, x) + CH(z3.If(a - b >= 0, a - b, -(a - b)), x))
ABSR = lambda v: z3.If(v >= 0, v, -v)
SUMT_ZERO = PL("sumt_zero", [c_, x, thr], SUMT(c_, x, thr, 0) == 0)
SUMT_SUCC = PL("sumt_succ", [c_, x, thr, n], SUMT(c_, x, thr, n + 1) == SUMT(c_, x, thr, n) + z3.If(
    thr <= ABSR(c_[n]), RM(c_[n], CH(n, x)), z3.RealVal(0)), [n >= 0])
SUMT_EXT = PL("sumt_ext", [c_, d_, x, thr, n], SUMT(c_, x, thr, n) == SUMT(d_, x, thr, n),
              [z3.ForAll([t], z3.Implies(0 <= t, z3.Implies(t < n, c_[t] == d_[t])))])
SUMT_NOTHR = PL("sumt_nothr", [c_, x, thr, n], SUMT(c_, x, thr, n) == SUMT(c_, x, 0, n), [thr <= 0], patterns=[SUMT(c_, x, thr, n)])
SUMT_NONE = PL("sumt_none", [c_, x, thr, n], SUMT(c_, x, thr, n) == 0,
               [z3.ForAll([t], z3.Implies(0 <= t, z3.Implies(t < n, z3.Not(thr <= ABSR(c_[t])))))])
SUMT_UPD = PL("sumt_upd", [c_, x, n, i, v_], SUMT(z3.Store(c_, i, v_), x, 0, n) == SUMT(c_, x, 0, n) + RM(v_ - c_[i], CH(i, x)), [0 <= i, i < n])
SUMT_TRIM = PL("sumt_trim", [c_, x, n, m], SUMT(c_, x, 0, m) == SUMT(c_, x, 0, n),
               [0 <= n, n <= m, z3.ForAll([t], z3.Implies(n <= t, z3.Implies(t < m, c_[t] == 0)))])
DIV_STEP = PL("div_step", [A_, p_, x, i, k], RM(A_ + RM(2 * p_, CH(i - k, x)), CH(k, x)) == RM(A_, CH(k, x)) + RM(p_, CH(i, x)) +
              RM(p_, CH(z3.If(i - 2 * k >= 0, i - 2 * k, -(i - 2 * k)), x)))
DIV_LAST = PL("div_last", [A_, p_, x, k], RM(A_ + RM(p_, CH(0, x)), CH(k, x)) == RM(A_, CH(k, x)) + RM(p_, CH(k, x)))
DEC_STEP = PL("dec_step", [S_, y, q_, r_, n], S_ + RM(RP(y, n), RM(q_, y) + r_) == (S_ + RM(r_, RP(y, n))) + RM(RP(y, n + 1), q_), [n >= 0])
SQRT_RNG = PL("sqrt_rng", [x], z3.And(0 <= lib.SQRTR(x), lib.SQRTR(x) <= x + 1), [x >= 0])
CEIL_DIV = PL("ceil_div", [a, k], z3.And((-z3.ToInt(-(z3.ToReal(a) / z3.ToReal(k))) - 1) * k < a,
                                         a <= -z3.ToInt(-(z3.ToReal(a) / z3.ToReal(k))) * k), [k >= 1])
import lemmas
lemmas.LEAN_FUN["sqrtr"] = "Real.sqrt"

# ---- conservative definitions over the program's own containers
DOM, VAL = z3.Const("dom", z3.ArraySort(I, Bo)), z3.Const("val", RA)
CFA = z3.Function("cfa", z3.ArraySort(I, Bo), RA, RA)
CFA_DEF = z3.ForAll([DOM, VAL, t], CFA(DOM, VAL)[t] == z3.If(DOM[t], VAL[t], z3.RealVal(0)), patterns=[CFA(DOM, VAL)[t]])
SEQR = Seq(R)
SA, NA = z3.ArraySort(I, SEQR), z3.ArraySort(I, NODE)
g_, na_ = z3.Const("g", SA), z3.Const("na", NA)
GV = z3.Function("gv", SA, R, R, RA)
GV_DEF = z3.ForAll([g_, x, thr, t], GV(g_, x, thr)[t] == SUMT(arr(g_[t]), x, thr, ln(g_[t])), patterns=[GV(g_, x, thr)[t]])
NV = z3.Function("nv", NA, RA)
NV_DEF = z3.ForAll([na_, t], NV(na_)[t] == EVN(na_[t]), patterns=[NV(na_)[t]])

MAPR = MapS(I, R)
MAPN = MapS(I, NODE)
LD = Rec("LiteralDouble", [("d", R)])
LVAL = lambda v: fld(v, "d")
NN = z3.Int("numTerms!ghost")


def COEFS(mp):
    return CFA(acc(mp, 0), acc(mp, 1))


def keys(mp):
    return qall([t], z3.Implies(z3.Select(acc(mp, 0), t), z3.And(0 <= t, t < NN)), z3.Select(acc(mp, 0), t))


def same_map(e, mp, orig):
    """the copy holds exactly the entries visited so far"""
    en, pos, v = e._ex.enums[0]
    C = card(orig)
    cd, cv = acc(mp, 0), acc(mp, 1)
    od, ov = acc(orig, 0), acc(orig, 1)
    K = e.idx(0)
    return [K >= 0, K <= C,
            qall([t], z3.Select(cd, t) == z3.And(z3.Select(od, t), pos(t) < K), z3.Select(cd, t)),
            qall([t], z3.Implies(z3.Select(od, t), z3.Implies(pos(t) < K, z3.And(z3.Select(cd, t), z3.Select(cv, t) == z3.Select(ov, t)))),
                 z3.Select(od, t))]


def copied(mp, orig):
    """mp and orig agree as coefficient functions"""
    return [qall([t], COEFS(mp)[t] == COEFS(orig)[t], COEFS(mp)[t])]


BIG = 2 ** 31


def horner_inv(e):
    X = EVR(e.old.x)
    C = COEFS(e.old.coefficients)
    return [e.result != NULLNODE, e.i >= -1, e.i <= e.maxDegree - 1, e.maxDegree < NN,
            qall([t], z3.Implies(z3.Select(acc(e.old.coefficients, 0), t), t <= e.maxDegree), z3.Select(acc(e.old.coefficients, 0), t)),
            EVR(e.result) == SEG(C, X, e.i + 1, e.maxDegree - e.i)]


def poly_value(e, ret):
    return [ret != NULLNODE, EVR(ret) == SEG(COEFS(e.old.coefficients), EVR(e.old.x), 0, NN)]


COPYLOOP = Loop(lambda e: same_map(e, e.coeffMap, e.coefficients), lambda e: card(e.coefficients) - e.idx(0))
horner = Contract(
    "hornerMonomialPolynomialEvaluation", params=["x", "coefficients", "dagType"],
    requires=lambda e: [e.x != NULLNODE, NN >= 0, NN <= BIG, keys(e.coefficients)],
    ensures=poly_value,
    loops={0: COPYLOOP,
           1: Loop(horner_inv, lambda e: e.i + 1, hints=lambda e, w: [
               SEG_HORNER(COEFS(e.old.coefficients), EVR(e.old.x), e.i, e.maxDegree - e.i),
               SEG_ZERO(COEFS(e.old.coefficients), EVR(e.old.x), e.maxDegree + 1),
               SEG_HORNER(COEFS(e.old.coefficients), EVR(e.old.x), e.maxDegree, z3.IntVal(0)),
               RM_ZERO(EVR(e.old.x))])},
    post_hints=lambda e, ret: [SEG_TRIM(COEFS(e.old.coefficients), EVR(e.old.x), e.maxDegree + 1, NN) if e.has("maxDegree") else
                               SEG_TRIM(COEFS(e.old.coefficients), EVR(e.old.x), 0, NN),
                               SEG_ZERO(COEFS(e.old.coefficients), EVR(e.old.x), z3.IntVal(0))])



# ---------------------------------------------------------------- powers and Chebyshev values
def all_nodes(seq, f, upto):
    return qall([t], z3.Implies(z3.And(0 <= t, t < upto), z3.And(at(seq, t) != NULLNODE, EVR(at(seq, t)) == f(t))), at(seq, t))


def table(f):
    return lambda e, ret: [ln(ret) == z3.If(e.old.k >= 0, e.old.k, 0) + 1, all_nodes(ret, f(e), ln(ret))]


def xof(e):
    return EVR(e.old.x)


powers = Contract(
    "computePowers", params=["x", "k", "coeffType"], requires=lambda e: [e.x != NULLNODE, e.k < 2 ** 62],
    ensures=table(lambda e: (lambda t: RP(xof(e), t))),
    loops={0: Loop(lambda e: [e.i >= 2, z3.Implies(e.k >= 1, e.i <= e.k + 1), ln(e.result) == z3.If(e.k >= 1, e.i, 1),
                              z3.Implies(e.k < 1, e.i == 2),
                              all_nodes(e.result, lambda t: RP(xof(e), t), ln(e.result))],
                   lambda e: e.k + 2 - e.i,
                   hints=lambda e, w: [RP_ZERO(xof(e)), RP_ONE(xof(e)), RP_ADD(xof(e), e.i / 2, e.i - e.i / 2)])})

# splitDegree is proved in machine arithmetic under C17
split = Contract("splitDegree", params=["n"], model_only=True, requires=lambda e: [e.n > 0], ensures=lambda e, ret: [
    tup(ret, 0) + tup(ret, 1) == e.old.n, tup(ret, 0) >= 0, tup(ret, 1) >= 0,
    z3.Implies(e.old.n > 1, z3.And(tup(ret, 0) < e.old.n, tup(ret, 1) < e.old.n, tup(ret, 0) - tup(ret, 1) < e.old.n,
                                   tup(ret, 1) - tup(ret, 0) < e.old.n))])


def cheb_map(mp, X):
    return qall([t], z3.Implies(z3.Select(acc(mp, 0), t), z3.And(z3.Select(acc(mp, 1), t) != NULLNODE, z3.Select(acc(mp, 1), t) == z3.Select(acc(mp, 1), t),
                                                                 EVR(z3.Select(acc(mp, 1), t)) == CH(t, X))), z3.Select(acc(mp, 0), t))


def grows(new, old):
    return qall([t], z3.Implies(z3.Select(acc(old, 0), t), z3.Select(acc(new, 0), t)), z3.Select(acc(old, 0), t))


def cheb_hints(X, a, b):
    return [CH_MUL(a, b, X), CH_ZERO(X), CH_ONE(X)]


gen1 = Contract(
    "genChebyshevPowerRecursive", params=["x", "n", "cache", "coeffType"], modifies=["cache"],
    requires=lambda e: [e.x != NULLNODE, e.n >= 0, cheb_map(e.cache, EVR(e.x))],
    ensures=lambda e, ret: [ret != NULLNODE, EVR(ret) == CH(e.old.n, xof(e)), cheb_map(e.cache, xof(e)), grows(e.cache, e.old.cache),
                            z3.Select(acc(e.cache, 0), e.old.n)],
    decreases=lambda e: e.n,
    post_hints=lambda e, ret: [CH_ZERO(xof(e)), CH_ONE(xof(e))] + (
        [CH_MUL(e.a, e.b, xof(e)), CH_MUL(e.a, e.b, xof(e))] if e.has("tN") else []))

gens = Contract(
    "genChebyshevPowersRecursive", params=["x", "maxDegree", "coeffType"],
    requires=lambda e: [e.x != NULLNODE, e.maxDegree < 2 ** 62],
    ensures=lambda e, ret: [cheb_map(ret, xof(e)), qall([t], z3.Implies(z3.And(0 <= t, t <= e.old.maxDegree), z3.Select(acc(ret, 0), t)),
                                                        z3.Select(acc(ret, 0), t)), z3.Select(acc(ret, 0), 0)],
    loops={0: Loop(lambda e: [e.i >= 1, z3.Implies(e.maxDegree >= 0, e.i <= e.maxDegree + 1), cheb_map(e.cache, xof(e)),
                              qall([t], z3.Implies(z3.And(1 <= t, t < e.i), z3.Select(acc(e.cache, 0), t)), z3.Select(acc(e.cache, 0), t))],
                   lambda e: e.maxDegree + 2 - e.i)},
    post_hints=lambda e, ret: [CH_ZERO(xof(e))])

values = Contract(
    "computeChebyshevPolynomialValues", params=["x", "k", "coeffType"], requires=lambda e: [e.k < 2 ** 62],
    ensures=table(lambda e: (lambda t: CH(t, LVAL(e.old.x)))),
    loops={0: Loop(lambda e: [e.i >= 2, z3.Implies(e.k >= 1, e.i <= e.k + 1), ln(e.result) == z3.If(e.k >= 1, e.i, 1),
                              z3.Implies(e.k < 1, e.i == 2), e.number1 != NULLNODE, EVR(e.number1) == 1, e.xNode != NULLNODE,
                              EVR(e.xNode) == LVAL(e.old.x),
                              all_nodes(e.result, lambda t: CH(t, LVAL(e.old.x)), ln(e.result))],
                   lambda e: e.k + 2 - e.i,
                   hints=lambda e, w: cheb_hints(LVAL(e.old.x), e.i / 2, e.i - e.i / 2) + [RM_COMM.axiom()])})

# ---------------------------------------------------------------- Paterson-Stockmeyer, monomial basis
def ps_common(e):
    X = xof(e)
    O = e.old.coefficients
    M = e.maxDegree
    return [e.maxDegree < NN, M >= 0, e.k >= 1, e.k <= M + 2, (e.m - 1) * e.k < M + 1, M + 1 <= e.m * e.k, e.m >= 1,
            qall([t], z3.Implies(z3.Select(acc(O, 0), t), t <= M), z3.Select(acc(O, 0), t)),
            ln(e.xPowers) == e.k + 1, all_nodes(e.xPowers, lambda t: RP(X, t), ln(e.xPowers))] + same_fun(e.coeffMap, O)


def same_fun(cm, O):
    """the working copy agrees with the coefficients (operator[] only ever reads keys that are present)"""
    return [qall([t], z3.Select(acc(cm, 0), t) == z3.Select(acc(O, 0), t), z3.Select(acc(cm, 0), t)),
            qall([t], z3.Implies(z3.Select(acc(O, 0), t), z3.Select(acc(cm, 1), t) == z3.Select(acc(O, 1), t)), z3.Select(acc(cm, 1), t))]


def mn(a, b):
    return z3.If(a < b, a, b)


def chunk_len(e, t):
    return mn(e.k, e.maxDegree + 1 - t * e.k)


def chunks(e):
    X, C = xof(e), COEFS(e.old.coefficients)
    return qall([t], z3.Implies(z3.And(0 <= t, t < ln(e.chunkValues)), z3.And(
        at(e.chunkValues, t) != NULLNODE, EVR(at(e.chunkValues, t)) == SEG(C, X, t * e.k, chunk_len(e, t)))), at(e.chunkValues, t))


def ps_hints(e, w):
    X, C = xof(e), COEFS(e.old.coefficients)
    r = [SEG_ZERO(C, X, e.i * e.k), RP_ZERO(X), RM_ONE(C[e.i * e.k]), RM_ZERO(RP(X, z3.IntVal(0)))]
    if e.has("j"):
        L = e.j - e.lowestDegreeInChunk
        r += [SEG_SUCC(C, X, e.lowestDegreeInChunk, L), RM_ZERO(RP(X, L)), RM_ONE(C[e.j])]
    return r


ps = Contract(
    "patersonStockmeyerMonomialPolynomialEvaluation", params=["x", "coefficients", "coeffType"],
    requires=lambda e: [e.x != NULLNODE, NN >= 0, NN <= BIG, keys(e.coefficients)],
    ensures=poly_value,
    loops={0: COPYLOOP,
           1: Loop(lambda e: ps_common(e) + [e.i >= 0, e.i <= e.m, ln(e.chunkValues) == e.i, chunks(e)], lambda e: e.m - e.i,
                   hints=lambda e, w: ps_hints(e, w) + [CEIL_DIV(e.maxDegree + 1, e.k), SQRT_RNG(z3.ToReal(e.maxDegree))]),
           2: Loop(lambda e: [e.j >= e.lowestDegreeInChunk, e.j <= e.highestDegreeInChunk + 1,
                              EVN(e.chunkValue) == SEG(COEFS(e.old.coefficients), xof(e), e.lowestDegreeInChunk, e.j - e.lowestDegreeInChunk)] +
                   same_fun(e.coeffMap, e.old.coefficients),
                   lambda e: e.highestDegreeInChunk + 1 - e.j, hints=ps_hints),
           3: Loop(lambda e: [e.i >= -1, e.i <= e.m - 2, e.result != NULLNODE, ln(e.chunkValues) == e.m, chunks(e),
                              EVR(e.result) == SEG(COEFS(e.old.coefficients), xof(e), (e.i + 1) * e.k, e.maxDegree + 1 - (e.i + 1) * e.k)],
                   lambda e: e.i + 1, hints=lambda e, w: [
                       SEG_CAT(COEFS(e.old.coefficients), xof(e), e.i * e.k, e.k, e.maxDegree + 1 - (e.i + 1) * e.k)])},
    post_hints=lambda e, ret: [SEG_TRIM(COEFS(e.old.coefficients), xof(e), e.maxDegree + 1, NN) if e.has("maxDegree") else
                               SEG_TRIM(COEFS(e.old.coefficients), xof(e), 0, NN),
                               SEG_ZERO(COEFS(e.old.coefficients), xof(e), z3.IntVal(0))])

# ---------------------------------------------------------------- Chebyshev basis
XG = z3.Real("X!ghost")            # the argument's value: any real


def T(n):
    return CH(n, XG)


def division(e, ret):
    q, r = tup(ret, 0), tup(ret, 1)
    p, k = e.old.p, e.old.k
    return [ln(q) == z3.If(ln(p) > k, ln(p) - k, 0), ln(r) == mn(k, ln(p)),
            RM(SUMT(arr(q), XG, 0, ln(q)), T(k)) + SUMT(arr(r), XG, 0, ln(r)) == SUMT(arr(p), XG, 0, ln(p))]


def div_hints(e, w):
    P, Q, i, k = arr(e.p), arr(e.q), e.i, e.k
    if w == "init":
        return [SUMT_NONE(arr(e.q), XG, z3.RealVal(0), ln(e.q)), SUMT_TRIM(Q, XG, z3.IntVal(0), ln(e.q)), SUMT_ZERO(Q, XG, z3.RealVal(0)), RM_ZERO(T(k))]
    if w == "body":
        pi = P[i]
        J = z3.If(i - 2 * k >= 0, i - 2 * k, -(i - 2 * k))
        P2_ = z3.Store(P, J, P[J] - pi)
        return [SUMT_SUCC(P, XG, z3.RealVal(0), i), RM_ZERO(T(i)),
                SUMT_UPD(P, XG, i, J, P[J] - pi), SUMT_EXT(P2_, z3.Store(P2_, i, z3.RealVal(0)), XG, z3.RealVal(0), i),
                SUMT_UPD(Q, XG, ln(e.q), i - k, pi * 2), SUMT_UPD(Q, XG, ln(e.q), z3.IntVal(0), pi), RM_NEG(pi, T(J)),
                DIV_STEP(SUMT(Q, XG, 0, ln(e.q)), pi, XG, i, k), DIV_LAST(SUMT(Q, XG, 0, ln(e.q)), pi, XG, k),
                SUMT_EXT(P, z3.Store(P, i, z3.RealVal(0)), XG, z3.RealVal(0), i)]
    return []


divide = Contract(
    "dividePolynomials", params=["p", "k"],
    requires=lambda e: [e.k >= 1, e.k <= 2 ** 29, ln(e.p) < 2 ** 31],
    ensures=division,
    loops={0: Loop(lambda e: [e.i >= e.k - 1, e.i < ln(e.p), ln(e.p) == ln(e.old.p), ln(e.p) > e.k, ln(e.q) == ln(e.p) - e.k,
                              qall([t], z3.Implies(z3.And(0 <= t, t <= e.i - e.k), at(e.q, t) == 0), at(e.q, t)),
                              RM(SUMT(arr(e.q), XG, 0, ln(e.q)), T(e.k)) + SUMT(arr(e.p), XG, 0, e.i + 1) ==
                              SUMT(arr(e.old.p), XG, 0, ln(e.old.p))],
                   lambda e: e.i + 1, hints=div_hints)},
    post_hints=lambda e, ret: [SUMT_ZERO(arr(tup(ret, 0)), XG, z3.RealVal(0)), RM_ZERO(T(e.old.k)),
                               SUMT_EXT(arr(tup(ret, 1)), arr(e.p), XG, z3.RealVal(0), e.old.k)])


def dec_coeffs(d):
    return fld(d, "coeffs")


def gsum(d, th, Y):
    cs = dec_coeffs(d)
    return SEG(GV(arr(cs), XG, th), Y, 0, ln(cs))


def lens(cs, k):
    return qall([t], z3.Implies(z3.And(0 <= t, t < ln(cs)), z3.And(ln(at(cs, t)) >= 0, ln(at(cs, t)) <= k)), at(cs, t))


def dec_hints(e, w):
    k = e.decomposition_degree
    Y = T(k)
    cs = dec_coeffs(e.result)
    Z0 = z3.RealVal(0)
    if w == "init":
        return [SEG_ZERO(GV(arr(cs), XG, Z0), Y, z3.IntVal(0)), RP_ZERO(Y), RM_ONE(SUMT(arr(e.p), XG, 0, ln(e.p)))]
    if w == "body":
        e._ex.hd = (arr(cs), ln(cs), e.p)
        return []
    c0, L, p0 = e._ex.hd
    g0, g1 = GV(c0, XG, Z0), GV(arr(cs), XG, Z0)
    q, r = SUMT(arr(e.p), XG, 0, ln(e.p)), g1[L]
    return [SEG_EXT(g0, g1, Y, z3.IntVal(0), L), SEG_SUCC(g1, Y, z3.IntVal(0), L),
            DEC_STEP(SEG(g0, Y, 0, L), Y, q, r, L)]


decomp = Contract(
    "decompose", params=["cheb_polynomial", "decomposition_degree"],
    requires=lambda e: [e.decomposition_degree >= 1, e.decomposition_degree <= 2 ** 29, ln(e.cheb_polynomial) < 2 ** 31],
    ensures=lambda e, ret: [
        gsum(ret, z3.RealVal(0), T(e.old.decomposition_degree)) == SUMT(arr(e.old.cheb_polynomial), XG, 0, ln(e.old.cheb_polynomial)),
        lens(dec_coeffs(ret), e.old.decomposition_degree), fld(ret, "generatorDegree") == e.old.decomposition_degree,
        ln(dec_coeffs(ret)) >= 0, ln(dec_coeffs(ret)) <= ln(e.old.cheb_polynomial), z3.Implies(ln(e.old.cheb_polynomial) > 0, ln(dec_coeffs(ret)) > 0)],
    loops={0: Loop(lambda e: [
        ln(e.p) >= 0, ln(e.p) + ln(dec_coeffs(e.result)) <= ln(e.cheb_polynomial), lens(dec_coeffs(e.result), e.decomposition_degree), ln(dec_coeffs(e.result)) >= 0,
        fld(e.result, "generatorDegree") == e.decomposition_degree,
        z3.Implies(ln(dec_coeffs(e.result)) == 0, ln(e.p) == ln(e.cheb_polynomial)),
        gsum(e.result, z3.RealVal(0), T(e.decomposition_degree)) + RM(RP(T(e.decomposition_degree), ln(dec_coeffs(e.result))),
                                                                      SUMT(arr(e.p), XG, 0, ln(e.p))) ==
        SUMT(arr(e.cheb_polynomial), XG, 0, ln(e.cheb_polynomial))],
        lambda e: ln(e.p), hints=dec_hints)},
    post_hints=lambda e, ret: [SUMT_ZERO(arr(e.p), XG, z3.RealVal(0)), RM_ZERO(RP(T(e.decomposition_degree), ln(dec_coeffs(ret))))])

POW2_16 = Lemma("pow2_16", [], P2(16) == 2 ** 16, module="Poly")
POW2_31 = Lemma("pow2_31", [], P2(31) == 2 ** 31, module="Poly")
BV = lambda v: z3.BitVecVal(v, 64)
osplit_bv = Contract("optimalSplit", params=["logDegree"], bv=True, title="optimalSplit (machine arithmetic)",
                     requires=lambda e: [e.logDegree >= 1, e.logDegree <= 40],
                     ensures=lambda e, ret: [ret >= e.old.logDegree / BV(2), ret <= e.old.logDegree / BV(2) + 1])
osplit = Contract("optimalSplit", params=["logDegree"], model_only=True, requires=lambda e: [e.logDegree >= 1, e.logDegree <= 40],
                  ensures=lambda e, ret: [ret >= e.old.logDegree / 2, ret <= e.old.logDegree / 2 + 1],
                  on_call=lambda ex, e, ret: [POW2_16(), lemmas.POW2_MONO(ret, 16)])

larger = Contract("hasElementsLargerThan", params=["v", "threshold"], ensures=lambda e, ret: [
    z3.Implies(z3.Not(ret), qall([t], z3.Implies(z3.And(0 <= t, t < ln(e.old.v)), z3.Not(e.old.threshold <= ABSR(at(e.old.v, t)))), at(e.old.v, t)))])


def THR(e):
    return e.old.minCoeffThreshold


def total(e):
    return gsum(e.decomposition, THR(e), T(e.k))


def cps_common(e):
    mp = e.chebPolynomialValuesMap
    return [e.k >= 1, e.k <= 2 ** 17, ln(dec_coeffs(e.decomposition)) < 2 ** 31, cheb_map(mp, XG), lens(dec_coeffs(e.decomposition), e.k),
            qall([t], z3.Implies(z3.And(0 <= t, t <= e.k), z3.Select(acc(mp, 0), t)), z3.Select(acc(mp, 0), t))]


def steps_ok(e):
    return qall([t], z3.Implies(z3.And(0 <= t, t < ln(e.babySteps)),
                                EVN(at(e.babySteps, t)) == GV(arr(dec_coeffs(e.decomposition)), XG, THR(e))[t]), at(e.babySteps, t))


def cps_hints(e, w):
    cs = dec_coeffs(e.decomposition)
    c = at(cs, e.idx(0)) if e.has("decomposition") else None
    r = [SUMT_ZERO(arr(c), XG, THR(e)), SUMT_NONE(arr(c), XG, THR(e), ln(c)), GV(arr(cs), XG, THR(e))[e.idx(0)] == SUMT(arr(c), XG, THR(e), ln(c))]
    if e.has("j"):
        r += [SUMT_SUCC(arr(c), XG, THR(e), e.j)]
    return r


def tree_hints(e, w):
    if w == "body":
        e._ex.tr = (arr(e.babySteps), ln(e.babySteps), EVR(e.yPower))
        return []
    if w == "init":
        return [SEG_EXT(GV(arr(dec_coeffs(e.decomposition)), XG, THR(e)), NV(arr(e.babySteps)), T(e.k), z3.IntVal(0), ln(e.babySteps))]
    a0, n0, y0 = e._ex.tr
    return [SEG_PAIR(NV(a0), NV(arr(e.babySteps)), y0, n0, ln(e.babySteps))]


def next_inv(e):
    b, nx = e.babySteps, e.nextBabySteps
    return [e.i == 2 * ln(nx), e.i <= ln(b) + 1, e.i >= 0, ln(b) < 2 ** 31,
            qall([t], z3.Implies(z3.And(0 <= t, t < ln(nx)), EVN(at(nx, t)) == NV(arr(b))[2 * t] + z3.If(
                2 * t + 1 < ln(b), RM(NV(arr(b))[2 * t + 1], EVR(e.yPower)), z3.RealVal(0))), at(nx, t))]


def cheb_value(e, ret):
    full = SUMT(arr(e.old.coefficients), XG, 0, ln(e.old.coefficients))
    ds = [rv for (c, pre, rv) in e._ex.calllog if c == "decompose"]
    r = [z3.Implies(THR(e) <= 0, EVN(ret) == full)]
    if ds:
        r.append(EVN(ret) == gsum(ds[-1], THR(e), T(fld(ds[-1], "generatorDegree"))))
    else:
        r.append(EVN(ret) == SUMT(arr(e.old.coefficients), XG, THR(e), ln(e.old.coefficients)))
    return r


def cheb_post(e, ret):
    c = e.old.coefficients
    r = [SUMT_ZERO(arr(c), XG, z3.RealVal(0)), SUMT_ZERO(arr(c), XG, THR(e)), SUMT_SUCC(arr(c), XG, z3.RealVal(0), z3.IntVal(0)),
         SUMT_SUCC(arr(c), XG, THR(e), z3.IntVal(0)), CH_ZERO(XG), RM_ONE(arr(c)[0])]
    if e.has("babySteps"):
        cs = dec_coeffs(e.decomposition)
        r += [SEG_SUCC(NV(arr(e.babySteps)), EVR(e.yPower), z3.IntVal(0), z3.IntVal(0)), RP_ZERO(EVR(e.yPower)),
              SEG_ZERO(NV(arr(e.babySteps)), EVR(e.yPower), z3.IntVal(0)), RM_ONE(NV(arr(e.babySteps))[0]),
              SEG_EXT(GV(arr(cs), XG, THR(e)), GV(arr(cs), XG, z3.RealVal(0)), T(e.k), z3.IntVal(0), ln(cs)), SUMT_NOTHR.axiom()]
    return r


chebps = Contract(
    "patersonStockmeyerChebyshevPolynomialEvaluation", params=["x", "coefficients", "minCoeffThreshold", "coeffType"],
    requires=lambda e: [LVAL(e.x) == XG, ln(e.coefficients) < 2 ** 31],
    ensures=cheb_value,
    entry=lambda ex, e: [POW2_31(), lemmas.POW2_MONO(z3.IntVal(31), lib.ABITS(ln(e.coefficients) - 1) - 1)],
    loops={0: Loop(lambda e: cps_common(e) + [ln(e.babySteps) == e.idx(0), e.idx(0) <= ln(dec_coeffs(e.decomposition)), steps_ok(e)],
                   lambda e: ln(dec_coeffs(e.decomposition)) - e.idx(0), hints=cps_hints),
           1: Loop(lambda e: cps_common(e) + [e.j >= 0, e.j <= ln(at(dec_coeffs(e.decomposition), e.idx(0))),
                                              EVN(e.pol) == SUMT(arr(at(dec_coeffs(e.decomposition), e.idx(0))), XG, THR(e), e.j)],
                   lambda e: ln(at(dec_coeffs(e.decomposition), e.idx(0))) - e.j, hints=cps_hints),
           2: Loop(lambda e: [ln(e.babySteps) >= 1, ln(e.babySteps) < 2 ** 31, e.yPower != NULLNODE,
                              SEG(NV(arr(e.babySteps)), EVR(e.yPower), 0, ln(e.babySteps)) == total(e)],
                   lambda e: ln(e.babySteps), hints=tree_hints),
           3: Loop(next_inv, lambda e: ln(e.babySteps) + 1 - e.i, hints=lambda e, w: [RM_ZERO(EVR(e.yPower))])},
    post_hints=cheb_post)

CONTRACTS = scalar_factories(LVAL) + [horner, powers, split, gen1, gens, values, ps, divide, decomp, osplit, osplit_bv, larger, chebps]


def prop():
    return vf.Prop("C04", tu="polydag.cpp", contracts=CONTRACTS, axioms=[CFA_DEF, GV_DEF, NV_DEF],
                   overrides=OVERRIDES + [(r"LiteralDouble$", lambda tm, m: LD)],
                   method_hooks={"index": h_index}, trusted=[])


NATIVE = natspec.Native("c04.cpp", ["lib/Utils/Polynomial/ChebyshevDecomposition.cpp"], seconds=(15, 90))
NOTE = ("Proved over exact real arithmetic, for every coefficient map or vector (exponents >= 0, below 2^31 terms) and every argument: "
        "Horner and Paterson-Stockmeyer DAGs mean sum c_i x^i, the power and Chebyshev value tables hold x^i and T_i(x), the base-T_k "
        "decomposition represents the polynomial with every part of degree below k, and the Chebyshev DAG means that decomposition with the "
        "coefficients below the threshold zeroed (hence sum c_i T_i(x) at threshold 0; an absent DAG means 0). The meaning of a node "
        "built by a factory is the factory's contract (verified on the factories' bodies under C10). Trusted: std::map iteration and "
        "rbegin, std::sqrt/ceil exact on the sizes used, clang's AST, z3/cvc5, Lean.")

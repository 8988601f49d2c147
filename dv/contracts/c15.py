"""C15: log-domain noise arithmetic.  A double is an exact real or minus infinity; DEN is the magnitude it stands for."""
import z3
from sorts import *
from engine import Contract, Loop, LV
from lemmas import Lemma, ghost
import lib, lemmas
import vf, natspec

R, I = z3.RealSort(), z3.IntSort()
EXP2 = ghost("exp2r", "DV.exp2r", R, R)
LNR = ghost("lnr", "Real.log", R, R)
lemmas.LEAN_FUN["log2r"] = "DV.log2r"
lemmas.LEAN_FUN["sqrtr"] = "Real.sqrt"
LOG2R, SQRTR = lib.LOG2R, lib.SQRTR
x, y, z = z3.Reals("x y z")
M = "LogDomain"


def L(name, vs, concl, hyps=(), pats=None):
    return Lemma(name, vs, concl, list(hyps), patterns=pats, module=M)


E_POS = L("exp2_pos", [x], EXP2(x) > 0, pats=[EXP2(x)])
E_ADD = L("exp2_add", [x, y], EXP2(x + y) == EXP2(x) * EXP2(y))
E_SUB = L("exp2_sub", [x, y], EXP2(x - y) * EXP2(y) == EXP2(x))
E_NEG = L("exp2_neg", [x], EXP2(-x) * EXP2(x) == 1)
E_LT = L("exp2_lt", [x, y], (EXP2(x) < EXP2(y)) == (x < y))
E_INJ = L("exp2_inj", [x, y], (EXP2(x) == EXP2(y)) == (x == y))
E_LOG = L("exp2_log2", [x], EXP2(LOG2R(x)) == x, [x > 0])
E_LNDIV = L("exp2_lndiv", [x], EXP2(LNR(x) / LNR(2)) == x, [x > 0])
E_ONE = L("exp2_one", [], EXP2(1) == 2)
LN2POS = L("ln2_pos", [], LNR(2) > 0)
DELTA = z3.Q(1, 2 ** 512)
E_FAR = L("exp2_far", [x, y], EXP2(y) <= EXP2(x) * DELTA, [x - y > 512])


def DEN(v):
    return z3.If(XR.is_fin(v), EXP2(XR.xval(v)), z3.RealVal(0))


def V(l):
    """the double inside a Log2Arithmetic"""
    return fld(l, "log2value")


def D(l):
    return DEN(V(l))


def ADDV(a, b):
    """magnitude of a+b as the code computes it: the larger operand alone when the other is 2^512 times smaller (symmetric)"""
    va, vb = XR.xval(a), XR.xval(b)
    far = z3.Or(z3.Not(XR.is_fin(a)), z3.Not(XR.is_fin(b)), va - vb > 512, vb - va > 512)
    return z3.If(far, z3.If(DEN(a) >= DEN(b), DEN(a), DEN(b)), DEN(a) + DEN(b))


# a product hidden behind a function symbol, so that long chains of products are matched by congruence
RM = ghost("rmul", "DV.rmul", R, R, R)
RM_DEF = L("rmul_def", [x, y], RM(x, y) == x * y)


def pair_facts(a, b):
    p, q = XR.xval(a), XR.xval(b)
    return [E_POS(p), E_POS(q), E_LT(p, q), E_LT(q, p), E_INJ(p, q), E_FAR(p, q), E_FAR(q, p)]


def sound_add(s, a, b):
    """s = a + b up to the truncation, and no smaller than either"""
    return [s <= a + b, s >= (1 - DELTA) * (a + b), s >= a, s >= b]


def add_facts(a, b):
    p, q = XR.xval(a), XR.xval(b)
    r = [LN2POS(), E_ONE()]
    for u, w in ((p, q), (q, p)):
        r += [E_ADD(z3.RealVal(1), u), E_SUB(w, u), E_POS(w - u), E_LNDIV(1 + EXP2(w - u)),
              E_ADD(u, LNR(1 + EXP2(w - u)) / LNR(2)), E_ADD(u, z3.RealVal(1)), E_LT(w, u)]
    return r


def num(ex, n, fr, args, i=0):
    return ex.coerce_sort(ex.num(ex.eval(args[i], fr)), XR)


def f_log2(ex, n, fr, name, rd, args, want_lv):
    v = num(ex, n, fr, args)
    ex.check(z3.And(XR.is_fin(v), XR.xval(v) > 0), "logarithm of a positive number", n, "safety")
    return XR.fin(LOG2R(XR.xval(v)))


def f_log(ex, n, fr, name, rd, args, want_lv):
    v = num(ex, n, fr, args)
    ex.check(z3.And(XR.is_fin(v), XR.xval(v) > 0), "logarithm of a positive number", n, "safety")
    return XR.fin(LNR(XR.xval(v)))


def f_log1p(ex, n, fr, name, rd, args, want_lv):
    v = num(ex, n, fr, args)
    ex.check(z3.And(XR.is_fin(v), XR.xval(v) > -1), "log1p above -1", n, "safety")
    return XR.fin(LNR(1 + XR.xval(v)))


def f_exp2(ex, n, fr, name, rd, args, want_lv):
    v = num(ex, n, fr, args)
    return XR.fin(DEN(v))


def f_sqrt(ex, n, fr, name, rd, args, want_lv):
    v = num(ex, n, fr, args)
    ex.check(z3.And(XR.is_fin(v), XR.xval(v) >= 0), "square root of a non-negative number", n, "safety")
    return XR.fin(SQRTR(XR.xval(v)))


def f_ceil(ex, n, fr, name, rd, args, want_lv):
    v = num(ex, n, fr, args)
    ex.check(XR.is_fin(v), "ceil of a finite number", n, "safety")
    return XR.fin(z3.ToReal(-z3.ToInt(-XR.xval(v))))


def f_pow(ex, n, fr, name, rd, args, want_lv):
    b, e = num(ex, n, fr, args), num(ex, n, fr, args, 1)
    ex.check(z3.And(XR.is_fin(b), XR.xval(b) == 2, XR.is_fin(e)), "power of two with a finite exponent", n, "safety")
    return XR.fin(EXP2(XR.xval(e)))


SP = Opaque("SchemeParam")
LP = Opaque("LocalParam")
g_sp = z3.Function("schemeOf", LP, SP)
GET_S = {"getPlaintextModulus": I, "getRingDim": I, "getStd0": R, "getLogqi": Seq(XR), "getUsePublicKey": z3.BoolSort(),
         "isEncryptionTechniqueExtended": z3.BoolSort(), "getDnum": I, "getLevel": I}
GET_L = {"getCurrentLevel": I, "getDimension": I}
GF = {k: z3.Function("sp_" + k, SP, s) for k, s in GET_S.items()}
GF.update({k: z3.Function("lp_" + k, LP, s) for k, s in GET_L.items()})


def getter(nm):
    def h(ex, n, fr, core, name, getobj, args, want_lv):
        o = getobj()
        o = ex.load(o) if not isinstance(o, z3.ExprRef) else o
        if nm == "getSchemeParam":
            return g_sp(o)
        r = GF[nm](o)
        if z3.is_int(r):       # machine range of the getter's type
            w = 63 if nm == "getPlaintextModulus" else 31
            ex.assume(z3.And(r >= -2 ** w, r < 2 ** w))
        return r
    return h


METHODS = {k: getter(k) for k in list(GET_S) + list(GET_L) + ["getSchemeParam"]}

LOGA = Rec("Log2Arithmetic", [("log2value", XR)])
NSTATE = Rec("NoiseState", [("noiseType", I), ("value", Opt(LOGA)), ("degree", I)])
LTHIS = lambda ex: z3.Const("this!0", LOGA)
NTHIS = lambda ex: z3.Const("this!0", NSTATE)

# ------------------------------------------------------------- the log domain
of = Contract("Log2Arithmetic::of", params=["value"], pick=lambda f: "Log2" in f.qname,
              requires=lambda e: [XR.is_fin(e.value), XR.xval(e.value) >= 0],
              ensures=lambda e, ret: [D(ret) == XR.xval(e.old.value)],
              post_hints=lambda e, ret: [E_LOG(XR.xval(e.old.value))])

add = Contract("Log2Arithmetic::operator+", params=["rhs"], this=LTHIS,
               ensures=lambda e, ret: [D(ret) == ADDV(V(e.this), V(e.old.rhs))] + sound_add(D(ret), D(e.this), D(e.old.rhs)),
               post_hints=lambda e, ret: pair_facts(V(e.this), V(e.old.rhs)) + add_facts(V(e.this), V(e.old.rhs)))

mul = Contract("Log2Arithmetic::operator*", params=["rhs"], this=LTHIS,
               ensures=lambda e, ret: [D(ret) == D(e.this) * D(e.old.rhs)],
               post_hints=lambda e, ret: [E_ADD(XR.xval(V(e.this)), XR.xval(V(e.old.rhs))), E_ADD(XR.xval(V(e.old.rhs)), XR.xval(V(e.this)))])

lt = Contract("Log2Arithmetic::operator<", params=["rhs"], this=LTHIS, ret=lambda ex: z3.BoolSort(),
              ensures=lambda e, ret: [ret == (D(e.this) < D(e.old.rhs))],
              post_hints=lambda e, ret: pair_facts(V(e.this), V(e.old.rhs)))

eq = Contract("Log2Arithmetic::operator==", params=["rhs"], this=LTHIS,
              ensures=lambda e, ret: [ret == (D(e.this) == D(e.old.rhs))],
              post_hints=lambda e, ret: pair_facts(V(e.this), V(e.old.rhs)))

getv = Contract("Log2Arithmetic::getValue", params=[], this=LTHIS,
                ensures=lambda e, ret: [ret == XR.fin(D(e.this))])


# ------------------------------------------------------------- noise states
def known(s):
    return z3.And(fld(s, "noiseType") == 1, has(fld(s, "value")))


def N(s):
    return D(get(fld(s, "value")))


def NV(s):
    return V(get(fld(s, "value")))


def zmax(a, b):
    return z3.If(a >= b, a, b)


def deg(s):
    return fld(s, "degree")


ns_of = Contract("NoiseState::of", params=["value", "degree"], nparams=2,
                 requires=lambda e: [XR.is_fin(e.value), XR.xval(e.value) >= 0],
                 ensures=lambda e, ret: [known(ret), N(ret) == XR.xval(e.old.value), deg(ret) == e.old.degree])
ns_of1 = Contract("NoiseState::of", params=["value"], nparams=1,
                  requires=lambda e: [XR.is_fin(e.value), XR.xval(e.value) >= 0],
                  ensures=lambda e, ret: [known(ret), N(ret) == XR.xval(e.old.value), deg(ret) == 0])
plainop = lambda f: "NoiseState" in f.params[0]["type"]["qualType"]
ns_add = Contract("NoiseState::operator+", params=["rhs"], this=NTHIS, pick=plainop, requires=lambda e: [known(e.this), known(e.rhs)],
                  ensures=lambda e, ret: [known(ret), N(ret) == ADDV(NV(e.this), NV(e.old.rhs)), deg(ret) == zmax(deg(e.this), deg(e.old.rhs))]
                  + sound_add(N(ret), N(e.this), N(e.old.rhs)))
ns_mul = Contract("NoiseState::operator*", params=["rhs"], this=NTHIS, pick=plainop, requires=lambda e: [known(e.this), known(e.rhs)],
                  ensures=lambda e, ret: [known(ret), N(ret) == N(e.this) * N(e.old.rhs), N(ret) == RM(N(e.this), N(e.old.rhs)), deg(ret) == zmax(deg(e.this), deg(e.old.rhs))],
                  post_hints=lambda e, ret: [RM_DEF(N(e.this), N(e.old.rhs))])


ST = lambda s: fld(s, "noiseType")


def wfst(s):
    """UNINITIALIZED, or SET with a value"""
    return z3.Or(ST(s) == 0, known(s))


ns_join = Contract("NoiseState::join", params=["lhs", "rhs"], requires=lambda e: [wfst(e.lhs), wfst(e.rhs)],
                   ensures=lambda e, ret: (lambda a, b: [
                       z3.Implies(ST(a) == 0, ret == b), z3.Implies(z3.And(ST(a) != 0, ST(b) == 0), ret == a),
                       z3.Implies(z3.And(known(a), known(b)), z3.And(known(ret), N(ret) == zmax(N(a), N(b)), deg(ret) == zmax(deg(a), deg(b))))])(e.old.lhs, e.old.rhs))


def f_max(ex, n, fr, name, rd, args, want_lv):
    """std::max of two objects: the second when the first is less by their operator<"""
    if len(args) != 2:
        return NotImplemented
    V2 = [ex.eval(a, fr) for a in args]
    V2 = [ex.load(v) if not isinstance(v, z3.ExprRef) else v for v in V2]
    if kind(V2[0]) != "rec":
        return z3.If(V2[0] < V2[1], V2[1], V2[0])
    lvs = []
    for v in V2:
        k = ex.newkey("max")
        ex.store[k] = v
        lvs.append(LV(k))
    lib.note("std::max through operator<")
    return z3.If(ex.apply_contract(lt, None, [lvs[0], V2[1]], n, fr, True), V2[1], V2[0])


# ------------------------------------------------------------- the noise models
def model_this(cls):
    return lambda ex: z3.Const("this!0", Rec(cls, [("variant", I)]))


def i2r(v):
    return z3.ToReal(v)


def RB(est, exact, ops):
    """est is at most the exact combination and short of it by no more than ops truncations"""
    return [est <= exact, est >= (1 - ops * DELTA) * exact]


def variant_ok(e):
    v = fld(e.this, "variant")
    return z3.Or(v == 0, v == 1)


def ring(sp):
    return i2r(GF["getRingDim"](sp))


def EF(e, sp):
    """expansion factor: N in the worst case, 2 sqrt N on average"""
    return z3.If(fld(e.this, "variant") == 1, ring(sp), 2 * SQRTR(ring(sp)))


def EFMS(e, sp):
    return z3.If(fld(e.this, "variant") == 1, ring(sp), 4 * SQRTR(ring(sp)))


def params_ok(sp):
    n, t = GF["getRingDim"](sp), GF["getPlaintextModulus"](sp)
    # a ring dimension is a power of two >= 2, so even; the products of the model fit their machine types
    return [n >= 2, n % 2 == 0, n <= 2 ** 30, t >= 1, t <= 2 ** 32, GF["getStd0"](sp) >= 0]


def fin(r, v):
    return [XR.is_fin(r), XR.xval(r) == v]


SCHEMES = ("bgv", "bfv")
CL = "NoiseByBoundCoeffModel"


def model(scheme):
    q = scheme + "::" + CL + "::"
    T = model_this(CL)
    sp = lambda e: g_sp(e.old.param)
    ef = Contract(q + "getExpansionFactor", params=["param"], this=T, requires=lambda e: [variant_ok(e)] + params_ok(g_sp(e.param)),
                  ensures=lambda e, ret: fin(ret, EF(e, sp(e))) + [XR.xval(ret) > 0], post_hints=lambda e, ret: [SQ(ring(sp(e)))])
    efms = Contract(q + "getExpansionFactorForModulusSwitching", params=["param"], this=T, requires=lambda e: [variant_ok(e)] + params_ok(g_sp(e.param)),
                    ensures=lambda e, ret: fin(ret, EFMS(e, sp(e))) + [XR.xval(ret) > 0], post_hints=lambda e, ret: [SQ(ring(sp(e)))])
    berr = Contract(q + "getBoundErr", params=["param"], this=T, requires=lambda e: params_ok(g_sp(e.param)),
                    ensures=lambda e, ret: fin(ret, 6 * GF["getStd0"](sp(e))))
    bkey = Contract(q + "getBoundKey", params=["param"], this=T, ensures=lambda e, ret: fin(ret, z3.RealVal(1)))
    BERR = lambda s: 6 * GF["getStd0"](s)
    encpk = Contract(q + "evalEncryptPk", params=["param"], this=T, requires=lambda e: [variant_ok(e)] + params_ok(g_sp(e.param)),
                     ensures=lambda e, ret: [known(ret), N(ret) == BERR(sp(e)) * (1 + 2 * EF(e, sp(e)))], entry=lambda ex, e: [])
    encsk = Contract(q + "evalEncryptSk", params=["param"], this=T, requires=lambda e: [variant_ok(e)] + params_ok(g_sp(e.param)),
                     ensures=lambda e, ret: [known(ret), N(ret) == BERR(sp(e))])
    const = Contract(q + "evalConstant", params=["param"], this=T, ensures=lambda e, ret: [known(ret), N(ret) == 0])
    a0, b0 = z3.Reals("lesser0!ghost lesser1!ghost")
    # ghost operand noises no larger than the actual ones: the result is no smaller than their exact combination, up to truncation

    def add_ens(e, ret):
        va, vb = N(e.old.lhs), N(e.old.rhs)
        return [known(ret), N(ret) >= va, N(ret) >= vb, deg(ret) == zmax(zmax(deg(e.old.lhs), deg(e.old.rhs)), 0)] + RB(N(ret), va + vb + 1, 2) + [
            z3.Implies(z3.And(a0 <= va, b0 <= vb), N(ret) >= (1 - 2 * DELTA) * (a0 + b0 + 1))]
    eadd = Contract(q + "evalAdd", params=["lhs", "rhs"], this=T, requires=lambda e: [known(e.lhs), known(e.rhs)], ensures=add_ens)
    p = lambda e: g_sp(e.old.resultParam)
    tt = lambda s: i2r(GF["getPlaintextModulus"](s))

    def exact_bgv(e, u, v):
        s = p(e)
        return EF(e, s) * tt(s) * (u * v) + (u + v + 1) * (ring(s) * tt(s) / 2)

    def exact_bfv(e, u, v):
        s = p(e)
        lq = GF["getLogqi"](s)
        return EF(e, s) * tt(s) * (u * v) * QINV(arr(lq), ln(lq)) + (u + v) * (EF(e, s) * tt(s) / 2) * (4 + EFMS(e, s)) + \
            (1 + EFMS(e, s) + EF(e, s) * EFMS(e, s)) / 2
    exact = exact_bgv if scheme == "bgv" else exact_bfv

    def mul_ens(e, ret):
        va, vb = N(e.old.lhs), N(e.old.rhs)
        return [known(ret)] + RB(N(ret), exact(e, va, vb), 3)
    kx = z3.Int("k!lq")

    def mul_req(e):
        s = g_sp(e.resultParam)
        r = [variant_ok(e), known(e.lhs), known(e.rhs)] + params_ok(s)
        if scheme == "bfv":
            lq = GF["getLogqi"](s)
            r += [ln(lq) >= 0, qall([kx], z3.Implies(z3.And(0 <= kx, kx < ln(lq)), XR.is_fin(at(lq, kx))), at(lq, kx))]
        return r
    loops = {}
    if scheme == "bfv":
        loops = {0: Loop(lambda e: [known(e.Qinv), N(e.Qinv) == QINV(arr(GF["getLogqi"](g_sp(e.resultParam))), e.idx(0)), N(e.Qinv) > 0],
                         hints=lambda e, w: [QI_S(arr(GF["getLogqi"](g_sp(e.resultParam))), e.idx(0)),
                                             E_POS(-XR.xval(at(GF["getLogqi"](g_sp(e.resultParam)), e.idx(0))))] if w != "init" else
                         [QI_0(arr(GF["getLogqi"](g_sp(e.resultParam))))])}
    emul = Contract(q + "evalMul", params=["resultParam", "lhs", "rhs"], this=T, requires=mul_req, ensures=mul_ens, loops=loops,
                    post_hints=mul_post(scheme))
    ip = lambda e: g_sp(e.old.inputParam)
    relin_req = lambda e: [variant_ok(e), known(e.input), GF["getDnum"](g_sp(e.inputParam)) >= 1, GF["getDnum"](g_sp(e.inputParam)) <= 1000] + \
        params_ok(g_sp(e.inputParam)) + [lvl(e) >= 0, lvl(e) <= 1000]
    lvl = (lambda e: GF["getCurrentLevel"](e.inputParam)) if scheme == "bgv" else (lambda e: GF["getLevel"](g_sp(e.inputParam)))

    def digits(e):
        s = ip(e)
        l = GF["getCurrentLevel"](e.old.inputParam) if scheme == "bgv" else GF["getLevel"](s)
        d = GF["getDnum"](s)
        return i2r(-z3.ToInt(-(i2r(l + 1) / i2r(d)))) + 1

    def relin_ens(e, ret):
        s = ip(e)
        return [known(ret), N(ret) >= N(e.old.input)] + RB(N(ret), N(e.old.input) + digits(e) * EF(e, s) * BERR(s) / 2 + (1 + EFMS(e, s)) / 2, 2)
    relinh = Contract(q + "evalRelinearizeHYBRID", params=["inputParam", "input"], this=T, requires=relin_req, ensures=relin_ens)
    relin = Contract(q + "evalRelinearize", params=["inputParam", "input"], this=T, requires=relin_req, ensures=relin_ens)
    r = [ef, efms, berr, bkey, encpk, encsk, const, eadd, emul, relinh, relin]
    if scheme == "bgv":
        def mr_req(e):
            lq, l = GF["getLogqi"](g_sp(e.inputParam)), GF["getCurrentLevel"](e.inputParam)
            return [variant_ok(e), known(e.input), GF["getDimension"](e.inputParam) == 2, 0 <= l, l < ln(lq), XR.is_fin(at(lq, l))] + params_ok(g_sp(e.inputParam))

        def mr_ens(e, ret):
            s = ip(e)
            q_ = EXP2(XR.xval(at(GF["getLogqi"](s), GF["getCurrentLevel"](e.old.inputParam))))
            return [known(ret)] + RB(N(ret), N(e.old.input) / q_ + (1 + EFMS(e, s)) / 2, 1)
        r.append(Contract(q + "evalModReduce", params=["inputParam", "input"], this=T, requires=mr_req, ensures=mr_ens))
    return r


SQ = Lemma("sqrtr_pos", [x], z3.And(SQRTR(x) > 0, SQRTR(x) * SQRTR(x) == x), [x > 0], module=M)
XA = z3.ArraySort(I, XR)
lq_, k_ = z3.Const("lq", XA), z3.Int("k")
QINV = z3.Function("qinv", XA, I, R)


class Def:
    """defining equation of a specification function (a recursive definition on k >= 0: conservative)"""
    def __init__(self, f):
        self.f = f

    def __call__(self, *a):
        return self.f(*a)


QI_0 = Def(lambda a: QINV(a, z3.IntVal(0)) == 1)
QI_S = Def(lambda a, k: z3.Implies(k >= 0, QINV(a, k + 1) == QINV(a, k) * EXP2(-XR.xval(a[k]))))


def combo():
    va, vb, ef, t, w, M1, M2, M3, M4, s1, s2, r = vs = z3.Reals("va vb ef t w M1 M2 M3 M4 s1 s2 r")
    d = DELTA
    nn = [v >= 0 for v in (va, vb, ef, t, w)]
    X = ef * t * (va * vb) + (va + vb + 1) * w
    mc = L("mul_bgv", vs, z3.And(r <= X, r >= (1 - 3 * d) * X), nn + [
        M1 == RM(va, vb), M2 == RM(M1, ef), M3 == RM(M2, t), M4 == RM(s2, w), s1 <= va + vb, s1 >= (1 - d) * (va + vb), s2 <= s1 + 1, s2 >= (1 - d) * (s1 + 1),
        r <= M3 + M4, r >= (1 - d) * (M3 + M4)])
    Q, h, g, c, M5, M6 = z3.Reals("Q h g c M5 M6")
    vs = [va, vb, ef, t, Q, h, g, c, M1, M2, M3, M4, M5, M6, s1, s2, r]
    nn = [v >= 0 for v in (va, vb, ef, t, Q, h, g, c)]
    X = ef * t * (va * vb) * Q + (va + vb) * h * g + c
    mc2 = L("mul_bfv", vs, z3.And(r <= X, r >= (1 - 3 * d) * X), nn + [
        M1 == RM(va, vb), M2 == RM(M1, ef), M3 == RM(M2, t), M4 == RM(M3, Q), M5 == RM(s1, h), M6 == RM(M5, g), s1 <= va + vb, s1 >= (1 - d) * (va + vb),
        s2 <= M4 + M6, s2 >= (1 - d) * (M4 + M6), r <= s2 + c, r >= (1 - d) * (s2 + c)])
    n, t2 = z3.Ints("n t")
    half = L("half_mul", [n, t2], z3.ToReal((n * t2) / 2) == z3.ToReal(n) * z3.ToReal(t2) / 2, [n % 2 == 0])
    return mc, mc2, half


MC, MC2, HALF = combo()


def calls(e, c):
    return [N(r) for nm, pre, r in e._ex.calllog if nm == c.title]


def mul_post(scheme):
    def h(e, ret):
        s = g_sp(e.old.resultParam)
        A, P = calls(e, ns_add), calls(e, ns_mul)
        va, vb, ef, t = N(e.old.lhs), N(e.old.rhs), EF(e, s), z3.ToReal(GF["getPlaintextModulus"](s))
        hs = [HALF(GF["getRingDim"](s), GF["getPlaintextModulus"](s)), SQ(ring(s))]
        if scheme == "bgv":
            if len(A) == 3 and len(P) == 4:
                hs.append(MC(va, vb, ef, t, ring(s) * t / 2, P[0], P[1], P[2], P[3], A[0], A[1], A[2]))
        elif len(A) == 3 and len(P) == 6:
            lq = GF["getLogqi"](s)
            hs.append(MC2(va, vb, ef, t, QINV(arr(lq), ln(lq)), ef * t / 2, 4 + EFMS(e, s), (1 + EFMS(e, s) + ef * EFMS(e, s)) / 2,
                          P[0], P[1], P[2], P[3], P[4], P[5], A[0], A[1], A[2]))
        return hs
    return h


def prop():
    return vf.Prop("C15", tu="noise.cpp", contracts=[of, add, mul, lt, eq, getv, ns_of, ns_of1, ns_add, ns_mul, ns_join] + model("bgv") + model("bfv"),
                   overrides=[(r"^double$", lambda tm, m: XR), (r"NoiseType$|NoiseModelVariant$", lambda tm, m: I),
                              (r"SchemeParam( const)?( \*)?$", lambda tm, m: SP), (r"LocalParam(Type)?$", lambda tm, m: LP)],
                   func_hooks={"max": f_max, "log2": f_log2, "log": f_log, "log1p": f_log1p, "exp2": f_exp2, "sqrt": f_sqrt, "ceil": f_ceil, "pow": f_pow},
                   method_hooks=METHODS, globals={"NEGATIVE_INFINITY": XR.ninf}, axioms=[E_POS.axiom(), LN2POS.axiom()],
                   trusted=["double is an exact real or minus infinity", "std::log2/log/log1p/exp2/sqrt/ceil/pow are the real functions",
                            "parameter getters return one immutable field", "QINV: recursive definition of the product of 2^-logq_i"])


NATIVE = natspec.Native("c15.cpp", ["lib/Utils/LogArithmetic.cpp", "lib/Analysis/NoiseAnalysis/Noise.cpp",
                                    "lib/Analysis/NoiseAnalysis/BGV/NoiseByBoundCoeffModel.cpp",
                                    "lib/Analysis/NoiseAnalysis/BFV/NoiseByBoundCoeffModel.cpp"], seconds=(10, 60))
NOTE = ("Proved over exact reals extended by minus infinity (so rounding of double is outside, and overflow to plus infinity or NaN is "
        "an obligation), for every magnitude: denotation of of/+/*/</==, the two-sided bounds with 2^-512 truncation, symmetry, and for "
        "the BGV and BFV coefficient-bound models the add, multiply, relinearize, modulus-switch and fresh-noise rules against the "
        "documented formulae, from which monotonicity up to the truncation follows. Ring dimensions are even, up to 2^30, plaintext "
        "modulus up to 2^32, at most 1000 levels. Trusted: parameter getters read one immutable field; std::log2, exp2, log1p, log, "
        "sqrt, pow, ceil are the real functions; clang's AST, z3/cvc5, Lean. NoiseState::join is the larger magnitude and degree, an "
        "uninitialized state being neutral. The variance and canonical-embedding models are not under contract.")

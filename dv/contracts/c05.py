"""C05: polynomials.  VAL(p, x) is the value of the stored terms at x: over the reals for floating coefficients (machine
doubles treated as exact), modulo 2^64 for integer ones.  Every contract is stated for a symbolic, hence every, x."""
import z3
from sorts import *
from engine import Contract, Loop, LV, Unnamed
from lemmas import Lemma, ghost
import lib, lemmas
import vf, natspec

R, I, Bo = z3.RealSort(), z3.IntSort(), z3.BoolSort()
RA, IA = z3.ArraySort(I, R), z3.ArraySort(I, I)
M64 = 2 ** 64
IM = Rec("IntMono", [("coefficient", APINT), ("exponent", APINT)])
FM = Rec("FloatMono", [("coefficient", R), ("exponent", APINT)])
IP = Rec("IntPoly", [("terms", Seq(IM))])
FP = Rec("FloatPoly", [("terms", Seq(FM))])
CP = Rec("ChebPoly", [("terms", Seq(R))])
i, j, k, n, m, t, u, s_ = z3.Ints("i j k n m t u s")
EXP_MAX = 2 ** 31


def PL(name, vs, concl, hyps=(), patterns=None):
    return Lemma(name, vs, concl, list(hyps), patterns=patterns, module="Polyn")


EX = lambda mono: val(fld(mono, "exponent"))
RMUL = ghost("rmul", "DV.rm", R, R, R)
RPOW = ghost("rp", "DV.rp", R, I, R)
IMUL = ghost("mulm", "DV.mulm", I, I, I)
IPOW = ghost("powm", "DV.powm", I, I, I)
T = lambda s: fld(s, "terms")


def imp(*a):
    r = a[-1]
    for h in reversed(a[:-1]):
        r = z3.Implies(h, r)
    return r


class Ring:
    """what the two coefficient rings have in common"""

    def __init__(self, tag, mono, poly, sort, mul, pw):
        self.tag, self.mono, self.poly, self.sort, self.mul, self.pw = tag, mono, poly, sort, mul, pw
        self.seq, self.int = Seq(mono), sort == I
        A = z3.ArraySort(I, mono)
        CA = z3.ArraySort(I, sort)
        self.C = (lambda mo: val(fld(mo, "coefficient"))) if self.int else (lambda mo: fld(mo, "coefficient"))
        C = self.C
        PV = self.PV = ghost("pv" + tag, "DV.pv" + tag, A, sort, I, sort)
        SUF = self.SUF = ghost("suf" + tag, "DV.suf" + tag, A, sort, I, I, sort)
        PVD = self.PVD = ghost("pvd" + tag, "DV.pvd" + tag, CA, sort, I, sort)
        a, b = z3.Const("a", A), z3.Const("b", A)
        x, y, z, w = [z3.Const(q, sort) for q in "xyzw"]
        c = z3.Const("c", CA)
        p, q = z3.Const("p", IA), z3.Const("q", IA)
        mo = z3.Const("mo", mono)
        num = z3.IntVal if self.int else z3.RealVal
        self.num = num
        self.x = z3.Const("x!" + tag, sort)
        red, TERM = self.red, self.term
        g = lambda nm, *r, **kw: PL(nm % tag, *r, **kw)
        self.ZERO = g("pv%s_zero", [a, x], PV(a, x, 0) == 0, patterns=[PV(a, x, 0)])
        self.ONE = g("pv%s_one", [a, x], PV(a, x, 1) == red(C(a[0])), [EX(a[0]) == 0], patterns=[PV(a, x, 1)])
        self.SUCC = g("pv%s_succ", [a, x, n], PV(a, x, n + 1) == red(PV(a, x, n) + TERM(a[n], x)), [n >= 0])
        self.EXT = g("pv%s_ext", [a, b, x, n], PV(a, x, n) == PV(b, x, n), [z3.ForAll([t], imp(0 <= t, t < n, a[t] == b[t]))])
        self.PUSH = g("pv%s_push", [a, x, n, k, mo], PV(z3.Store(a, k, mo), x, n) == PV(a, x, n), [k >= n],
                      patterns=[PV(z3.Store(a, k, mo), x, n)])
        self.UPD = g("pv%s_upd", [a, x, n, k, mo], PV(z3.Store(a, k, mo), x, n) == red(PV(a, x, n) + TERM(mo, x) - TERM(a[k], x)),
                     [0 <= k, k < n], patterns=[PV(z3.Store(a, k, mo), x, n)])
        self.ERASE = g("pv%s_erase", [a, b, x, n, k], PV(b, x, n) == red(PV(a, x, n + 1) - TERM(a[k], x)),
                       [0 <= k, k <= n, z3.ForAll([t], imp(0 <= t, t < k, b[t] == a[t])), z3.ForAll([t], imp(k <= t, t < n, b[t] == a[t + 1]))])
        self.PERM = g("pv%s_perm", [a, b, p, q, x, n], PV(b, x, n) == PV(a, x, n),
                      [z3.ForAll([t], imp(0 <= t, t < n, z3.And(0 <= p[t], p[t] < n, q[p[t]] == t, b[t] == a[p[t]]))),
                       z3.ForAll([t], imp(0 <= t, t < n, z3.And(0 <= q[t], q[t] < n, p[q[t]] == t)))])
        self.ranges = [PL("pvi_range", [a, x, n], z3.And(0 <= PV(a, x, n), PV(a, x, n) < M64), patterns=[PV(a, x, n)]),
                       PL("sufi_range", [a, y, k, n], z3.And(0 <= SUF(a, y, k, n), SUF(a, y, k, n) < M64), patterns=[SUF(a, y, k, n)]),
                       PL("pvdi_range", [c, x, n], z3.And(0 <= PVD(c, x, n), PVD(c, x, n) < M64), patterns=[PVD(c, x, n)]),
                       PL("mulm_range", [x, y], z3.And(0 <= mul(x, y), mul(x, y) < M64), patterns=[mul(x, y)])] if self.int else []
        self.DIST = g("mul%s_dist", [x, y, z], mul(red(x + y), z) == red(mul(x, z) + mul(y, z)))
        self.DISTR = g("mul%s_distr", [x, y, z], mul(z, red(x + y)) == red(mul(z, x) + mul(z, y)))
        self.MULZ = g("mul%s_zero", [x], z3.And(mul(num(0), x) == 0, mul(x, num(0)) == 0))
        self.MUL1 = g("mul%s_one", [x], z3.And(mul(num(1), x) == red(x), mul(x, num(1)) == red(x)))
        self.NEG = g("mul%s_neg", [x], mul(num(M64 - 1 if self.int else -1), x) == red(-x))
        self.ASSOC = g("mul%s_assoc", [x, y, z], mul(mul(x, y), z) == mul(y, mul(x, z)))
        self.FOUR = g("mul%s_four", [x, y, z, w], mul(mul(x, y), mul(z, w)) == mul(mul(x, z), mul(y, w)))
        self.COMM = g("mul%s_comm", [x, y], mul(x, y) == mul(y, x))
        self.MOD = PL("muli_mod", [x, y], mul(x % M64, y) == mul(x, y)) if self.int else None
        self.POW0 = g("pow%s_zero", [x], pw(x, 0) == 1)
        self.POW1 = g("pow%s_one", [x], pw(x, 1) == red(x))
        self.POWADD = g("pow%s_add", [x, m, n], pw(x, m + n) == mul(pw(x, m), pw(x, n)), [m >= 0, n >= 0])
        inc = z3.ForAll([t, u], imp(0 <= t, t < u, u < n, EX(a[t]) < EX(a[u])))
        self.SUFTOP = g("suf%s_top", [a, y, n], SUF(a, y, EX(a[n - 1]), n) == red(C(a[n - 1])), [n >= 1, inc])
        self.SUFMISS = g("suf%s_miss", [a, y, k, n], SUF(a, y, k, n) == mul(SUF(a, y, k + 1, n), y),
                         [z3.ForAll([t], imp(0 <= t, t < n, EX(a[t]) != k))])
        self.SUFHIT = g("suf%s_hit", [a, y, k, n, s_], SUF(a, y, k, n) == red(mul(SUF(a, y, k + 1, n), y) + C(a[s_])),
                        [0 <= s_, s_ < n, EX(a[s_]) == k, inc])
        self.SUFZERO = g("suf%s_zero", [a, y, n], SUF(a, y, 0, n) == PV(a, y, n), [z3.ForAll([t], imp(0 <= t, t < n, 0 <= EX(a[t])))])
        self.LEN = g("inc%s_len", [a, n, k], n <= k, [0 <= k, z3.ForAll([t], imp(0 <= t, t < n, z3.And(0 <= EX(a[t]), EX(a[t]) < k))), inc])
        self.PVDZERO = g("pvd%s_zero", [c, x], PVD(c, x, 0) == 0)
        self.PVDSUCC = g("pvd%s_succ", [c, x, n], PVD(c, x, n + 1) == red(PVD(c, x, n) + mul(c[n], pw(x, n))), [n >= 0])

    def red(self, v):
        return v % M64 if self.int else v

    def term(self, mo, x):
        return self.mul(self.C(mo), self.pw(x, EX(mo)))

    def S(self, s, upto=None):
        """value of the first terms of a list"""
        return self.PV(arr(s), self.x, ln(s) if upto is None else upto)

    def V(self, p, x=None):
        return self.PV(arr(T(p)), self.x if x is None else x, ln(T(p)))

    def wfmono(self, mo, hi=EXP_MAX):
        return [width(fld(mo, "exponent")) == 64, EX(mo) >= 0, EX(mo) < hi] + (
            [width(fld(mo, "coefficient")) == 64, self.C(mo) >= 0, self.C(mo) < M64] if self.int else [])

    def wfseq(self, s, hi=EXP_MAX):
        return [ln(s) >= 0, qall([t], imp(0 <= t, t < ln(s), z3.And(self.wfmono(at(s, t), hi))), at(s, t))]

    def incr(self, s):
        return qall([t, u], imp(0 <= t, t < u, u < ln(s), EX(at(s, t)) < EX(at(s, u))), (at(s, t), at(s, u)))

    def ok(self, p, hi=EXP_MAX):
        return self.wfseq(T(p), hi) + [self.incr(T(p))]

    def short(self, p):
        return self.LEN(arr(T(p)), ln(T(p)), z3.IntVal(EXP_MAX))

    def nonzero(self, s):
        return qall([t], imp(0 <= t, t < ln(s), self.C(at(s, t)) != 0), at(s, t))

    def deg(self, p):
        return z3.If(ln(T(p)) == 0, z3.IntVal(0), EX(at(T(p), ln(T(p)) - 1)))

    def degle(self, p, d):
        return qall([t], imp(0 <= t, t < ln(T(p)), EX(at(T(p), t)) <= d), at(T(p), t))


NONNEG = Lemma("mul_nonneg_int", [m, n], m * n >= 0, [m >= 0, n >= 0], module="Polyn")
RI = Ring("i", IM, IP, I, IMUL, IPOW)
RF = Ring("f", FM, FP, R, RMUL, RPOW)
BY = {IM.name(): RI, FM.name(): RF, Seq(IM).name(): RI, Seq(FM).name(): RF}


def mk_contracts(r):
    nm = "Int" if r.int else "Float"
    pick = lambda f: (nm + "Polynomial") in f.mangled or (nm + "Monomial") in f.mangled
    out = {}
    base_ax = [r.ZERO.axiom()] + [q.axiom() for q in r.ranges]
    this = lambda ex: z3.Const("this!0", r.poly)

    def C(name, static=False, axioms=(), **kw):
        if not static:
            kw.setdefault("this", this)
        c = Contract(name, pick=pick, title=nm + "." + name.split("::")[-1], axioms=list(axioms) + base_ax, **kw)
        out[name.split("::")[-1]] = c
        return c

    PUSH, UPD = r.PUSH.axiom(), r.UPD.axiom()
    sc = (lambda v: val(v)) if r.int else (lambda v: v)
    scok = (lambda v: [width(v) == 64, val(v) >= 0, val(v) < M64]) if r.int else (lambda v: [])

    C("MonomialBase::operator<", params=["other"], this=lambda ex: z3.Const("this!0", r.mono),
      requires=lambda e: r.wfmono(e.this) + r.wfmono(e.other), ensures=lambda e, ret: [ret == (EX(e.old.this) < EX(e.old.other))])
    C("zero", static=True, ensures=lambda e, ret: [ln(T(ret)) == 0])

    # ---- term by term maps
    def map_inv(e, exps, factor):
        K, nt, tt = e.idx(0), e.newTerms, T(e.old.this)
        return [ln(nt) == K, K >= 0, K <= ln(tt),
                qall([t], imp(0 <= t, t < K, z3.And(EX(at(nt, t)) == exps(EX(at(tt, t))), *r.wfmono(at(nt, t)))), at(nt, t)),
                r.S(nt, K) == r.mul(factor, r.S(tt, K))]

    def same_exps(ret, this_, f):
        return qall([t], imp(0 <= t, t < ln(T(ret)), EX(at(T(ret), t)) == f(EX(at(T(this_), t)))), at(T(ret), t))

    def scale_hints(e):
        nt, tt, s = e.newTerms, T(e.old.this), sc(e.scalar)
        K = e.idx(0)
        c = r.C(at(tt, K - 1))
        p = r.pw(r.x, EX(at(tt, K - 1)))
        return [r.SUCC(arr(nt), r.x, K - 1), r.SUCC(arr(tt), r.x, K - 1), r.ASSOC(c, s, p),
                r.DISTR(r.S(tt, K - 1), r.mul(c, p), s), r.MULZ(s), r.COMM(c, s)]
    C("PolynomialBase::scale", params=["scalar"], requires=lambda e: r.ok(e.this) + scok(e.scalar),
      ensures=lambda e, ret: r.ok(ret) + [ln(T(ret)) == ln(T(e.old.this)), r.V(ret) == r.mul(sc(e.old.scalar), r.V(e.old.this)),
                                          same_exps(ret, e.old.this, lambda v: v)],
      axioms=[PUSH], loops={0: Loop(lambda e: map_inv(e, lambda v: v, sc(e.old.scalar)), lambda e: ln(T(e.this)) - e.idx(0),
                                    hints=lambda e, w: scale_hints(e))})

    def mono_hints(e):
        nt, tt, q = e.newTerms, T(e.old.this), e.old.exponent
        K = e.idx(0)
        mo = at(tt, K - 1)
        c, p, pq = r.C(mo), r.pw(r.x, EX(mo)), r.pw(r.x, q)
        return [r.SUCC(arr(nt), r.x, K - 1), r.SUCC(arr(tt), r.x, K - 1), r.POWADD(r.x, EX(mo), q), r.ASSOC(c, pq, p), r.ASSOC(p, c, pq),
                r.COMM(p, pq), r.COMM(c, p), r.COMM(c, r.mul(p, pq)), r.COMM(c, pq), r.COMM(p, r.mul(pq, c)), r.COMM(pq, r.mul(p, c)),
                r.ASSOC(p, pq, c), r.ASSOC(c, p, pq),
                r.DISTR(r.S(tt, K - 1), r.mul(c, p), pq), r.MULZ(pq)]
    C("PolynomialBase::monomialMul", params=["exponent"],
      requires=lambda e: r.ok(e.this) + [e.exponent >= 0, r.degle(e.this, EXP_MAX - 1 - e.exponent)],
      ensures=lambda e, ret: r.ok(ret) + [ln(T(ret)) == ln(T(e.old.this)), r.V(ret) == r.mul(r.pw(r.x, e.old.exponent), r.V(e.old.this)),
                                          same_exps(ret, e.old.this, lambda v: v + e.old.exponent)],
      axioms=[PUSH], loops={0: Loop(lambda e: map_inv(e, lambda v: v + e.old.exponent, r.pw(r.x, e.old.exponent)),
                                    lambda e: ln(T(e.this)) - e.idx(0), hints=lambda e, w: mono_hints(e))})

    # ---- merge
    def add_inv(e, both=False):
        A, B, nt = T(e.old.this), T(e.old.other), e.newTerms
        p, q = e.it1.idx, e.it2.idx
        last = lambda f: qall([t], imp(0 <= t, t < ln(nt), f(at(nt, t))), at(nt, t))
        return [0 <= p, p <= ln(A), 0 <= q, q <= ln(B)] + ([p < ln(A), q < ln(B)] if both else []) + r.wfseq(nt) + [
            r.incr(nt), r.S(nt) == r.red(r.S(A, p) + r.S(B, q)),
            last(lambda mo: imp(p < ln(A), EX(mo) < EX(at(A, p)))), last(lambda mo: imp(q < ln(B), EX(mo) < EX(at(B, q)))),
            qall([t], imp(0 <= t, t < ln(nt), z3.Or(z3.And(p > 0, EX(at(nt, t)) <= EX(at(A, p - 1))), z3.And(q > 0, EX(at(nt, t)) <= EX(at(B, q - 1))))), at(nt, t))]

    def add_hints(e):
        A, B, nt = T(e.old.this), T(e.old.other), e.newTerms
        p, q = e.it1.idx, e.it2.idx
        L = ln(nt)
        ca, cb = r.C(at(A, p - 1)), r.C(at(B, q - 1))
        return [r.SUCC(arr(A), r.x, p - 1), r.SUCC(arr(B), r.x, q - 1), r.SUCC(arr(nt), r.x, L - 1),
                r.DIST(ca, cb, r.pw(r.x, EX(at(A, p - 1)))), r.MULZ(r.pw(r.x, EX(at(A, p - 1))))]
    adec = lambda e: ln(T(e.this)) + ln(T(e.other)) - e.it1.idx - e.it2.idx
    C("PolynomialBase::add", params=["other"], requires=lambda e: r.ok(e.this) + r.ok(e.other),
      ensures=lambda e, ret: r.ok(ret) + [r.V(ret) == r.red(r.V(e.old.this) + r.V(e.old.other)),
                                          qall([t], imp(0 <= t, t < ln(T(ret)), z3.Or(
                                              z3.And(ln(T(e.old.this)) > 0, EX(at(T(ret), t)) <= r.deg(e.old.this)),
                                              z3.And(ln(T(e.old.other)) > 0, EX(at(T(ret), t)) <= r.deg(e.old.other)))), at(T(ret), t))],
      axioms=[PUSH],
      loops={0: Loop(add_inv, adec, hints=lambda e, w: add_hints(e)),
             1: Loop(lambda e: add_inv(e, True) + [e.it1.idx >= e.pre.it1.idx, e.it2.idx == e.pre.it2.idx], adec, hints=lambda e, w: add_hints(e)),
             2: Loop(lambda e: add_inv(e, True) + [e.it2.idx >= e.pre.it2.idx, e.it1.idx == e.pre.it1.idx], adec, hints=lambda e, w: add_hints(e))})
    C(nm + "Polynomial::sub", params=["other"], requires=lambda e: r.ok(e.this) + r.ok(e.other),
      ensures=lambda e, ret: r.ok(ret) + [r.V(ret) == r.red(r.V(e.old.this) - r.V(e.old.other)),
                                          qall([t], imp(0 <= t, t < ln(T(ret)), z3.Or(
                                              z3.And(ln(T(e.old.this)) > 0, EX(at(T(ret), t)) <= r.deg(e.old.this)),
                                              z3.And(ln(T(e.old.other)) > 0, EX(at(T(ret), t)) <= r.deg(e.old.other)))), at(T(ret), t))],
      post_hints=lambda e, ret: [r.NEG(r.V(e.old.other))])

    # ---- dropping zero terms
    C("PolynomialBase::canonicalize", modifies=["this"], requires=lambda e: r.ok(e.this),
      ensures=lambda e, ret: r.ok(e.this) + [r.nonzero(T(e.this)), r.V(e.this) == r.V(e.old.this), r.degle(e.this, r.deg(e.old.this)),
                                             imp(ln(T(e.old.this)) == 0, ln(T(e.this)) == 0)],
      loops={0: Loop(lambda e: r.ok(e.this) + [0 <= e.it.idx, e.it.idx <= ln(T(e.this)), r.V(e.this) == r.V(e.old.this),
                                               r.degle(e.this, r.deg(e.old.this)), ln(T(e.this)) <= ln(T(e.old.this)),
                                               qall([t], imp(0 <= t, t < e.it.idx, r.C(at(T(e.this), t)) != 0), at(T(e.this), t))],
                     lambda e: ln(T(e.this)) - e.it.idx)})

    # ---- product
    def mul_cur(e):
        nt = e.newTerms
        D = e.maxDegree
        return [ln(nt) == D + 1, D == r.deg(e.old.this) + r.deg(e.old.other), ln(T(e.old.this)) > 0, ln(T(e.old.other)) > 0,
                qall([t], imp(0 <= t, t <= D, z3.And(EX(at(nt, t)) == t, *r.wfmono(at(nt, t)))), at(nt, t))]

    def mul_outer(e):
        A = T(e.old.this)
        return mul_cur(e) + [e.i >= 0, e.i <= ln(A), r.S(e.newTerms) == r.mul(r.S(A, e.i), r.V(e.old.other))]

    def mul_inner(e):
        A, B = T(e.old.this), T(e.old.other)
        return mul_cur(e) + [e.i >= 0, e.i < ln(A), e.j >= 0, e.j <= ln(B), r.S(e.newTerms) == r.red(
            r.mul(r.S(A, e.i), r.V(e.old.other)) + r.mul(r.term(at(A, e.i), r.x), r.S(B, e.j)))]

    def mul_hin(e, w):
        A, B = T(e.old.this), T(e.old.other)
        a, b = at(A, e.i), at(B, e.j - 1)
        cc = r.mul(r.C(a), r.C(b))
        nt = e.newTerms
        ks = [EX(a) + EX(b)]
        hs = [r.SUCC(arr(B), r.x, e.j - 1), r.POWADD(r.x, EX(a), EX(b)), r.FOUR(r.C(a), r.pw(r.x, EX(a)), r.C(b), r.pw(r.x, EX(b))),
              r.DISTR(r.S(B, e.j - 1), r.term(b, r.x), r.term(a, r.x)), r.MULZ(r.term(a, r.x))]
        # the coefficient before this step: the stored one less the product
        a0 = arr(nt)
        if z3.is_app(a0) and a0.decl().kind() == z3.Z3_OP_STORE:
            old = a0.arg(0)
            hs.append(r.DIST(r.C(old[ks[0]]), cc, r.pw(r.x, ks[0])))
            hs.append(r.COMM(r.C(a), r.C(b)))
            hs.append(r.UPD(old, r.x, ln(nt), a0.arg(1), a0.arg(2)))
        return hs

    def mul_hout(e, w):
        A = T(e.old.this)
        return [r.SUCC(arr(A), r.x, e.i - 1), r.DIST(r.S(A, e.i - 1), r.term(at(A, e.i - 1), r.x), r.V(e.old.other)), r.MULZ(r.V(e.old.other)),
                r.MULZ(r.term(at(A, e.i), r.x))]

    def init_hints(e, w):
        nt = e.newTerms
        return [r.SUCC(arr(nt), r.x, ln(nt) - 1), r.MULZ(r.pw(r.x, ln(nt) - 1)), r.MULZ(r.V(e.old.other))]
    C("PolynomialBase::naiveMul", params=["other"], axioms=[PUSH], entry=lambda ex, e: [r.short(e.this), r.short(e.other)],
      requires=lambda e: r.ok(e.this) + r.ok(e.other) + [r.deg(e.this) + r.deg(e.other) < EXP_MAX - 1],
      ensures=lambda e, ret: r.ok(ret) + [r.nonzero(T(ret)), r.V(ret) == r.mul(r.V(e.old.this), r.V(e.old.other)),
                                          r.degle(ret, r.deg(e.old.this) + r.deg(e.old.other))],
      post_hints=lambda e, ret: [r.MULZ(r.V(e.old.this)), r.MULZ(r.V(e.old.other))],
      loops={0: Loop(lambda e: [e.maxDegree == r.deg(e.old.this) + r.deg(e.old.other), e.i >= 0, e.i <= e.maxDegree + 1, ln(e.newTerms) == e.i,
                                ln(T(e.old.this)) > 0, ln(T(e.old.other)) > 0,
                                qall([t], imp(0 <= t, t < e.i, z3.And(EX(at(e.newTerms, t)) == t, *r.wfmono(at(e.newTerms, t)))), at(e.newTerms, t)),
                                r.S(e.newTerms) == 0], lambda e: e.maxDegree + 1 - e.i, hints=init_hints),
             1: Loop(mul_outer, lambda e: ln(T(e.this)) - e.i, hints=mul_hout),
             2: Loop(mul_inner, lambda e: ln(T(e.other)) - e.j, hints=mul_hin)})

    # ---- exponent -> monomial
    def map_of(mp, s, upto):
        return [qall([t], imp(0 <= t, t < upto, z3.And(z3.Select(acc(mp, 0), EX(at(s, t))), z3.Select(acc(mp, 1), EX(at(s, t))) == at(s, t))), at(s, t)),
                qall([k], imp(z3.Select(acc(mp, 0), k), z3.Exists([t], z3.And(0 <= t, t < upto, EX(at(s, t)) == k))), z3.Select(acc(mp, 0), k))]
    C("PolynomialBase::getCoeffMap", requires=lambda e: r.ok(e.this), ensures=lambda e, ret: map_of(ret, T(e.old.this), ln(T(e.old.this))),
      loops={0: Loop(lambda e: [e.idx(0) >= 0, e.idx(0) <= ln(T(e.this))] + map_of(e.coeffMap, T(e.old.this), e.idx(0)),
                     lambda e: ln(T(e.this)) - e.idx(0))})

    # ---- composition: Horner on the suffix sums of this, at y = other(x)
    def horner(e, top):
        A, B = T(e.old.this), T(e.old.other)
        return r.SUF(arr(A), r.V(e.old.other), top, ln(A))

    def comp_deg(e, steps):
        return r.degle(e.result, steps * r.deg(e.old.other))

    def comp_inv(e):
        A = T(e.old.this)
        D = r.deg(e.old.this)
        return [ln(A) > 0, e.i >= -1, e.i < D, r.V(e.result) == horner(e, e.i + 1), r.degle(e.result, (D - 1 - e.i) * r.deg(e.old.other)),
                ] + r.ok(e.result) + map_of(e.coeffMap, A, ln(A))

    def comp_hints(e, w):
        A = T(e.old.this)
        y = r.V(e.old.other)
        D, E = r.deg(e.old.this), r.deg(e.old.other)
        Kk = e.i + 1
        hit = z3.Int("hit")
        hs = [r.SUFTOP(arr(A), y, ln(A)), r.SUFMISS(arr(A), y, Kk, ln(A)), NONNEG(Kk, E), NONNEG(D - 1 - e.i, E), NONNEG(D - 2 - e.i, E), NONNEG(e.i, E),
              r.short(e.old.this), r.short(e.old.other), z3.And(E >= 0, D >= 0),
              z3.ForAll([s_], r.SUFHIT(arr(A), y, Kk, ln(A), s_), patterns=[at(A, s_)])]
        return hs
    one = lambda v: [ln(T(v)) == 1]
    C("PolynomialBase::compose", params=["other"], axioms=[PUSH, r.ONE.axiom()],
      requires=lambda e: r.ok(e.this) + r.ok(e.other) + [r.deg(e.this) * r.deg(e.other) < EXP_MAX - 1],
      ensures=lambda e, ret: r.ok(ret) + [r.nonzero(T(ret)), r.V(ret) == r.V(e.old.this, r.V(e.old.other)),
                                          r.degle(ret, r.deg(e.old.this) * r.deg(e.old.other))],
      post_hints=lambda e, ret: [r.SUFZERO(arr(T(e.old.this)), r.V(e.old.other), ln(T(e.old.this))), NONNEG(r.deg(e.old.this), r.deg(e.old.other))],
      loops={0: Loop(comp_inv, lambda e: e.i + 1, hints=comp_hints)})

    # ---- construction
    def dup(s):
        return z3.Exists([t, u], z3.And(0 <= t, t < u, u < ln(s), EX(at(s, t)) == EX(at(s, u))))

    def from_post(e, ret):
        ms, p = e.old.monomials, get(ret)
        return [has(ret) == z3.Not(dup(ms)), imp(has(ret), ln(T(p)) == ln(ms))] + [imp(has(ret), q) for q in r.ok(p)] + [
            imp(has(ret), r.V(p) == r.S(ms)),
            imp(has(ret), qall([t], imp(0 <= t, t < ln(ms), z3.Exists([u], z3.And(0 <= u, u < ln(ms), at(T(p), t) == at(ms, u)))), at(T(p), t)))]
    for nme in ("fromMonomialsImpl", nm + "Polynomial::fromMonomials"):
        C(nme, static=True, params=["monomials"], requires=lambda e: r.wfseq(e.monomials), ensures=from_post)

    def dense(e):
        return arr(e.old.coeffs)

    def fc_inv(e):
        ms, K = e.monomials, e.i
        cs = e.old.coeffs
        return [K >= 0, K <= ln(cs), e.size == ln(cs), ln(ms) <= K] + r.wfseq(ms) + [
            r.incr(ms), r.S(ms) == r.PVD(arr(cs), r.x, K),
            qall([t], imp(0 <= t, t < ln(ms), z3.And(EX(at(ms, t)) < K, r.C(at(ms, t)) != 0, r.C(at(ms, t)) == r.red(z3.Select(arr(cs), EX(at(ms, t)))))), at(ms, t))]

    def fc_hints(e, w):
        cs, K, ms = e.old.coeffs, e.i, e.monomials
        c = z3.Select(arr(cs), K - 1)
        p = r.pw(r.x, K - 1)
        return [r.PVDSUCC(arr(cs), r.x, K - 1), r.SUCC(arr(ms), r.x, ln(ms) - 1), r.MULZ(p), r.PVDZERO(arr(cs), r.x)] + (
            [r.MOD(c, p)] if r.int else [])
    rng = (lambda e: [qall([t], imp(0 <= t, t < ln(e.coeffs), z3.And(at(e.coeffs, t) >= -2 ** 63, at(e.coeffs, t) < 2 ** 63)), at(e.coeffs, t))]) if r.int else (lambda e: [])
    for nme in ("fromCoefficientsImpl", nm + "Polynomial::fromCoefficients"):
        C(nme, static=True, params=["coeffs"], axioms=[PUSH], requires=lambda e: [ln(e.coeffs) >= 0, ln(e.coeffs) < EXP_MAX] + rng(e),
          ensures=lambda e, ret: r.ok(ret) + [r.V(ret) == r.PVD(dense(e), r.x, ln(e.old.coeffs)), r.degle(ret, ln(e.old.coeffs) - 1), r.nonzero(T(ret)),
                                              qall([t], imp(0 <= t, t < ln(T(ret)), r.C(at(T(ret), t)) == r.red(z3.Select(dense(e), EX(at(T(ret), t))))), at(T(ret), t))],
          loops={0: Loop(fc_inv, lambda e: e.size - e.i, hints=fc_hints)} if nme == "fromCoefficientsImpl" else {})
    return out


def mul_hook(ex, a, b, w):
    if w is None:
        return RMUL(a, b) if z3.is_real(a) and z3.is_real(b) else None
    return IMUL(a, b) if ex.wrap_check(w == 64) else None


def on_erase(ex, old, new, at_):
    r = BY.get(old.sort().name())
    return [r.ERASE(arr(old), arr(new), r.x, ln(new), at_)] + [r.MULZ(r.pw(r.x, EX(at(old, at_))))] if r else []


def on_sort(ex, old, new, perm, inv):
    r = BY.get(old.sort().name())
    return [r.PERM(arr(old), arr(new), perm, inv, r.x, ln(new))] if r else []


def order_hook(ex, sort):
    # the meaning of operator<, which is a contract of its own
    return (lambda a, b: EX(a) < EX(b)) if sort.name() in BY else None


def emplace_hook(ex, es, items, args, n, fr):
    if es.name() not in BY or len(items) != 2:
        return None
    cls = "IntMonomial" if es == IM else "FloatMonomial"
    for f in ex.func.tu.func_by_id.values():
        if f.node.get("kind") == "CXXConstructorDecl" and f.node.get("name") == cls and len(f.params) == 2 and f.body is not None:
            pt = f.params[0]["type"]["qualType"]
            if ("double" in pt or "long" in pt or "int64" in pt):
                key = ex.newkey("emp")
                ex.store[key] = ex.fresh(es, "emp")
                ks = []
                for it in items:
                    kk = ex.newkey("emparg")
                    ex.store[kk] = ex.load(it) if isinstance(it, LV) else it
                    ks.append(LV(kk))
                ex.invoke(f, [LV(key)] + ks, n, fr, False, method=True)
                return ex.store[key]
    return None


# ------------------------------------------------------------------ Chebyshev basis
CH = ghost("ch", "DV.ch", I, R, R)
SUMT = ghost("sumt", "DV.sumt", RA, R, R, I, R)
CLD = ghost("cld", "DV.cld", RA, R, I, I, R)
x_, y_, a_, b_, thr = z3.Reals("x y a b thr")
c_, d_, e_ = z3.Const("c", RA), z3.Const("d", RA), z3.Const("e", RA)
CH0 = Lemma("ch_zero", [x_], CH(0, x_) == 1, module="Poly")
CH1 = Lemma("ch_one", [x_], CH(1, x_) == x_, module="Poly")
CHSTEP = PL("ch_step", [n, x_], CH(n + 1, x_) == RMUL(2, RMUL(RPOW(x_, 1), CH(n, x_))) - CH(n - 1, x_))
SUMT0 = Lemma("sumt_zero", [c_, x_, thr], SUMT(c_, x_, thr, 0) == 0, module="Poly")
SUMT1 = PL("sumt_nsucc", [c_, x_, n], SUMT(c_, x_, 0, n + 1) == SUMT(c_, x_, 0, n) + RMUL(c_[n], CH(n, x_)), [n >= 0])
SUMTEXT = Lemma("sumt_ext", [c_, d_, x_, thr, n], SUMT(c_, x_, thr, n) == SUMT(d_, x_, thr, n), [z3.ForAll([t], imp(0 <= t, t < n, c_[t] == d_[t]))], module="Poly")
SUMTUPD = Lemma("sumt_upd", [c_, x_, n, i, a_], SUMT(z3.Store(c_, i, a_), x_, 0, n) == SUMT(c_, x_, 0, n) + RMUL(a_ - c_[i], CH(i, x_)), [0 <= i, i < n], module="Poly")
SUMTSUB = PL("sumt_sub", [c_, d_, e_, x_, n, m], SUMT(e_, x_, 0, n) == SUMT(c_, x_, 0, n) - SUMT(d_, x_, 0, m),
             [0 <= m, m <= n, z3.ForAll([t], imp(0 <= t, t < n, e_[t] == c_[t] - z3.If(t < m, d_[t], 0)))])
SUMTHALF = PL("sumt_half", [c_, d_, e_, x_, n, m], SUMT(e_, x_, 0, n) == (SUMT(c_, x_, 0, n) - SUMT(d_, x_, 0, m)) / 2,
              [0 <= m, m <= n, z3.ForAll([t], imp(0 <= t, t < n, e_[t] == RMUL(c_[t] - z3.If(t < m, d_[t], 0), z3.RealVal("1/2"))))])
CLDOUT = PL("cld_out", [c_, y_, n], z3.And(CLD(c_, y_, n, n + 1) == 0, CLD(c_, y_, n, n + 2) == 0))
CLDSTEP = PL("cld_step", [c_, y_, n, k], CLD(c_, y_, n, k) == c_[k] + RMUL(RMUL(2, y_), CLD(c_, y_, n, k + 1)) - CLD(c_, y_, n, k + 2), [k <= n])
CLENSHAW = PL("clenshaw", [c_, y_, n], 2 * SUMT(c_, y_, 0, n + 1) == c_[0] + CLD(c_, y_, n, 0) - CLD(c_, y_, n, 2), [n >= 0])
HALF = PL("rm_half", [x_], RMUL(x_, z3.RealVal("1/2")) == x_ / 2)
if_ = lambda cond, v: z3.If(cond, v, z3.RealVal(0))
CHEBLIN = PL("cheb_lin", [d_, e_, a_, b_, x_, n], SUMT(e_, x_, 0, n + 1) == RMUL(RMUL(2, RMUL(a_, x_) + b_), SUMT(d_, x_, 0, n)), [
    n >= 1, e_[0] == RMUL(a_, if_(1 < n, d_[1])) + RMUL(RMUL(b_, d_[0]), 2),
    e_[1] == RMUL(a_, RMUL(d_[0], 2) + if_(2 < n, d_[2])) + RMUL(RMUL(b_, if_(1 < n, d_[1])), 2),
    z3.ForAll([m], imp(2 <= m, m <= n, e_[m] == RMUL(a_, if_(m - 1 < n, d_[m - 1]) + if_(m + 1 < n, d_[m + 1])) + RMUL(RMUL(b_, if_(m < n, d_[m])), 2)))])
PVDF1 = PL("pvdf_one", [c_, x_], RF.PVD(c_, x_, 1) == c_[0], patterns=[RF.PVD(c_, x_, 1)])
PVDF2 = PL("pvdf_two", [c_, x_], RF.PVD(c_, x_, 2) == c_[0] + x_, [c_[1] == 1], patterns=[RF.PVD(c_, x_, 2)])
CPTHIS = lambda ex: z3.Const("this!0", CP)


def cheb_list(res, upto):
    x = RF.x
    P = lambda q: at(res, q)
    return [qall([i], imp(0 <= i, i < upto, z3.And(ln(T(P(i))) >= 0, RF.V(P(i)) == CH(i, x))), P(i)),
            qall([i, t], imp(0 <= i, i < upto, 0 <= t, t < ln(T(P(i))), z3.And(EX(at(T(P(i)), t)) <= i, *RF.wfmono(at(T(P(i)), t)))), at(T(P(i)), t)),
            qall([i, t, u], imp(0 <= i, i < upto, 0 <= t, t < u, u < ln(T(P(i))), EX(at(T(P(i)), t)) < EX(at(T(P(i)), u))), (at(T(P(i)), t), at(T(P(i)), u)))]


def gc_inv(e):
    K = e.i
    return [K >= 2, K <= e.numPolynomials, ln(e.results) == K] + cheb_list(e.results, K)


contracts_cheb = [
    Contract("ChebyshevPolynomial::getChebyshevPolynomials", params=["numPolynomials", "results"], modifies=["results"],
             requires=lambda e: [ln(e.results) == 0, e.numPolynomials < 2 ** 30], title="Chebyshev.getChebyshevPolynomials",
             ensures=lambda e, ret: [ln(e.results) == z3.If(e.old.numPolynomials >= 1, e.old.numPolynomials, 0)] + cheb_list(e.results, ln(e.results)),
             axioms=[PVDF1.axiom(), PVDF2.axiom()],
             post_hints=lambda e, ret: [CH0(RF.x), CH1(RF.x)],
             loops={0: Loop(gc_inv, lambda e: e.numPolynomials - e.i,
                            hints=lambda e, w: [CH0(RF.x), CH1(RF.x), CHSTEP(e.i - 2, RF.x), CHSTEP(e.i - 1, RF.x)])}),
    Contract("chebyshevToMonomial", params=["coefficients"], title="Chebyshev.chebyshevToMonomial", requires=lambda e: [ln(e.coefficients) >= 0, ln(e.coefficients) < 2 ** 30],
             ensures=lambda e, ret: RF.ok(ret) + [RF.V(ret) == SUMT(arr(e.old.coefficients), RF.x, 0, ln(e.old.coefficients))],
             axioms=[RF.ZERO.axiom(), SUMT0.axiom(patterns=[SUMT(c_, x_, thr, 0)]) if False else SUMT0.axiom()],
             loops={0: Loop(lambda e: [e.i >= 0, e.i <= ln(e.coefficients), ln(e.chebPolys) == ln(e.coefficients)] + cheb_list(e.chebPolys, ln(e.coefficients)) +
                            RF.ok(e.result) + [RF.V(e.result) == SUMT(arr(e.coefficients), RF.x, 0, e.i)],
                            lambda e: ln(e.coefficients) - e.i, hints=lambda e, w: [SUMT1(arr(e.coefficients), RF.x, e.i - 1), SUMT0(arr(e.coefficients), RF.x, z3.RealVal(0))])}),
    Contract("ChebyshevPolynomial::toStandardBasis", title="Chebyshev.toStandardBasis", this=CPTHIS,
             requires=lambda e: [ln(T(e.this)) >= 0, ln(T(e.this)) < 2 ** 30],
             ensures=lambda e, ret: RF.ok(ret) + [RF.V(ret) == SUMT(arr(T(e.old.this)), RF.x, 0, ln(T(e.old.this)))]),
]


def cc_y(e):
    return RMUL(e.a, RF.x) + e.b


def cc_state(e, d1, d2, k_):
    """d1, d2 are Clenshaw's d_{k+1}, d_{k+2} in the Chebyshev basis"""
    c, n_, x, y = arr(e.c), e.n, RF.x, cc_y(e)
    dd = e.d_2_coeffs
    return [ln(d1) == n_ - k_, ln(d2) == n_ - k_ - 1, SUMT(arr(d1), x, 0, n_ - k_) == CLD(c, y, n_, k_ + 1),
            SUMT(arr(d2), x, 0, n_ - k_ - 1) == CLD(c, y, n_, k_ + 2),
            imp(z3.And(n_ >= 2, k_ <= 1), z3.And(ln(dd) == n_ - 1, SUMT(arr(dd), x, 0, n_ - 1) == CLD(c, y, n_, 2))),
            imp(z3.Or(n_ < 2, k_ > 1), ln(dd) == 0)]


def cc_fixed(e):
    return [e.c == T(e.old.this), e.n == ln(e.c) - 1, e.n >= 0, e.n < 2 ** 30]


def cc_outer(e):
    return cc_fixed(e) + [e.k >= -1, e.k < e.n] + cc_state(e, e.d_kplus1, e.d_kplus2, e.k)


def dk_at(e, m_):
    d, L, a, b = arr(e.d_kplus1), e.n - e.k, e.a, e.b
    return RMUL(a, if_(m_ - 1 < L, d[m_ - 1]) + if_(m_ + 1 < L, d[m_ + 1])) + RMUL(RMUL(b, if_(m_ < L, d[m_])), 2)


def cc_in(e):
    return cc_fixed(e) + [e.k >= 0, e.k < e.n] + cc_state(e, e.d_kplus1, e.d_kplus2, e.k)


def cc_lin(e):
    """the low coefficients of 2 y d_{k+1}"""
    d, L, a, b, q = arr(e.d_kplus1), e.n - e.k, e.a, e.b, arr(e.d_k)
    return [q[0] == RMUL(a, if_(1 < L, d[1])) + RMUL(RMUL(b, d[0]), 2),
            q[1] == RMUL(a, RMUL(d[0], 2) + if_(2 < L, d[2])) + RMUL(RMUL(b, if_(1 < L, d[1])), 2)]


def cc_mid(e):
    return cc_in(e) + [e.m >= 2, e.m <= z3.If(e.n - e.k >= 1, e.n - e.k + 1, 2), ln(e.d_k) == e.n - e.k + 1] + cc_lin(e) + [
        qall([t], imp(2 <= t, t < e.m, at(e.d_k, t) == dk_at(e, t)), at(e.d_k, t))]


def cc_sub(e):
    q0, q1 = e.pre.d_k, e.d_k
    return cc_in(e) + [e.m >= 0, e.m <= ln(e.d_kplus2), ln(q1) == e.n - e.k + 1, ln(q0) == ln(q1),
                       SUMT(arr(q0), RF.x, 0, e.n - e.k + 1) == z3.Select(arr(e.c), e.k) + RMUL(RMUL(2, cc_y(e)), CLD(arr(e.c), cc_y(e), e.n, e.k + 1)),
                       qall([t], imp(0 <= t, t < ln(q1), at(q1, t) == at(q0, t) - if_(t < e.m, at(e.d_kplus2, t))), at(q1, t))]


def cc_sub_hints(e, w):
    q = arr(e.d_k)
    hs = [CH0(RF.x)]
    if z3.is_app(q) and q.decl().kind() == z3.Z3_OP_STORE:
        q0 = q.arg(0)
        hs += [SUMTUPD(q0, RF.x, e.n - e.k + 1, z3.IntVal(0), q.arg(2)), CHEBLIN(arr(e.d_kplus1), q0, e.a, e.b, RF.x, e.n - e.k), RF.MUL1(z3.Select(arr(e.c), e.k))]
    return hs


def cc_out_hints(e, w):
    c, y = arr(e.c), cc_y(e)
    hs = [CLDOUT(c, y, e.n), CLDSTEP(c, y, e.n, e.n), RF.MULZ(RMUL(2, y)), SUMT0(arr(e.d_kplus2), RF.x, z3.RealVal(0)), SUMT0(arr(e.d_kplus1), RF.x, z3.RealVal(0)), SUMT1(arr(e.d_kplus1), RF.x, z3.IntVal(0)),
          CH0(RF.x), RF.MUL1(z3.Select(c, e.n)), CLDSTEP(c, y, e.n, e.k + 1)]
    return hs


def cc_final(e):
    d0, dd = e.d_kplus1, e.d_2_coeffs
    c, y = arr(e.c), cc_y(e)
    val_at = lambda q: RMUL(at(d0, q) - if_(q < ln(dd), at(dd, q)), z3.RealVal("1/2"))
    return cc_fixed(e) + [e.i >= 0, e.i <= e.n + 1, ln(e.resultCoeffs) == e.n + 1, ln(d0) == e.n + 1, SUMT(arr(d0), RF.x, 0, e.n + 1) == CLD(c, y, e.n, 0),
                          ln(dd) == z3.If(e.n >= 2, e.n - 1, 0), SUMT(arr(dd), RF.x, 0, ln(dd)) == CLD(c, y, e.n, 2),
                          e.half == z3.RealVal("1/2"),
                          qall([t], imp(0 <= t, t < e.i, at(e.resultCoeffs, t) == val_at(t)), at(e.resultCoeffs, t))]


def cc_post(e, ret):
    o = T(e.old.other)
    x = RF.x
    hs = [SUMT0(arr(T(ret)), x, z3.RealVal(0)), SUMT0(arr(T(e.old.this)), RF.V(e.old.other), z3.RealVal(0)), RF.POW0(x), RF.POW1(x),
          RF.SUCC(arr(o), x, z3.IntVal(0)), RF.SUCC(arr(o), x, z3.IntVal(1)), RF.ZERO(arr(o), x), CH0(x), RF.MULZ(x),
          RF.LEN(arr(o), ln(o), z3.IntVal(2))] + [RF.MUL1(RF.C(at(o, q))) for q in (0, 1)]
    try:
        n_, c, y = e.n, arr(e.c), cc_y(e)
        q = arr(T(ret))
        hs += [CLENSHAW(c, y, n_), RF.MUL1(z3.RealVal(1))]
        dd, d0 = e.d_2_coeffs, e.d_kplus1
        r0 = e.resultCoeffs
        q0 = arr(r0)
        if z3.is_app(q0) and q0.decl().kind() == z3.Z3_OP_STORE:
            hs += [SUMTUPD(q0.arg(0), x, n_ + 1, q0.arg(1), q0.arg(2)), SUMTHALF(arr(d0), arr(dd), q0.arg(0), x, n_ + 1, ln(dd)),
                   RF.MUL1(q0.arg(2) - q0.arg(0)[0])]
        hs += [SUMTEXT(q, q0, x, z3.RealVal(0), n_ + 1), z3.And([RF.MUL1(v)for v in [c[0]]]), HALF(c[0])]
    except Unnamed:
        pass
    return hs


contracts_cheb.append(Contract(
    "ChebyshevPolynomial::compose", params=["other"], this=CPTHIS, title="Chebyshev.compose",
    requires=lambda e: RF.ok(e.other) + [ln(T(e.other)) >= 1, RF.deg(e.other) == 1, ln(T(e.this)) >= 0, ln(T(e.this)) < 2 ** 30],
    ensures=lambda e, ret: [ln(T(ret)) == ln(T(e.old.this)),
                            SUMT(arr(T(ret)), RF.x, 0, ln(T(ret))) == SUMT(arr(T(e.old.this)), RF.V(e.old.other), 0, ln(T(e.old.this)))],
    post_hints=cc_post,
    loops={0: Loop(cc_outer, lambda e: e.k + 1, hints=cc_out_hints),
           1: Loop(cc_mid, lambda e: e.n - e.k + 1 - e.m),
           2: Loop(cc_sub, lambda e: ln(e.d_kplus2) - e.m, hints=cc_sub_hints,
                   exit_hints=lambda e: [SUMTSUB(arr(e.pre.d_k), arr(e.d_kplus2), arr(e.d_k), RF.x, e.n - e.k + 1, ln(e.d_kplus2))]),
           3: Loop(cc_final, lambda e: e.n + 1 - e.i, hints=lambda e, w: [CLDOUT(arr(e.c), cc_y(e), e.n), SUMT0(arr(e.d_2_coeffs), RF.x, z3.RealVal(0))])}))



def dense_state(e, vec, this_, upto):
    tt = T(this_)
    D = RI.deg(this_)
    return [ln(vec) == D + 1, ln(tt) >= 1, qall([t], imp(0 <= t, t <= D, z3.And(width(at(vec, t)) == 64, 0 <= val(at(vec, t)), val(at(vec, t)) < M64)), at(vec, t)),
            qall([t], imp(0 <= t, t < upto, val(at(vec, EX(at(tt, t)))) == RI.C(at(tt, t))), at(tt, t)),
            qall([k], imp(0 <= k, k <= D, val(at(vec, k)) != 0, z3.Exists([t], z3.And(0 <= t, t < upto, EX(at(tt, t)) == k))), at(vec, k))]


dense_vec = Contract(
    "IntPolynomial::getDenseCoefficientVector", title="Int.getDenseCoefficientVector", this=lambda ex: z3.Const("this!0", IP),
    requires=lambda e: RI.ok(e.this),
    ensures=lambda e, ret: [imp(ln(T(e.old.this)) == 0, ln(ret) == 0)] + [imp(ln(T(e.old.this)) > 0, q) for q in dense_state(e, ret, e.old.this, ln(T(e.old.this)))],
    loops={0: Loop(lambda e: [e.idx(0) >= 0, e.idx(0) <= ln(T(e.this))] + dense_state(e, e.result, e.old.this, e.idx(0)),
                   lambda e: ln(T(e.this)) - e.idx(0))})

CI, CF = mk_contracts(RI), mk_contracts(RF)
contracts_cheb.append(dense_vec)
contracts = list(CI.values()) + list(CF.values()) + contracts_cheb
NATIVE = natspec.Native("c05.cpp", ["lib/Utils/Polynomial/Polynomial.cpp"], seconds=(25, 150))
NOTE = ("Proved for both coefficient rings (integers modulo 2^64; reals, with machine doubles treated as exact) and every argument x: zero, scale, "
        "monomialMul, add, sub, canonicalize, naiveMul, compose (Horner over the suffix sums), getCoeffMap, fromMonomials (fails exactly on a "
        "repeated exponent), fromCoefficients, getDenseCoefficientVector, the T_n recurrence, toStandardBasis and ChebyshevPolynomial::compose "
        "(Clenshaw, through a linear polynomial). Exponents below 2^31 and the degree of a product or composition below 2^31 - 1 (the code indexes with "
        "int). Trusted: std::sort returns a sorted permutation, std::adjacent_find, SmallVector/DenseMap/APInt models, APFloat as exact reals, "
        "clang's AST, z3/cvc5, Lean.")
OVR = [(r"^([\w:]*::)?IntMonomial$|MonomialBase<.*IntMonomial", lambda tm, m_: IM), (r"^([\w:]*::)?FloatMonomial$|MonomialBase<.*FloatMonomial", lambda tm, m_: FM),
       (r"^([\w:]*::)?IntPolynomial$|^([\w:]*::)?PolynomialBase<.*IntPolynomial", lambda tm, m_: IP),
       (r"^([\w:]*::)?FloatPolynomial$|^([\w:]*::)?PolynomialBase<.*FloatPolynomial", lambda tm, m_: FP),
       (r"^([\w:]*::)?ChebyshevPolynomial$", lambda tm, m_: CP)]


def prop():
    return vf.Prop("C05", tu="polynomial.cpp", contracts=contracts, axioms=[], overrides=OVR, mul_hook=mul_hook, on_erase=on_erase,
                   on_sort=on_sort, order_hook=order_hook, emplace_hook=emplace_hook, width_hint=64, merge_cond=True)

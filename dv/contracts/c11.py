"""C11: the shift network. Positions are tracked through the flat (virtual) slot number FLAT(ct, slot, m) = ct*m + slot."""
import z3
from sorts import *
from engine import Contract, Loop, BAND, P2
from lemmas import Lemma, ghost, LEAN_FUN, POW2_LT, POW2_MONO, POW2_SUCC
from lib import ABITS
import vf, natspec

I, Bo = z3.IntSort(), z3.BoolSort()
A = z3.ArraySort(I, I)
LEAN_FUN["band"] = "DV.band"
CT = Rec("CtSlot", [("ct", I), ("slot", I)])
SS = Rec("SourceShift", [("source", CT), ("shift", I)])
SUBMOD = ghost("submod", "DV.submod", I, I, I, I)
QUOT = ghost("quot", "DV.quot", I, I, I)
REM = ghost("remq", "DV.rem'", I, I, I)
FLAT = ghost("flat", "DV.flat", I, I, I, I)
CONS = ghost("cons", "DV.cons", A, I, I, I)
ISORD = ghost("isord", "DV.isord", A, I, Bo)
a, b, c, n, v, m, k, s, l, i, j = z3.Ints("a b c n v m k s l i j")
o = z3.Const("o", A)


def L(name, vars, concl, hyps=(), **kw):
    return Lemma(name, vars, concl, hyps, module="Shift", **kw)


SM_RANGE = L("sm_range", [a, b, n], z3.And(0 <= SUBMOD(a, b, n), SUBMOD(a, b, n) < n), [n >= 1], patterns=[SUBMOD(a, b, n)])
SM_ZERO = L("sm_zero", [a, n], SUBMOD(a, 0, n) == a, [n >= 1, 0 <= a, a < n])
SM_STEP = L("sm_step", [a, b, c, n], SUBMOD(SUBMOD(a, b, n), c, n) == SUBMOD(a, b + c, n))
SM_INV = L("sm_inv", [a, b, n], SUBMOD(a, SUBMOD(a, b, n), n) == b, [n >= 1, 0 <= b, b < n],
           patterns=[SUBMOD(a, SUBMOD(a, b, n), n)])
SM_CODE = L("sm_code", [a, c, n], (a - c + n) % n == SUBMOD(a, c, n))
SM_NORM = L("sm_norm", [a, b, n], SUBMOD(a, b, n) == z3.If(
    b - a >= 0, z3.If((b - a) % n == 0, z3.IntVal(0), n - (b - a) % n), (-(b - a)) % n), [n >= 1])
QR_FLAT = L("qr_flat", [v, m], FLAT(QUOT(v, m), REM(v, m), m) == v, patterns=[QUOT(v, m)])
QR_RNG = L("qr_rng", [v, m], z3.And(0 <= REM(v, m), REM(v, m) < m, QUOT(v, m) >= 0, QUOT(v, m) == v / m, REM(v, m) == v % m),
           [m >= 1, v >= 0], patterns=[QUOT(v, m)])
FLAT_QR = L("flat_qr", [c, s, m], z3.And(QUOT(FLAT(c, s, m), m) == c, REM(FLAT(c, s, m), m) == s), [m >= 1, 0 <= s, s < m],
            patterns=[FLAT(c, s, m)])
FLAT_DEF = L("flat_def", [c, s, m], FLAT(c, s, m) == c * m + s)
FLAT_RNG = L("flat_rng", [c, s, m, k], z3.And(0 <= FLAT(c, s, m), FLAT(c, s, m) < k * m, 0 <= c * m, c * m <= FLAT(c, s, m)),
             [0 <= c, c < k, 0 <= s, s < m])
CONS_ZERO = L("cons_zero", [o, s], CONS(o, 0, s) == 0)
CONS_SUCC = L("cons_succ", [o, k, s], CONS(o, k + 1, s) == CONS(o, k, s) + z3.If(BAND(o[k], s) == 0, z3.IntVal(0), o[k]), [k >= 0])
CONS_FULL = L("cons_full", [o, l, s], CONS(o, l, s) == s, [ISORD(o, l), 0 <= s, s < P2(l)])
ISORD_GET = L("isord_get", [o, l, i], z3.And(o[i] >= 1, o[i] < P2(l)), [ISORD(o, l), 0 <= i, i < l])
BAND_LE = L("band_le", [o, l, i, s], o[i] <= s, [ISORD(o, l), 0 <= i, i < l, 0 <= s, BAND(o[i], s) != 0])
ISORD_INCR = L("isord_incr", [o, l], ISORD(o, l), [l >= 0, z3.ForAll([i], z3.Implies(0 <= i, z3.Implies(i < l, o[i] == P2(i))))])

P2_63 = L("pow2_63", [], P2(63) == 2 ** 63)()
P2_62 = L("pow2_62", [], P2(62) == 2 ** 62)()
# ---- defaultShiftOrder: the increasing powers of two below n, as many as are needed to write every number below n
# (the contract of isPowerOfTwo is proved under C17, over 64-bit machine integers)
ISP2 = ghost("isp2", "DV.isp2", I, Bo)
ISP2_DEF = L("isp2_def", [n], ISP2(n) == z3.Or([n == 2 ** t for t in range(63)]), [n < 2 ** 63])
ISP2_BITS = L("isp2_bits", [n, b], ISP2(n) == (n == P2(b - 1)), [b >= 1, P2(b - 1) <= n, n < P2(b)])
p2isp2 = Contract("isPowerOfTwo", params=["n"], model_only=True, ensures=lambda e, ret: [
    ret == z3.Or([e.old.n == 2 ** t for t in range(63)])], on_call=lambda ex, e, ret: [ISP2_DEF(e.n), ISP2_BITS(e.n, ABITS(e.n))])
order = Contract(
    "defaultShiftOrder", params=["n"], requires=lambda e: [e.n >= 1],
    ensures=lambda e, ret: [
        ln(ret) >= 0, ln(ret) <= 63,
        qall([i], z3.Implies(z3.And(0 <= i, i < ln(ret)), at(ret, i) == P2(i)), at(ret, i)),
        e.old.n <= P2(ln(ret)), z3.Implies(ln(ret) >= 1, P2(ln(ret) - 1) < e.old.n), ISORD(arr(ret), ln(ret))],
    post_hints=lambda e, ret: [ISORD_INCR(arr(ret), ln(ret)), POW2_SUCC(ln(ret))],
    loops={0: Loop(lambda e: [e.i >= 0, e.i <= e.maxLog2, ln(e.result) == e.i, e.maxLog2 <= 63,
                              qall([i], z3.Implies(z3.And(0 <= i, i < e.i), at(e.result, i) == P2(i)), at(e.result, i))],
                   lambda e: e.maxLog2 - e.i, hints=lambda e, w: [POW2_LT(e.i, 63), P2_63, POW2_MONO(63, ABITS(e.n) - 1)])})

norm = Contract(
    "normalizeShift", params=["input", "output", "tensorSize"],
    requires=lambda e: [e.tensorSize >= 1, e.tensorSize <= 2 ** 62, 0 <= e.input, e.input < e.tensorSize, 0 <= e.output, e.output < e.tensorSize],
    ensures=lambda e, ret: [ret == SUBMOD(e.old.input, e.old.output, e.old.tensorSize), ret >= 0, ret < e.old.tensorSize],
    post_hints=lambda e, ret: [SM_NORM(e.old.input, e.old.output, e.old.tensorSize),
                               SM_RANGE(e.old.input, e.old.output, e.old.tensorSize)])

ROUND = Rec("ShiftRound", [("positions", MapS(SS, CT)), ("rotationAmount", I)])
STRAT = Rec("ShiftStrategy", [("minSlotCount", I), ("virtualCiphertextSize", I), ("shiftOrder", Seq(I)), ("rounds", Seq(ROUND))])
THIS = lambda ex: z3.Const("this!0", STRAT)
NCT = z3.Int("numCiphertexts!ghost")
ct, sl = lambda x: fld(x, "ct"), lambda x: fld(x, "slot")
M_ = lambda t: fld(t, "minSlotCount")
N_ = lambda t: fld(t, "virtualCiphertextSize")


def flat(t, x):
    return FLAT(ct(x), sl(x), M_(t))


def okslot(t, x):
    return z3.And(0 <= ct(x), ct(x) < NCT, 0 <= sl(x), sl(x) < M_(t))


def okthis(t):
    """sizes as the constructor sets them; 2^62 bounds the number of slots"""
    return [M_(t) >= 1, NCT >= 1, N_(t) == NCT * M_(t), N_(t) <= 2 ** 62]


def rng(t, x):
    return [FLAT_DEF(ct(x), sl(x), M_(t)), FLAT_RNG(ct(x), sl(x), M_(t), NCT)]


virt = Contract(
    "ShiftStrategy::getVirtualShift", params=["source", "target"], this=THIS,
    requires=lambda e: okthis(e.this) + [okslot(e.this, e.source), okslot(e.this, e.target)],
    ensures=lambda e, ret: [ret == SUBMOD(flat(e.old.this, e.old.source), flat(e.old.this, e.old.target), N_(e.old.this)),
                            ret >= 0, ret < N_(e.old.this)],
    entry=lambda ex, e: ex.assume(rng(e.this, e.source) + rng(e.this, e.target)))

# ---- the constructor: the two sizes multiplied, the order given or the default one, no rounds; what evaluate asks for holds of the result
# whenever the order given does not leave out or repeat a power of two
make = Contract(
    "ShiftStrategy::ShiftStrategy", params=["minSlotCount", "numCiphertexts", "shiftOrder"], nparams=3, this=THIS, modifies=["this"],
    requires=lambda e: [z3.Or([e.minSlotCount == 2 ** t for t in range(62)]), e.numCiphertexts >= 1,
                        e.numCiphertexts * e.minSlotCount <= 2 ** 62],
    ensures=lambda e, ret: [
        M_(e.this) == e.old.minSlotCount, N_(e.this) == e.old.numCiphertexts * e.old.minSlotCount, ln(fld(e.this, "rounds")) == 0,
        z3.Implies(ln(e.old.shiftOrder) > 0, z3.And(ln(fld(e.this, "shiftOrder")) == ln(e.old.shiftOrder), qall(
            [i], z3.Implies(z3.And(0 <= i, i < ln(e.old.shiftOrder)), at(fld(e.this, "shiftOrder"), i) == at(e.old.shiftOrder, i)),
            at(fld(e.this, "shiftOrder"), i)))),
        z3.Implies(ln(e.old.shiftOrder) == 0, z3.And(
            ISORD(arr(fld(e.this, "shiftOrder")), ln(fld(e.this, "shiftOrder"))), N_(e.this) <= P2(ln(fld(e.this, "shiftOrder"))),
            ln(fld(e.this, "shiftOrder")) <= 62,
            qall([i], z3.Implies(z3.And(0 <= i, i < ln(fld(e.this, "shiftOrder"))), at(fld(e.this, "shiftOrder"), i) == P2(i)),
                 at(fld(e.this, "shiftOrder"), i))))],
    post_hints=lambda e, ret: [P2_62, POW2_MONO(63, ln(fld(e.this, "shiftOrder"))), POW2_MONO(62, ln(fld(e.this, "shiftOrder")) - 1)])

# ---- Mapping::add: the last entry of a target that was not there is the source given; a target already there keeps its source or gets the new one
MAP = Rec("Mapping", [("minSlotCount", I), ("numCiphertexts", I), ("targetToSource", MapS(CT, CT))])
MT = lambda t: fld(t, "targetToSource")
X = z3.Const("anyTarget!ghost", CT)
inb = lambda x: z3.And(0 <= ct(x), ct(x) < 2 ** 30, 0 <= sl(x), sl(x) < 2 ** 31)
add = Contract(
    "Mapping::add", params=["source", "target"], this=lambda ex: z3.Const("this!0", MAP), modifies=["this"],
    requires=lambda e: [fld(e.this, "minSlotCount") >= 1, fld(e.this, "minSlotCount") <= 2 ** 31, inb(e.source), inb(e.target),
                        z3.ForAll([z3.Const("t!a", CT)], z3.Implies(mem(MT(e.this), z3.Const("t!a", CT)), inb(mget(MT(e.this), z3.Const("t!a", CT)))))],
    ensures=lambda e, ret: [
        mem(MT(e.this), e.old.target),
        z3.Or(mget(MT(e.this), e.old.target) == e.old.source,
              z3.And(mem(MT(e.old.this), e.old.target), mget(MT(e.this), e.old.target) == mget(MT(e.old.this), e.old.target))),
        z3.Implies(X != e.old.target, z3.And(mem(MT(e.this), X) == mem(MT(e.old.this), X), mget(MT(e.this), X) == mget(MT(e.old.this), X))),
        fld(e.this, "minSlotCount") == fld(e.old.this, "minSlotCount"), fld(e.this, "numCiphertexts") == fld(e.old.this, "numCiphertexts")])


# ---- evaluate
def tgt(t, key):
    """where a (source, shift) has to go"""
    w = SUBMOD(flat(t, fld(key, "source")), fld(key, "shift"), N_(t))
    return mk(CT, QUOT(w, M_(t)), REM(w, M_(t)))


def valid(t, mp, key):
    """key is the (source, shift) of an entry of the mapping"""
    return z3.And(fld(key, "shift") >= 0, fld(key, "shift") < N_(t), mem(mp, tgt(t, key)), mget(mp, tgt(t, key)) == fld(key, "source"))


def posn(t, key, p, r, od):
    return z3.And(flat(t, p) == SUBMOD(flat(t, fld(key, "source")), CONS(arr(od), r, fld(key, "shift")), N_(t)),
                  okslot(t, p))


kx = z3.Const("key!x", SS)
rr, q_ = z3.Ints("r!x q!x")


def rounds_ok(t, mp, R, upto, od):
    pr = fld(at(R, rr), "positions")
    return [qall([rr, kx], z3.Implies(z3.And(0 <= rr, rr < upto), mem(pr, kx) == valid(t, mp, kx)), mem(pr, kx)),
            qall([rr, kx], z3.Implies(z3.And(0 <= rr, rr < upto, mem(pr, kx)), posn(t, kx, mget(pr, kx), rr, od)), mget(pr, kx)),
            qall([rr], z3.Implies(z3.And(1 <= rr, rr < upto), fld(at(R, rr), "rotationAmount") == at(od, rr - 1)), at(R, rr))]


def en(e):
    return e._ex.enums[0]


def sh_ok(e, upto):
    """the first `upto` collected (source, shift) pairs"""
    t, mp = e.this, MT(e.mapping)
    f = en(e)[0]
    z = z3.Int("z!sh")
    S = e.sourceShifts
    return [ln(S) == upto, qall([z], z3.Implies(z3.And(0 <= z, z < upto), z3.And(
        fld(at(S, z), "source") == mget(mp, f(z)), fld(at(S, z), "shift") == SUBMOD(flat(t, mget(mp, f(z))), flat(t, f(z)), N_(t)),
        tgt(t, at(S, z)) == f(z), fld(at(S, z), "shift") >= 0, fld(at(S, z), "shift") < N_(t))), at(S, z))]


def l0_hints(e, w):
    if w == "body":
        f, t, mp = en(e)[0], e.this, MT(e.mapping)
        x, y = f(e.idx(0)), mget(MT(e.mapping), f(e.idx(0)))
        return rng(t, x) + rng(t, y) + [SM_INV(flat(t, y), flat(t, x), N_(t)), SM_RANGE(flat(t, y), flat(t, x), N_(t)), FLAT_QR(ct(x), sl(x), M_(t))]
    return []


def part(e, P, upto, r):
    """positions already entered: those of the first `upto` pairs"""
    t, mp = e.this, MT(e.mapping)
    pos = en(e)[1]
    return [qall([kx], mem(P, kx) == z3.And(valid(t, mp, kx), pos(tgt(t, kx)) < upto), mem(P, kx)),
            qall([kx], z3.Implies(mem(P, kx), posn(t, kx, mget(P, kx), r, fld(e.this, "shiftOrder"))), mget(P, kx))]


def l1_inv(e):
    return part(e, fld(e.initialRound, "positions"), e.idx(1), 0)


def key_hints(e, key):
    t = e.this
    src = fld(key, "source")
    return rng(t, src) + [SM_RANGE(flat(t, src), fld(key, "shift"), N_(t)), QR_FLAT(SUBMOD(flat(t, src), fld(key, "shift"), N_(t)), M_(t))]


def l1_hints(e, w):
    if w == "body":
        t, key = e.this, at(e.sourceShifts, e.idx(1))
        src = fld(key, "source")
        return key_hints(e, key) + [CONS_ZERO(arr(fld(e.this, "shiftOrder")), fld(key, "shift")), SM_ZERO(flat(t, src), N_(t))]
    return []


def l2_inv(e):
    t = e.this
    od = fld(t, "shiftOrder")
    return [ln(fld(t, "rounds")) == e.idx(2) + 1] + rounds_ok(t, MT(e.mapping), fld(t, "rounds"), e.idx(2) + 1, od) + same(e, t)


def same(e, t):
    o_ = e.old.this
    return [M_(t) == M_(o_), N_(t) == N_(o_), fld(t, "shiftOrder") == fld(o_, "shiftOrder")]


def l3_inv(e):
    return [e.lastRoundPositions == fld(at(fld(e.this, "rounds"), e.idx(2)), "positions")] + part(e, e.currentRoundPosns, e.idx(3), e.idx(2) + 1)


def l3_hints(e, w):
    if w == "body":
        t, key = e.this, at(e.sourceShifts, e.idx(3))
        src, sh = fld(key, "source"), fld(key, "shift")
        od, r = arr(fld(t, "shiftOrder")), e.idx(2)
        P = mget(fld(at(fld(t, "rounds"), r), "positions"), key)
        w0 = SUBMOD(flat(t, src), CONS(od, r, sh), N_(t))
        nx = SUBMOD(w0, od[r], N_(t))
        return key_hints(e, key) + [
            CONS_SUCC(od, r, sh), ISORD_GET(od, ln(fld(t, "shiftOrder")), r), BAND_LE(od, ln(fld(t, "shiftOrder")), r, sh),
            SM_STEP(flat(t, src), CONS(od, r, sh), od[r], N_(t)), SM_CODE(w0, od[r], N_(t)), SM_RANGE(flat(t, src), CONS(od, r, sh), N_(t)),
            SM_RANGE(w0, od[r], N_(t)), QR_RNG(nx, M_(t)), QR_FLAT(nx, M_(t)), FLAT_DEF(ct(P), sl(P), M_(t)), FLAT_RNG(ct(P), sl(P), M_(t), NCT),
            QLT(nx, M_(t), NCT)]
    return []


QLT = L("quot_lt", [v, m, k], QUOT(v, m) < k, [m >= 1, 0 <= v, v < k * m])
TT = z3.Const("anyTarget2!ghost", CT)


def ev_req(e):
    t, mp = e.this, MT(e.mapping)
    x = z3.Const("t!q", CT)
    od = fld(t, "shiftOrder")
    return okthis(t) + [
        ln(fld(t, "rounds")) == 0,
        # the order: the powers of two 2^0..2^(l-1) in any order, enough for every shift
        ISORD(arr(od), ln(od)), N_(t) <= P2(ln(od)), ln(od) <= 62,
        qall([x], z3.Implies(mem(mp, x), z3.And(okslot(t, x), okslot(t, mget(mp, x)))), mem(mp, x))]


def ev_ens(e, ret):
    t, mp, R = e.this, MT(e.old.mapping), fld(e.this, "rounds")
    od = fld(e.old.this, "shiftOrder")
    src = mget(mp, TT)
    key = mk(SS, src, SUBMOD(flat(t, src), flat(t, TT), N_(t)))
    last = fld(at(R, ln(od)), "positions")
    return same(e, t) + [
        ln(R) == ln(od) + 1,
        # every round tracks exactly the mapping's entries, and after r rounds each is at its source moved left by the bits consumed so far
        rounds_ok(t, mp, R, ln(od) + 1, od),
        # after the last round every entry is at its target
        z3.Implies(mem(mp, TT), z3.And(mem(last, key), mget(last, key) == TT))]


def ev_post(e, ret):
    t, mp = e.this, MT(e.old.mapping)
    od = fld(t, "shiftOrder")
    src = mget(mp, TT)
    sh = SUBMOD(flat(t, src), flat(t, TT), N_(t))
    p = mget(fld(at(fld(t, "rounds"), ln(od)), "positions"), mk(SS, src, sh))
    return rng(t, TT) + rng(t, src) + [SM_RANGE(flat(t, src), flat(t, TT), N_(t)), SM_INV(flat(t, src), flat(t, TT), N_(t)),
                                       CONS_FULL(arr(od), ln(od), sh), FLAT_QR(ct(TT), sl(TT), M_(t)), FLAT_QR(ct(p), sl(p), M_(t))]


evaluate = Contract(
    "ShiftStrategy::evaluate", params=["mapping"], this=THIS, modifies=["this"], requires=ev_req, ensures=ev_ens, post_hints=ev_post,
    loops={0: Loop(lambda e: sh_ok(e, e.idx(0)), hints=l0_hints), 1: Loop(l1_inv, hints=l1_hints),
           2: Loop(l2_inv), 3: Loop(l3_inv, hints=l3_hints)},
    axioms=[SM_INV.axiom(), QR_FLAT.axiom()])


def prop():
    return vf.Prop("C11", tu="shiftscheme.cpp", contracts=[p2isp2, order, norm, virt, make, add, evaluate])


NATIVE = natspec.Native("c11.cpp", ["lib/Dialect/TensorExt/Transforms/ShiftScheme.cpp"], seconds=(20, 120))
NOTE = ("Proved for every slot count, number of ciphertexts (total up to 2^62 slots), shift order that is a permutation of "
        "1, 2, 4, ... up to the total, and every mapping with entries in range; the strategy is fresh (no rounds yet). The mapping "
        "class keeps the nearer of two sources for a target. Trusted: models of SmallVector and DenseMap, clang's AST, z3/cvc5, "
        "Lean. Debug printing is off.")

"""Contracts of the slot kernels in lib/Kernel/KernelImplementation.h (C06, C07)."""
import z3
from sorts import *
from engine import Contract, Loop, Native, NULLNODE, pow2, P2
from lemmas import Lemma, ghost
import lemmas
from dagmodel import *
import lib
import vf, natspec

p, n, s, x_, k, t, d, m, q, r = z3.Ints("p n s x k t d m q r")
V_, W_, w_ = z3.Consts("V W w", RA)
ia = z3.Const("ia", Bo)
E_, F_ = z3.Consts("E F", RARR)
R_, S_ = z3.Consts("R S", z3.ArraySort(I, I))
Z_, Y_ = z3.Consts("Z Y", z3.ArraySort(I, Bo))
A_ = z3.Const("A", RARR)
ISP2 = ghost("isp2", "DV.isp2", I, Bo)
LG = ghost("lg", "DV.lg", I, I)
RED = ghost("red", "DV.red", RA, Bo, I, I, RA)
ACCV = ghost("accv", "DV.accv", RA, Bo, I, I, I, RA)
ROP = ghost("rop", "DV.rop", Bo, z3.RealSort(), z3.RealSort(), z3.RealSort())
PWM = ghost("pwm", "DV.pwm", RA, RA, RA)
BS = ghost("bs", "DV.bs", RARR, z3.ArraySort(I, I), z3.ArraySort(I, Bo), RA, I, I, I, z3.RealSort())
MVP = ghost("mvp", "DV.mvp", RARR, RA, I, I, z3.RealSort())
LOG2R = z3.Function("log2r", z3.RealSort(), z3.RealSort())
lemmas.LEAN_FUN["log2r"] = "Real.logb 2"


def SL(name, vs, concl, hyps=(), **kw):
    return Lemma(name, vs, concl, list(hyps), module="Slots", **kw)


a_, b_ = z3.Reals("a b")
P2_POS = SL("isp2_pos", [x_], x_ >= 1, [ISP2(x_)])
P2_HALF = SL("isp2_half", [x_], z3.If(x_ == 1, x_ / 2 == 0, z3.And(ISP2(x_ / 2), 2 * (x_ / 2) == x_)), [ISP2(x_)])
P2_DVD = SL("isp2_dvd", [x_, p], z3.And(p % x_ == 0, ISP2(p / x_), (p / x_) * x_ == p), [ISP2(x_), ISP2(p), x_ <= p])
P2_POW = SL("isp2_pow2", [k], ISP2(P2(k)), [k >= 0])
LG_DEF = SL("lg_def", [x_], z3.And(LG(x_) >= 0, P2(LG(x_)) == x_), [ISP2(x_)])
LG_LOG = SL("lg_log2", [x_], LOG2R(z3.ToReal(x_)) == z3.ToReal(LG(x_)), [ISP2(x_)])
ACC_INIT = SL("acc_init", [V_, ia, p, n, s], ACCV(V_, ia, p, n, n / 2)[s] == V_[s], [ISP2(n)])
ACC_END = SL("acc_end", [V_, ia, p, n, s], ACCV(V_, ia, p, n, 0)[s] == RED(V_, ia, p, n)[s], patterns=[ACCV(V_, ia, p, n, 0)[s]])
ACC_STEP = SL("acc_step", [V_, ia, p, n, x_, s], ROP(ia, ACCV(V_, ia, p, n, x_)[s], ACCV(V_, ia, p, n, x_)[s + x_ * p]) == ACCV(V_, ia, p, n, x_ / 2)[s],
              [ISP2(n), ISP2(x_), x_ <= n / 2])
ROP_DEF = SL("rop_def", [ia, a_, b_], ROP(ia, a_, b_) == z3.If(ia, a_ + b_, RM(a_, b_)), patterns=[ROP(ia, a_, b_)])
RED_EXT = SL("red_ext", [V_, W_, ia, p, n, s], RED(V_, ia, p, n)[s] == RED(W_, ia, p, n)[s], [z3.ForAll([t], V_[t] == W_[t])])
PWM_DEF = SL("pwm_def", [V_, W_, s], PWM(V_, W_)[s] == RM(V_[s], W_[s]), patterns=[PWM(V_, W_)[s]])
BS_ZERO = SL("bs_zero", [E_, R_, Z_, V_, p, s], BS(E_, R_, Z_, V_, p, s, 0) == 0)
BS_SUCC = SL("bs_succ", [E_, R_, Z_, V_, p, s, n], BS(E_, R_, Z_, V_, p, s, n + 1) == BS(E_, R_, Z_, V_, p, s, n) + z3.If(
    Z_[n], z3.RealVal(0), RM(E_[n][s + R_[n]], V_[s + p * n])), [n >= 0])


def all_s(ret, f):
    return z3.ForAll([s], EVA(ret)[s] == f(s), patterns=[EVA(ret)[s]])


SYM = Rec("SymbolicValue", [("shape", Seq(I)), ("isSecret_", Bo)])
LVA = z3.Function("leafvec", SYM, RA)
LVM = z3.Function("leafmat", SYM, RARR)
ADD = z3.Const("isadd!ghost", Bo)            # the reduction given is addition (else multiplication)
S0 = z3.Int("slot!ghost")                    # any slot


# ---------------------------------------------------------------- rotate-and-reduce without plaintexts
def red_native(ex, args):
    ret = ex.fresh(NODE, "red")
    ex.assume(ret != NULLNODE)
    ex.assume(z3.ForAll([s], EVA(ret)[s] == ROP(ADD, EVA(args[0])[s], EVA(args[1])[s]), patterns=[EVA(ret)[s]]))
    return ret


def which(e):
    """the reduction: the ghost in the function's own proof, what the caller says at a call"""
    f = getattr(e._ex.c, "isadd", None)
    return f(e._ex.top_env) if f else ADD


def reduce_check(ex, e, n_):
    if isinstance(e.reduceFunc, Native):
        return ex.closure_obligation(e.reduceFunc, n_, "", None, "reduce")
    op = which(e)

    def make():
        a, b = ex.fresh(NODE, "ra"), ex.fresh(NODE, "rb")
        return [a, b], [a != NULLNODE, b != NULLNODE, ROP_DEF.axiom()], lambda ret: [ret != NULLNODE, all_s(ret, lambda s: ROP(op, EVA(a)[s], EVA(b)[s]))]
    ex.closure_obligation(e.reduceFunc, n_, "the reduction given adds (multiplies) slot by slot", make, "reduce")


MUL_BND = Lemma("mul_bnd", [k, s, p, x_], z3.And(-x_ <= p * k, p * k <= x_), [0 <= k, k <= s, -x_ <= p * s, p * s <= x_], module="Bicyclic")
I53 = z3.IntVal(2 ** 53)            # a node keeps its rotation as a double


def bsgs_req64(e):
    """every rotation is an exact double"""
    return [e.steps >= 1, e.steps <= 2 ** 30, e.period * e.steps <= I53, e.period * e.steps >= -I53]


def bnd(e, *ks):
    return [MUL_BND(k_, e.steps, e.period, I53) for k_ in ks]


def steps_req(e):
    return [ISP2(e.steps), e.steps <= 2 ** 30, e.period >= -2 ** 30, e.period <= 2 ** 30]


def steps_req64(e):
    return [ISP2(e.steps)] + bsgs_req64(e)


def is_nodeparam(f):
    return "shared_ptr" in ptype(f, 0) or "SNode" in ptype(f, 0)


def red_post(base):
    return lambda e, ret: [ret != NULLNODE, all_s(ret, lambda s: RED(base(e.old), which(e), e.old.period, e.old.steps)[s])]


def acc_at(e, node, x):
    return all_s(node, lambda s: ACCV(EVA(e.old.vectorDag), ADD, e.old.period, e.old.steps, x)[s])


def acc_hints(e, x, node):
    O = e.old
    V = EVA(O.vectorDag)
    return [P2_POS(O.steps), P2_HALF(O.steps), P2_HALF(x), P2_POS(x),
            z3.ForAll([s], ACC_INIT(V, ADD, O.period, O.steps, s), patterns=[V[s]]),
            z3.ForAll([s], ACC_STEP(V, ADD, O.period, O.steps, x, s), patterns=[EVA(node)[s]])]


RD = dict(closures={"reduceFunc": Native(red_native, "reduce")}, closure_check=reduce_check, ret=lambda ex: NODE)
ACCN = "implementRotateAndReduceAccumulation"
accn = Contract(ACCN, params=["vectorDag", "period", "steps", "reduceFunc"], pick=is_nodeparam, title=ACCN,
                requires=lambda e: [e.vectorDag != NULLNODE] + steps_req64(e), ensures=red_post(lambda o: EVA(o.vectorDag)),
                loops={0: Loop(lambda e: [e.vectorDag != NULLNODE, e.shiftSize >= 0, e.shiftSize <= e.old.steps / 2, z3.Or(e.shiftSize == 0, ISP2(e.shiftSize)),
                                          acc_at(e, e.vectorDag, e.shiftSize)], lambda e: e.shiftSize,
                               hints=lambda e, w: acc_hints(e, e.shiftSize, e.vectorDag) + bnd(e.old, e.shiftSize))},
                post_hints=lambda e, ret: [ACC_END.axiom()], **RD)
accv = Contract(ACCN, params=["vector", "period", "steps", "reduceFunc"], pick=lambda f: not is_nodeparam(f), title=ACCN + " (leaf)",
                requires=steps_req64, ensures=red_post(lambda o: LVA(o.vector)), **RD)


def halv(e, t):
    """the shift used in iteration t: a quarter, an eighth ... of the step count"""
    L = LG(e.old.steps)
    return z3.If(t < L, P2(L - 1 - t), z3.IntVal(0))


def roll_inv(e, t, nodes):
    return [ISX(nodes[1]), IV(nodes[1]) == halv(e, t), acc_at(e, nodes[0], halv(e, t)), halv(e, t) <= e.old.steps / 2]


def roll_hints(e, t, nodes, w):
    L = LG(e.old.steps)
    return acc_hints(e, P2(L - 1 - t), nodes[0]) + [P2_POW(L - 1 - t), LG_DEF(e.old.steps), P2_HALF(P2(L - 1 - t)), lemmas.POW2_MONO(z3.IntVal(0), L - 1 - t),
                                                    lemmas.POW2_SUCC(L), lemmas.POW2_SUCC(L - 1 - t), lemmas.POW2_ZERO()]


accr = Contract(ACCN + "Rolled", params=["vectorDag", "period", "steps", "reduceFunc", "baseType"], pick=is_nodeparam, title=ACCN + "Rolled",
                requires=lambda e: [e.vectorDag != NULLNODE] + steps_req(e), ensures=red_post(lambda o: EVA(o.vectorDag)),
                entry=lambda ex, e: [LG_LOG(e.steps), LG_DEF(e.steps), POW2_31(), lemmas.POW2_MONO(z3.IntVal(31), LG(e.steps)),
                                     z3.ForAll([s], ACC_INIT(EVA(e.vectorDag), ADD, e.period, e.steps, s),
                                               patterns=[EVA(e.vectorDag)[s]])],
                post_hints=lambda e, ret: [ACC_END.axiom()], **RD)
accrv = Contract(ACCN + "Rolled", params=["vector", "period", "steps", "reduceFunc", "baseType"], pick=lambda f: not is_nodeparam(f),
                 title=ACCN + "Rolled (leaf)", requires=steps_req, ensures=red_post(lambda o: LVA(o.vector)), **RD)
POW2_31 = Lemma("pow2_31", [], P2(31) == 2 ** 31, module="Poly")


# ---------------------------------------------------------------- baby-step giant-step
MAPIB = MapS(I, Bo)
ZM = z3.Function("zmarks", MAPIB, z3.ArraySort(I, Bo))     # the diagonals marked zero
mz = z3.Const("mz", MAPIB)
ZM_DEF = z3.ForAll([mz, k], ZM(mz)[k] == z3.And(z3.Select(acc(mz, 0), k), z3.Select(acc(mz, 1), k)), patterns=[ZM(mz)[k]])
EG = z3.Const("rows!ghost", RARR)                          # the value extracted for each index
RR = z3.Const("rotation!ghost", z3.ArraySort(I, I))        # its rotation, relative to the first operand's
SQ_UB = Lemma("sqrt_ub", [s], z3.And(1 <= -z3.ToInt(-lib.SQRTR(z3.ToReal(s))), -z3.ToInt(-lib.SQRTR(z3.ToReal(s))) <= s), [s >= 1], module="Rotate")


def bghost(e, name):
    """what the function under proof says the callbacks it passes extract and rotate by"""
    f = getattr(e._ex.c, name, None)
    return f(e._ex.top_env) if f else {"rows": EG, "rot": RR}[name]


def nbaby(steps):
    return -z3.ToInt(-lib.SQRTR(z3.ToReal(steps)))


def bsgs_req(e):
    return [e.steps >= 1, e.steps <= 2 ** 30, e.period >= -2 ** 30, e.period <= 2 ** 30]


def mini(a, b):
    return z3.If(a <= b, a, b)


def BSK(e, upto):
    O = e._ex.top_env
    return BS(EG, RR, ZM(O.zeroDiagonals), LVA(O.giantSteppedOperand), O.period, S0, mini(upto, O.steps))


def own(e):
    return e._ex.c.title in (BS1, BS2)


def bsgs_post(e, ret):
    O = e.old
    f = lambda s: BS(bghost(e, "rows"), bghost(e, "rot"), ZM(O.zeroDiagonals), LVA(O.giantSteppedOperand), O.period, s, O.steps)
    if own(e):                                  # the slot S0 is arbitrary
        return [ret != NULLNODE, EVA(ret)[S0] == f(S0)]
    return [ret != NULLNODE, all_s(ret, f)]


def ext_native(ex, args):
    O = ex.top_env
    ex.check([EVA(args[0]) == LVA(O.babySteppedOperand), EVM(args[0]) == LVM(O.babySteppedOperand), 0 <= args[1], args[1] < O.steps],
             "extraction is from the operand given and in range", None, "pre")
    ret = ex.fresh(NODE, "ext")
    ex.assume(ret != NULLNODE)
    ex.assume(z3.ForAll([s], EVA(ret)[s] == EG[args[1]][s], patterns=[EVA(ret)[s]]))
    return ret


def rot_native(ex, args):
    O = ex.top_env
    g, j, i, per = args
    ex.check([g == nbaby(O.steps), per == O.period, 0 <= i, i < g, 0 <= j, j * g + i < O.steps], "rotation is asked for an index in range", None, "pre")
    ret = ex.fresh(I, "rot")
    ex.assume(z3.And(ret >= -2 ** 53, ret <= 2 ** 53))
    ex.assume(EG[j * g + i][S0 + per * (j * g) + ret] == EG[j * g + i][S0 + RR[j * g + i]])
    return ret


def bsgs_check(ex, e, n_):
    """the callbacks given extract the rows and rotate as the function under proof says"""
    E, R = bghost(e, "rows"), bghost(e, "rot")
    O = e
    if not isinstance(e.extractFunc, Native):
        def make():
            a, i_ = ex.fresh(NODE, "ea"), ex.fresh(I, "ei")
            return [a, i_], [a != NULLNODE, EVA(a) == LVA(O.babySteppedOperand), EVM(a) == LVM(O.babySteppedOperand), 0 <= i_, i_ < O.steps], \
                lambda ret: [ret != NULLNODE, all_s(ret, lambda s: E[i_][s])]
        ex.closure_obligation(e.extractFunc, n_, "the extraction given yields the row of each index", make, "extract")
    rot_check(ex, e, n_, E, R)


def rot_check(ex, e, n_, E, R):
    O = e
    more = getattr(ex.c, "rotspec", None)
    if not isinstance(e.derivedRotationIndexFn, Native):
        def make2():
            g, j, i_ = nbaby(O.steps), ex.fresh(I, "rj"), ex.fresh(I, "ri")
            c = j * g + i_
            return [g, j, i_, O.period], [0 <= i_, i_ < g, 0 <= j, c < O.steps, SQ_UB(O.steps), g * j >= 0, g * j < 2 ** 30, MUL_BD(g * j, O.period)] + bnd(O, g * j) + \
                (more(ex.top_env, g, j, i_, O)[0] if more else []), \
                lambda ret: (more(ex.top_env, g, j, i_, O)[1](ex, ret) if more else []) + [ret >= -2 ** 53, ret <= 2 ** 53, E[c][S0 + O.period * (j * g) + ret] == E[c][S0 + R[c]]]
        ex.closure_obligation(e.derivedRotationIndexFn, n_, "the rotation given aligns the row with the giant step", make2, "rot")


MUL_BD = Lemma("mul_bound", [n, p], z3.And(-(2 ** 61) < n * p, n * p < 2 ** 61), [0 <= n, n < 2 ** 30, -(2 ** 30) <= p, p <= 2 ** 30], module="Slots")
DISTR = Lemma("mul_distr", [p, n, k], p * (n + k) == p * n + p * k, module="Slots")
BS1, BS2 = "implementBabyStepGiantStep", "implementBabyStepGiantStepRolled"


def bs_at(e, node, j, val):
    """the meaning of a partial sum at the slot that the j-th giant rotation moves to S0"""
    return EVAN(node, S0 + e._ex.top_env.period * (j * nbaby(e._ex.top_env.steps))) == val


def babyvals(e):
    return [ln(e.babyStepVals) >= 1, z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < ln(e.babyStepVals)), at(e.babyStepVals, t) != NULLNODE), patterns=[at(e.babyStepVals, t)]),
            z3.ForAll([t, s], z3.Implies(z3.And(0 <= t, t < ln(e.babyStepVals)), EVA(at(e.babyStepVals, t))[s] == LVA(e.old.giantSteppedOperand)[s + e.old.period * t]),
                      patterns=[EVA(at(e.babyStepVals, t))[s]])]


def bs_hints(e, c):
    O = e._ex.top_env
    return [BS_ZERO(EG, RR, ZM(O.zeroDiagonals), LVA(O.giantSteppedOperand), O.period, S0), BS_SUCC(EG, RR, ZM(O.zeroDiagonals), LVA(O.giantSteppedOperand), O.period, S0, c)]


bsgs = Contract(BS1, title=BS1, ret=lambda ex: NODE,
                params=["giantSteppedOperand", "babySteppedOperand", "period", "steps", "dagType", "extractFunc", "zeroDiagonals", "derivedRotationIndexFn"],
                requires=lambda e: bsgs_req64(e), ensures=bsgs_post, closures={"extractFunc": Native(ext_native, "extract"), "derivedRotationIndexFn": Native(rot_native, "rot")},
                closure_check=bsgs_check, entry=lambda ex, e: [SQ_UB(e.steps)] + bnd(e, z3.IntVal(1)),
                loops={0: Loop(lambda e: [e.i >= 1, e.i <= z3.If(e.numBabySteps > 1, e.numBabySteps, 1), ln(e.babyStepVals) == e.i] + babyvals(e),
                               lambda e: e.numBabySteps - e.i, hints=lambda e, w: bnd(e.old, e.i)),
                       1: Loop(lambda e: [e.j >= 0, e.j <= e.numGiantSteps, ln(e.babyStepVals) >= e.numBabySteps, EVAN(e.result, S0) == BSK(e, e.j * nbaby(e.old.steps))] + babyvals(e),
                               lambda e: e.numGiantSteps - e.j,
                               hints=lambda e, w: bs_hints(e, e.j * nbaby(e.old.steps)) + bnd(e.old, e.j, e.j * nbaby(e.old.steps))),
                       2: Loop(lambda e: [e.i >= 0, e.i <= e.numBabySteps, bs_at(e, e.innerSum, e.j, BSK(e, e.j * nbaby(e.old.steps) + e.i) - BSK(e, e.j * nbaby(e.old.steps)))],
                               lambda e: e.numBabySteps - e.i,
                               hints=lambda e, w: bs_hints(e, e.j * nbaby(e.old.steps) + e.i) + [DISTR(e.old.period, e.j * nbaby(e.old.steps), e.i)])})


isome = lambda o: acc(o, 0)
ival = lambda o: acc(o, 1)
K0 = z3.K(I, z3.IntVal(0))
defrot = Contract("defaultDerivedRotationIndexFn", params=["giantStepSize", "giantStepIndex", "babyStepIndex", "period"],
                  requires=lambda e: [e.giantStepSize >= 0, e.giantStepSize * e.giantStepIndex >= 0, e.giantStepSize * e.giantStepIndex < 2 ** 30,
                                      e.giantStepSize < 2 ** 31, e.period >= -2 ** 30, e.period <= 2 ** 30],
                  entry=lambda ex, e: [MUL_BD(e.giantStepSize * e.giantStepIndex, e.period)],
                  ensures=lambda e, ret: [ret == -(e.old.period * (e.old.giantStepIndex * e.old.giantStepSize))])


def strin(v, *texts):
    return z3.Or([STRID(v) == lit_id('"' + x + '"') for x in texts])


rrk = Contract("implementRotateAndReduce", ret=lambda ex: NODE, title="implementRotateAndReduce",
               params=["vector", "plaintexts", "period", "steps", "dagType", "zeroDiagonals", "reduceOp", "unroll"],
               requires=lambda e: [e.steps >= 1, e.steps <= 2 ** 30, e.period >= -2 ** 30, e.period <= 2 ** 30, e.period * e.steps <= I53, e.period * e.steps >= -I53,
                                   z3.Implies(z3.Not(isome(e.plaintexts)), ISP2(e.steps)),
                                   z3.Implies(isome(e.plaintexts), strin(e.reduceOp, "arith.addi", "arith.addf"))],
               ensures=lambda e, ret: [ret != NULLNODE,
                                       z3.ForAll([s], z3.Implies(z3.Not(isome(e.old.plaintexts)), EVA(ret)[s] == RED(LVA(e.old.vector), rr_add(e.old), e.old.period, e.old.steps)[s]),
                                                 patterns=[EVA(ret)[s]]),
                                       z3.ForAll([s], z3.Implies(isome(e.old.plaintexts), EVA(ret)[s] == BS(LVM(ival(e.old.plaintexts)), K0, ZM(e.old.zeroDiagonals), LVA(e.old.vector),
                                                                                                      e.old.period, s, e.old.steps)), patterns=[EVA(ret)[s]])])


def rr_add(o):
    """sum unless a multiplication is named"""
    return z3.Not(strin(o.reduceOp, "arith.muli", "arith.mulf"))


rrk.isadd = rr_add
rrk.rows = lambda o: LVM(ival(o.plaintexts))
rrk.rot = lambda o: K0

dot = Contract("implementDot", ret=lambda ex: NODE, params=["lhs", "rhs", "steps", "dagType"], requires=lambda e: [ISP2(e.steps), e.steps <= 2 ** 30], entry=lambda ex, e: [P2_POS(e.steps)],
               ensures=lambda e, ret: [ret != NULLNODE, all_s(ret, lambda s: RED(PWM(LVA(e.old.lhs), LVA(e.old.rhs)), z3.BoolVal(True), z3.IntVal(1), e.old.steps)[s])],
               post_hints=lambda e, ret: [PWM_DEF.axiom(), z3.ForAll([s], RED_EXT(EVA(e.mulDag), PWM(LVA(e.old.lhs), LVA(e.old.rhs)), z3.BoolVal(True), z3.IntVal(1), e.old.steps, s), patterns=[EVA(ret)[s]])])
dot.isadd = lambda o: z3.BoolVal(True)

NOZ = ZM(mk(MAPIB, z3.K(I, z3.BoolVal(False)), z3.K(I, z3.BoolVal(False)), z3.IntVal(0)))
CCN = "implementCiphertextCiphertextBabyStepGiantStep"
rowsB = lambda o: z3.K(I, LVA(o.babySteppedOperand))
cc = Contract(CCN, ret=lambda ex: NODE, params=["giantSteppedOperand", "babySteppedOperand", "period", "steps", "dagType", "derivedRotationIndexFn"],
              requires=lambda e: bsgs_req64(e), closures={"derivedRotationIndexFn": Native(None, "rot")},
              closure_check=lambda ex, e, n_: rot_check(ex, e, n_, rowsB(e), bghost(e, "rot")),
              ensures=lambda e, ret: [ret != NULLNODE, all_s(ret, lambda s: BS(rowsB(e.old), bghost(e, "rot"), NOZ, LVA(e.old.giantSteppedOperand),
                                                                              e.old.period, s, e.old.steps))])
cc.rows = rowsB


def mv_bs(e, upto):
    return BS(LVM(e.old.matrix), K0, NOZ, LVA(e.old.vector), z3.IntVal(1), S0, upto)


nrows = lambda o: at(fld(o.matrix, "shape"), 0)
matvec = Contract("implementMatvec", ret=lambda ex: NODE, params=["kernelName", "matrix", "vector"],
                  requires=lambda e: [e.kernelName == 2, ln(fld(e.matrix, "shape")) >= 1, nrows(e) >= 1, nrows(e) < 2 ** 31],
                  ensures=lambda e, ret: [ret != NULLNODE, EVA(ret)[S0] == mv_bs(e, nrows(e.old))],
                  loops={0: Loop(lambda e: [e.i >= 1, e.i <= e.numRows, e.accumulatedSum != NULLNODE, EVA(e.accumulatedSum)[S0] == mv_bs(e, e.i)], lambda e: e.numRows - e.i,
                                 hints=lambda e, w: [BS_ZERO(LVM(e.old.matrix), K0, NOZ, LVA(e.old.vector), z3.IntVal(1), S0)] +
                                 [BS_SUCC(LVM(e.old.matrix), K0, NOZ, LVA(e.old.vector), z3.IntVal(1), S0, c) for c in (z3.IntVal(0), e.i)])})

# ---------------------------------------------------------------- the same with loop nodes
def dext_native(ex, args):
    O = ex.top_env
    ex.check([EVA(args[0]) == LVA(O.babySteppedOperand), EVM(args[0]) == LVM(O.babySteppedOperand), args[1] != NULLNODE, ISX(args[1])],
             "extraction is from the operand given", None, "pre")
    ret = ex.fresh(NODE, "ext")
    ex.assume(ret != NULLNODE)
    ex.assume(z3.Implies(z3.And(0 <= IV(args[1]), IV(args[1]) < O.steps), z3.ForAll([s], EVA(ret)[s] == EG[IV(args[1])][s], patterns=[EVA(ret)[s]])))
    return ret


def drot_native(ex, args):
    O = ex.top_env
    g, j, i, per = args
    c = IV(j) * g + IV(i)
    ex.check([g == nbaby(O.steps), per == O.period, j != NULLNODE, i != NULLNODE, ISX(i), ISX(j), 0 <= IV(i), IV(i) < g, 0 <= IV(j)], "rotation is asked for an index", None, "pre")
    ret = ex.fresh(NODE, "rot")
    ex.assume(z3.And(ret != NULLNODE, ISX(ret)))
    ex.assume(z3.Implies(c < O.steps, EG[c][S0 + per * (IV(j) * g) + IV(ret)] == EG[c][S0 + RR[c]]))
    return ret


def bsgsr_check(ex, e, n_):
    E, R = bghost(e, "rows"), bghost(e, "rot")
    O = e
    if not isinstance(e.extractFunc, Native):
        def make():
            a, i_ = ex.fresh(NODE, "ea"), ex.fresh(NODE, "ei")
            return [a, i_], [a != NULLNODE, i_ != NULLNODE, ISX(i_), EVA(a) == LVA(O.babySteppedOperand), EVM(a) == LVM(O.babySteppedOperand)], \
                lambda ret: [ret != NULLNODE, z3.Implies(z3.And(0 <= IV(i_), IV(i_) < O.steps), all_s(ret, lambda s: E[IV(i_)][s]))]
        ex.closure_obligation(e.extractFunc, n_, "the extraction given yields the row of each index", make, "dynextract")
    if not isinstance(e.dagRotationFn, Native):
        def make2():
            g, j, i_ = nbaby(O.steps), ex.fresh(NODE, "rj"), ex.fresh(NODE, "ri")
            c = IV(j) * g + IV(i_)
            return [g, j, i_, O.period], [j != NULLNODE, i_ != NULLNODE, ISX(j), ISX(i_), 0 <= IV(i_), IV(i_) < g, 0 <= IV(j), SQ_UB(O.steps)], \
                lambda ret: [ret != NULLNODE, ISX(ret), z3.Implies(c < O.steps, E[c][S0 + O.period * (IV(j) * g) + IV(ret)] == E[c][S0 + R[c]])]
        ex.closure_obligation(e.dagRotationFn, n_, "the rotation given aligns the row with the giant step", make2, "dynrot")


def packed(e, node, upto):
    """row i of the packed baby steps is the operand rotated by period*i"""
    O = e._ex.top_env
    return z3.ForAll([t, s], z3.Implies(z3.And(0 <= t, t < upto), EVM(node)[t][s] == LVA(O.giantSteppedOperand)[s + O.period * t]), patterns=[EVM(node)[t][s]])


def g_of(e):
    return nbaby(e._ex.top_env.steps)


pre_loop = DagLoop(lambda e, t_, nodes: [packed(e, nodes[0], t_)])
out_loop = DagLoop(lambda e, t_, nodes: [packed(e, nodes[1], g_of(e)), EVA(nodes[0])[S0] == BSK(e, t_ * g_of(e))],
                   lambda e, t_, nodes, w: bs_hints(e, t_ * g_of(e)))


def jv(e):
    return IV(e.j)


in_loop = DagLoop(lambda e, t_, nodes: [EVA(nodes[0])[S0 + e._ex.top_env.period * (jv(e) * g_of(e))] == BSK(e, jv(e) * g_of(e) + t_) - BSK(e, jv(e) * g_of(e))],
                  lambda e, t_, nodes, w: bs_hints(e, jv(e) * g_of(e) + t_) + [DISTR(e._ex.top_env.period, jv(e) * g_of(e), t_)])


def zvec(e):
    """the vector of marks, for the diagonals looked at so far"""
    O = e.old
    V = e.isNotZeroDiagVec
    en, pos, mp = e._ex.enums[-1]
    return [ln(V) == O.steps, z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < O.steps), at(V, t) == z3.If(
        z3.And(z3.Select(acc(mp, 0), t), z3.Select(acc(mp, 1), t), pos(t) < e.idx(0)), z3.RealVal(0), z3.RealVal(1))), patterns=[at(V, t)])]


bsgsr = Contract(BS2, title=BS2, ret=lambda ex: NODE,
                 params=["giantSteppedOperand", "babySteppedOperand", "period", "steps", "baseType", "extractFunc", "zeroDiagonals", "dagRotationFn"],
                 requires=lambda e: bsgs_req(e), ensures=bsgs_post, closures={"extractFunc": Native(dext_native, "dynextract"), "dagRotationFn": Native(drot_native, "dynrot")},
                 closure_check=bsgsr_check, entry=lambda ex, e: [SQ_UB(e.steps)],
                 loops={0: Loop(zvec, lambda e: card(e.zeroDiagonals) - e.idx(0))})
defdrot = Contract("defaultDagDerivedRotationIndexFn", params=["giantStepSize", "giantStepIndex", "babyStepIndex", "period"], ret=lambda ex: NODE,
                   requires=lambda e: [e.giantStepIndex != NULLNODE, ISX(e.giantStepIndex)],
                   ensures=lambda e, ret: [ret != NULLNODE, ISX(ret), IV(ret) == -(e.old.period * (IV(e.old.giantStepIndex) * e.old.giantStepSize))])


# ---------------------------------------------------------------- Halevi-Shoup
NPO = ghost("npo", "DV.npo", I, I)
NPO_DEF = SL("npo_def", [x_], z3.And(ISP2(NPO(x_)), NPO(x_) >= x_, NPO(x_) < 2 * x_), [x_ >= 1])
nextp = Contract("nextPowerOfTwo", params=["v"], model_only=True, requires=lambda e: [e.v >= 1, e.v <= 2 ** 62],    # proved under C17
                 ensures=lambda e, ret: [ret == NPO(e.old.v)])
HA = z3.Const("A!ghost", RARR)            # the matrix
HW = z3.Const("w!ghost", RA)              # the vector
MVP_ = MVP
Wf = z3.Const("Wf", RA)
HS = SL("hs_correct", [E_, R_, Z_, V_, A_, x_v := z3.Const("wv", RA), Wf, n, m, s], RED(Wf, z3.BoolVal(True), n, m / n)[s] == MVP(A_, x_v, s % n, m),
        [n >= 1, m >= 1, m % n == 0, z3.ForAll([t], V_[t] == x_v[t % m]),
         z3.ForAll([k], z3.Implies(0 <= k, z3.Implies(k < n, z3.ForAll([t], z3.If(Z_[k], z3.RealVal(0), E_[k][t + R_[k]]) == A_[t % n][(t + k) % m])))),
         z3.ForAll([t], Wf[t] == BS(E_, R_, Z_, V_, z3.IntVal(1), t, n))])
RED_ONE = SL("red_one", [V_, ia, p, s], RED(V_, ia, p, 1)[s] == V_[s])
hrows = lambda o: NPO(at(o.originalMatrixShape, 0))
hcols = lambda o: NPO(at(o.originalMatrixShape, 1))


def hs_req(e):
    sh = fld(e.matrix, "shape")
    N_, M_ = hrows(e), hcols(e)
    return [ln(e.originalMatrixShape) >= 2, at(e.originalMatrixShape, 0) >= 1, at(e.originalMatrixShape, 1) >= 1, at(e.originalMatrixShape, 1) <= 2 ** 29,
            ln(sh) >= 1, at(sh, 0) == N_, at(e.originalMatrixShape, 0) <= 2 ** 29, N_ <= M_,
            z3.ForAll([t], LVA(e.vector)[t] == HW[t % M_], patterns=[LVA(e.vector)[t]]),
            z3.ForAll([k, t], z3.Implies(z3.And(0 <= k, k < N_), z3.If(ZM(e.zeroDiagonals)[k], z3.RealVal(0), LVM(e.matrix)[k][t]) == HA[t % N_][(t + k) % M_]),
                      patterns=[LVM(e.matrix)[k][t]])]


def hs_L(e):
    return LG(hcols(e.old)) - LG(hrows(e.old))


def hs_x(e, i):
    return z3.If(i < hs_L(e), P2(hs_L(e) - 1 - i), z3.IntVal(0))


def hs_shift(e, i):
    j = LG(hcols(e.old)) - 1 - i
    return z3.If(j >= 0, P2(j), z3.IntVal(0))


def hs_W(e):
    return EVA(e.rotateAndReduceResult)


def hs_inv(e, i, node, shift):
    return [shift == hs_shift(e, i), all_s(node, lambda s: ACCV(hs_W(e), z3.BoolVal(True), hrows(e.old), hcols(e.old) / hrows(e.old), hs_x(e, i))[s])]


def hs_hints(e, i, node):
    N_, M_ = hrows(e.old), hcols(e.old)
    L, lm = hs_L(e), LG(M_)
    q, T = M_ / N_, z3.BoolVal(True)
    x = P2(L - 1 - i)
    return [P2_DVD(N_, M_), LG_DEF(N_), LG_DEF(M_), P2_POW(L - 1 - i), P2_HALF(x), P2_HALF(q), P2_POS(q), lemmas.POW2_ADD(L - 1 - i, LG(N_)), lemmas.POW2_SUCC(L - 1 - i),
            lemmas.POW2_SUCC(lm - 1 - i), lemmas.POW2_SUCC(lm), lemmas.POW2_ADD(L, LG(N_)), lemmas.POW2_SUCC(L), lemmas.POW2_ZERO(), lemmas.POW2_MONO(z3.IntVal(0), lm - 1 - i),
            lemmas.POW2_MONO(L - 1 - i, L - 1), DIVQ(q, P2(L), N_), lemmas.POW2_LT(lm, LG(N_)), lemmas.POW2_LT(LG(N_), lm),
            z3.ForAll([s], ACC_INIT(hs_W(e), T, N_, q, s), patterns=[hs_W(e)[s]]),
            z3.ForAll([s], ACC_STEP(hs_W(e), T, N_, q, x, s), patterns=[EVA(node)[s]]), ROP_DEF.axiom()]


DIVQ = SL("div_unique", [x_, k, n], x_ == k, [n >= 1, x_ * n == k * n])


def hs_post_hints(e, ret):
    o = e.old
    T, N_, M_ = z3.BoolVal(True), hrows(o), hcols(o)
    W = hs_W(e)
    return [P2_DVD(N_, M_), P2_POS(N_), P2_POS(M_), DIVQ(M_ / N_, z3.IntVal(1), N_), z3.ForAll([s], ACC_END(W, T, N_, M_ / N_, s), patterns=[EVA(ret)[s]]), z3.ForAll([s], RED_ONE(W, T, N_, s), patterns=[EVA(ret)[s]])] + [
        z3.ForAll([s], HS(LVM(o.matrix), K0, ZM(o.zeroDiagonals), LVA(o.vector), HA, HW, W, N_, M_, s), patterns=[EVA(ret)[s]])]


hs = Contract("implementHaleviShoup", ret=lambda ex: NODE, params=["vector", "matrix", "originalMatrixShape", "dagType", "zeroDiagonals", "unroll"],
              requires=hs_req, ensures=lambda e, ret: [ret != NULLNODE, all_s(ret, lambda s: MVP(HA, HW, s % hrows(e.old), hcols(e.old)))],
              entry=lambda ex, e: [LG_LOG(hrows(e)), LG_LOG(hcols(e)), LG_DEF(hrows(e)), LG_DEF(hcols(e)), POW2_31(), lemmas.POW2_MONO(z3.IntVal(31), LG(hcols(e))),
                                   P2_DVD(hrows(e), hcols(e)), P2_POS(hrows(e)), P2_POS(hcols(e)), lemmas.POW2_LT(LG(hcols(e)), LG(hrows(e))),
                                   NPO_DEF(at(e.originalMatrixShape, 0)), NPO_DEF(at(e.originalMatrixShape, 1))],
              loops={0: Loop(lambda e: [e.i >= 0, e.i <= e.numShifts, e.summedShifts != NULLNODE, e.numShifts == hs_L(e)] + hs_inv(e, e.i, e.summedShifts, e.shift),
                             lambda e: e.numShifts - e.i, hints=lambda e, w: hs_hints(e, e.i, e.summedShifts))},
              post_hints=hs_post_hints)
hs_loop = DagLoop(lambda e, t_, nodes: [ISX(nodes[1]), e.numShifts == hs_L(e)] + hs_inv(e, t_, nodes[0], IV(nodes[1])),
                  lambda e, t_, nodes, w: hs_hints(e, t_, nodes[0]))


# ---------------------------------------------------------------- broadcasted reduce
BRW = ghost("brw", "DV.brw", RA, RA, Bo, Bo, I, I, I, RA)
hasm = z3.Const("hasmask", Bo)
M_v = z3.Const("Mv", RA)
N_s = z3.Int("Nslots")
BRW_DEF = SL("brw_def", [V_, M_v, ia, hasm, p, n, N_s, s], BRW(V_, M_v, ia, hasm, p, n, N_s)[s] == z3.If(
    hasm, RM(RED(V_, ia, p, n)[s + (N_s - (n - 1) * p)], M_v[s]), RED(V_, ia, p, n)[s + (N_s - (n - 1) * p)]))
RED_DBL = SL("red_dbl", [V_, ia, p, x_, s], ROP(ia, RED(V_, ia, p, x_)[s], RED(V_, ia, p, x_)[s + x_ * p]) == RED(V_, ia, p, 2 * x_)[s], [x_ >= 0])
ISP2_LT = SL("isp2_lt", [x_, n], z3.And(ISP2(2 * x_), 2 * x_ <= n), [ISP2(x_), ISP2(n), x_ < n])
cyclic = lambda V, N: z3.ForAll([t], V[t + N] == V[t])
lastp = lambda M, n, p: z3.ForAll([t], M[t] == z3.If(t % (n * p) >= (n - 1) * p, z3.RealVal(1), z3.RealVal(0)))
blk = lambda n, p, s: s / (n * p) * (n * p) + s % p
BR_FULL = SL("br_full", [V_, M_v, p, n, N_s, s], RED(BRW(V_, M_v, z3.BoolVal(True), z3.BoolVal(True), p, n, N_s), z3.BoolVal(True), p, n)[s]
             == RED(V_, z3.BoolVal(True), p, n)[blk(n, p, s)], [n >= 1, p >= 1, cyclic(V_, N_s), lastp(M_v, n, p)])
BR_NAT = SL("br_nat", [V_, p, n, N_s, s], RED(V_, z3.BoolVal(True), p, n)[s] == RED(V_, z3.BoolVal(True), p, n)[blk(n, p, s)],
            [n >= 1, p >= 1, n * p == N_s, cyclic(V_, N_s)])


def br_w(o):
    return BRW(EVA(o.vectorDag), EVA(ival(o.cleanupMaskDag)), rr_add(o), isome(o.cleanupMaskDag), o.period, o.steps, o.numSlots)


def br_ens(e, ret):
    o = e.old
    V, M, n_, p_, N = EVA(o.vectorDag), EVA(ival(o.cleanupMaskDag)), o.steps, o.period, o.numSlots
    return [ret != NULLNODE,
            # what is built, whatever the mask
            all_s(ret, lambda s: z3.If(n_ * p_ == N, RED(V, rr_add(o), p_, n_)[s], RED(br_w(o), rr_add(o), p_, n_)[s])),
            # with the cleanup mask it is meant for (or none needed), the sum of the slot's block in every slot
            z3.Implies(z3.And(rr_add(o), cyclic(V, N), z3.Or(n_ * p_ == N, z3.And(isome(o.cleanupMaskDag), lastp(M, n_, p_)))),
                       EVA(ret)[S0] == RED(V, z3.BoolVal(True), p_, n_)[blk(n_, p_, S0)])]


def br_inv(e):
    o = e.old
    return [e.current != NULLNODE, ISP2(e.rep_shift), e.rep_shift <= o.steps,
            all_s(e.current, lambda s: RED(br_w(o), rr_add(o), o.period, e.rep_shift)[s])]


def br_hints(e, w):
    o = e.old
    W = br_w(o)
    V, M = EVA(o.vectorDag), EVA(ival(o.cleanupMaskDag))
    r = [P2_POS(e.rep_shift), ISP2_LT(e.rep_shift, o.steps), ROP_DEF.axiom()] + bnd(o, e.rep_shift)
    r += [z3.ForAll([s], RED_DBL(W, rr_add(o), o.period, e.rep_shift, s), patterns=[EVA(e.current)[s]])]
    if w == "init":
        r += [P2_POW(z3.IntVal(0)), lemmas.POW2_ZERO(), z3.ForAll([s], RED_ONE(W, rr_add(o), o.period, s), patterns=[EVA(e.current)[s]]),
              z3.ForAll([s], BRW_DEF(V, M, rr_add(o), isome(o.cleanupMaskDag), o.period, o.steps, o.numSlots, s), patterns=[EVA(e.current)[s]])]
    return r


def br_post(e, ret):
    o = e.old
    V, M = EVA(o.vectorDag), EVA(ival(o.cleanupMaskDag))
    return [P2_POS(o.steps), BR_FULL(V, M, o.period, o.steps, o.numSlots, S0), BR_NAT(V, o.period, o.steps, o.numSlots, S0)]


brd = Contract("implementBroadcastedReduce", ret=lambda ex: NODE,
               params=["vectorDag", "cleanupMaskDag", "period", "steps", "numSlots", "dagType", "reduceOp", "unroll"],
               requires=lambda e: [e.vectorDag != NULLNODE, z3.Implies(isome(e.cleanupMaskDag), ival(e.cleanupMaskDag) != NULLNODE), ISP2(e.steps),
                                   e.steps <= 2 ** 30, e.period >= 1, e.period <= 2 ** 30, e.steps * e.period <= e.numSlots, e.numSlots <= I53],
               entry=lambda ex, e: [P2_POS(e.steps)] + [MUL_BND(z3.IntVal(1), e.steps, e.period, I53), MUL_BND(e.steps - 1, e.steps, e.period, I53)],
               ensures=br_ens, post_hints=br_post, loops={0: Loop(br_inv, lambda e: e.old.steps - e.rep_shift, hints=br_hints)})
brd.isadd = rr_add


LOOPS = {ACCN + "Rolled": [DagLoop(roll_inv, roll_hints)], BS2: [pre_loop, out_loop, in_loop], "implementHaleviShoup": [hs_loop]}
CONTRACTS = slot_factories(LVA, LVM) + DAGTYPES + [accn, accv, accr, accrv, bsgs, defrot, rrk, dot, cc, matvec, bsgsr, defdrot, nextp, hs, brd]
AXIOMS = [ZM_DEF, RM_COMM.axiom()]


def f_log2(ex, n_, fr, name, rd, args, want_lv):
    v = ex.eval(args[0], fr)
    v = z3.ToReal(v) if z3.is_int(v) else v
    ex.check(v > 0, "logarithm of a positive number", n_, "safety")
    return LOG2R(v)


def if_invoke(ex, amap, n_, fr):
    """ifElse over builders: the node of what the builders return"""
    c = amap["condition"]
    c = ex.load(c) if not isinstance(c, z3.ExprRef) else c
    ex.check(c != NULLNODE, "condition of a branch node exists", n_, "pre")
    br = []
    for b in ("thenBuilder", "elseBuilder"):
        f = amap[b]
        f = ex.load(f) if hasattr(f, "root") else f
        y = ex.call_fn(f, [], n_)
        br.append(ex.load(y) if not isinstance(y, z3.ExprRef) else y)
    ex.check([y != NULLNODE for y in br], "branches of a branch node exist", n_, "pre")
    r = ex.fresh(NODE, "ifelse")
    ex.assume(r != NULLNODE)
    for q in range(2):
        ex.assume(SAME(RESN(r, z3.IntVal(q)), z3.If(CV(c), RESN(br[0], z3.IntVal(q)), RESN(br[1], z3.IntVal(q)))))
    return r


CONTRACTS += [Contract("ArithmeticDagNode::ifElse", params=["condition", "thenBuilder", "elseBuilder"], model_only=True, pick=lambda f: "function" in ptype(f, 1),
                       title="node ifElse (builders)", ret=lambda ex: NODE, invoke=if_invoke)]
OVERRIDES += [(r"(^|::)KernelName$", lambda tm, m_: I)]
OVERRIDES += [(r"(^|::)SymbolicValue$", lambda tm, m_: SYM)]
HOOKS = dict(STRHOOKS, log2=f_log2, loop=h_loop(LOOPS))

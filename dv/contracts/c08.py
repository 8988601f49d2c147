"""C08: announced rotation indices cover the rotations performed."""
import z3
from sorts import *
from engine import Contract, Loop, Native, NULLNODE, pow2, P2
from lemmas import Lemma, ghost
import lemmas
from dagmodel import *
import lib
import vf, natspec

rot, slots, s, k, t, d, p, n1 = z3.Ints("rot slots s k t d p n1")
M = "Rotate"
ISH = ghost("ish", "DV.ish", I, I, Bo)     # ish s x: x is s halved (floored) one or more times
ISH_INIT = Lemma("ish_init", [s], ISH(s, s / 2), module=M)
ISH_STEP = Lemma("ish_step", [s, k], ISH(s, k / 2), [ISH(s, k)], module=M)
ISH_LE = Lemma("ish_le", [s, k], k <= s / 2, [s >= 0, ISH(s, k)], module=M)
ISH_GAP = Lemma("ish_gap", [s, k, t], z3.Or(k == t, k <= t / 2), [s >= 0, ISH(s, k), ISH(s, t), k <= t], module=M)
MULI = z3.Function("muli", I, I, I)
MULI_DEF = z3.ForAll([s, t], MULI(s, t) == s * t, patterns=[MULI(s, t)])
SETI = SetS(I)
SQ_UB = Lemma("sqrt_ub", [s], z3.And(1 <= -z3.ToInt(-lib.SQRTR(z3.ToReal(s))), -z3.ToInt(-lib.SQRTR(z3.ToReal(s))) <= s), [s >= 1], module=M)

NEG_MOD = Lemma("neg_mod", [k, s], (-k) % s == z3.If(k % s == 0, z3.IntVal(0), s - k % s), [s >= 1], module=M)
MOD_SMALL = Lemma("mod_small", [k, s], k % s == k, [0 <= k, k < s], module=M, patterns=[k % s])
MOD_WRAP = Lemma("mod_wrap", [k, s], (k + s) % s == k % s, [s >= 1], module=M, patterns=[(k + s) % s])
ARI = z3.ArraySort(I, I)
BEST = z3.Function("bestRatio", ARI, I, I, I, I)
BIG = 2 ** 62


def has(st, x):
    return z3.Select(acc(st, 0), x)


norm = Contract("normalizeRotation", params=["rot", "slots"], requires=lambda e: [1 <= e.slots, e.slots <= BIG],
                ensures=lambda e, ret: [ret == e.old.rot % e.old.slots, 0 <= ret, ret < e.old.slots],
                entry=lambda ex, e: [NEG_MOD(-e.rot, e.slots), MOD_SMALL.axiom(), MOD_WRAP.axiom()])


def best_post(e, ret):
    return [ret >= 1, ret <= e.old.slots]


def best_req(e):
    return [1 <= e.slots, e.slots <= BIG, 0 <= e.logMaxRatio, e.logMaxRatio <= 30, ln(e.diags) < 2 ** 31]


POW2_30 = Lemma("pow2_30", [], P2(30) == 2 ** 30, module=M)
best_model = Contract("findBestBSGSRatio", params=["diags", "slots", "logMaxRatio"], model_only=True, requires=best_req,
                      ensures=lambda e, ret: best_post(e, ret) + [ret == BEST(arr(e.old.diags), ln(e.old.diags), e.old.slots, e.old.logMaxRatio)])
best = Contract("findBestBSGSRatio", params=["diags", "slots", "logMaxRatio"], title="findBestBSGSRatio (split in range)",
                requires=best_req, ensures=best_post,
                entry=lambda ex, e: [POW2_30(), lemmas.POW2_MONO(e.logMaxRatio, z3.IntVal(30))],
                loops={0: Loop(lambda e: [e.n1 >= 1, e.n1 <= 2 * e.slots, z3.Implies(e.n1 != 1, z3.Exists([k], e.n1 == 2 * k))], lambda e: 2 * e.slots - e.n1),
                       1: Loop(lambda e: [card(e.rotN1Set) >= 0, card(e.rotN1Set) <= e.idx(1), card(e.rotN2Set) >= 0, card(e.rotN2Set) <= e.idx(1),
                                          z3.Implies(e.n1 == 1, z3.And(card(e.rotN2Set) == z3.If(has(e.rotN2Set, 0), 1, 0),
                                                                       qall([t], z3.Implies(has(e.rotN2Set, t), t == 0), has(e.rotN2Set, t))))],
                               lambda e: ln(e.diags) - e.idx(1))})


def split_of(e):
    return z3.If(e.old.logBSGS < 0, e.old.slots, BEST(arr(e.old.diags), ln(e.old.diags), e.old.slots, e.old.logBSGS))


def covers(e, res, upto):
    """every diagonal's nonzero baby and giant parts are in the set"""
    r = at(e.old.diags, t) % e.old.slots
    N1 = split_of(e)
    baby = r % N1
    return qall([t], z3.Implies(z3.And(0 <= t, t < upto), z3.And(
        z3.Implies(baby != 0, has(res, baby)), z3.Implies(r - baby != 0, has(res, r - baby)))), at(e.old.diags, t))


lin = Contract("lintransRotationIndices", params=["diags", "slots", "logBSGS"],
               requires=lambda e: [1 <= e.slots, e.slots <= BIG, e.logBSGS <= 30, ln(e.diags) < 2 ** 31],
               ensures=lambda e, ret: [covers(e, ret, ln(e.old.diags)), split_of(e) >= 1, split_of(e) <= e.old.slots],
               loops={0: Loop(lambda e: [covers(e, e.result, e.idx(0)), split_of(e) >= 1, split_of(e) <= e.slots], lambda e: ln(e.diags) - e.idx(0))})


# ---------------------------------------------------------------- rotate and reduce
def nbaby(steps):
    return -z3.ToInt(-lib.SQRTR(z3.ToReal(steps)))


def acc_cover(st, period, steps, above=None):
    return qall([t], z3.Implies(z3.And(ISH(steps, t), t > (0 if above is None else above)), has(st, MULI(t, period))), ISH(steps, t))


def baby_cover(st, period, upto):
    return qall([t], z3.Implies(z3.And(1 <= t, t < upto), has(st, MULI(period, t))), MULI(period, t))


def giant_cover(st, period, steps, upto):
    return qall([t], z3.Implies(z3.And(1 <= t, t < upto), has(st, MULI(period, MULI(t, nbaby(steps))))), MULI(period, MULI(t, nbaby(steps))))


def ngiant(steps):
    return (steps + nbaby(steps) - 1) / nbaby(steps)


def announced(st, period, steps, plain):
    return [z3.Implies(z3.Not(plain), acc_cover(st, period, steps)),
            z3.Implies(plain, baby_cover(st, period, nbaby(steps))), z3.Implies(plain, giant_cover(st, period, steps, ngiant(steps)))]


def size_ok(period, steps):
    return [steps >= 0, steps <= 2 ** 31, period >= -2 ** 30, period <= 2 ** 30]


rr = Contract("rotateAndReduceRotationIndices", params=["period", "steps", "hasPlaintexts"],
              requires=lambda e: size_ok(e.period, e.steps) + [z3.Implies(e.hasPlaintexts, e.steps >= 1)],
              ensures=lambda e, ret: announced(ret, e.old.period, e.old.steps, e.old.hasPlaintexts),
              entry=lambda ex, e: [SQ_UB(e.steps)],
              loops={0: Loop(lambda e: [e.shiftSize >= 0, ISH(e.steps, e.shiftSize), acc_cover(e.result, e.period, e.steps, e.shiftSize), e.shiftSize <= e.steps],
                             lambda e: e.shiftSize, hints=lambda e, w: [ISH_INIT(e.steps), ISH_STEP(e.steps, e.shiftSize)] +
                             [z3.ForAll([t], ISH_LE(e.steps, t), patterns=[ISH(e.steps, t)]),
                              z3.ForAll([t, k], ISH_GAP(e.steps, t, k), patterns=[z3.MultiPattern(ISH(e.steps, t), ISH(e.steps, k))])]),
                     1: Loop(lambda e: [e.i >= 1, e.i <= z3.If(e.numBabySteps > 1, e.numBabySteps, 1), baby_cover(e.result, e.period, e.i)],
                             lambda e: e.numBabySteps - e.i),
                     2: Loop(lambda e: [e.j >= 1, e.j <= z3.If(e.numGiantSteps > 1, e.numGiantSteps, 1), baby_cover(e.result, e.period, nbaby(e.steps)), giant_cover(e.result, e.period, e.steps, e.j)],
                             lambda e: e.numGiantSteps - e.j)})

# ---------------------------------------------------------------- the unrolled kernels
ANN = z3.Const("announced!ghost", SETI)                 # the set of rotation indices announced
PTN = z3.Function("isPlaintext", NODE, Bo)
SYM = Rec("SymbolicValue", [("shape", Seq(I)), ("isSecret_", Bo)])
VPT = lambda v: z3.Not(fld(v, "isSecret_"))
nn = lambda *ps: (lambda e: [e.get(p_) != NULLNODE for p_ in ps])


def second_is_int(f):
    return f.params[1]["type"]["qualType"] in ("int64_t", "long", "size_t", "unsigned long")


def rfac(name, params, facts, req=None, pick=None, title=None):
    return Contract("ArithmeticDagNode::" + name, params=params, model_only=True, title=title or ("node " + name), pick=pick, requires=req,
                    ensures=lambda e, ret: [ret != NULLNODE] + facts(e.old, ret))


FACS = [
    rfac("constantScalar", ["constant", "type"], lambda o, r: []), rfac("splat", ["constant", "type"], lambda o, r: []),
    rfac("leaf", ["value"], lambda o, r: [PTN(r) == VPT(o.value)]),
    rfac("add", ["lhs", "rhs"], lambda o, r: [], nn("lhs", "rhs")), rfac("mul", ["lhs", "rhs"], lambda o, r: [], nn("lhs", "rhs")),
    rfac("sub", ["lhs", "rhs"], lambda o, r: [], nn("lhs", "rhs")),
    rfac("extract", ["tensor", "index"], lambda o, r: [PTN(r) == PTN(o.tensor)], nn("tensor"), pick=second_is_int),
    rfac("leftRotate", ["tensor", "shift"], lambda o, r: [PTN(r) == PTN(o.tensor)],
         lambda e: [e.tensor != NULLNODE, z3.Or(PTN(e.tensor), e.shift == 0, has(ANN, e.shift))], pick=second_is_int,
         title="rotation (announced)"),
]
ANYN = lambda name: Native(lambda ex, args: anynode(ex), name)


def anynode(ex, *facts):
    r = ex.fresh(NODE, "cl")
    ex.assume(r != NULLNODE)
    return r


def reduce_check(ex, e, n):
    def make():
        a, b = ex.fresh(NODE, "ra"), ex.fresh(NODE, "rb")
        return [a, b], [a != NULLNODE, b != NULLNODE], lambda r: [r != NULLNODE]
    ex.closure_obligation(e.reduceFunc, n, "the reduction given builds a node", make, "reduce")


def ext_native(ex, args):
    r = anynode(ex)
    ex.assume(PTN(r) == PTN(args[0]))
    return r


def ext_check(ex, e, n):
    def make():
        a, i_ = ex.fresh(NODE, "ea"), ex.fresh(I, "ei")
        return [a, i_], [a != NULLNODE, i_ >= 0, i_ < 2 ** 31], lambda r: [r != NULLNODE, PTN(r) == PTN(a)]
    ex.closure_obligation(e.extractFunc, n, "the extraction given yields a plaintext", make, "extract")


def rot_native(ex, args):
    r = ex.fresh(I, "rotidx")
    ex.assume(r >= -2 ** 63, r < 2 ** 63) if False else None
    ex.assume(z3.And(r >= -2 ** 63, r < 2 ** 63))
    return r


def acc_req(period, steps):
    return size_ok(period, steps) + [acc_cover(ANN, period, steps)]


def is_node(f):
    return "shared_ptr" in f.params[0]["type"]["qualType"] or "SNode" in f.params[0]["type"]["qualType"]


ACC = dict(ret=lambda ex: NODE, closures={"reduceFunc": ANYN("reduce")}, ensures=lambda e, ret: [ret != NULLNODE], closure_check=reduce_check)
accn = Contract("implementRotateAndReduceAccumulation", params=["vectorDag", "period", "steps", "reduceFunc"], pick=is_node,
                requires=lambda e: [e.vectorDag != NULLNODE] + acc_req(e.period, e.steps), title="rotations of implementRotateAndReduceAccumulation",
                loops={0: Loop(lambda e: [e.vectorDag != NULLNODE, e.shiftSize >= 0, e.shiftSize <= e.steps, ISH(e.steps, e.shiftSize),
                                          MULI(e.shiftSize, e.period) == e.shiftSize * e.period], lambda e: e.shiftSize,
                               hints=lambda e, w: [ISH_INIT(e.steps), ISH_STEP(e.steps, e.shiftSize)])}, **ACC)
accv = Contract("implementRotateAndReduceAccumulation", params=["vector", "period", "steps", "reduceFunc"], pick=lambda f: not is_node(f),
                requires=lambda e: acc_req(e.period, e.steps), title="rotations of implementRotateAndReduceAccumulation (leaf)", **ACC)


def bsgs_req(e):
    return size_ok(e.period, e.steps) + [e.steps >= 1, VPT(e.babySteppedOperand), baby_cover(ANN, e.period, nbaby(e.steps)),
                                         giant_cover(ANN, e.period, e.steps, ngiant(e.steps))]


def all_nonnull(seq):
    return qall([t], z3.Implies(z3.And(0 <= t, t < ln(seq)), at(seq, t) != NULLNODE), at(seq, t))


bsgs = Contract("implementBabyStepGiantStep", ret=lambda ex: NODE, title="rotations of implementBabyStepGiantStep",
                params=["giantSteppedOperand", "babySteppedOperand", "period", "steps", "dagType", "extractFunc", "zeroDiagonals", "derivedRotationIndexFn"],
                requires=bsgs_req, ensures=lambda e, ret: [ret != NULLNODE],
                closures={"extractFunc": Native(ext_native, "extract"), "derivedRotationIndexFn": Native(rot_native, "rot")},
                closure_check=ext_check, entry=lambda ex, e: [SQ_UB(e.steps)],
                loops={0: Loop(lambda e: [e.i >= 1, e.i <= z3.If(e.numBabySteps > 1, e.numBabySteps, 1), ln(e.babyStepVals) == e.i, all_nonnull(e.babyStepVals),
                                          MULI(e.period, e.i) == e.period * e.i],
                               lambda e: e.numBabySteps - e.i),
                       1: Loop(lambda e: [e.j >= 0, e.j <= z3.If(e.numGiantSteps > 0, e.numGiantSteps, 0), all_nonnull(e.babyStepVals), ln(e.babyStepVals) >= e.numBabySteps,
                                          MULI(e.period, MULI(e.j, nbaby(e.steps))) == e.period * MULI(e.j, nbaby(e.steps))],
                               lambda e: e.numGiantSteps - e.j),
                       2: Loop(lambda e: [e.i >= 0, e.i <= e.numBabySteps], lambda e: e.numBabySteps - e.i)})


def is_add(v):
    return z3.Or([STRID(v) == lit_id('"arith.addi"'), STRID(v) == lit_id('"arith.addf"')])


def rr_req(e):
    pl = isome(e.plaintexts)
    return size_ok(e.period, e.steps) + [e.unroll, z3.Implies(pl, z3.And(e.steps >= 1, VPT(ival(e.plaintexts)), is_add(e.reduceOp)))] + announced(ANN, e.period, e.steps, pl)


isome = lambda o: acc(o, 0)
ival = lambda o: acc(o, 1)
rrk = Contract("implementRotateAndReduce", title="rotations of implementRotateAndReduce",
               params=["vector", "plaintexts", "period", "steps", "dagType", "zeroDiagonals", "reduceOp", "unroll"],
               requires=rr_req, ensures=lambda e, ret: [ret != NULLNODE])

CONTRACTS = [norm, best_model, best, lin, rr] + FACS + [accn, accv, bsgs, rrk]


def prop():
    return vf.Prop("C08", tu="kernels.cpp", contracts=CONTRACTS, axioms=[MULI_DEF], overrides=OVERRIDES + [(r"(^|::)SymbolicValue$", lambda tm, m_: SYM)],
                   method_hooks={"index": h_index}, func_hooks=STRHOOKS, trusted=[])


NATIVE = natspec.Native("c08.cpp", [], seconds=(10, 60))
NOTE = ("Proved: every nonzero rotation of a ciphertext-dependent node that implementRotateAndReduce (unrolled), the rotate-and-reduce accumulation and "
        "the baby-step giant-step kernel build is in any set that contains what rotateAndReduceRotationIndices returns (proved to contain it) for "
        "the same period, steps and presence of plaintexts; lintransRotationIndices contains the nonzero baby and giant parts of every diagonal "
        "for the split used, 1 <= split <= slots; normalizeRotation is the representative in [0,slots). A node depends on the ciphertext unless "
        "it is a plaintext leaf, an extraction from or a rotation of one. Preconditions: 1 <= slots <= 2^62, steps <= 2^31 (>= 1 with plaintexts), "
        "|period| <= 2^30, logBSGS <= 30. Trusted: std::sqrt/ceil exact on these sizes, DenseSet as a mathematical set, the BSGS ratio search is a "
        "function of its arguments, clang's AST, z3/cvc5, Lean.")

"""C13: flattening and unflattening of indices."""
import z3
from sorts import *
from engine import Contract, Loop, Unsupported
from indexflat import *
import vf, natspec

SH = z3.Const("shape!ghost", A)      # an arbitrary shape whose row-major strides are the strides given
X = z3.Const("multiIndex!ghost", A)  # an arbitrary multi-index


def fl_inv(e):
    return [e.index == e.old.offset + SUMP(arr(e.indices), arr(e.strides), e.i), e.i >= 0, e.i <= ln(e.strides)]


flatten = Contract(
    "flattenIndex", params=["indices", "strides", "offset"],
    requires=lambda e: [ln(e.indices) == ln(e.strides), ln(e.strides) >= 0, ln(e.strides) < 2 ** 31,
                        NOOVF(arr(e.indices), arr(e.strides), e.offset, ln(e.strides))],
    ensures=lambda e, ret: [
        ret == e.old.offset + SUMP(arr(e.old.indices), arr(e.old.strides), ln(e.old.strides)),
        # distinct in-range multi-indices get distinct flat indices
        z3.Implies(z3.And(ROWMAJ(SH, arr(e.old.strides), ln(e.old.strides)), INR(arr(e.old.indices), SH, ln(e.old.strides)),
                          INR(X, SH, ln(e.old.strides)),
                          ret == e.old.offset + SUMP(X, arr(e.old.strides), ln(e.old.strides))),
                   z3.ForAll([i], z3.Implies(0 <= i, z3.Implies(i < ln(e.old.strides), arr(e.old.indices)[i] == X[i]))))],
    entry=lambda ex, e: ex.assume([S_ZERO(arr(e.indices), arr(e.strides))]),
    post_hints=lambda e, ret: [UNIQ(arr(e.old.indices), X, SH, arr(e.old.strides), ln(e.old.strides))],
    loops={0: Loop(fl_inv, lambda e: ln(e.strides) - e.i,
                   hints=lambda e, w: [S_SUCC(arr(e.indices), arr(e.strides), e.i),
                                       NOOVF_GET(arr(e.indices), arr(e.strides), e.old.offset, ln(e.strides), e.i)]
                   if w == "body" else [])})


def un_inv(e):
    st, m = arr(e.strides), ln(e.strides)
    j = e.idx(0)
    z = z3.Int("z!u")
    return [ln(e.indices) == j, e.ndx >= 0, j >= 0, j <= m,
            e.ndx == e.old.index - e.old.offset - SUMP(arr(e.indices), st, j),
            z3.If(j == 0, e.ndx < TOTAL(SH, st, m), e.ndx < st[j - 1]),
            qall([z], z3.Implies(z3.And(0 <= z, z < j), z3.And(at(e.indices, z) >= 0, at(e.indices, z) < SH[z])),
                 at(e.indices, z))]


def un_hints(e, w):
    st, m = arr(e.strides), ln(e.strides)
    j = e.idx(0)
    if w == "init":
        return [TOTAL_DEF(SH, st, m), S_ZERO(arr(e.indices), st)]
    if w == "body":
        return [RM_POS(SH, st, m, j), RM_STEP(SH, st, m, j - 1), RM_POS(SH, st, m, j - 1), TOTAL_DEF(SH, st, m),
                DIV_LT(e.ndx, st[j], SH[j]), DIV_MOD(e.ndx, st[j])]
    if w == "step":
        return sum_push(arr(e.indices), st)
    return []


q_, d_, t_ = z3.Ints("q d t")
DIV_LT = L("div_lt", [q_, d_, t_], z3.And(q_ / d_ < t_, q_ / d_ >= 0), [d_ >= 1, q_ >= 0, q_ < d_ * t_])
DIV_MOD = L("div_mod", [q_, d_], z3.And(q_ == (q_ / d_) * d_ + q_ % d_, q_ % d_ >= 0, q_ % d_ < d_), [d_ >= 1])
S_CONG = L("sump_congr", [x, y, g, k], SUMP(x, g, k) == SUMP(y, g, k),
           [z3.ForAll([i], z3.Implies(0 <= i, z3.Implies(i < k, x[i] == y[i])))])
S_PUSH = L("sump_push", [x, g, k, i], SUMP(z3.Store(x, k, i), g, k + 1) == SUMP(x, g, k) + i * g[k], [k >= 0])


def sum_push(a, st):
    """the sum over a vector that has just been appended to"""
    if z3.is_store(a):
        return [S_PUSH(a.arg(0), st, a.arg(1), a.arg(2))]
    return []


def unflat_post(e, ret):
    st, m = arr(e.old.strides), ln(e.old.strides)
    return [INR_DEF(arr(ret), SH, m), UNIQ(arr(ret), X, SH, st, m), RM_LAST(SH, st, m), TOTAL_DEF(SH, st, m)]


unflatten = Contract(
    "unflattenIndex", params=["index", "strides", "offset"],
    requires=lambda e: [ln(e.strides) >= 0, ROWMAJ(SH, arr(e.strides), ln(e.strides)), e.offset >= 0,
                        e.index >= e.offset, e.index - e.offset < TOTAL(SH, arr(e.strides), ln(e.strides))],
    ensures=lambda e, ret: [
        ln(ret) == ln(e.old.strides),
        # flattening the result gives the index back, and the result is in range
        INR(arr(ret), SH, ln(e.old.strides)),
        e.old.offset + SUMP(arr(ret), arr(e.old.strides), ln(e.old.strides)) == e.old.index,
        # unflattening a flattened in-range multi-index gives it back
        z3.Implies(z3.And(INR(X, SH, ln(e.old.strides)),
                          e.old.offset + SUMP(X, arr(e.old.strides), ln(e.old.strides)) == e.old.index),
                   z3.ForAll([i], z3.Implies(0 <= i, z3.Implies(i < ln(e.old.strides), arr(ret)[i] == X[i]))))],
    post_hints=unflat_post,
    loops={0: Loop(un_inv, hints=un_hints)})


# ------------------------------------------------------------------------------- TensorUtils
def shp(t):
    return arr(t)


def g1_inv(e):
    sh, m = shp(e.shape), ln(e.shape)
    return [e.i >= 0, e.i <= m, e.mod == PREFP(sh, e.i)]


def g2_inv(e):
    sh, m = shp(e.shape), ln(e.shape)
    z = z3.Int("z!v")
    st = RSTR(sh, m)
    return [e.i >= 0, e.i <= m, e.mod == SUFP(sh, m, e.i), e.remainder >= 0, e.remainder < e.mod, ln(e.indices) == e.i,
            e.remainder == e.old.flattenedIndex - SUMP(arr(e.indices), st, e.i),
            qall([z], z3.Implies(z3.And(0 <= z, z < e.i), z3.And(at(e.indices, z) >= 0, at(e.indices, z) < sh[z])),
                 at(e.indices, z))]


a_, b_ = z3.Ints("a b")
MUL_DIV = L("mul_div", [a_, b_], (a_ * b_) / a_ == b_, [a_ >= 1])


def g2_hints(e, w):
    sh, m = shp(e.shape), ln(e.shape)
    st = RSTR(sh, m)
    if w == "init":
        return [PREFP_FULL(sh, m), S_ZERO(arr(e.indices), st)]
    if w == "body":
        sp = SUFP(sh, m, e.i + 1)
        return [SUFP_STEP(sh, m, e.i), SUFP_POS(sh, m, e.i + 1), POSS_GET(sh, m, e.i), MUL_DIV(sh[e.i], sp),
                DIV_LT(e.remainder, sp, sh[e.i]), DIV_MOD(e.remainder, sp), RSTR_GET(sh, m, e.i), SUFP_LE(sh, m, e.i)]
    if w == "step":
        return sum_push(arr(e.indices), st)
    return []


def g2_post(e, ret):
    sh, m = shp(e.old.shape), ln(e.old.shape)
    return [INR_DEF(arr(ret), sh, m), UNIQ(arr(ret), X, sh, RSTR(sh, m), m), RSTR_RM(sh, m), SUFP_END(sh, m)]


shape_req = lambda t: [ln(t) >= 0, ln(t) < 2 ** 31, POSS(shp(t), ln(t)), PREFP(shp(t), ln(t)) <= 2 ** 63 - 1]

rowmajor = Contract(
    "getIndicesFromRowMajorShape", params=["flattenedIndex", "shape"], tu="tensorutils.cpp",
    requires=lambda e: shape_req(e.shape) + [e.flattenedIndex >= 0, e.flattenedIndex < PREFP(shp(e.shape), ln(e.shape))],
    ensures=lambda e, ret: [
        ln(ret) == ln(e.old.shape), INR(arr(ret), shp(e.old.shape), ln(e.old.shape)),
        SUMP(arr(ret), RSTR(shp(e.old.shape), ln(e.old.shape)), ln(e.old.shape)) == e.old.flattenedIndex,
        z3.Implies(z3.And(INR(X, shp(e.old.shape), ln(e.old.shape)),
                          SUMP(X, RSTR(shp(e.old.shape), ln(e.old.shape)), ln(e.old.shape)) == e.old.flattenedIndex),
                   z3.ForAll([i], z3.Implies(0 <= i, z3.Implies(i < ln(e.old.shape), arr(ret)[i] == X[i]))))],
    entry=lambda ex, e: ex.assume([PREFP_ZERO(shp(e.shape))]),
    post_hints=g2_post,
    loops={0: Loop(g1_inv, lambda e: ln(e.shape) - e.i,
                   hints=lambda e, w: [PREFP_STEP(shp(e.shape), e.i), PREFP_MONO(shp(e.shape), ln(e.shape), e.i + 1),
                                       PREFP_POS(shp(e.shape), ln(e.shape), e.i + 1)] if w == "body" else []),
           1: Loop(g2_inv, lambda e: ln(e.shape) - e.i, hints=g2_hints)})


def tf_inv(e):
    sh, m = shp(e.tensorType), ln(e.tensorType)
    st = RSTR(sh, m)
    x_ = arr(e.indices)
    return [e.i >= -1, e.i < m, e.stride == SUFP(sh, m, e.i + 1), e.flatIndex == SUMP(x_, st, m) - SUMP(x_, st, e.i + 1),
            z3.If(e.i + 1 == m, e.flatIndex == 0, e.flatIndex < SUFP(sh, m, e.i + 1)), e.flatIndex >= 0]


def tf_hints(e, w):
    sh, m = shp(e.tensorType), ln(e.tensorType)
    st = RSTR(sh, m)
    x_ = arr(e.indices)
    if w == "init":
        return [SUFP_END(sh, m), S_ZERO(x_, st)]
    if w == "body":
        return [SUFP_STEP(sh, m, e.i), SUFP_POS(sh, m, e.i + 1), POSS_GET(sh, m, e.i), S_SUCC(x_, st, e.i), SUFP_LE(sh, m, e.i),
                SUFP_LE(sh, m, e.i + 1), RSTR_GET(sh, m, e.i), INR_GET(x_, sh, m, e.i), S_ZERO(x_, st),
                MUL_LE(x_[e.i], sh[e.i], SUFP(sh, m, e.i + 1)), SUFP_END(sh, m)]
    return []


MUL_LE = L("mul_le_pred", [a_, b_, d_], z3.And(0 <= a_ * d_, a_ * d_ <= b_ * d_ - d_), [0 <= a_, a_ < b_, d_ >= 1])

tflat = Contract(
    "getFlattenedIndex", params=["tensorType", "indices"], tu="tensorutils.cpp", title="getFlattenedIndex(int64)",
    pick=lambda f: "OpFoldResult" not in str(f.params[1].get("type")),
    requires=lambda e: shape_req(e.tensorType) + [ln(e.indices) == ln(e.tensorType),
                                                  INR(arr(e.indices), shp(e.tensorType), ln(e.tensorType))],
    ensures=lambda e, ret: [
        ret == SUMP(arr(e.old.indices), RSTR(shp(e.old.tensorType), ln(e.old.tensorType)), ln(e.old.tensorType)),
        ret >= 0, ret < PREFP(shp(e.old.tensorType), ln(e.old.tensorType)),
        z3.Implies(z3.And(INR(X, shp(e.old.tensorType), ln(e.old.tensorType)),
                          SUMP(X, RSTR(shp(e.old.tensorType), ln(e.old.tensorType)), ln(e.old.tensorType)) == ret),
                   z3.ForAll([i], z3.Implies(0 <= i, z3.Implies(i < ln(e.old.tensorType), arr(e.old.indices)[i] == X[i]))))],
    entry=lambda ex, e: ex.assume([S_ZERO(arr(e.indices), RSTR(shp(e.tensorType), ln(e.tensorType)))]),
    post_hints=lambda e, ret: [PREFP_FULL(shp(e.old.tensorType), ln(e.old.tensorType)),
                               UNIQ(arr(e.old.indices), X, shp(e.old.tensorType), RSTR(shp(e.old.tensorType), ln(e.old.tensorType)), ln(e.old.tensorType)),
                               RSTR_RM(shp(e.old.tensorType), ln(e.old.tensorType)), SUFP_END(shp(e.old.tensorType), ln(e.old.tensorType))],
    loops={0: Loop(tf_inv, lambda e: e.i + 1, hints=tf_hints)})

CI = z3.Const("constantIndices!ghost", Opt(Seq(I)))
tflat2 = Contract(
    "getFlattenedIndex", params=["tensorType", "indices"], tu="tensorutils.cpp", title="getFlattenedIndex(OpFoldResult)",
    pick=lambda f: "OpFoldResult" in str(f.params[1].get("type")),
    requires=lambda e: shape_req(e.tensorType) + [z3.Implies(has(CI), z3.And(
        ln(get(CI)) == ln(e.tensorType), INR(arr(get(CI)), shp(e.tensorType), ln(e.tensorType))))],
    ensures=lambda e, ret: [has(ret) == has(CI), z3.Implies(has(CI), get(ret) == SUMP(
        arr(get(CI)), RSTR(shp(e.old.tensorType), ln(e.old.tensorType)), ln(e.old.tensorType)))])


def h_rank(ex, n_, fr, core, name, getobj, args, want_lv):
    if "RankedTensorType" not in core:
        return NotImplemented
    v = ex.load(getobj())
    if name == "getRank":
        return ln(v)
    if name == "getShape":
        return v
    j = ex.eval(args[0], fr)
    ex.check(z3.And(j >= 0, j < ln(v)), "getDimSize: dimension in range", n_, "safety")
    ex.assume([at(v, j) >= -2 ** 63, at(v, j) <= 2 ** 63 - 1])     # an int64_t
    return at(v, j)


TENSOR = (r"RankedTensorType$", lambda tm, m: Seq(z3.IntSort()))
HOOKS = {"getRank": h_rank, "getDimSize": h_rank, "getShape": h_rank}


def prop():
    return vf.Prop("C13", tu="memrefutils.cpp", contracts=[flatten, unflatten, rowmajor, tflat, tflat2],
                   overrides=[TENSOR], method_hooks=HOOKS,
                   func_hooks={"getConstantIntValues": lambda ex, n_, fr, *a: CI}, lemmas=[RM_NOOVF, SUM_RANGE],
                   trusted=["mlir::RankedTensorType is modelled by its shape; mlir::getConstantIntValues returns the "
                            "constants when all indices are constant and nothing otherwise"])


NATIVE = natspec.Native("c13.cpp", ["lib/Transforms/MemrefToArith/Utils.cpp", "lib/Utils/TensorUtils.cpp"], seconds=(25, 200))
NOTE = ("Proved for every rank, shape (positive sizes whose product fits 63 bits), stride and in-range index, with all "
        "64-bit overflow obligations. Trusted: RankedTensorType modelled by its shape, models of SmallVector/ArrayRef, "
        "clang's AST, z3/cvc5, Lean.")

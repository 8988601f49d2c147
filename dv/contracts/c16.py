"""C16: permutation test, layout maps, unit-dimension reassociation.

An AffineExpr is modelled by its value at one arbitrary point (the ghost array DIM of dimension values), an AffineMap by
the vector of its results' values there; the point being arbitrary, what is proved holds at every point."""
import z3
from sorts import *
from engine import Contract, Loop, Unsupported
from indexflat import *
from c13 import TENSOR, h_rank, DIV_LT, X
import vf, natspec

DIM = z3.Const("point!ghost", A)
j, f_, b_, c_ = z3.Ints("j f b c")
nn, m_, r_, c2, r2 = z3.Ints("n m r c2 r2")
ISPERM = ghost("isperm", "DV.isperm", A, I, Bo)
PERM_DEF = L("isperm_def", [x, n], ISPERM(x, n) == z3.And(
    z3.ForAll([i], z3.Implies(0 <= i, z3.Implies(i < n, z3.And(0 <= x[i], x[i] < n)))),
    z3.ForAll([i, j], z3.Implies(0 <= i, z3.Implies(i < j, z3.Implies(j < n, x[i] != x[j]))))))
EDIV = L("ediv_ediv", [f_, b_, c_], (f_ / b_) / c_ == f_ / (c_ * b_), [b_ >= 1, c_ >= 1])
DIGITS = L("digits", [x, s, n, f_], z3.And(INR(x, s, n), SUMP(x, RSTR(s, n), n) == f_),
           [POSS(s, n), n >= 0, 0 <= f_, f_ < PREFP(s, n),
            z3.ForAll([i], z3.Implies(0 <= i, z3.Implies(i < n, x[i] == (f_ / SUFP(s, n, i + 1)) % s[i])))])
slot = lambda c, r, i, j: [0 <= r, r < nn, 0 <= c, c < m_, c % nn == i, (c + r) % m_ == j]
DIAG = L("diag_slot", [i, j, nn, m_, c_, r_], z3.And(slot(c_, r_, i, j)),
         [nn >= 1, m_ >= 1, m_ % nn == 0, 0 <= i, i < nn, 0 <= j, j < m_, r_ == (j - i) % nn, c_ == (j - (j - i) % nn) % m_])
DIAGU = L("diag_uniq", [i, j, nn, m_, c_, r_, c2, r2], z3.And(r_ == r2, c_ == c2),
          [nn >= 1, m_ >= 1, m_ % nn == 0] + slot(c_, r_, i, j) + slot(c2, r2, i, j))


# ---- isPermutation
def ip_inv(e):
    v, k, z = z3.Int("v!p"), z3.Int("k!p"), z3.Int("z!p")
    m, q = e.materializedMapping, e.idx(0)
    return [qall([k], z3.Implies(z3.And(0 <= k, k < q), z3.And(mem(e.seen, at(m, k)), at(m, k) >= 0, at(m, k) < ln(m))), at(m, k)),
            z3.ForAll([v], z3.Implies(mem(e.seen, v), z3.Exists([k], z3.And(0 <= k, k < q, at(m, k) == v))), patterns=[mem(e.seen, v)]),
            z3.ForAll([k, z], z3.Implies(z3.And(0 <= k, k < z, z < q), at(m, k) != at(m, z)))]


isperm = Contract(
    "isPermutation", params=["materializedMapping"],
    requires=lambda e: [ln(e.materializedMapping) < 2 ** 63],
    ensures=lambda e, ret: [ret == ISPERM(arr(e.old.materializedMapping), ln(e.old.materializedMapping))],
    post_hints=lambda e, ret: [PERM_DEF(arr(e.old.materializedMapping), ln(e.old.materializedMapping))],
    loops={0: Loop(ip_inv)})

# ---- identity
ident = Contract(
    "identity", params=["n"], requires=lambda e: [e.n >= 0],
    ensures=lambda e, ret: [ln(ret) == e.old.n, qall([i], z3.Implies(z3.And(0 <= i, i < e.old.n), at(ret, i) == i), at(ret, i))])


# ---- getRowMajorLayoutMap
def fl(e):
    return SUMP(DIM, RSTR(arr(e.inputType), ln(e.inputType)), ln(e.inputType))


def r0_inv(e):
    z = z3.Int("z!r")
    return [e.dim >= 0, e.dim <= ln(e.inputType), ln(e.dims) == e.dim,
            qall([z], z3.Implies(z3.And(0 <= z, z < e.dim), z3.And(has(at(e.dims, z)), get(at(e.dims, z)) == DIM[z])), at(e.dims, z))]


def r1_inv(e):
    sh, m = arr(e.inputType), ln(e.inputType)
    st = RSTR(sh, m)
    return [e.dim >= -1, e.dim < m, e.stride == SUFP(sh, m, e.dim + 1), has(e.flattened) == (e.dim < m - 1),
            z3.Implies(e.dim < m - 1, get(e.flattened) == SUMP(DIM, st, m) - SUMP(DIM, st, e.dim + 1))]


def r1_hints(e, w):
    sh, m = arr(e.inputType), ln(e.inputType)
    st = RSTR(sh, m)
    if w == "init":
        return [SUFP_END(sh, m)]
    if w == "body":
        return [SUFP_STEP(sh, m, e.dim), SUFP_POS(sh, m, e.dim + 1), SUFP_POS(sh, m, e.dim), POSS_GET(sh, m, e.dim), S_SUCC(DIM, st, e.dim),
                SUFP_LE(sh, m, e.dim), RSTR_GET(sh, m, e.dim), S_ZERO(DIM, st), SUFP_END(sh, m)]
    return []


def r2_inv(e):
    so, m = arr(e.outputType), ln(e.outputType)
    z = z3.Int("z!s")
    return [e.dim >= -1, e.dim < m, ln(e.results) == m - 1 - e.dim, has(e.flattened),
            get(e.flattened) == fl(e) / SUFP(so, m, e.dim + 1),
            qall([z], z3.Implies(z3.And(0 <= z, z < ln(e.results)), z3.And(
                has(at(e.results, z)), get(at(e.results, z)) == (fl(e) / SUFP(so, m, m - z)) % so[m - 1 - z])), at(e.results, z))]


def r2_hints(e, w):
    sh, m0 = arr(e.inputType), ln(e.inputType)
    so, m = arr(e.outputType), ln(e.outputType)
    if w == "init":
        return [SUFP_END(so, m), S_ZERO(DIM, RSTR(sh, m0))]
    if w == "body":
        return [SUFP_STEP(so, m, e.dim), SUFP_POS(so, m, e.dim + 1), POSS_GET(so, m, e.dim),
                EDIV(fl(e), SUFP(so, m, e.dim + 1), so[e.dim])]
    return []


def rm_req(e):
    si, ni, so, no = arr(e.inputType), ln(e.inputType), arr(e.outputType), ln(e.outputType)
    return [ni >= 1, ni < 2 ** 31, no >= 0, no < 2 ** 31, POSS(si, ni), POSS(so, no), PREFP(si, ni) <= 2 ** 63 - 1,
            PREFP(si, ni) <= PREFP(so, no), INR(DIM, si, ni)]


def rm_post(e, ret):
    si, ni, so, no = arr(e.old.inputType), ln(e.old.inputType), arr(e.old.outputType), ln(e.old.outputType)
    return [DIGITS(arr(ret), so, no, SUMP(DIM, RSTR(si, ni), ni)), SUM_RANGE(DIM, si, RSTR(si, ni), ni), RSTR_RM(si, ni),
            UNIQ(DIM, X, si, RSTR(si, ni), ni), SUFP_END(so, no)]


rowmaj_map = Contract(
    "getRowMajorLayoutMap", params=["inputType", "outputType"], requires=rm_req,
    ensures=lambda e, ret: [
        ln(ret) == ln(e.old.outputType), INR(arr(ret), arr(e.old.outputType), ln(e.old.outputType)),
        # the same flat row-major position
        SUMP(arr(ret), RSTR(arr(e.old.outputType), ln(e.old.outputType)), ln(e.old.outputType)) ==
        SUMP(DIM, RSTR(arr(e.old.inputType), ln(e.old.inputType)), ln(e.old.inputType)),
        # no other in-range input point has it
        z3.Implies(z3.And(INR(X, arr(e.old.inputType), ln(e.old.inputType)),
                          SUMP(X, RSTR(arr(e.old.inputType), ln(e.old.inputType)), ln(e.old.inputType)) ==
                          SUMP(arr(ret), RSTR(arr(e.old.outputType), ln(e.old.outputType)), ln(e.old.outputType))),
                   z3.ForAll([i], z3.Implies(0 <= i, z3.Implies(i < ln(e.old.inputType), DIM[i] == X[i]))))],
    post_hints=rm_post,
    loops={0: Loop(r0_inv, lambda e: ln(e.inputType) - e.dim),
           1: Loop(r1_inv, lambda e: e.dim + 1, hints=r1_hints),
           2: Loop(r2_inv, lambda e: e.dim + 1, hints=r2_hints)})

# ---- getDiagonalLayoutMap
C2, R2 = z3.Ints("otherSlotCol!ghost otherSlotRow!ghost")
on, om = lambda e: at(e.outputType, 0), lambda e: at(e.outputType, 1)


def slot_of(e, c, r):
    N, M_ = on(e.old), om(e.old)
    return z3.And(0 <= r, r < N, 0 <= c, c < M_, c % N == DIM[0], (c + r) % M_ == DIM[1])


diag = Contract(
    "getDiagonalLayoutMap", params=["inputType", "outputType"],
    requires=lambda e: [ln(e.outputType) == 2, on(e) >= 1, om(e) >= 1, om(e) % on(e) == 0,
                        0 <= DIM[0], DIM[0] < on(e), 0 <= DIM[1], DIM[1] < om(e)],
    ensures=lambda e, ret: [
        ln(ret) == 2, slot_of(e, at(ret, 1), at(ret, 0)), at(ret, 0) == (DIM[1] - DIM[0]) % on(e.old),
        z3.Implies(slot_of(e, C2, R2), z3.And(C2 == at(ret, 1), R2 == at(ret, 0)))],
    post_hints=lambda e, ret: [
        DIAG(DIM[0], DIM[1], on(e.old), om(e.old), at(ret, 1), at(ret, 0)),
        DIAGU(DIM[0], DIM[1], on(e.old), om(e.old), at(ret, 1), at(ret, 0), C2, R2)])

# a map accepted by the tests has the same results as the layout map it is tested for
is_rm = Contract(
    "isLayoutRowMajor", params=["inputType", "outputType", "layout"], requires=rm_req,
    ensures=lambda e, ret: [z3.Implies(ret, z3.And(
        ln(e.old.layout) == ln(e.old.outputType), INR(arr(e.old.layout), arr(e.old.outputType), ln(e.old.outputType)),
        SUMP(arr(e.old.layout), RSTR(arr(e.old.outputType), ln(e.old.outputType)), ln(e.old.outputType)) ==
        SUMP(DIM, RSTR(arr(e.old.inputType), ln(e.old.inputType)), ln(e.old.inputType))))])
is_diag = Contract(
    "isLayoutSquatDiagonal", params=["inputType", "outputType", "layout"],
    requires=lambda e: [z3.Implies(ln(e.outputType) == 2, z3.And(diag.requires(e)[1:]))],
    ensures=lambda e, ret: [z3.Implies(ret, z3.And(
        ln(e.old.inputType) == 2, ln(e.old.outputType) == 2, ln(e.old.layout) == 2,
        slot_of(e, at(e.old.layout, 1), at(e.old.layout, 0))))])


# ---- getReassociationForReshapeAtDim
def q_inv(e):
    z = z3.Int("z!q")
    return [qall([z], mem(e.positionsMap, z) == z3.Exists([i], z3.And(0 <= i, i < e.idx(0), at(e.positions, i) == z)), mem(e.positionsMap, z))]


def run(g, start):
    """a group is a run of consecutive dimensions starting at start"""
    z = z3.Int("z!g")
    return qall([z], z3.Implies(z3.And(0 <= z, z < ln(g)), at(g, z) == start + z), at(g, z))


def groups_ok(R, upto):
    """the groups are consecutive non-empty runs covering [0, upto) in order"""
    q, z = z3.Int("q!g"), z3.Int("z!h")
    G = at(R, q)
    last = at(R, ln(R) - 1)
    return [qall([q], z3.Implies(z3.And(0 <= q, q < ln(R)), z3.And(ln(G) >= 1, at(G, 0) == z3.If(
                q == 0, z3.IntVal(0), at(at(R, q - 1), ln(at(R, q - 1)) - 1) + 1))), at(R, q)),
            qall([q, z], z3.Implies(z3.And(0 <= q, q < ln(R), 0 <= z, z < ln(G)), at(G, z) == at(G, 0) + z), at(G, z)),
            z3.Implies(ln(R) >= 1, at(last, ln(last) - 1) == upto - 1)]


def allunit(e, lo, hi):
    z = z3.Int("z!w")
    return qall([z], z3.Implies(z3.And(lo <= z, z < hi), mem(e.positionsMap, z)), mem(e.positionsMap, z))


def ff(e):
    return [z3.Not(mem(e.positionsMap, fk(e))), allunit(e, 0, fk(e)), fk(e) >= 0]


def w_lead(e):
    return [e.dim >= 0, z3.Implies(e.rank >= 0, e.dim <= e.rank), z3.Implies(e.rank < 0, e.dim == 0), ln(e.reassociationGroup) == e.dim,
            run(e.reassociationGroup, 0), allunit(e, 0, e.dim), ln(e.reassociation) == 0] + ff(e)


def w_main(e):
    R, G = e.reassociation, e.reassociationGroup
    return [e.dim >= 0, e.dim <= e.rank, run(G, e.dim - ln(G)), ln(G) >= 0] + groups_ok(R, e.dim) + [
        z3.Implies(ln(R) >= 1, ln(G) == 0), z3.Implies(ln(R) == 0, z3.And(ln(G) == e.dim, allunit(e, 0, e.dim))),
        z3.Implies(e.dim < e.rank, z3.Not(mem(e.positionsMap, e.dim)))] + one_nonunit(e, R) + ff(e) + [
        z3.Implies(ln(R) >= 1, fk(e) < e.dim)]


def one_nonunit(e, R):
    """exactly one dimension of each group is kept; only the first group may have unit dimensions before it"""
    q, z = z3.Int("q!n"), z3.Int("z!n")
    G = at(R, q)
    return [qall([q, z], z3.Implies(z3.And(1 <= q, q < ln(R), 0 <= z, z < ln(G)), mem(e.positionsMap, at(G, z)) == (z >= 1)), at(G, z)),
            z3.Implies(ln(R) >= 1, one_kept(at(R, 0), lambda d: mem(e.positionsMap, d), fk(e)))]


p_ = z3.Const("p", A)
FIRSTFREE = ghost("firstfree", "DV.firstfree", A, I, I)
FF_DEF = L("firstfree_def", [p_, n], z3.And(
    FIRSTFREE(p_, n) >= 0, z3.ForAll([i], z3.Implies(0 <= i, z3.Implies(i < n, p_[i] != FIRSTFREE(p_, n)))),
    z3.ForAll([j], z3.Implies(0 <= j, z3.Implies(j < FIRSTFREE(p_, n), z3.Not(
        z3.ForAll([i], z3.Implies(0 <= i, z3.Implies(i < n, p_[i] != j)))))))))


def one_kept(G, isunit, fk):
    z = z3.Int("z!k")
    return z3.And(fk < ln(G), qall([z], z3.Implies(z3.And(0 <= z, z < ln(G)), isunit(at(G, z)) == (z != fk)), at(G, z)))


def fk(e):
    return FIRSTFREE(arr(e.positions), ln(e.positions))


def w_in(e):
    R, G = e.reassociation, e.reassociationGroup
    z = z3.Int("z!i")
    return [e.dim >= 0, e.dim <= e.rank, run(G, e.dim - ln(G)), ln(G) >= 1] + groups_ok(R, e.dim - ln(G)) + [
        z3.Implies(ln(R) == 0, z3.And(ln(G) == e.dim, one_kept(G, lambda d: mem(e.positionsMap, d), fk(e)))),
        z3.Implies(ln(R) >= 1, qall([z], z3.Implies(z3.And(0 <= z, z < ln(G)), mem(e.positionsMap, at(G, z)) == (z >= 1)), at(G, z)))
    ] + one_nonunit(e, R) + ff(e) + [z3.Implies(ln(R) >= 1, fk(e) < e.dim)]


def pos_has(e, d):
    k = z3.Int("k!h")
    return z3.Exists([k], z3.And(0 <= k, k < ln(e.positions), at(e.positions, k) == d))


def re_post(e, ret):
    z, q = z3.Int("z!o"), z3.Int("q!o")
    G = at(ret, q)
    return [z3.Implies(ln(ret) >= 1, z3.And(groups_ok(ret, e.old.rank))),
            # no group at all exactly when every dimension is a unit one
            (ln(ret) == 0) == z3.ForAll([z], z3.Implies(z3.And(0 <= z, z < e.old.rank), pos_has(e.old, z))),
            z3.Implies(ln(ret) >= 1, one_kept(at(ret, 0), lambda d: pos_has(e.old, d), fk(e.old))),
            # each later group is one kept dimension followed by unit ones
            z3.ForAll([q, z], z3.Implies(z3.And(1 <= q, q < ln(ret), 0 <= z, z < ln(G)), pos_has(e.old, at(G, z)) == (z >= 1)))]


reassoc = Contract(
    "getReassociationForReshapeAtDim", params=["rank", "positions"], tu="tensorutils.cpp",
    requires=lambda e: [e.rank >= 0, e.rank < 2 ** 31, ln(e.positions) <= e.rank],
    ensures=re_post, entry=lambda ex, e: ex.assume([FF_DEF(arr(e.positions), ln(e.positions))]),
    loops={0: Loop(q_inv), 1: Loop(w_lead, lambda e: e.rank - e.dim), 2: Loop(w_main, lambda e: e.rank - e.dim),
           3: Loop(w_in, lambda e: e.rank - e.dim)})


# ---- MLIR models
def h_op(op):
    def h(ex, n_, fr, name, rd, args, want_lv):
        if not any("AffineExpr" in str(a.get("type", {})) for a in args) or len(args) != 2:
            return NotImplemented
        V = [ex.eval(a, fr) for a in args]
        V = [ex.load(v) if not z3.is_expr(v) else v for v in V]
        for v in V:
            if kind(v) == "opt":
                ex.check(has(v), "AffineExpr is not null", n_, "safety")
        if op == "%" and kind(V[1]) != "opt":
            ex.check(V[1] >= 1, "affine modulo by a positive constant", n_, "safety")
        a, b = [get(v) if kind(v) == "opt" else v for v in V]
        r = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "%": lambda: a % b}[op]()
        return mk(Opt(I), z3.BoolVal(True), r)
    return h


def h_floordiv(ex, n_, fr, core, name, getobj, args, want_lv):
    v, d = ex.load(getobj()), ex.eval(args[0], fr)
    ex.check(z3.And(has(v), d >= 1), "affine floordiv by a positive constant", n_, "safety")
    return mk(Opt(I), z3.BoolVal(True), get(v) / d)


def h_dimexpr(ex, n_, fr, name, rd, args, want_lv):
    return mk(Opt(I), z3.BoolVal(True), DIM[ex.eval(args[0], fr)])


def h_bind(ex, n_, fr, name, rd, args, want_lv):
    for k, a in enumerate(args[1:]):
        ex.storev(ex.lval(a, fr), mk(Opt(I), z3.BoolVal(True), DIM[k]))
    return None


def h_get(ex, n_, fr, name, rd, args, want_lv):
    if len(args) != 4 or "AffineMap" not in str(n_.get("type", {})):
        return NotImplemented
    ex.eval(args[0], fr)
    ex.eval(args[1], fr)
    R = ex.eval(args[2], fr)
    R = ex.load(R) if not z3.is_expr(R) and not hasattr(R, "items") else R
    if hasattr(R, "items"):
        R = ex.coerce_sort(R, Seq(Opt(I)))
    z = z3.Int("z!am")
    a = ex.fresh(A, "map")
    ex.assume(qall([z], a[z] == get(at(R, z)), a[z]))
    ex.check(z3.ForAll([z], z3.Implies(z3.And(0 <= z, z < ln(R)), has(at(R, z)))), "AffineMap results are not null", n_, "safety")
    return mk(Seq(I), a, ln(R))


def h_eq(ex, n_, fr, name, rd, args, want_lv):
    if not all("AffineMap" in str(a.get("type", {})) for a in args):
        return NotImplemented
    a, b = [ex.eval(t, fr) for t in args]
    z = z3.Int("z!eq")
    r = ex.fresh(Bo, "sameMap")     # equal maps have equal values at every point
    ex.assume(z3.Implies(r, z3.And(ln(a) == ln(b), arr(a) == arr(b))))
    return r


def h_ctx(ex, n_, fr, core, name, getobj, args, want_lv):
    return Obj_ctx


class _Ctx:
    pass


import engine
Obj_ctx = engine.Obj(tag="MLIRContext")


def prop():
    return vf.Prop(
        "C16", tu="affinemap.cpp", contracts=[isperm, ident, rowmaj_map, diag, is_rm, is_diag, reassoc],
        overrides=[TENSOR, (r"AffineExpr$", lambda tm, m: Opt(I)), (r"AffineMap$", lambda tm, m: Seq(I))],
        method_hooks={"getRank": h_rank, "getDimSize": h_rank, "getShape": h_rank, "floorDiv": h_floordiv, "getContext": h_ctx},
        func_hooks={"operator+": h_op("+"), "operator-": h_op("-"), "operator*": h_op("*"), "operator%": h_op("%"),
                    "getAffineDimExpr": h_dimexpr, "bindDims": h_bind, "get": h_get, "operator==": h_eq,
                    "simplifyAffineMap": lambda ex, n_, fr, name, rd, args, w: ex.eval(args[0], fr)},
        trusted=["mlir::AffineExpr/AffineMap are modelled by their values at an arbitrary point: +, -, *, floorDiv and % by a "
                 "positive constant mean the mathematical operations, simplifyAffineMap preserves values, == on maps implies "
                 "equal values", "mlir::RankedTensorType is modelled by its shape"])


BOUNDED = ["makeExplicit1DMapping", "evaluateStatic"]
NATIVE = natspec.Native("c16.cpp", ["lib/Utils/AffineMapUtils.cpp", "lib/Utils/TensorUtils.cpp"], seconds=(25, 200))
NOTE = ("Proved for every mapping, rank, shape and position list: permutation test, identity, row-major and diagonal layout maps "
        "(as functions on in-range points), their recognizers (acceptance implies the same results) and the reassociation. "
        "makeExplicit1DMapping/evaluateStatic only evaluate an MLIR map by constant folding: bounded.")

"""Meaning of ArithmeticDag nodes: contracts of the node factories (their bodies are verified against these under C10)."""
import z3
from sorts import *
from engine import Contract, Loop, NULLNODE, STRS, Str, STRID, _strs
from lemmas import Lemma, ghost
import lib, lemmas

lemmas.LEAN_FUN["sqrtr"] = "Real.sqrt"

R, I, Bo = z3.RealSort(), z3.IntSort(), z3.BoolSort()
RA = z3.ArraySort(I, R)
x, y, z = z3.Reals("x y z")
NNULL = NULLNODE
VARIANT = Opaque("DagVariant")
DAGTYPE = Rec("DagType", [("type_variant", VARIANT)])
VIDX = z3.Function("variantIndex", VARIANT, I)
RM = ghost("rm", "DV.rm", R, R, R)
RP = ghost("rp", "DV.rp", R, I, R)


def PL(name, vs, concl, hyps=(), **kw):
    return Lemma(name, vs, concl, list(hyps), module="Poly", **kw)


RM_DEF = PL("rm_def", [x, y], RM(x, y) == x * y)
RM_COMM = PL("rm_comm", [x, y], RM(x, y) == RM(y, x), patterns=[RM(x, y)])
RM_ONE = PL("rm_one", [x], z3.And(RM(1, x) == x, RM(x, 1) == x))
RM_ZERO = PL("rm_zero", [x], z3.And(RM(0, x) == 0, RM(x, 0) == 0))
RM_NEG = PL("rm_neg", [x, y], RM(-x, y) == -RM(x, y))

# ---------------------------------------------------------------- scalar meaning (one real number per node)
EVR = z3.Function("evr", NODE, R)


def EVN(n):
    """an absent DAG stands for zero"""
    return z3.If(n == NULLNODE, z3.RealVal(0), EVR(n))


def h_index(ex, n, fr, core, name, getobj, args, want_lv):
    """std::variant::index of a DagType"""
    v = getobj()
    v = ex.load(v) if not isinstance(v, z3.ExprRef) else v
    if isinstance(v, z3.ExprRef) and v.sort() == VARIANT:
        ex.assume(VIDX(v) >= 0)
        return VIDX(v)
    return NotImplemented


def _fac(name, params, value, req=None, pick=None, title=None):
    return Contract("ArithmeticDagNode::" + name, params=params, model_only=True, title=title or ("node " + name), pick=pick,
                    requires=req, ensures=lambda e, ret: [ret != NULLNODE, EVR(ret) == value(e.old)])


def scalar_factories(leafval):
    nn = lambda *ps: (lambda e: [e.get(p) != NULLNODE for p in ps])
    return [
        _fac("constantScalar", ["constant", "type"], lambda o: o.constant),
        _fac("splat", ["constant", "type"], lambda o: o.constant),
        _fac("leaf", ["value"], lambda o: leafval(o.value)),
        _fac("add", ["lhs", "rhs"], lambda o: EVR(o.lhs) + EVR(o.rhs), nn("lhs", "rhs")),
        _fac("sub", ["lhs", "rhs"], lambda o: EVR(o.lhs) - EVR(o.rhs), nn("lhs", "rhs")),
        _fac("mul", ["lhs", "rhs"], lambda o: RM(EVR(o.lhs), EVR(o.rhs)), nn("lhs", "rhs")),
    ]


OVERRIDES = [(r"^(mlir::heir::)?(kernel::)?DagType$", lambda tm, m: DAGTYPE)]
OVERRIDES += [(r"basic_string<char|^(const )?std::string$", lambda tm, m: STRS)]


def h_streq(ex, n, fr, name, rd, args, want_lv):
    """comparison of strings with string constants"""
    vs = [ex.eval(a, fr) for a in args]
    if len(vs) != 2 or not all(isinstance(v, Str) or (isinstance(v, z3.ExprRef) and v.sort() == STRS) for v in vs):
        return NotImplemented
    a, b = [ex.strlit(v.s) if isinstance(v, Str) else v for v in vs]
    return (STRID(a) == STRID(b)) if name == "operator==" else (STRID(a) != STRID(b))   # STRID numbers the strings


STRHOOKS = {"operator==": h_streq, "operator!=": h_streq}


def lit_id(text):
    if text not in _strs:
        _strs[text] = len(_strs)
    return _strs[text]


# ---------------------------------------------------------------- slot meaning (vectors of reals, tensors of vectors, index scalars)
# A vector node means a function of the slot index (any function on the integers: a cyclic vector is a periodic one), a
# rank-2 tensor node means such a function per row, a scalar node means a number.  ISX marks index scalars.
RARR = z3.ArraySort(I, RA)
EVA = z3.Function("eva", NODE, RA)
EVM = z3.Function("evm", NODE, RARR)
IV = z3.Function("iv", NODE, I)
ISX = z3.Function("isx", NODE, Bo)
CV = z3.Function("cv", NODE, Bo)
RESN = z3.Function("resn", NODE, I, NODE)
s_, t_ = z3.Ints("s_ t_")


def EVAN(n, s):
    return z3.If(n == NULLNODE, z3.RealVal(0), EVA(n)[s])


def SAME(a, b):
    return z3.And(EVA(a) == EVA(b), EVM(a) == EVM(b), IV(a) == IV(b), EVR(a) == EVR(b), ISX(a) == ISX(b), CV(a) == CV(b))


def pw(ret, f):
    """meaning slot by slot"""
    return z3.ForAll([s_], EVA(ret)[s_] == f(s_), patterns=[EVA(ret)[s_]])


def isx(ret):
    return z3.Implies(ISX(ret), EVR(ret) == z3.ToReal(IV(ret)))


def _sf(name, params, facts, req=(), pick=None, title=None, also=lambda e: []):
    def ens(e, ret):
        return [ret != NULLNODE] + facts(e.old, ret)
    return Contract("ArithmeticDagNode::" + name, params=params, model_only=True, title=title or ("node " + name), pick=pick,
                    requires=lambda e: [e.get(p) != NULLNODE for p in req] + also(e), ensures=ens, ret=lambda ex: NODE)


def ptype(f, i):
    return f.params[i]["type"]["qualType"]


def isnode(f, i):
    return not ptype(f, i) in ("int64_t", "long", "size_t", "unsigned long", "double", "int") and "function" not in ptype(f, i)


def seqnn(seq):
    return z3.ForAll([t_], z3.Implies(z3.And(0 <= t_, t_ < ln(seq)), at(seq, t_) != NULLNODE), patterns=[at(seq, t_)])


CMP = {0: lambda a, b: a < b, 1: lambda a, b: a <= b, 2: lambda a, b: a > b, 3: lambda a, b: a >= b, 4: lambda a, b: a == b, 5: lambda a, b: a != b}


def cmpval(p, a, b):
    r = a != b
    for k, f in CMP.items():
        r = z3.If(p == k, f(a, b), r)
    return r


def slot_factories(LVA, LVM):
    return [
        _sf("leaf", ["value"], lambda o, r: [EVA(r) == LVA(o.value), EVM(r) == LVM(o.value)]),
        _sf("constantScalar", ["constant", "type"], lambda o, r: [EVR(r) == o.constant, IV(r) == z3.ToInt(o.constant),
                                                                  ISX(r) == (z3.ToReal(z3.ToInt(o.constant)) == o.constant)]),
        _sf("constantTensor", ["constant", "type"], lambda o, r: [z3.ForAll([s_], z3.Implies(z3.And(0 <= s_, s_ < ln(o.constant)),
                                                                  EVA(r)[s_] == at(o.constant, s_)), patterns=[EVA(r)[s_]])]),
        _sf("splat", ["constant", "type"], lambda o, r: [pw(r, lambda s: o.constant)]),
        _sf("empty", ["shape", "type"], lambda o, r: []),
        _sf("add", ["lhs", "rhs"], lambda o, r: [pw(r, lambda s: EVA(o.lhs)[s] + EVA(o.rhs)[s]), EVR(r) == EVR(o.lhs) + EVR(o.rhs),
                                                 z3.Implies(z3.And(ISX(o.lhs), ISX(o.rhs)), z3.And(ISX(r), IV(r) == IV(o.lhs) + IV(o.rhs))), isx(r)], ["lhs", "rhs"]),
        _sf("sub", ["lhs", "rhs"], lambda o, r: [pw(r, lambda s: EVA(o.lhs)[s] - EVA(o.rhs)[s]), EVR(r) == EVR(o.lhs) - EVR(o.rhs),
                                                 z3.Implies(z3.And(ISX(o.lhs), ISX(o.rhs)), z3.And(ISX(r), IV(r) == IV(o.lhs) - IV(o.rhs))), isx(r)], ["lhs", "rhs"]),
        _sf("mul", ["lhs", "rhs"], lambda o, r: [pw(r, lambda s: RM(EVA(o.lhs)[s], EVA(o.rhs)[s])), EVR(r) == RM(EVR(o.lhs), EVR(o.rhs)),
                                                 z3.Implies(z3.And(ISX(o.lhs), ISX(o.rhs)), z3.And(ISX(r), IV(r) == IV(o.lhs) * IV(o.rhs))), isx(r)], ["lhs", "rhs"]),
        _sf("floorDiv", ["lhs", "rhs"], lambda o, r: [z3.Implies(z3.And(ISX(o.lhs), o.rhs > 0), z3.And(ISX(r), IV(r) == IV(o.lhs) / o.rhs)), isx(r)], ["lhs"]),
        _sf("leftRotate", ["tensor", "shift"], lambda o, r: [pw(r, lambda s: EVA(o.tensor)[s + o.shift])], ["tensor"], pick=lambda f: not isnode(f, 1),
            also=lambda e: [e.shift >= -2 ** 53, e.shift <= 2 ** 53]),                  # stored as a double
        _sf("leftRotate", ["tensor", "shift"], lambda o, r: [pw(r, lambda s: EVA(o.tensor)[s + IV(o.shift)])], ["tensor", "shift"],
            pick=lambda f: isnode(f, 1), title="node leftRotate (dynamic)"),
        _sf("extract", ["tensor", "index"], lambda o, r: [EVA(r) == EVM(o.tensor)[o.index], EVR(r) == EVA(o.tensor)[o.index]], ["tensor"],
            pick=lambda f: not isnode(f, 1)),
        _sf("extract", ["tensor", "index"], lambda o, r: [EVA(r) == EVM(o.tensor)[IV(o.index)], EVR(r) == EVA(o.tensor)[IV(o.index)]], ["tensor", "index"],
            pick=lambda f: isnode(f, 1), title="node extract (dynamic)"),
        _sf("insert", ["scalar", "dest", "index"], lambda o, r: [EVM(r) == z3.Store(EVM(o.dest), IV(o.index), EVA(o.scalar))], ["scalar", "dest", "index"],
            pick=lambda f: isnode(f, 2)),
        _sf("comparison", ["lhs", "rhs", "predicate"], lambda o, r: [
            z3.Implies(z3.And(ISX(o.lhs), ISX(o.rhs)), CV(r) == cmpval(o.predicate, IV(o.lhs), IV(o.rhs))),
            CV(r) == cmpval(o.predicate, EVR(o.lhs), EVR(o.rhs))], ["lhs", "rhs"], pick=lambda f: isnode(f, 1)),
        _sf("ifElse", ["condition", "thenBody", "elseBody"], lambda o, r: [
            SAME(RESN(r, k), z3.If(CV(o.condition), RESN(o.thenBody, k), RESN(o.elseBody, k))) for k in range(2)], ["condition", "thenBody", "elseBody"],
            pick=lambda f: isnode(f, 1)),
        _sf("yield", ["values"], lambda o, r: [z3.Implies(k < ln(o.values), SAME(RESN(r, k), at(o.values, k))) for k in range(2)]),
        _sf("resultAt", ["value", "index"], lambda o, r: [SAME(r, RESN(o.value, o.index))], ["value"]),
    ]


def _dt(name, params, ret=None):
    return Contract("DagType::" + name, params=params, model_only=True, title="type " + name, ret=ret or (lambda ex: DAGTYPE))


DAGTYPES = [_dt("index", []), _dt("floatTy", ["w"]), _dt("integer", ["w"]), _dt("floatTensor", ["w", "shape"]), _dt("intTensor", ["w", "shape"]),
            Contract("DagType::getShape", params=[], model_only=True, title="type getShape", ret=lambda ex: Seq(I), this="DagType",
                     ensures=lambda e, ret: [ln(ret) >= 0, ret == SHAPEOF(e.this)])]
SHAPEOF = z3.Function("shapeOf", DAGTYPE, Seq(I))


class DagLoop:
    """invariant of a loop node: inv(e, t, nodes) holds of the values carried into iteration t"""

    def __init__(self, inv, hints=None):
        self.inv, self.hints = inv, hints


def h_loop(loops):
    """ArithmeticDagNode::loop(inits, types, lower, upper, step, body): the body is checked to preserve the invariant for an
    arbitrary iteration (a separate path); the loop's results satisfy it after the last iteration"""
    from engine import Env, PathEnd, aslist, Unsupported, Native

    def hook(ex, n, fr, name, rd, args, want_lv):
        spec = loops.get(ex.c.title)
        if spec is None or len(args) != 6:
            return NotImplemented
        order = ex.__dict__.setdefault("dagloops", {})
        k = order.setdefault(n["id"], len(order))
        if k >= len(spec):
            raise Unsupported("loop node without an invariant")
        dl = spec[k]
        seq = ex.eval(args[0], fr)
        seq = ex.load(seq) if not isinstance(seq, z3.ExprRef) and not hasattr(seq, "items") else seq
        inits = [ex.coerce_sort(x, NODE) if not isinstance(x, z3.ExprRef) else x for x in seq.items] if hasattr(seq, "items") else None
        if inits is None:
            L = z3.simplify(ln(seq))
            if not z3.is_int_value(L):
                raise Unsupported("loop node with an unknown number of values")
            inits = [z3.simplify(at(seq, q)) for q in range(L.as_long())]
        lower, upper, step = [ex.eval(a, fr) for a in args[2:5]]
        if not (z3.is_int_value(z3.simplify(step)) and z3.simplify(step).as_long() == 1):
            raise Unsupported("loop node with a step other than 1")
        body = ex.eval(args[5], fr)
        e = Env(ex, fr)

        def assume(fs):
            for f in aslist(fs):
                ex.assume(f)
        ex.check([x != NULLNODE for x in inits], "initial values of a loop node exist", n, "pre")
        if dl.hints:
            assume(dl.hints(e, lower, inits, "init"))
        ex.check(aslist(dl.inv(e, lower, inits)), "loop-node invariant holds of the initial values", n, "inv")
        if ex.branch(ex.fresh(z3.BoolSort(), "dagbody")):
            t = ex.fresh(I, "iter")
            assume([lower <= t, t < upper])
            iv = ex.fresh(NODE, "indvar")
            ia = [ex.fresh(NODE, "iterarg") for _ in inits]
            assume([x != NULLNODE for x in ia] + [iv != NULLNODE, ISX(iv), IV(iv) == t, EVR(iv) == z3.ToReal(t)])
            assume(dl.inv(e, t, ia))
            sq = Seq(NODE)
            a = z3.K(I, NULLNODE)
            for q, x in enumerate(ia):
                a = z3.Store(a, q, x)
            if dl.hints:
                assume(dl.hints(e, t, ia, "body"))
            y = ex.call_fn(body, [iv, mk(sq, a, z3.IntVal(len(ia)))], n)
            y = ex.load(y) if not isinstance(y, z3.ExprRef) else y
            out = [RESN(y, z3.IntVal(q)) for q in range(len(ia))]
            if dl.hints:
                assume(dl.hints(e, t, ia + out, "step"))
            ex.check(aslist(dl.inv(e, t + 1, out)), "loop-node body preserves its invariant", n, "inv")
            raise PathEnd()
        T = z3.If(upper <= lower, lower, upper)
        r = ex.fresh(NODE, "loop")
        out = [RESN(r, z3.IntVal(q)) for q in range(len(inits))]
        assume([r != NULLNODE] + aslist(dl.inv(e, T, out)))
        return r
    return hook

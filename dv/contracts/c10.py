"""C10: node factories and the cached traversal.

A node is an abstract identity with a kind and, per kind, the record the factory stored in its variant (PAY).  The factories
are proved to store the kind they name and exactly their operands, in the fields of that kind, and from there to have the
meaning (values, vectors, index scalars) that C04..C08 rely on.  The traversal is proved against MEAN(n), the value of the
expression tree below n without any cache, for an arbitrary visitor whose methods compute a node's value from its payload."""
import z3
from sorts import *
from engine import Contract, Loop, NULLNODE, Unsupported, Native, Closure, PathEnd, mkfunc, Null
import dagmodel as dm
from dagmodel import EVR, EVA, EVM, IV, ISX, CV, RESN, RM, SAME, pw, isx, cmpval, isnode, DAGTYPE, SHAPEOF
import os
import cppast, vf, natspec

I, R, Bo = z3.IntSort(), z3.RealSort(), z3.BoolSort()
SYM = Opaque("Value")
NVAR = Opaque("NodeVariant")
NSEQ = Seq(NODE)
NA = z3.ArraySort(I, NODE)
LVR, LVA, LVM = z3.Function("leafr", SYM, R), z3.Function("leafa", SYM, dm.RA), z3.Function("leafm", SYM, dm.RARR)
VAR, OFV = z3.Function("variant", NODE, NVAR), z3.Function("ofVariant", NVAR, NODE)
KIND = z3.Function("kind", NODE, I)
KINDS = ["ConstantScalarNode", "ConstantTensorNode", "LeafNode", "AddNode", "SubtractNode", "MultiplyNode", "FloorDivNode", "PowerNode",
         "LeftRotateNode", "LeftRotateBulkNode", "ExtractNode", "InsertNode", "ComparisonNode", "IfElseNode", "VariableNode",
         "ForLoopNode", "YieldNode", "ResultAtNode", "SplatNode", "EmptyNode"]
CACHE = MapS(NODE, R)
THISS = Rec("CachingVisitor", [("cache", CACHE)])
MEAN = z3.Function("mean", NODE, R)
REACH = z3.Function("reach", NODE, NODE, Bo)
LREACH = z3.Function("lreach", NA, I, NODE, Bo)
RANK = z3.Function("rank", NODE, I)
INDEXTYPE = z3.Const("indexType", DAGTYPE)
m = z3.Const("m", NODE)
k_ = z3.Int("k")
_pay, _mk = {}, {}


def kindname(t):
    return t.replace("const ", "").split("<")[0].split("::")[-1].strip(" &")


def PAY(k, ex):
    """the record of kind k, with the fields of the struct in /repo"""
    if k not in _pay:
        s = ex.tm.sort("mlir::heir::kernel::" + k)
        if kind(s) != "rec":
            raise Unsupported("node struct " + k)
        _pay[k] = z3.Function("pay_" + k, NODE, s)
        _mk[k] = z3.Function("mean_" + k, s, R)
    return _pay[k]


# ---------------------------------------------------------------- meaning of a node of each kind, from its fields
def meaning(k, n, f):
    """f(field) -> value of the field"""
    if k == "LeafNode":
        v = f("value")
        return [EVR(n) == LVR(v), EVA(n) == LVA(v), EVM(n) == LVM(v)]
    if k == "ConstantScalarNode":
        c = f("value")
        return [EVR(n) == c, IV(n) == z3.ToInt(c), ISX(n) == (z3.ToReal(z3.ToInt(c)) == c)]
    if k == "ConstantTensorNode":
        s = z3.Int("s_")
        return [z3.ForAll([s], z3.Implies(z3.And(0 <= s, s < ln(f("value"))), EVA(n)[s] == at(f("value"), s)), patterns=[EVA(n)[s]])]
    if k == "SplatNode":
        return [pw(n, lambda s: f("value")), EVR(n) == f("value")]
    if k in ("AddNode", "SubtractNode", "MultiplyNode"):
        a, b = f("left"), f("right")
        op = {"AddNode": lambda x, y: x + y, "SubtractNode": lambda x, y: x - y, "MultiplyNode": RM}[k]
        iop = (lambda x, y: x * y) if k == "MultiplyNode" else op
        return [pw(n, lambda s: op(EVA(a)[s], EVA(b)[s])), EVR(n) == op(EVR(a), EVR(b)),
                z3.Implies(z3.And(ISX(a), ISX(b)), z3.And(ISX(n), IV(n) == iop(IV(a), IV(b)))), isx(n)]
    if k == "FloorDivNode":
        a, d = f("left"), f("divisor")
        return [z3.Implies(z3.And(ISX(a), d > 0), z3.And(ISX(n), IV(n) == IV(a) / d)), isx(n)]
    if k == "LeftRotateNode":
        return [pw(n, lambda s: EVA(f("operand"))[s + IV(f("shift"))])]
    if k == "ExtractNode":
        o, i = f("operand"), f("index")
        return [EVA(n) == EVM(o)[IV(i)], EVR(n) == EVA(o)[IV(i)]]
    if k == "InsertNode":
        return [EVM(n) == z3.Store(EVM(f("dest")), IV(f("index")), EVA(f("scalar")))]
    if k == "ComparisonNode":
        a, b, p = f("left"), f("right"), f("predicate")
        return [CV(n) == cmpval(p, EVR(a), EVR(b)), z3.Implies(z3.And(ISX(a), ISX(b)), CV(n) == cmpval(p, IV(a), IV(b)))]
    if k == "IfElseNode":
        return [SAME(RESN(n, q), z3.If(CV(f("condition")), RESN(f("thenBody"), q), RESN(f("elseBody"), q))) for q in range(2)]
    if k == "YieldNode":
        e = f("elements")
        return [z3.Implies(q < ln(e), SAME(RESN(n, z3.IntVal(q)), at(e, q))) for q in range(2)]
    if k == "ResultAtNode":
        return [SAME(n, RESN(f("operand"), f("index")))]
    return []


# ---------------------------------------------------------------- allocation and the variant
def h_new(ex, n, fr):
    """a new node: a fresh non-null identity whose variant has not been set"""
    c = n["inner"][0]
    if c.get("kind") != "CXXConstructExpr" or "ArithmeticDagNode" not in c.get("type", {}).get("qualType", ""):
        return NotImplemented
    r = ex.fresh(NODE, "new")
    ex.assume(r != NULLNODE)
    ex.__dict__.setdefault("unset", []).append(r)
    args = [a for a in c.get("inner", []) if a.get("kind") != "CXXDefaultArgExpr"]
    if not args:
        return r
    want = c.get("ctorType", {}).get("qualType", "")
    cands = [f for f in ex.func.tu.funcs if f.qname.split("::")[-1] == "ArithmeticDagNode" and f.node["kind"] == "CXXConstructorDecl"
             and f.node.get("type", {}).get("qualType", "") == want and f.inits]
    inst = [f for f in cands if "T &" not in want]
    if len(args) != 1 or not inst:
        raise Unsupported("constructor %s" % want)
    f = inst[0]
    from engine import Frame
    cf = Frame(f)
    v = ex.eval(args[0], fr)
    v = ex.load(v) if not isinstance(v, z3.ExprRef) else v
    ex.bind(cf, f.params[0]["id"], f.params[0].get("name"), v, want)
    if len(f.inits) != 1 or f.inits[0].get("anyInit", {}).get("name") != "node_variant":
        raise Unsupported("constructor of a node")
    e = f.inits[0]["inner"][0]
    while kindname(e.get("type", {}).get("qualType", "")) not in KINDS:
        e = (e.get("inner") or [{}])[0]
        if not e:
            raise Unsupported("constructor of a node")
    setvar(ex, r, kindname(e["type"]["qualType"]), ex.eval(e, cf))
    if [s for s in (f.body or {}).get("inner", [])]:
        raise Unsupported("constructor body of a node")
    return r


def setvar(ex, r, k, v):
    un = ex.__dict__.setdefault("unset", [])
    hit = [q for q in un if z3.eq(q, r)]
    if not hit:
        raise Unsupported("a node's variant is set other than once, by the code that creates it")
    un[:] = [q for q in un if not z3.eq(q, r)]
    p = PAY(k, ex)
    v = ex.load(v) if not isinstance(v, z3.ExprRef) and not hasattr(v, "items") else v
    v = ex.coerce_sort(v, p.range())
    ex.assume([KIND(r) == KINDS.index(k), p(r) == v])
    ex.assume(meaning(k, r, lambda f: fld(v, f)))


def h_emplace(ex, n, fr, core, name, getobj, args, want_lv):
    t = n.get("type", {}).get("qualType", "")
    v = getobj()
    v = ex.load(v) if not isinstance(v, z3.ExprRef) else v
    if not (isinstance(v, z3.ExprRef) and v.sort() == NVAR and len(args) == 1):
        return NotImplemented
    if not (z3.is_app(v) and z3.eq(v.decl().__call__(v.arg(0)), v) and v.decl().name() == "variant"):
        raise Unsupported("variant of an unknown node")
    k = kindname(args[0].get("type", {}).get("qualType", ""))
    k2 = kindname(t)
    if k not in KINDS or (k2 in KINDS and k2 != k):
        raise Unsupported("emplace of %s" % t)
    setvar(ex, v.arg(0), k, ex.eval(args[0], fr))
    return UNIT.constructor(0)()


def h_index(ex, n, fr, name, rd, args, want_lv):
    return NotImplemented


# ---------------------------------------------------------------- factories
def params(names):
    return names


def fac(name, ps, k, pick=None, title=None, req=(), fields=None, extra=None, sem=None, also=lambda e: []):
    """fields: field -> function of the parameters (default: the parameter of the same name)"""
    def ens(e, ret):
        ex = e._ex
        p = PAY(k, ex)(ret)
        out = [ret != NULLNODE, KIND(ret) == KINDS.index(k)]
        for f, g in fields.items():
            w = g(e.old)
            w = w if isinstance(w, list) else [fld(p, f) == w]
            out += [x(fld(p, f)) if callable(x) and not isinstance(x, z3.ExprRef) else x for x in w]
        return out + (sem(e.old, ret) if sem else [])
    return Contract("ArithmeticDagNode::" + name, params=ps, title=title or ("node " + name), pick=lambda f: inst(f) and (pick is None or pick(f)),
                    requires=lambda e: [e.get(q) != NULLNODE for q in req] + also(e), ensures=ens, ret=lambda ex: NODE)


def inst(f):
    """the instantiation, not the template pattern"""
    return not any(x in f.node.get("type", {}).get("qualType", "") for x in ("const T &",)) or True


SEM = {}
for c in dm.slot_factories(LVA, LVM) + dm.scalar_factories(LVR):
    SEM.setdefault((c.name.split("::")[-1], c.title if "dynamic" in c.title else "", len(c.params)), []).append(c)
SLOT = {}
for c in dm.slot_factories(LVA, LVM):
    SLOT[c.title + ("" if not c.pick else "/%d" % len([1 for d in SLOT if d.startswith(c.title)]))] = c
SCAL = {c.title: c for c in dm.scalar_factories(LVR)}


def from_model(c, k, fields, title=None):
    """the contract C05..C08 use at calls of this factory, together with the structure it stores"""
    nm = c.name.split("::")[-1]
    also = [SCAL["node " + nm]] if "node " + nm in SCAL and len(c.params) == len(SCAL["node " + nm].params) else []

    def ens(e, ret):
        p = PAY(k, e._ex)(ret)
        out = [KIND(ret) == KINDS.index(k)]
        for f, g in fields.items():
            w = g(e.old)
            out += [w(fld(p, f))] if callable(w) and not isinstance(w, z3.ExprRef) else [fld(p, f) == w]
        for d in [c] + also:
            out += d.ensures(e, ret)
        return out
    return Contract(c.name, params=c.params, title=title or c.title, pick=c.pick, requires=c.requires, ensures=ens, ret=lambda ex: NODE)


def P(n):
    return lambda o: getattr(o, n)


def isconst(v):
    """the field holds an index constant of value v(o)"""
    return lambda o: (lambda n: z3.And(n != NULLNODE, KIND(n) == KINDS.index("ConstantScalarNode"), EVR(n) == v(o),
                                       fld(_pay["ConstantScalarNode"](n), "value") == v(o)))


def real(x):
    return z3.ToReal(x) if x.sort() == I else x


FIELDS = {
    "node leaf": ("LeafNode", {"value": P("value")}),
    "node constantScalar": ("ConstantScalarNode", {"value": P("constant"), "type": P("type")}),
    "node constantTensor": ("ConstantTensorNode", {"value": P("constant"), "type": P("type")}),
    "node splat": ("SplatNode", {"value": P("constant"), "type": P("type")}),
    "node empty": ("EmptyNode", {"shape": P("shape"), "type": P("type")}),
    "node add": ("AddNode", {"left": P("lhs"), "right": P("rhs")}),
    "node sub": ("SubtractNode", {"left": P("lhs"), "right": P("rhs")}),
    "node mul": ("MultiplyNode", {"left": P("lhs"), "right": P("rhs")}),
    "node floorDiv": ("FloorDivNode", {"left": P("lhs"), "divisor": P("rhs")}),
    "node leftRotate": ("LeftRotateNode", {"operand": P("tensor"), "shift": isconst(lambda o: real(o.shift))}),
    "node leftRotate (dynamic)": ("LeftRotateNode", {"operand": P("tensor"), "shift": P("shift")}),
    "node extract": ("ExtractNode", {"operand": P("tensor"), "index": isconst(lambda o: real(o.index))}),
    "node extract (dynamic)": ("ExtractNode", {"operand": P("tensor"), "index": P("index")}),
    "node insert": ("InsertNode", {"scalar": P("scalar"), "dest": P("dest"), "index": P("index")}),
    "node comparison": ("ComparisonNode", {"left": P("lhs"), "right": P("rhs"), "predicate": P("predicate")}),
    "node ifElse": ("IfElseNode", {"condition": P("condition"), "thenBody": P("thenBody"), "elseBody": P("elseBody")}),
    "node yield": ("YieldNode", {"elements": P("values")}),
    "node resultAt": ("ResultAtNode", {"operand": P("value"), "index": P("index")}),
}


def own(name, ps, k, fields, req=(), pick=None, title=None, also=lambda e: [], **kw):
    """factories no other property relies on"""
    def ens(e, ret):
        p = PAY(k, e._ex)(ret)
        out = [ret != NULLNODE, KIND(ret) == KINDS.index(k)]
        for f, g in fields.items():
            w = g(e.old)
            out += [w(fld(p, f))] if callable(w) and not isinstance(w, z3.ExprRef) else [fld(p, f) == w]
        return out
    return Contract("ArithmeticDagNode::" + name, params=ps, title=title or "node " + name, pick=pick, ret=lambda ex: NODE,
                    requires=lambda e: [e.get(q) != NULLNODE for q in req] + also(e), ensures=ens, **kw)


BODY1 = z3.Function("body1", NODE, NODE, NODE)
BODYN = z3.Function("bodyN", NODE, NA, I, NODE)
HASB = z3.Const("hasBody!ghost", Bo)


def b1(ex, args):
    iv, ia = [ex.load(x) if not isinstance(x, z3.ExprRef) else x for x in args]
    return BODY1(iv, ia)


def bn(ex, args):
    iv, ia = [ex.load(x) if not isinstance(x, z3.ExprRef) else x for x in args]
    return BODYN(iv, arr(ia), ln(ia))


def isvar(ty):
    def f(n):
        p = _pay["VariableNode"](n)
        return z3.And(n != NULLNODE, KIND(n) == KINDS.index("VariableNode"), z3.Not(has(fld(p, "value"))), fld(p, "type") == ty)
    return f


def loop_ens(many):
    def ens(e, ret):
        PAY("VariableNode", e._ex)
        p, o = PAY("ForLoopNode", e._ex)(ret), e.old
        iv, ins, ias, body = [fld(p, f) for f in ("inductionVar", "inits", "iterArgs", "body")]
        out = [ret != NULLNODE, KIND(ret) == KINDS.index("ForLoopNode"), fld(p, "lower") == o.lower, fld(p, "upper") == o.upper,
               fld(p, "step") == o.step, isvar(INDEXTYPE)(iv)]
        if many:
            L = ln(o.inits)
            out += [ln(ins) == L, ln(ias) == L, body == z3.If(HASB, BODYN(iv, arr(ias), ln(ias)), NULLNODE),
                    qall([k_], z3.Implies(z3.And(0 <= k_, k_ < L), at(ins, k_) == at(o.inits, k_)), at(ins, k_)),
                    qall([k_], z3.Implies(z3.And(0 <= k_, k_ < L), isvar(at(o.initTys, k_))(at(ias, k_))), at(ias, k_))]
        else:
            out += [ln(ins) == 1, ln(ias) == 1, at(ins, 0) == o.init, isvar(o.initTy)(at(ias, 0)),
                    body == z3.If(HASB, BODY1(iv, at(ias, 0)), NULLNODE)]
        return out
    return ens


def fnparam(i):
    return lambda f: "function" in f.params[i]["type"]["qualType"]


OTHERS = [
    own("power", ["base", "exponent"], "PowerNode", {"base": P("base"), "exponent": P("exponent")}, ["base"]),
    own("leftRotateBulk", ["tensor", "shifts"], "LeftRotateBulkNode", {"operand": P("tensor"), "shifts": P("shifts")}, ["tensor"]),
    own("insert", ["scalar", "dest", "index"], "InsertNode", {"scalar": P("scalar"), "dest": P("dest"), "index": isconst(lambda o: real(o.index))},
        ["scalar", "dest"], pick=lambda f: not isnode(f, 2), title="node insert (static)"),
    own("comparison", ["lhs", "rhs", "predicate"], "ComparisonNode", {"left": P("lhs"), "right": isconst(lambda o: real(o.rhs)), "predicate": P("predicate")},
        ["lhs"], pick=lambda f: not isnode(f, 1), title="node comparison (constant)"),
    own("ifElse", ["condition", "thenBuilder", "elseBuilder"], "IfElseNode", {
        "condition": P("condition"), "thenBody": lambda o: z3.Const("thenResult", NODE), "elseBody": lambda o: z3.Const("elseResult", NODE)},
        ["condition"], pick=lambda f: not isnode(f, 1), title="node ifElse (builders)",
        closures={"thenBuilder": Native(lambda ex, a: z3.Const("thenResult", NODE), "then"), "elseBuilder": Native(lambda ex, a: z3.Const("elseResult", NODE), "else")},
        also=lambda e: [z3.Const("thenResult", NODE) != NULLNODE, z3.Const("elseResult", NODE) != NULLNODE]),
    own("variable", ["type"], "VariableNode", {"type": P("type"), "value": lambda o: (lambda v: z3.Not(has(v)))}),
    Contract("ArithmeticDagNode::loop", params=["init", "initTy", "lower", "upper", "step", "bodyBuilder"], title="node loop", ret=lambda ex: NODE,
             pick=lambda f: "ArrayRef" not in f.params[0]["type"]["qualType"], closures={"bodyBuilder": Native(b1, "body", HASB)},
             requires=lambda e: [e.init != NULLNODE], ensures=loop_ens(False)),
    Contract("ArithmeticDagNode::loop", params=["inits", "initTys", "lower", "upper", "step", "bodyBuilder"], title="node loop (many)", ret=lambda ex: NODE,
             pick=lambda f: "ArrayRef" in f.params[0]["type"]["qualType"], closures={"bodyBuilder": Native(bn, "body", HASB)},
             requires=lambda e: [ln(e.initTys) >= ln(e.inits), ln(e.inits) < 2 ** 62], ensures=loop_ens(True),
             loops={0: Loop(lambda e: [0 <= e.i, e.i <= ln(e.inits), ln(e.iterArgs) == ln(e.inits),
                                       qall([k_], z3.Implies(z3.And(0 <= k_, k_ < e.i), isvar(at(e.initTys, k_))(at(e.iterArgs, k_))), at(e.iterArgs, k_))],
                            dec=lambda e: ln(e.inits) - e.i)}),
]


# ---------------------------------------------------------------- the traversal
def DOM(t):
    return acc(acc(t, 0), 0)


def VAL(t):
    return acc(acc(t, 0), 1)


def valid(t):
    return qall([m], z3.Implies(DOM(t)[m], VAL(t)[m] == MEAN(m)), VAL(t)[m])


def growsdom(o, t):
    return qall([m], z3.Implies(DOM(o)[m], DOM(t)[m]), DOM(t)[m])


NEXT = [qall([m], OFV(VAR(m)) == m, VAR(m))]


def opfields(k):
    """the operands of a node of kind k: (single fields, list fields)"""
    return {"AddNode": (["left", "right"], []), "SubtractNode": (["left", "right"], []), "MultiplyNode": (["left", "right"], []),
            "FloorDivNode": (["left"], []), "PowerNode": (["base"], []), "LeftRotateNode": (["operand", "shift"], []),
            "LeftRotateBulkNode": (["operand"], ["shifts"]), "ExtractNode": (["operand", "index"], []),
            "InsertNode": (["scalar", "dest", "index"], []), "ComparisonNode": (["left", "right"], []),
            "IfElseNode": (["condition", "thenBody", "elseBody"], []), "YieldNode": ([], ["elements"]), "ResultAtNode": (["operand"], []),
            "ForLoopNode": (["inductionVar", "body"], ["inits", "iterArgs"])}.get(k, ([], []))


def structure(k, n, p):
    """reachability through a node of kind k, and acyclicity"""
    one, many = opfields(k)
    cs = [fld(p, f) for f in one]
    ls = [fld(p, f) for f in many]
    out = [qall([m], REACH(n, m) == z3.Or([m == n] + [REACH(c, m) for c in cs] + [LREACH(arr(L), ln(L), m) for L in ls]), REACH(n, m))]
    out += [z3.And(RANK(c) < RANK(n), RANK(c) >= 0) for c in cs]
    for L in ls:
        out += [ln(L) >= 0, ln(L) < 2 ** 62, qall([k_], z3.Implies(z3.And(0 <= k_, k_ < ln(L)), z3.And(RANK(at(L, k_)) < RANK(n), RANK(at(L, k_)) >= 0)), at(L, k_)),
                qall([m], z3.Not(LREACH(arr(L), 0, m)), LREACH(arr(L), 0, m))]
    return out


def h_visit(ex, n, fr, name, rd, args, want_lv):
    """std::visit of a generic lambda on a node's variant: the specialisation of the active alternative, on its payload"""
    if len(args) != 2:
        return NotImplemented
    f = ex.eval(args[0], fr)
    v = ex.eval(args[1], fr)
    v = ex.load(v) if not isinstance(v, z3.ExprRef) else v
    if not isinstance(f, Closure) or not (isinstance(v, z3.ExprRef) and v.sort() == NVAR):
        return NotImplemented
    nd = z3.simplify(OFV(v)) if not (z3.is_app(v) and v.decl().name() == "variant") else v.arg(0)
    for j, k in enumerate(KINDS):
        if j == len(KINDS) - 1 or ex.branch(KIND(nd) == j):
            p = PAY(k, ex)(nd)
            if j == len(KINDS) - 1:
                ex.assume(KIND(nd) == j)
            ex.assume([MEAN(nd) == _mk[k](p)] + structure(k, nd, p))
            key = ex.newkey("payload")
            ex.store[key] = p
            from engine import LV
            r = ex.call_closure(f, [LV(key)], n)
            r = ex.load(r) if r is not None and not isinstance(r, z3.ExprRef) else r
            return UNIT.constructor(0)() if r is None else r
    raise PathEnd()


def th(ex):
    return z3.Const("this!0", THISS)


def virt(k):
    """the visitor's own method for kind k: computes the value of the node from its payload, keeps the cache valid"""
    return Contract("CachingVisitor::operator()", params=["node"], title="visitor method " + k, model_only=True, modifies=["this"], this=th,
                    pick=lambda f: kindname(f.params[0]["type"]["qualType"]) == k, ret=lambda ex: R,
                    requires=lambda e: [valid(e.this)],
                    ensures=lambda e, ret: [ret == _mk[k](e.old.node), valid(e.this), growsdom(e.old.this, e.this)])


def isone(f):
    return "ArrayRef" not in f.params[0]["type"]["qualType"]


process1 = Contract("CachingVisitor::process", params=["node"], title="process", modifies=["this"], this=th, pick=isone, ret=lambda ex: R,
                    requires=lambda e: [e.node != NULLNODE, valid(e.this)], entry=lambda ex, e: NEXT,
                    ensures=lambda e, ret: [ret == MEAN(e.old.node), valid(e.this), growsdom(e.old.this, e.this)])
processN = Contract("CachingVisitor::process", params=["nodes"], title="process (several roots)", modifies=["this"], this=th,
                    pick=lambda f: not isone(f), requires=lambda e: [valid(e.this), qall([k_], z3.Implies(z3.And(0 <= k_, k_ < ln(e.nodes)), at(e.nodes, k_) != NULLNODE), at(e.nodes, k_))],
                    ensures=lambda e, ret: [ln(ret) == ln(e.old.nodes), valid(e.this),
                                            qall([k_], z3.Implies(z3.And(0 <= k_, k_ < ln(ret)), at(ret, k_) == MEAN(at(e.old.nodes, k_))), at(ret, k_))],
                    loops={0: Loop(lambda e: [ln(e.results) == e.idx(0), valid(e.this), qall([k_], z3.Implies(
                        z3.And(0 <= k_, k_ < e.idx(0)), at(e.results, k_) == MEAN(at(e.old.nodes, k_))), at(e.results, k_))])})


def shrunk(o, t):
    return [qall([m], z3.Implies(DOM(t)[m], z3.And(DOM(o)[m], VAL(t)[m] == VAL(o)[m])), DOM(t)[m])]


def list_inv(e):
    a, q, t = arr(e.rng("g")), e.idx("g"), e.this
    return shrunk(e.pre.this, t) + [qall([m], z3.Implies(DOM(t)[m], z3.Not(LREACH(a, q, m))), DOM(t)[m])]


def list_step(e, w):
    a, q = arr(e.rng("g")), e.idx("g")
    return [qall([m], z3.Implies(q >= 0, LREACH(a, q + 1, m) == z3.Or(LREACH(a, q, m), REACH(a[q], m))), LREACH(a, q + 1, m))]


clear = Contract("CachingVisitor::clearSubtreeCache", params=["node"], modifies=["this"], this=th, entry=lambda ex, e: NEXT + [
                     RANK(e.node) >= 0, qall([m], z3.Not(REACH(NULLNODE, m)), REACH(NULLNODE, m))],
                 ensures=lambda e, ret: shrunk(e.old.this, e.this) + [
                     qall([m], z3.Implies(DOM(e.this)[m], z3.Not(REACH(e.old.node, m))), DOM(e.this)[m])],
                 decreases=lambda e: [RANK(e.node)],
                 anyloop=Loop(list_inv, hints=list_step))


def prop():
    _pay.clear(), _mk.clear()
    facs = []
    for c in dm.slot_factories(LVA, LVM):
        k, f = FIELDS[c.title]
        facs.append(from_model(c, k, f))
    types = [c for c in dm.DAGTYPES if not c.title.endswith(" index")] + [
        Contract("DagType::index", params=[], model_only=True, title="type index", ret=lambda ex: DAGTYPE, ensures=lambda e, ret: [ret == INDEXTYPE])]
    return vf.Prop("C10", tu="dag.cpp", contracts=facs + OTHERS + [process1, processN, clear] + [virt(k) for k in KINDS] + types,
                   overrides=dm.OVERRIDES + [
                       (r"CachingVisitor<", lambda tm, mm: THISS), (r"^T$|(^|::)SymbolicValue$", lambda tm, mm: SYM),
                       (r"^(std::)?variant<.*Node", lambda tm, mm: NVAR),
                       (r"(^|::)ComparisonPredicate$", lambda tm, mm: I),
                       (r"ArithmeticDagNode<[^>]*>( \*)?$|element_type \*$", lambda tm, mm: NODE)],
                   method_hooks={"emplace": h_emplace}, func_hooks={"visit": h_visit, "operator new": h_new},
                   node_field=lambda ex, n, name: VAR(n) if name == "node_variant" else None)


NATIVE = natspec.Native("c10.cpp", ["lib/Kernel/EvalVisitor.cpp"], seconds=(15, 90), flags=["-isystem", os.path.join(cppast.HERE, "stub")])
NOTE = ("Proved for every acyclic DAG: each node factory (and power, insert, comparison, ifElse, variable, loop, leftRotateBulk) yields a node "
        "of its kind over exactly its operands, in order; clearSubtreeCache leaves no entry for any node reachable from its root and removes "
        "nothing else; process returns, for one root and for several, the uncached value of every root and keeps every cached entry equal to "
        "the uncached value of its node. Assumed: a derived visitor's methods compute a node's value from its payload through process "
        "(virtual contracts), with the variables' bindings and extra arguments fixed during one process call; std::visit, shared_ptr, "
        "variant and unordered_map are modelled. That a loop re-evaluates its body for each iteration is the clearSubtreeCache proof plus, "
        "bounded, a native comparison of the real EvalVisitor with an uncached evaluator on random DAGs with shared nodes and nested loops.")
BOUNDED = ["EvalVisitor's visitor methods (std::variant payloads): random DAGs of up to a few dozen nodes with sharing, loops and branches, "
           "compared with an evaluator that caches nothing"]

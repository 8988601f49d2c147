"""C09: the rotation count.

A node is an abstract identity with a kind, operands and (for lists) a vector of operands.  CNT/VIS say, recursively over the
operands, how many rotations the evaluation of a node starts when the nodes of a set are already evaluated, and which nodes are
evaluated afterwards; SEC says whether a node's value is a ciphertext.  They are defined here by one equation per kind, written
from the documentation, and every visitor method is proved against them; for DAGs without loops the count is moreover proved to
be the sum, over the nodes reached, of each node's own rotations (TOT), whatever the order of the visit."""
import z3
from sorts import *
from engine import Contract, Loop, NULLNODE, Unsupported
from lemmas import Lemma
import vf, natspec

I, Bo = z3.IntSort(), z3.BoolSort()
NS = z3.ArraySort(NODE, Bo)
NA = z3.ArraySort(I, NODE)
NSEQ = Seq(NODE)
THISS = Rec("RotationCountVisitor", [("visitedNodes", SetS(NODE)), ("nodeSecretStatus", MapS(NODE, Bo)), ("currentNode", NODE)])
VARIANT = Opaque("NodeVariant")
SYM = Rec("SymbolicValue", [("shape", Seq(I)), ("isSecret_", Bo)])
KINDS = ["ConstantScalarNode", "ConstantTensorNode", "LeafNode", "AddNode", "SubtractNode", "MultiplyNode", "FloorDivNode", "PowerNode",
         "LeftRotateNode", "LeftRotateBulkNode", "ExtractNode", "InsertNode", "ComparisonNode", "IfElseNode", "VariableNode",
         "ForLoopNode", "YieldNode", "ResultAtNode", "SplatNode", "EmptyNode"]
KIND = z3.Function("kind", NODE, I)
OPND = z3.Function("opnd", NODE, I, NODE)           # operands, in the order of evaluation
LIST = z3.Function("operands", NODE, NSEQ)
LO, HI, STEP = [z3.Function(k, NODE, I) for k in ("lower", "upper", "step")]
SYMV = z3.Function("symv", NODE, SYM)
RANK = z3.Function("rank", NODE, I)                 # the DAG is acyclic: operands have a smaller rank
CNT = z3.Function("cnt", NODE, NS, I)
VIS = z3.Function("vis", NODE, NS, NS)
CNTB = z3.Function("cntb", NODE, NS, I)             # the same with the node itself already in the set
VISB = z3.Function("visb", NODE, NS, NS)
SEC = z3.Function("sec", NODE, Bo)
LCNT = z3.Function("lcnt", NA, I, NS, I)            # a list of operands, one after the other
LVIS = z3.Function("lvis", NA, I, NS, NS)
LSEC = z3.Function("lsec", NA, I, Bo)
TRIPS = z3.Function("trips", NODE, I)
REACH = z3.Function("reach", NODE, NODE, Bo)
ISOP = z3.Function("isop", NODE, NODE, Bo)
W = z3.Function("ownrot", NODE, I)
TOT = z3.Function("tot", NS, I)
NOLOOPS = z3.Const("noLoops!ghost", Bo)
lo_, hi_, s_, t_ = z3.Ints("lo hi s t")
TRIPS_CEIL = Lemma("trips_ceil", [lo_, hi_, s_, t_], (hi_ - lo_ + s_ - 1) / s_ == t_,
                   [s_ >= 1, lo_ < hi_, lo_ + (t_ - 1) * s_ < hi_, hi_ <= lo_ + t_ * s_], module="ModArith")
m, c_ = z3.Consts("m c", NODE)
k_ = z3.Int("k")
FIELDS = {"left": 0, "right": 1, "base": 0, "operand": 0, "condition": 0, "thenBody": 1, "elseBody": 2, "dest": 1}
OPERANDS = {"AddNode": 2, "SubtractNode": 2, "MultiplyNode": 2, "FloorDivNode": 1, "PowerNode": 1, "LeftRotateNode": 1, "LeftRotateBulkNode": 1,
            "ExtractNode": 2, "InsertNode": 3, "ComparisonNode": 2, "IfElseNode": 3, "ResultAtNode": 1}
DATA = {"ExtractNode": [0], "InsertNode": [0, 1]}    # an index does not make the value secret


def FA(vs, body, patterns=()):
    return qall(vs, body, *patterns)


def field(ex, n, name):
    kind_ = ex.__dict__.get("nodekind")
    if name == "node_variant":
        return VAR(n)
    if name == "value":
        return SYMV(n)
    if name == "index":
        return OPND(n, 2 if kind_ == "InsertNode" else 1)
    if name == "scalar":
        return OPND(n, 0)
    if name == "body":
        return OPND(n, 0)
    if name == "elements" or name == "inits" or name == "shifts":
        return LIST(n)
    if name in ("lower", "upper", "step"):
        return {"lower": LO, "upper": HI, "step": STEP}[name](n)
    if name in FIELDS:
        return OPND(n, FIELDS[name])
    return None


VAR = z3.Function("variant", NODE, VARIANT)
OFV = z3.Function("ofVariant", VARIANT, NODE)


def V(t):
    return acc(acc(t, 0), 0)


def SD(t):
    return acc(acc(t, 1), 0)


def SV(t):
    return acc(acc(t, 1), 1)


def known(t, r, strict=False):
    """every evaluated node of rank up to r has its secrecy recorded"""
    return FA([m], z3.Implies(z3.And(V(t)[m], RANK(m) < r if strict else RANK(m) <= r), z3.And(SD(t)[m], SV(t)[m] == SEC(m))),
                     patterns=[SV(t)[m]])


def grown(old, new, n, incl):
    """what a visit of n leaves: the nodes evaluated before are kept with their records, the new ones are recorded, all of them
    reachable from n, and closed under operands"""
    was = z3.And(V(old)[m], m != n) if incl else V(old)[m]
    return [FA([m], z3.Implies(was, SD(new)[m] == SD(old)[m]), patterns=[SD(new)[m]]),
            FA([m], z3.Implies(was, SV(new)[m] == SV(old)[m]), patterns=[SV(new)[m]]),
            FA([m], z3.Implies(z3.And(V(new)[m], z3.Not(was)), z3.And(SD(new)[m], SV(new)[m] == SEC(m))), patterns=[SV(new)[m]]),
            qall([m], z3.Implies(V(old)[m], V(new)[m]), V(new)[m]),
            qall([m], z3.Implies(V(new)[m], z3.Or(was, REACH(n, m))), V(new)[m]),
            qall([m, c_], z3.Implies(z3.And(V(new)[m], z3.Not(was), ISOP(m, c_)), V(new)[c_]), ISOP(m, c_))]


def pre(e):
    return [e.node != NULLNODE, known(e.this, RANK(e.node))]


def post(e, ret):
    o, n, t = e.old.this, e.old.node, e.this
    return [ret == CNT(n, V(o)), V(t) == VIS(n, V(o)), V(t)[n], SD(t)[n], SV(t)[n] == SEC(n)] + grown(o, t, n, False) + [
        z3.Implies(NOLOOPS, ret == TOT(V(t)) - TOT(V(o)))]


def bpre(e):
    return [e.node != NULLNODE, acc(e.this, 2) == e.node, V(e.this)[e.node], known(e.this, RANK(e.node), True)]


def bpost(e, ret):
    o, n, t = e.old.this, e.old.node, e.this
    return [ret == CNTB(n, V(o)), V(t) == VISB(n, V(o)), V(t)[n], SD(t)[n], SV(t)[n] == SEC(n)] + grown(o, t, n, True) + [
        z3.Implies(NOLOOPS, ret == TOT(V(t)) - TOT(V(o)) + W(n))]


def child(n, c):
    return [c != NULLNODE, RANK(c) < RANK(n), ISOP(n, c), RANK(c) >= 0,
            qall([m], z3.Implies(REACH(c, m), REACH(n, m)), REACH(c, m))]


def define(k, n, v):
    """the meaning of a node of kind k"""
    out = [KIND(n) == KINDS.index(k), REACH(n, n)]
    if k in OPERANDS:
        ops = [OPND(n, j) for j in range(OPERANDS[k])]
        for o in ops:
            out += child(n, o)
        out.append(qall([m], ISOP(n, m) == z3.Or([m == o for o in ops]), ISOP(n, m)))
        cnt, vis = z3.IntVal(0), v
        for o in ops:
            cnt, vis = cnt + CNT(o, vis), VIS(o, vis)
        sec = z3.Or([SEC(ops[j]) for j in DATA.get(k, range(len(ops)))])
        w = z3.IntVal(0)
        if k == "LeftRotateNode":
            w = z3.If(SEC(ops[0]), z3.IntVal(1), z3.IntVal(0))
        if k == "LeftRotateBulkNode":
            w = z3.If(SEC(ops[0]), ln(LIST(n)), z3.IntVal(0))
            out += [ln(LIST(n)) >= 0, ln(LIST(n)) < 2 ** 63]
        out += [W(n) == w, CNTB(n, v) == cnt + w, VISB(n, v) == vis, SEC(n) == sec]
    elif k == "YieldNode":
        L = LIST(n)
        out += lists(n) + [qall([m], ISOP(n, m) == z3.Exists([k_], z3.And(0 <= k_, k_ < ln(L), at(L, k_) == m)), ISOP(n, m))]
        out += [W(n) == 0, CNTB(n, v) == LCNT(arr(L), ln(L), v), VISB(n, v) == LVIS(arr(L), ln(L), v), SEC(n) == LSEC(arr(L), ln(L))]
    elif k == "ForLoopNode":
        L, b = LIST(n), OPND(n, 0)
        lc, lv = LCNT(arr(L), ln(L), v), LVIS(arr(L), ln(L), v)
        out += lists(n) + [z3.Implies(b != NULLNODE, f) for f in child(n, b)[1:]]
        out += [FA([m], ISOP(n, m) == z3.Or(z3.And(b != NULLNODE, m == b), z3.Exists([k_], z3.And(0 <= k_, k_ < ln(L), at(L, k_) == m))),
                          patterns=[ISOP(n, m)])]
        out += [W(n) == 0, z3.Not(NOLOOPS), STEP(n) >= 1, STEP(n) < 2 ** 31] + [z3.And(x(n) >= -2 ** 31, x(n) < 2 ** 31) for x in (LO, HI)]
        # the iterations executed by for (i = lower; i < upper; i += step)
        out += [TRIPS(n) >= 0, z3.Implies(LO(n) >= HI(n), TRIPS(n) == 0),
                z3.Implies(LO(n) < HI(n), z3.And(LO(n) + (TRIPS(n) - 1) * STEP(n) < HI(n), HI(n) <= LO(n) + TRIPS(n) * STEP(n)))]
        out += [TRIPS_CEIL(LO(n), HI(n), STEP(n), TRIPS(n))]
        out += [CNTB(n, v) == lc + z3.If(b == NULLNODE, z3.IntVal(0), CNT(b, lv) * TRIPS(n)),
                VISB(n, v) == z3.If(b == NULLNODE, lv, VIS(b, lv)), SEC(n) == z3.Or(LSEC(arr(L), ln(L)), z3.And(b != NULLNODE, SEC(b)))]
    else:
        out += [W(n) == 0, CNTB(n, v) == 0, VISB(n, v) == v, SEC(n) == (acc(SYMV(n), 1) if k == "LeafNode" else z3.BoolVal(False)),
                qall([m], z3.Not(ISOP(n, m)), ISOP(n, m))]
    return out


def lists(n):
    L = LIST(n)
    return [ln(L) >= 0, ln(L) < 2 ** 62,
            qall([k_], z3.Implies(z3.And(0 <= k_, k_ < ln(L)), z3.And(at(L, k_) != NULLNODE, RANK(at(L, k_)) < RANK(n), RANK(at(L, k_)) >= 0,
                                                                      ISOP(n, at(L, k_)))), at(L, k_)),
            qall([k_, m], z3.Implies(z3.And(0 <= k_, k_ < ln(L), REACH(at(L, k_), m)), REACH(n, m)), REACH(at(L, k_), m))]


def steps(a, k, v):
    return [LCNT(a, z3.IntVal(0), v) == 0, LVIS(a, z3.IntVal(0), v) == v, z3.Not(LSEC(a, z3.IntVal(0))),
            z3.Implies(k >= 0, z3.And(LCNT(a, k + 1, v) == LCNT(a, k, v) + CNT(a[k], LVIS(a, k, v)),
                                      LVIS(a, k + 1, v) == VIS(a[k], LVIS(a, k, v)), LSEC(a, k + 1) == z3.Or(LSEC(a, k), SEC(a[k]))))]


def list_inv(count, sec):
    def inv(e):
        n, q = e.node, e.idx(0)
        a, o, t = arr(LIST(n)), e.old.this, e.this
        z = z3.Int("z!l")
        return [e.get(count) == LCNT(a, q, V(o)), e.get(sec) == LSEC(a, q), V(t) == LVIS(a, q, V(o)), V(t)[n],
                qall([z], z3.Implies(z3.And(0 <= z, z < q), V(t)[a[z]]), a[z])] + grown2(o, t, n) + [
            z3.Implies(NOLOOPS, e.get(count) == TOT(V(t)) - TOT(V(o))), known(t, RANK(n), True)]
    return inv


def grown2(old, new, n):
    """as grown, while n itself is still being visited"""
    was = V(old)[m]
    g = grown(old, new, n, False)
    return g


def list_hints(e, w):
    return steps(arr(LIST(e.node)), e.idx(0), V(e.old.this))


def th(ex):
    ex.nodekind = None
    return z3.Const("this!0", THISS)


NEXT = [qall([m], OFV(VAR(m)) == m, VAR(m))]
process_i = Contract(
    "RotationCountVisitor::processInternal", params=["node"], this=th, modifies=["this"], group="count", overflow="math64",
    requires=pre, ensures=post, decreases=lambda e: [2 * RANK(e.node) + 1],
    entry=lambda ex, e: NEXT + [
        RANK(e.node) >= 0, REACH(e.node, e.node),
        CNT(e.node, V(e.this)) == z3.If(V(e.this)[e.node], z3.IntVal(0), CNTB(e.node, z3.Store(V(e.this), e.node, True))),
        VIS(e.node, V(e.this)) == z3.If(V(e.this)[e.node], V(e.this), VISB(e.node, z3.Store(V(e.this), e.node, True))),
        z3.Implies(z3.Not(V(e.this)[e.node]), TOT(z3.Store(V(e.this), e.node, True)) == TOT(V(e.this)) + W(e.node))])
visit = Contract("visit", params=["node"], modifies=["this"], model_only=True, group="count", overflow="math64", ret=lambda ex: I,
                 requires=bpre, ensures=bpost, decreases=lambda e: [2 * RANK(e.node)])


def h_visit(ex, n, fr, name, rd, args, want_lv):
    """std::visit of the visitor itself on a node's variant: the method of the node's kind, each of which meets this contract"""
    if len(args) != 2:
        return NotImplemented
    t = ex.lval(args[0], fr)
    v = ex.eval(args[1], fr)
    v = ex.load(v) if not isinstance(v, z3.ExprRef) else v
    if ex.load(t).sort() != THISS or v.sort() != VARIANT:
        return NotImplemented
    return ex.apply_contract(visit, None, [t, OFV(v)], n, fr, True)


def kind_of(f):
    return f.params[0]["type"]["qualType"].replace("const ", "").split("<")[0].split("::")[-1].strip(" &")


def op(k):
    def entry(ex, e):
        ex.nodekind = k
        n, v = e.node, V(e.this)
        out = NEXT + define(k, n, v) + [RANK(n) >= 0]
        if k in ("YieldNode", "ForLoopNode"):
            out += steps(arr(LIST(n)), z3.IntVal(-1), v)
        return out
    loops = {}
    if k == "YieldNode":
        loops = {0: Loop(list_inv("totalCount", "isSecret"), hints=list_hints)}
    if k == "ForLoopNode":
        loops = {0: Loop(list_inv("initCount", "initIsSecret"), hints=list_hints)}
    return Contract("RotationCountVisitor::operator()", params=["node"], title="visit " + k, this=th, modifies=["this"], group="count",
                    pick=lambda f: len(f.params) == 1 and kind_of(f) == k, overflow="math64", requires=bpre, ensures=bpost, entry=entry,
                    decreases=lambda e: [2 * RANK(e.node)], loops=loops)


process = Contract(
    "RotationCountVisitor::process", params=["node"], this=th, modifies=["this"], overflow="math64",
    requires=lambda e: [e.node != NULLNODE],
    entry=lambda ex, e: NEXT + [TOT(z3.K(NODE, z3.BoolVal(False))) == 0],
    ensures=lambda e, ret: [
        ret == CNT(e.old.node, z3.K(NODE, z3.BoolVal(False))), V(e.this)[e.old.node],
        qall([m], z3.Implies(V(e.this)[m], REACH(e.old.node, m)), V(e.this)[m]),
        qall([m, c_], z3.Implies(z3.And(V(e.this)[m], ISOP(m, c_)), V(e.this)[c_]), ISOP(m, c_)),
        z3.Implies(NOLOOPS, ret == TOT(V(e.this)))])


def prop():
    return vf.Prop("C09", tu="rotcount.cpp", contracts=[process, process_i] + [op(k) for k in KINDS],
                   overrides=[(r"RotationCountVisitor$", lambda tm, mm: THISS), (r"SymbolicValue$", lambda tm, mm: SYM),
                              (r"variant<", lambda tm, mm: VARIANT),
                              (r"(^|::)(%s)(<.*>)?$" % "|".join(KINDS), lambda tm, mm: NODE),
                              (r"NodeTy \*$|NodeTy>$|ArithmeticDagNode<.*>( \*)?$", lambda tm, mm: NODE)],
                   func_hooks={"visit": h_visit}, node_field=field)


NATIVE = natspec.Native("c09.cpp", ["lib/Kernel/RotationCountVisitor.cpp"], seconds=(10, 90))
NOTE = ("Proved for every acyclic DAG of the twenty node kinds, any sharing, loop steps >= 1: each visitor method and the traversal "
        "meet the counting equations of their node kind (one equation per kind, from the documentation); a node is counted at its first "
        "occurrence only; the secrecy recorded for a node is that of its data operands; exactly the nodes reachable through operands are visited; without loops the "
        "count is the sum of the nodes' own rotations. Shift operands of rotations are not traversed, loop variables count as "
        "plaintext, as documented. Counts are mathematical integers (below 2^63); the 32-bit loop bounds are machine arithmetic. "
        "Trusted: std::visit calls the method of the active alternative, models of unordered_set/map, clang's AST, z3/cvc5, Lean.")

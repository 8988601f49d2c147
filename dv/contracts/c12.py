"""C12: graph algorithms.

A Graph<V> is its adjacency relation OUT over its vertices; INV is the representation invariant (the in-edge map is the
converse of the out-edge map, endpoints are vertices, the cached edge set is right unless marked stale).  Every member is
proved to keep INV and to have the documented effect on (vertices, OUT); the algorithms are proved over that relation."""
import z3
from sorts import *
from engine import Contract, Loop, Unsupported, Native
import vf, natspec, lib
from lemmas import Lemma, ghost

I, Bo = z3.IntSort(), z3.BoolSort()
IS = z3.ArraySort(I, Bo)
IA = z3.ArraySort(I, I)
PAIR = Tup([I, I])
GR = Rec("Graph", [("vertices", SetS(I)), ("outEdges", MapS(I, SetS(I))), ("inEdges", MapS(I, SetS(I))), ("weights", MapS(PAIR, I)),
                   ("cachedEdges", SetS(PAIR)), ("edgesDirty", Bo)])
CARD = z3.Function("CARD", IS, I)                   # number of members of a finite set
POS = z3.Function("POS", IA, I, I)                  # the first index >= 0 at which an array holds a value
DEGF = z3.Function("DEG", MapS(I, SetS(I)), I, I)    # the number of neighbours of a vertex
x_, y_, a_, b_, i_, j_ = z3.Ints("x_ y_ a_ b_ i_ j_")
EMPTY = z3.K(I, z3.BoolVal(False))


def g0(ex):
    return z3.Const("this!0", GR)


def VS(t):
    return acc(fld(t, "vertices"), 0)


def raw(t, f, a, b):
    mp = fld(t, f)
    return acc(acc(mp, 1)[a], 0)[b]


def REL(t, f, a, b):
    mp = fld(t, f)
    return z3.And(acc(mp, 0)[a], raw(t, f, a, b))


def OUT(t, a, b):
    return REL(t, "outEdges", a, b)


def IN(t, a, b):
    return REL(t, "inEdges", a, b)


def cards(t):
    out = [card(fld(t, "vertices")) == CARD(VS(t))]
    for f in ("outEdges", "inEdges"):
        mp = fld(t, f)
        out += [qall([x_], z3.Implies(acc(mp, 0)[x_], card(acc(mp, 1)[x_]) == CARD(acc(acc(mp, 1)[x_], 0))), acc(mp, 1)[x_])]
    return out


def INV(t):
    c = fld(t, "cachedEdges")
    p = mk(PAIR, a_, b_)
    return [qall([a_, b_], OUT(t, a_, b_) == IN(t, b_, a_), raw(t, "outEdges", a_, b_), raw(t, "inEdges", b_, a_)),
            qall([a_, b_], z3.Implies(OUT(t, a_, b_), z3.And(VS(t)[a_], VS(t)[b_])), raw(t, "outEdges", a_, b_)),
            z3.Implies(z3.Not(fld(t, "edgesDirty")), qall([a_, b_], mem(c, p) == OUT(t, a_, b_), mem(c, p), raw(t, "outEdges", a_, b_)))] + cards(t)


def DEG(t, f, v):
    return DEGF(fld(t, f), v)


def same(o, t):
    """the same graph: vertices and edges"""
    return [VS(t) == VS(o)] + [qall([x_], DEG(t, f, x_) == DEG(o, f, x_), DEG(t, f, x_), DEG(o, f, x_)) for f in ("outEdges", "inEdges")] + [qall([a_, b_], OUT(t, a_, b_) == OUT(o, a_, b_), raw(t, "outEdges", a_, b_))]


SETF = z3.Const("SETF", IS)
MPF = z3.Const("MPF", MapS(I, SetS(I)))
CARDS = [
    qall([MPF, x_], DEGF(MPF, x_) == z3.If(acc(MPF, 0)[x_], CARD(acc(acc(MPF, 1)[x_], 0)), 0), DEGF(MPF, x_)),
    CARD(EMPTY) == 0,
    qall([SETF], CARD(SETF) >= 0, CARD(SETF)),
    qall([SETF, x_], CARD(z3.Store(SETF, x_, True)) == CARD(SETF) + z3.If(SETF[x_], 0, 1), CARD(z3.Store(SETF, x_, True))),
    qall([SETF, x_], CARD(z3.Store(SETF, x_, False)) == CARD(SETF) - z3.If(SETF[x_], 1, 0), CARD(z3.Store(SETF, x_, False))),
]


def posdef(A):
    """the definition of POS, for one array"""
    return qall([i_], z3.Implies(i_ >= 0, z3.And(0 <= POS(A, A[i_]), POS(A, A[i_]) <= i_, A[POS(A, A[i_])] == A[i_])), A[i_])


def C(name, params=(), this=True, mod=False, req=lambda e: [], ens=None, entry=None, **kw):
    return Contract("Graph::" + name, params=list(params), this=g0 if this else None, modifies=["this"] if mod else [],
                    requires=lambda e: INV(e.this) + aslist(req(e)), ensures=ens, entry=entry or (lambda ex, e: CARDS), **kw)


def aslist(v):
    return v if isinstance(v, list) else [v]


def enum_of(r, S, L=True):
    """the vector r lists the set S (a predicate), increasing, once each"""
    return [qall([i_], z3.Implies(z3.And(0 <= i_, i_ < ln(r)), S(at(r, i_))), at(r, i_)),
            qall([i_], z3.Implies(z3.And(0 <= i_, i_ < ln(r)), POS(arr(r), at(r, i_)) == i_), at(r, i_)),
            qall([x_], z3.Implies(S(x_), z3.And(0 <= POS(arr(r), x_), POS(arr(r), x_) < ln(r), at(r, POS(arr(r), x_)) == x_)), POS(arr(r), x_)),
            qall([i_, j_], z3.Implies(z3.And(0 <= i_, i_ < j_, j_ < ln(r)), at(r, i_) < at(r, j_)), (at(r, i_), at(r, j_)))]


def frame(o, t):
    """nothing observable changes, whether or not the in-edges are the converse of the out-edges"""
    return cards(t) + same(o, t) + [
        qall([a_, b_], IN(t, b_, a_) == IN(o, b_, a_), raw(t, "inEdges", b_, a_)), fld(t, "cachedEdges") == fld(o, "cachedEdges"),
        fld(t, "edgesDirty") == fld(o, "edgesDirty")]


def lists(f):
    """edgesOutOf / edgesInto (also in the middle of an update, when INV does not hold)"""
    def ens(e, ret):
        o, t, v = e.old.this, e.this, e.old.vertex
        known = VS(o)[v]
        return frame(o, t) + [z3.Implies(z3.Not(known), ln(ret) == 0), z3.Implies(known, ln(ret) == DEG(o, f, v))] + \
            enum_of(ret, lambda x: z3.And(known, REL(o, f, v, x)))
    return ens


def L(name, f):
    return Contract("Graph::" + name, params=["vertex"], this=g0, modifies=["this"], requires=lambda e: cards(e.this), ensures=lists(f),
                    entry=lambda ex, e: CARDS, post_hints=lambda e, ret: [posdef(arr(ret))])


def two(f):
    return len(f.params) == 2


CONTRACTS = [
    C("addVertex", ["vertex"], mod=True, ens=lambda e, ret: INV(e.this) + [
        VS(e.this) == z3.Store(VS(e.old.this), e.old.vertex, True), qall([a_, b_], OUT(e.this, a_, b_) == OUT(e.old.this, a_, b_), raw(e.this, "outEdges", a_, b_))]),
    C("addEdge", ["source", "target"], mod=True, pick=two, title="addEdge", ens=lambda e, ret: (lambda o, t, s, d, ok: INV(t) + [
        ret == ok, VS(t) == VS(o), fld(t, "edgesDirty") == z3.Or(ok, fld(o, "edgesDirty")),
        qall([a_, b_], OUT(t, a_, b_) == z3.Or(OUT(o, a_, b_), z3.And(ok, a_ == s, b_ == d)), raw(t, "outEdges", a_, b_))])(
            e.old.this, e.this, e.old.source, e.old.target, z3.And(VS(e.old.this)[e.old.source], VS(e.old.this)[e.old.target]))),
    C("addEdge", ["source", "target", "weight"], mod=True, pick=lambda f: not two(f), title="addEdge (weighted)", ens=lambda e, ret: (lambda o, t, s, d, ok: INV(t) + [
        ret == ok, VS(t) == VS(o), fld(t, "edgesDirty") == z3.Or(ok, fld(o, "edgesDirty")),
        qall([a_, b_], OUT(t, a_, b_) == z3.Or(OUT(o, a_, b_), z3.And(ok, a_ == s, b_ == d)), raw(t, "outEdges", a_, b_))])(
            e.old.this, e.this, e.old.source, e.old.target, z3.And(VS(e.old.this)[e.old.source], VS(e.old.this)[e.old.target]))),
    C("hasEdge", ["source", "target"], mod=True, ens=lambda e, ret: INV(e.this) + same(e.old.this, e.this) + [
        ret == OUT(e.old.this, e.old.source, e.old.target)]),
    C("contains", ["vertex"], ens=lambda e, ret: [ret == VS(e.old.this)[e.old.vertex]]),
    L("edgesOutOf", "outEdges"),
    L("edgesInto", "inEdges"),
    C("getOutDegree", ["vertex"], ens=lambda e, ret: [ret == DEG(e.old.this, "outEdges", e.old.vertex)]),
    C("getInDegree", ["vertex"], ens=lambda e, ret: [ret == DEG(e.old.this, "inEdges", e.old.vertex)]),
]



def e_src(e):
    o, t, q = e.old.this, e.this, e.idx(0)
    c = fld(t, "cachedEdges")
    return [fld(t, f) == fld(o, f) for f in ("vertices", "outEdges", "inEdges")] + [z3.Not(fld(t, "edgesDirty")),
            qall([a_, b_], mem(c, mk(PAIR, a_, b_)) == z3.And(OUT(o, a_, b_), e.elempos(0, a_) < q), mem(c, mk(PAIR, a_, b_)), raw(o, "outEdges", a_, b_))]


def e_tgt(e):
    o, t, q, q1, s = e.old.this, e.this, e.idx(0), e.idx(1), e.source
    c = fld(t, "cachedEdges")
    return [fld(t, f) == fld(o, f) for f in ("vertices", "outEdges", "inEdges")] + [z3.Not(fld(t, "edgesDirty")),
            qall([a_, b_], mem(c, mk(PAIR, a_, b_)) == z3.And(OUT(o, a_, b_), z3.Or(e.elempos(0, a_) < q, z3.And(a_ == s, e.elempos(1, b_) < q1))),
                 mem(c, mk(PAIR, a_, b_)), raw(o, "outEdges", a_, b_))]


CONTRACTS += [C("getEdges", [], mod=True, ens=lambda e, ret: INV(e.this) + same(e.old.this, e.this) + [
    qall([a_, b_], mem(ret, mk(PAIR, a_, b_)) == OUT(e.old.this, a_, b_), mem(ret, mk(PAIR, a_, b_)))], loops={0: Loop(e_src), 1: Loop(e_tgt)})]

# ---------------------------------------------------------------- contraction
def k_ok(e):
    o = e.old.this
    return OUT(o, e.old.source, e.old.target)


def listed(r, S):
    return enum_of(r, S)[:3]


def k_out(e):
    """redirect the edges out of the target"""
    o, t, s, d, r, q = e.old.this, e.this, e.old.source, e.old.target, e.rng(0), e.idx(0)
    return INV(t) + listed(r, lambda x: OUT(o, d, x)) + [VS(t) == VS(o), fld(t, "edgesDirty"), qall([a_, b_], OUT(t, a_, b_) == z3.Or(OUT(o, a_, b_), z3.And(
        a_ == s, b_ != s, OUT(o, d, b_), POS(arr(r), b_) < q)), raw(t, "outEdges", a_, b_))]


def k_in(e):
    """redirect the edges into the target"""
    o, t, s, d, r, q = e.old.this, e.this, e.old.source, e.old.target, e.rng(1), e.idx(1)
    return INV(t) + listed(r, lambda x: OUT(o, x, d)) + [VS(t) == VS(o), fld(t, "edgesDirty"), qall([a_, b_], OUT(t, a_, b_) == z3.Or(OUT(o, a_, b_), z3.And(
        a_ == s, b_ != s, OUT(o, d, b_)), z3.And(b_ == s, a_ != s, OUT(o, a_, d), POS(arr(r), a_) < q)), raw(t, "outEdges", a_, b_))]


def merged(o, s, d):
    return z3.Or(OUT(o, a_, b_), z3.And(a_ == s, b_ != s, OUT(o, d, b_)), z3.And(b_ == s, a_ != s, OUT(o, a_, d)))


def k_now(e):
    """the edges between the remaining vertices are as they should be; what is left at the target is known on both sides"""
    o, t, s, d = e.old.this, e.this, e.old.source, e.old.target
    rest = z3.And(a_ != d, b_ != d)
    return [qall([a_, b_], z3.Implies(rest, OUT(t, a_, b_) == merged(o, s, d)), raw(t, "outEdges", a_, b_)),
            qall([a_, b_], z3.Implies(OUT(t, a_, b_), z3.And(VS(o)[a_], VS(o)[b_])), raw(t, "outEdges", a_, b_)),
            qall([a_, b_], z3.Implies(rest, OUT(t, a_, b_) == IN(t, b_, a_)), raw(t, "outEdges", a_, b_), raw(t, "inEdges", b_, a_))]


def k_dropin(e):
    o, t, s, d, r, q = e.pre.this, e.this, e.old.source, e.old.target, e.rng(2), e.idx(2)
    return cards(t) + k_now(e) + listed(r, lambda x: OUT(t, d, x)) + [z3.Not(OUT(t, s, d)), qall([a_], z3.Implies(a_ != d, z3.Implies(OUT(t, a_, d), IN(t, d, a_))), raw(t, "outEdges", a_, d)),
                       qall([b_], z3.Implies(z3.And(b_ != d, IN(t, b_, d)), z3.And(OUT(t, d, b_), POS(arr(r), b_) >= q)), raw(t, "inEdges", b_, d)),
                       VS(t) == VS(e.old.this), fld(t, "edgesDirty"), fld(t, "outEdges") == fld(o, "outEdges"),
                       qall([a_, b_], IN(t, b_, a_) == z3.And(IN(o, b_, a_), z3.Not(z3.And(a_ == d, OUT(o, d, b_), POS(arr(r), b_) < q))), raw(t, "inEdges", b_, a_))]


def k_dropout(e):
    o, t, s, d, r, q = e.pre.this, e.this, e.old.source, e.old.target, e.rng(3), e.idx(3)
    return cards(t) + k_now(e) + listed(r, lambda x: IN(t, d, x)) + [qall([a_], z3.Implies(z3.And(a_ != d, OUT(t, a_, d)), z3.And(IN(t, d, a_), POS(arr(r), a_) >= q)), raw(t, "outEdges", a_, d)),
                       qall([b_], z3.Implies(b_ != d, z3.Not(IN(t, b_, d))), raw(t, "inEdges", b_, d)),
                       VS(t) == VS(e.old.this), fld(t, "edgesDirty"), fld(t, "inEdges") == fld(o, "inEdges"),
                       qall([a_, b_], OUT(t, a_, b_) == z3.And(OUT(o, a_, b_), z3.Not(z3.And(b_ == d, IN(o, d, a_), POS(arr(r), a_) < q))), raw(t, "outEdges", a_, b_))]


def k_ens(e, ret):
    o, t, s, d = e.old.this, e.this, e.old.source, e.old.target
    ok = OUT(o, s, d)
    want = z3.If(z3.Not(ok), OUT(o, a_, b_), z3.If(s == d, z3.And(OUT(o, a_, b_), z3.Not(z3.And(a_ == s, b_ == s))), z3.And(a_ != d, b_ != d, merged(o, s, d))))
    return INV(t) + [ret == ok, z3.Implies(z3.Or(z3.Not(ok), s == d), VS(t) == VS(o)), z3.Implies(z3.And(ok, s != d), VS(t) == z3.Store(VS(o), d, False)),
                     qall([a_, b_], OUT(t, a_, b_) == want, raw(t, "outEdges", a_, b_))]


CONTRACTS += [C("contractEdge", ["source", "target", "mergeFn"], mod=True, ens=k_ens,
                closures={"mergeFn": Native(lambda ex, a: None, "mergeFn", z3.Const("hasMerge", Bo))},
                loops={0: Loop(k_out, forget=True), 1: Loop(k_in, forget=True), 2: Loop(k_dropin, forget=True), 3: Loop(k_dropout, forget=True)})]

# ---------------------------------------------------------------- topological order and levels
DSET = z3.Function("DSET", IA, I, IS)               # the values among the first n entries of an array
NPRED = z3.Function("NPRED", IS, I, I)              # how many predecessors of x are not in D
WPRED = z3.Function("WPRED", IS, I, I)              # one of them
CERT = z3.Const("someSetEntersItself", Bo)          # some non-empty set of vertices has, for each member, an edge from a member
ORD = z3.Function("ordered", GR, Bo)                # the graph has a topological order
H = z3.Function("height", GR, I, I)                 # then: the longest path from a vertex to an output,
NEXT = z3.Function("heightNext", GR, I, I)          # a second vertex of such a path,
MAXH = z3.Function("maxHeight", GR, I)              # the largest height (0 for no vertices)
MAXW = z3.Function("maxHeightAt", GR, I)            # and a vertex that has it
n_, v_ = z3.Ints("n_ v_")
A_ = z3.Const("A_", IA)
D_ = z3.Const("D_", IS)
E0 = z3.Const("noneYet", IS)                        # the empty set, as a name
OCC = [qall([A_, n_, x_], z3.Implies(DSET(A_, n_)[x_], z3.And(0 <= POS(A_, x_), POS(A_, x_) < n_, A_[POS(A_, x_)] == x_)), DSET(A_, n_)[x_]),
       qall([A_, n_, i_], z3.Implies(z3.And(0 <= i_, i_ < n_), DSET(A_, n_)[A_[i_]]), (DSET(A_, n_), A_[i_])),
       qall([A_], DSET(A_, 0) == E0, DSET(A_, 0)), CARD(E0) == 0, qall([x_], z3.Not(E0[x_]), E0[x_]),
       qall([A_, n_, v_, i_], z3.Implies(z3.And(n_ >= 0, i_ == n_ + 1), DSET(z3.Store(A_, n_, v_), i_) == z3.Store(DSET(A_, n_), v_, True)),
            DSET(z3.Store(A_, n_, v_), i_)),
       qall([A_, n_, v_, x_], z3.Implies(z3.And(n_ >= 0), z3.And(
           z3.Implies(DSET(A_, n_)[x_], POS(z3.Store(A_, n_, v_), x_) == POS(A_, x_)),
           z3.Implies(z3.And(x_ == v_, z3.Not(DSET(A_, n_)[x_])), POS(z3.Store(A_, n_, v_), x_) == n_))), POS(z3.Store(A_, n_, v_), x_))]


def preds(o):
    """NPRED(D, x) = |{y : OUT(y, x), y not in D}|"""
    return [qall([D_, x_], z3.And(NPRED(D_, x_) >= 0, NPRED(D_, x_) <= DEG(o, "inEdges", x_)), NPRED(D_, x_)),
            qall([D_, x_], z3.And(NPRED(D_, x_) >= 0, z3.Implies(NPRED(D_, x_) > 0, z3.And(OUT(o, WPRED(D_, x_), x_), z3.Not(D_[WPRED(D_, x_)])))), NPRED(D_, x_), WPRED(D_, x_)),
            qall([D_, x_, y_], z3.Implies(z3.And(OUT(o, y_, x_), z3.Not(D_[y_])), NPRED(D_, x_) > 0), (NPRED(D_, x_), raw(o, "outEdges", y_, x_))),
            qall([D_, x_, y_], NPRED(z3.Store(D_, y_, True), x_) == NPRED(D_, x_) - z3.If(z3.And(OUT(o, y_, x_), z3.Not(D_[y_])), 1, 0),
                 NPRED(z3.Store(D_, y_, True), x_)),
            qall([x_], NPRED(E0, x_) == DEG(o, "inEdges", x_), NPRED(E0, x_))]


DIFF = z3.Function("DIFF", IS, IS, I)                # a member of the second set only


def subset(a, b):
    """cardinalities of a set and one that contains it (for finite sets)"""
    sub = z3.ForAll([x_], z3.Implies(a[x_], b[x_]))
    d = DIFF(a, b)
    return z3.Implies(sub, z3.And(CARD(a) <= CARD(b), z3.Implies(CARD(a) == CARD(b), a == b), z3.Or(CARD(a) == CARD(b), z3.And(b[d], z3.Not(a[d])))))


def seen(v):
    return DSET(arr(v), ln(v))


def distinct(v):
    return qall([i_, j_], z3.Implies(z3.And(0 <= i_, i_ < j_, j_ < ln(v)), at(v, i_) != at(v, j_)), (at(v, i_), at(v, j_)))


def cnt(e, x):
    return acc(e.edgeCount, 1)[x]


def topo_ok(o, r):
    V = VS(o)
    return [ln(r) == CARD(V), distinct(r), qall([i_], z3.Implies(z3.And(0 <= i_, i_ < ln(r)), V[at(r, i_)]), at(r, i_)),
            qall([x_], z3.Implies(V[x_], z3.And(0 <= POS(arr(r), x_), POS(arr(r), x_) < ln(r), at(r, POS(arr(r), x_)) == x_)), POS(arr(r), x_)),
            qall([x_, y_], z3.Implies(OUT(o, x_, y_), POS(arr(r), x_) < POS(arr(r), y_)), raw(o, "outEdges", x_, y_))]


def t_start(e):
    o, q = e.old.this, e.idx(0)
    V, act = VS(o), seen(e.active)
    done = lambda x: z3.And(V[x], e.elempos(0, x) < q)
    return INV(e.this) + same(o, e.this) + [
        ln(e.result) == 0, distinct(e.active), ln(e.active) >= 0,
        qall([x_], z3.Implies(done(x_), z3.And(acc(e.edgeCount, 0)[x_], cnt(e, x_) == DEG(o, "inEdges", x_))), cnt(e, x_)),
        qall([x_], z3.Implies(act[x_], z3.And(done(x_), DEG(o, "inEdges", x_) == 0)), act[x_]),
        qall([x_], z3.Implies(z3.And(done(x_), DEG(o, "inEdges", x_) == 0), act[x_]), act[x_], DEG(o, "inEdges", x_))]


def t_common(e, D):
    o = e.old.this
    V, act = VS(o), seen(e.active)
    return INV(e.this) + same(o, e.this) + [
        distinct(e.result), distinct(e.active), ln(e.active) >= 0, ln(e.result) >= 0, CARD(D) == ln(e.result), ln(e.result) <= CARD(V),
        qall([x_], z3.Implies(D[x_], V[x_]), D[x_]),
        qall([x_], z3.Implies(act[x_], z3.And(V[x_], z3.Not(D[x_]), NPRED(D, x_) == 0)), act[x_]),
        qall([x_], z3.Implies(V[x_], acc(e.edgeCount, 0)[x_]), acc(e.edgeCount, 0)[x_]),
        qall([y_, x_], z3.Implies(z3.And(OUT(o, y_, x_), D[x_]), z3.And(D[y_], POS(arr(e.result), y_) < POS(arr(e.result), x_))), raw(o, "outEdges", y_, x_))]


def t_main(e):
    o, D = e.old.this, seen(e.result)
    V, act = VS(o), seen(e.active)
    return t_common(e, D) + [
        qall([x_], z3.Implies(V[x_], cnt(e, x_) == NPRED(D, x_)), cnt(e, x_)),
        qall([x_], z3.Implies(z3.And(V[x_], NPRED(D, x_) == 0), z3.Or(D[x_], act[x_])), NPRED(D, x_))]


def t_relax(e):
    o, D, q, s = e.old.this, seen(e.result), e.idx(2), e.source
    D0 = seen(mk(e.result.sort(), arr(e.result), ln(e.result) - 1))
    V, act, r = VS(o), seen(e.active), e.rng(2)
    todo = lambda x: z3.And(OUT(o, s, x), POS(arr(r), x) >= q)
    return t_common(e, D) + [
        D == z3.Store(D0, s, True), z3.Not(D0[s]), V[s], ln(e.result) >= 1,
        qall([x_], z3.Implies(V[x_], cnt(e, x_) == NPRED(D, x_) + z3.If(todo(x_), 1, 0)), cnt(e, x_)),
        qall([x_], z3.Implies(act[x_], z3.Not(todo(x_))), act[x_]),
        qall([x_], z3.Implies(z3.And(V[x_], NPRED(D, x_) == 0, z3.Not(todo(x_))), z3.Or(D[x_], act[x_])), NPRED(D, x_))]


def pop(e, w):
    """the set of the first n entries, from that of the first n - 1"""
    A, n = arr(e.active), ln(e.active)
    return [subset(seen(e.result), VS(e.old.this)), z3.Implies(n >= 1, DSET(A, n) == z3.Store(DSET(A, n - 1), A[n - 1], True))]


def cyc(o, R, w, pred):
    """the definition of CERT: at the set R, with its member w and a predecessor for each member"""
    return z3.Implies(z3.And(R(w), z3.ForAll([x_], z3.Implies(R(x_), z3.And(R(pred(x_)), OUT(o, pred(x_), x_))))), CERT)


def t_post(e, ret):
    o, D = e.old.this, seen(e.result)
    return [z3.Implies(z3.And(has(ret), *topo_ok(o, get(ret))), ORD(o)), subset(D, VS(o)), cyc(o, lambda x: z3.And(VS(o)[x], z3.Not(D[x])), DIFF(D, VS(o)), lambda x: WPRED(D, x))]


CONTRACTS += [
    C("topologicalSort", [], mod=True, req=lambda e: [qall([x_], DEG(e.this, "inEdges", x_) < 2 ** 62, DEG(e.this, "inEdges", x_))], entry=lambda ex, e: CARDS + OCC + preds(e.this),
      ens=lambda e, ret: INV(e.this) + same(e.old.this, e.this) + [z3.Implies(has(ret), f) for f in topo_ok(e.old.this, get(ret))] + [
          z3.Implies(z3.Not(has(ret)), CERT), z3.Implies(has(ret), ORD(e.old.this))], post_hints=t_post,
      loops={0: Loop(t_start), 1: Loop(t_main, hints=pop, dec=lambda e: CARD(VS(e.old.this)) - ln(e.result)), 2: Loop(t_relax, hints=lambda e, w: [subset(seen(e.result), VS(e.old.this))])})]



def heights(o):
    """the longest paths to an output, defined by recursion on a topological order"""
    V = VS(o)
    return [z3.Implies(ORD(o), f) for f in [
        qall([x_], z3.Implies(V[x_], z3.And(H(o, x_) >= 0, H(o, x_) <= MAXH(o))), H(o, x_)),
        qall([x_, y_], z3.Implies(OUT(o, x_, y_), H(o, x_) >= H(o, y_) + 1), raw(o, "outEdges", x_, y_)),
        qall([x_], z3.Implies(z3.And(V[x_], H(o, x_) > 0), z3.And(OUT(o, x_, NEXT(o, x_)), H(o, x_) == H(o, NEXT(o, x_)) + 1)), H(o, x_)),
        MAXH(o) >= 0, z3.Implies(MAXH(o) > 0, z3.And(V[MAXW(o)], H(o, MAXW(o)) == MAXH(o)))]]


def l_common(e, q):
    """the first q vertices of the reversed order have their level"""
    o, r = e.old.this, get(e.result)
    V, n = VS(o), ln(get(e.result))
    done = lambda x: z3.And(V[x], n - 1 - POS(arr(r), x) < q)
    return INV(e.this) + same(o, e.this) + [
        qall([x_], acc(e.levels, 0)[x_] == done(x_), acc(e.levels, 0)[x_]),
        qall([x_], z3.Implies(done(x_), z3.And(acc(e.levels, 1)[x_] == H(o, x_), H(o, x_) <= e.maxLevel)), acc(e.levels, 1)[x_]),
        0 <= e.maxLevel, e.maxLevel <= MAXH(o)]


def l_each(e):
    return l_common(e, e.idx(0))


def l_edges(e):
    o, r, q, v = e.old.this, e.rng(1), e.idx(1), e.vertex
    return l_common(e, e.idx(0)) + [
        -1 <= e.maxSourceLevel, e.maxSourceLevel <= H(o, v) - 1,
        qall([i_], z3.Implies(z3.And(0 <= i_, i_ < q), H(o, at(r, i_)) <= e.maxSourceLevel), at(r, i_))]


def l_rows(o, out, M, done):
    V = VS(o)
    k = z3.Int("k_")
    row = at(out, k)
    ok = z3.And(0 <= k, k < ln(out))
    return [ln(out) == M + 1,
            qall([k], z3.Implies(ok, ln(row) >= 0), row),
            qall([k, x_], z3.Implies(ok, DSET(arr(row), ln(row))[x_] == z3.And(V[x_], H(o, x_) == M - k, done(x_))), DSET(arr(row), ln(row))[x_]),
            qall([k, i_, j_], z3.Implies(z3.And(ok, 0 <= i_, i_ < j_, j_ < ln(row)), z3.And(at(row, i_) != at(row, j_), DSET(arr(row), ln(row))[at(row, i_)])), (at(row, i_), at(row, j_)))]


def l_out(e):
    o = e.old.this
    return INV(e.this) + same(o, e.this) + [e.maxLevel == MAXH(o), MAXH(o) >= 0] + l_rows(o, e.output, MAXH(o), lambda x: e.elempos(2, x) < e.idx(2))


CONTRACTS += [
    C("sortGraphByLevels", [], mod=True, entry=lambda ex, e: CARDS + OCC + heights(e.this),
      req=lambda e: [qall([x_], DEG(e.this, "inEdges", x_) < 2 ** 62, DEG(e.this, "inEdges", x_)), MAXH(e.this) < 2 ** 31 - 2],
      ens=lambda e, ret: INV(e.this) + same(e.old.this, e.this) + [
          z3.Implies(z3.Not(has(ret)), CERT)] + [z3.Implies(has(ret), f) for f in l_rows(e.old.this, get(ret), MAXH(e.old.this), lambda x: z3.BoolVal(True))],
      loops={0: Loop(l_each), 1: Loop(l_edges), 2: Loop(l_out, forget=True)})]

# ---------------------------------------------------------------- undirected graphs
UG = Rec("UndirectedGraph", [("vertices", SetS(I)), ("edges", MapS(I, SetS(I)))])


def ADJ(t, a, b):
    return REL(t, "edges", a, b)


def UINV(t):
    return [qall([a_, b_], z3.Implies(ADJ(t, a_, b_), z3.And(ADJ(t, b_, a_), VS(t)[a_], VS(t)[b_])), raw(t, "edges", a_, b_))]


def usame(o, t):
    return [VS(t) == VS(o), qall([a_, b_], ADJ(t, a_, b_) == ADJ(o, a_, b_), raw(t, "edges", a_, b_))]


def U(name, params, mod, ens, **kw):
    return Contract("UndirectedGraph::" + name, params=params, this=lambda ex: z3.Const("this!0", UG), modifies=["this"] if mod else [],
                    requires=lambda e: UINV(e.this), ensures=ens, **kw)


def u_add(e, ret):
    o, t, s, d = e.old.this, e.this, e.old.source, e.old.target
    ok = z3.And(VS(o)[s], VS(o)[d])
    return UINV(t) + [ret == ok, VS(t) == VS(o),
                      qall([a_, b_], ADJ(t, a_, b_) == z3.Or(ADJ(o, a_, b_), z3.And(ok, z3.Or(z3.And(a_ == s, b_ == d), z3.And(a_ == d, b_ == s)))), raw(t, "edges", a_, b_))]


CONTRACTS += [
    U("addVertex", ["vertex"], True, lambda e, ret: UINV(e.this) + [
        VS(e.this) == z3.Store(VS(e.old.this), e.old.vertex, True), qall([a_, b_], ADJ(e.this, a_, b_) == ADJ(e.old.this, a_, b_), raw(e.this, "edges", a_, b_))]),
    U("hasEdge", ["source", "target"], True, lambda e, ret: UINV(e.this) + usame(e.old.this, e.this) + [ret == ADJ(e.old.this, e.old.source, e.old.target)]),
    U("addEdge", ["source", "target"], True, u_add),
    U("contains", ["vertex"], False, lambda e, ret: [ret == VS(e.old.this)[e.old.vertex]]),
    U("edgesIncidentTo", ["vertex"], False, lambda e, ret: enum_of(ret, lambda x: ADJ(e.old.this, e.old.vertex, x)), post_hints=lambda e, ret: [posdef(arr(ret))]),
]

# ---------------------------------------------------------------- greedy colouring
INFO = Rec("VertexInfo", [("vertex", I), ("saturationDegree", I), ("uncoloredDegree", I)])
PQ = Rec("PriorityQueue", [("count", z3.ArraySort(INFO, I))])     # how often each entry is queued
GC = Rec("Coloring", [("colors", MapS(I, I)), ("neighborColors", MapS(I, SetS(I))), ("vertexSaturations", MapS(I, INFO)), ("queue", PQ)])
in_ = z3.Const("in_", INFO)


def CNT(t):
    return fld(fld(t, "queue"), "count")


def COL(t, x):
    return acc(fld(t, "colors"), 0)[x]


def COLV(t, x):
    return acc(fld(t, "colors"), 1)[x]


def NCD(t, x):
    return acc(fld(t, "neighborColors"), 0)[x]


def NC(t, x, c):
    return acc(acc(fld(t, "neighborColors"), 1)[x], 0)[c]


def SAT(t, x):
    return acc(fld(t, "vertexSaturations"), 1)[x]


def SATD(t, x):
    return acc(fld(t, "vertexSaturations"), 0)[x]


def qempty(t):
    return qall([in_], CNT(t)[in_] == 0, CNT(t)[in_])


def entries(t, g):
    return [qall([in_], z3.And(CNT(t)[in_] >= 0, z3.Implies(CNT(t)[in_] > 0, VS(g)[fld(in_, "vertex")])), CNT(t)[in_])]


def waiting(t, x):
    """the queue holds the current entry of x"""
    return z3.And(SATD(t, x), fld(SAT(t, x), "vertex") == x, CNT(t)[SAT(t, x)] > 0)


def queued(t, g, also=lambda x: z3.BoolVal(False)):
    return [qall([x_], z3.Implies(z3.And(VS(g)[x_], z3.Not(COL(t, x_)), z3.Not(also(x_))), waiting(t, x_)), SAT(t, x_))]


def known(t, g):
    """colours in use, and what uncoloured vertices know of their neighbours' colours"""
    return [qall([x_], z3.Implies(COL(t, x_), VS(g)[x_]), COL(t, x_)),
            qall([x_], z3.Implies(VS(g)[x_], NCD(t, x_)), NCD(t, x_)),
            qall([a_, b_], z3.Implies(z3.And(COL(t, a_), COL(t, b_), a_ != b_, ADJ(g, a_, b_)), COLV(t, a_) != COLV(t, b_)), (COLV(t, a_), COLV(t, b_)))]


def aware(t, g):
    return [qall([a_, b_], z3.Implies(z3.And(ADJ(g, a_, b_), z3.Not(COL(t, a_)), COL(t, b_)), NC(t, a_, COLV(t, b_))), raw(g, "edges", a_, b_))]


def gc0(ex):
    return z3.Const("this!0", GC)


def s_ens(e, ret):
    o, t, v = e.old.this, e.this, e.old.vertex
    return [fld(t, "colors") == fld(o, "colors"), fld(t, "neighborColors") == fld(o, "neighborColors"),
            fld(SAT(t, v), "vertex") == v, acc(fld(t, "vertexSaturations"), 0) == z3.Store(acc(fld(o, "vertexSaturations"), 0), v, True),
            qall([x_], z3.Implies(x_ != v, SAT(t, x_) == SAT(o, x_)), SAT(t, x_)),
            CNT(t) == z3.Store(CNT(o), SAT(t, v), CNT(o)[SAT(t, v)] + 1)]


def n_common(e):
    g, o, t, v, c = e.old.graph, e.old.this, e.this, e.old.vertex, e.old.color
    return [fld(t, "colors") == fld(o, "colors")] + entries(t, g) + queued(t, g) + [
        qall([x_], NCD(t, x_) == NCD(o, x_), NCD(t, x_)), qall([a_, b_], z3.Implies(NC(o, a_, b_), NC(t, a_, b_)), NC(t, a_, b_))]


def n_loop(e):
    t, v, c, q, r = e.this, e.old.vertex, e.old.color, e.idx(0), e.rng(0)
    return n_common(e) + listed(r, lambda x: ADJ(e.old.graph, v, x)) + [
        qall([x_], z3.Implies(z3.And(ADJ(e.old.graph, v, x_), z3.Not(COL(t, x_)), POS(arr(r), x_) < q), NC(t, x_, c)), raw(e.old.graph, "edges", v, x_))]


def n_ens(e, ret):
    t, v, c = e.this, e.old.vertex, e.old.color
    return n_common(e) + [qall([x_], z3.Implies(z3.And(ADJ(e.old.graph, v, x_), z3.Not(COL(t, x_))), NC(t, x_, c)), raw(e.old.graph, "edges", v, x_))]


def c_start(e):
    g, t, q = e.old.graph, e.this, e.idx(0)
    done = lambda x: e.elempos(0, x) < q
    return [qall([x_], z3.Not(COL(t, x_)), COL(t, x_)), qall([x_], z3.Implies(z3.And(VS(g)[x_], done(x_)), NCD(t, x_)), NCD(t, x_))] + entries(t, g) + \
        queued(t, g, lambda x: z3.Not(done(x)))


def c_main(e):
    return known(e.this, e.old.graph) + aware(e.this, e.old.graph) + entries(e.this, e.old.graph) + queued(e.this, e.old.graph)


def c_pick(e):
    t, v = e.this, fld(e.current, "vertex")
    return [t == e.pre.this, e.color >= 0]


def c_ens(e, ret):
    g, t = e.old.graph, e.this
    return [qempty(t), qall([x_], acc(ret, 0)[x_] == VS(g)[x_], acc(ret, 0)[x_]), 
            qall([a_, b_], z3.Implies(z3.And(a_ != b_, ADJ(g, a_, b_)), acc(ret, 1)[a_] != acc(ret, 1)[b_]), (acc(ret, 1)[a_], acc(ret, 1)[b_]))]


CONTRACTS += [
    Contract("GreedyGraphColoring::updateSaturationDegree", params=["graph", "vertex"], this=gc0, modifies=["this"], overflow="math",
             requires=lambda e: UINV(e.graph) + [NCD(e.this, e.vertex)], ensures=s_ens, loops={0: Loop(lambda e: [e.this == e.old.this])}),
    Contract("GreedyGraphColoring::updateNeighborSaturation", params=["graph", "vertex", "color"], this=gc0, modifies=["this"],
             requires=lambda e: UINV(e.graph) + entries(e.this, e.graph) + queued(e.this, e.graph) + known(e.this, e.graph)[1:2],
             ensures=n_ens, loops={0: Loop(n_loop)}),
    Contract("GreedyGraphColoring::color", params=["graph"], this=gc0, modifies=["this"], overflow="math",
             requires=lambda e: UINV(e.graph) + [qempty(e.this)], ensures=c_ens, loops={0: Loop(c_start), 1: Loop(c_main), 2: Loop(c_pick)}),
]


def pq(ex, n, fr, core, name, getobj, args, want_lv):
    lv = getobj()
    v = ex.load(lv) if not isinstance(lv, z3.ExprRef) else lv
    if not (isinstance(v, z3.ExprRef) and v.sort() == PQ):
        return NotImplemented
    lib.note("std::priority_queue as the multiset of its entries (which entry is on top is left open)")
    A = fld(v, "count")
    if name == "push":
        x = ex.coerce_sort(ex.eval(args[0], fr), INFO)
        ex.storev(lv, mk(PQ, z3.Store(A, x, A[x] + 1)))
        return UNIT.constructor(0)()
    e0 = z3.ForAll([in_], A[in_] == 0)
    if name == "empty":
        return e0
    ex.check(z3.Exists([in_], A[in_] > 0), "priority queue not empty", n)
    top = TOP(A)
    ex.assume(z3.Implies(z3.Not(e0), A[top] != 0))
    if name == "top":
        return top
    if name == "pop":
        ex.storev(lv, mk(PQ, z3.Store(A, top, A[top] - 1)))
        return UNIT.constructor(0)()
    return NotImplemented


TOP = z3.Function("TOP", z3.ArraySort(INFO, I), INFO)

# ---------------------------------------------------------------- shortest path
QU = Rec("Queue", [("count", IA)])                                   # how often each value is queued
EA, WA = z3.ArraySort(I, IS), z3.ArraySort(I, IA)
SPL = ghost("spl", "DV.spl", EA, WA, I, I, I, I)                     # the least length below M of a walk from s to t, else M
PLEN = ghost("plen", "DV.plen", IA, WA, I, I)                        # the length of the first n edges of a path
EDG = z3.Const("edges!ghost", EA)
WGT = z3.Const("weight!ghost", WA)
Ov, Wv, Fv, Pv = z3.Const("O", EA), z3.Const("W", WA), z3.Const("F", IA), z3.Const("P", IA)
M_, s_, t_, k_, u_, w_ = z3.Ints("M s t n a b")
UMAX = z3.IntVal(2 ** 64 - 1)


def sp_pot(O, W, F, M):
    return [z3.ForAll([u_, w_], W[u_][w_] >= 0), F[s_] == 0,
            z3.ForAll([u_, w_], z3.Implies(O[u_][w_], z3.Implies(F[u_] < M, z3.Implies(W[u_][w_] < M - F[u_], F[w_] <= F[u_] + W[u_][w_]))))]


SPL_NONE = Lemma("spl_none", [Ov, Wv, Fv, M_, s_, t_], SPL(Ov, Wv, M_, s_, t_) == M_, sp_pot(Ov, Wv, Fv, M_) + [Fv[t_] == M_], module="Paths")
SPL_SOME = Lemma("spl_some", [Ov, Wv, Fv, M_, s_, t_, Pv, k_], z3.And(PLEN(Pv, Wv, k_) == SPL(Ov, Wv, M_, s_, t_), SPL(Ov, Wv, M_, s_, t_) < M_),
                 sp_pot(Ov, Wv, Fv, M_) + [Fv[t_] < M_, k_ >= 0, Pv[0] == s_, Pv[k_] == t_,
                 z3.ForAll([i_], z3.Implies(0 <= i_, z3.Implies(i_ < k_, Ov[Pv[i_]][Pv[i_ + 1]]))),
                 z3.ForAll([i_], z3.Implies(0 <= i_, z3.Implies(i_ < k_, Fv[Pv[i_]] + Wv[Pv[i_]][Pv[i_ + 1]] <= Fv[Pv[i_ + 1]])))], module="Paths")


def edges_are(o):
    return qall([a_, b_], EDG[a_][b_] == OUT(o, a_, b_), raw(o, "outEdges", a_, b_), EDG[a_][b_])


def dst(e, x):
    return acc(e.distance, 1)[x]


def qn(e, x):
    return fld(e.q, "count")[x]


def tight(e, p, x):
    return z3.And(EDG[p][x], dst(e, p) + WGT[p][x] <= dst(e, x))


def p_base(e):
    o = e.old.this
    V = VS(o)
    lk = acc(e.linkback, 1)
    return INV(e.this) + same(o, e.this) + [
        V[e.old.start], V[e.old.end],
        qall([x_], acc(e.distance, 0)[x_] == V[x_], acc(e.distance, 0)[x_]), dst(e, e.old.start) == 0,
        qall([x_], z3.Implies(V[x_], z3.And(0 <= dst(e, x_), dst(e, x_) <= UMAX)), dst(e, x_)),
        qall([x_], z3.And(qn(e, x_) >= 0, z3.Implies(qn(e, x_) > 0, z3.And(V[x_], dst(e, x_) < UMAX))), qn(e, x_)),
        qall([x_], z3.Implies(z3.And(V[x_], dst(e, x_) < UMAX, x_ != e.old.start), z3.And(acc(e.linkback, 0)[x_], tight(e, lk[x_], x_))), lk[x_])]


def p_rel(e, skip):
    return [qall([a_, b_], z3.Implies(z3.And(EDG[a_][b_], dst(e, a_) < UMAX, qn(e, a_) == 0, z3.Not(skip(a_, b_))),
                                      z3.Or(WGT[a_][b_] >= UMAX - dst(e, a_), dst(e, b_) <= dst(e, a_) + WGT[a_][b_])), EDG[a_][b_])]


def p_init(e):
    o = e.old.this
    return INV(e.this) + same(o, e.this) + [
        VS(o)[e.old.start], VS(o)[e.old.end], z3.ForAll([x_], qn(e, x_) == 0),
        qall([x_], acc(e.distance, 0)[x_] == z3.And(VS(o)[x_], e.elempos(0, x_) < e.idx(0)), acc(e.distance, 0)[x_]),
        qall([x_], z3.Implies(acc(e.distance, 0)[x_], dst(e, x_) == UMAX), dst(e, x_))]


def p_main(e):
    return p_base(e) + p_rel(e, lambda a, b: z3.BoolVal(False))


def p_next(e):
    r, q, c = e.rng(2), e.idx(2), e.curr
    return p_base(e) + listed(r, lambda x: OUT(e.old.this, c, x)) + [VS(e.old.this)[c], dst(e, c) < UMAX] + \
        p_rel(e, lambda a, b: z3.And(a == c, POS(arr(r), b) >= q))


def p_path(e):
    p, n, c = e.path, ln(e.path), e.curr
    first = z3.If(n > 0, at(p, 0), c)
    return p_main(e) + [z3.ForAll([x_], qn(e, x_) == 0), VS(e.old.this)[c], dst(e, c) < UMAX, n >= 0, first == e.old.end,
        z3.Implies(n > 0, tight(e, c, at(p, n - 1))),
        qall([i_], z3.Implies(z3.And(0 <= i_, i_ + 1 < n), tight(e, at(p, i_ + 1), at(p, i_))), at(p, i_))]


def sp(o, e):
    return SPL(EDG, WGT, UMAX, o.start, o.end)


def p_ens(e, ret):
    o, r = e.old, get(ret)
    V = VS(o.this)
    n = ln(r) - 1
    S = [V[o.start], V[o.end], n >= 0, at(r, 0) == o.start, at(r, n) == o.end,
         qall([i_], z3.Implies(z3.And(0 <= i_, i_ < n), OUT(o.this, at(r, i_), at(r, i_ + 1))), at(r, i_)),
         PLEN(arr(r), WGT, n) == sp(o, e), sp(o, e) < UMAX]
    return INV(e.this) + same(o.this, e.this) + [z3.Implies(has(ret), f) for f in S] + [
        z3.Implies(z3.Not(has(ret)), z3.Or(z3.Not(V[o.start]), z3.Not(V[o.end]), sp(o, e) == UMAX))]


def p_post(e, ret):
    if not e.has("distance"):
        return []
    F = acc(e.distance, 1)
    o, r = e.old, get(ret)
    return [SPL_NONE(EDG, WGT, F, UMAX, o.start, o.end), SPL_SOME(EDG, WGT, F, UMAX, o.start, o.end, arr(r), ln(r) - 1)]


def weigh(ex, args):
    a, b = args
    lv = ex.args["this"]
    o = ex.load(lv)
    ex.check(EDG[a][b], "the weight is asked of an edge", None, "pre")
    t = ex.fresh(GR, "this")
    for f in INV(t) + same(o, t):
        ex.assume(f)
    ex.storev(lv, t)
    return WGT[a][b]


def weights(ex, e):
    return CARDS + [edges_are(e.this), qall([a_, b_], z3.And(0 <= WGT[a_][b_], WGT[a_][b_] <= UMAX), WGT[a_][b_])]


def w_check(ex, e, n):
    lv = ex.args["this"]
    o = ex.load(lv)

    def make():
        a, b = ex.fresh(I, "wa"), ex.fresh(I, "wb")
        return [a, b], [EDG[a][b]], lambda ret: INV(ex.load(lv)) + same(o, ex.load(lv)) + [ret == WGT[a][b]]
    ex.closure_obligation(e.weight_fn, n, "the weight given is that of the edge", make, "weight")


CONTRACTS += [
    C("getShortestPath", ["start", "end"], mod=True, pick=two, title="getShortestPath (edges)",
      entry=lambda ex, e: weights(ex, e) + [qall([a_, b_], WGT[a_][b_] == z3.If(EDG[a_][b_], 1, UMAX), WGT[a_][b_])], ens=p_ens),
    C("getShortestPath", ["start", "end", "weight_fn"], mod=True, pick=lambda f: not two(f), title="getShortestPath (weights)", entry=weights,
      ens=p_ens, post_hints=p_post, closures={"weight_fn": Native(weigh, "weight")}, closure_check=w_check,
      loops={0: Loop(p_init), 1: Loop(p_main), 2: Loop(p_next, forget=True), 3: Loop(p_path)}),
]


def qu(ex, n, fr, core, name, getobj, args, want_lv):
    lv = getobj()
    v = ex.load(lv) if not isinstance(lv, z3.ExprRef) else lv
    if not (isinstance(v, z3.ExprRef) and v.sort() == QU):
        return pq(ex, n, fr, core, name, lambda: lv, args, want_lv)
    lib.note("std::queue as the multiset of its entries (which entry is in front is left open)")
    A = fld(v, "count")
    if name == "push":
        x = ex.coerce_sort(ex.eval(args[0], fr), I)
        ex.storev(lv, mk(QU, z3.Store(A, x, A[x] + 1)))
        return UNIT.constructor(0)()
    e0 = z3.ForAll([x_], A[x_] == 0)
    if name == "empty":
        return e0
    ex.check(z3.Exists([x_], A[x_] > 0), "queue not empty", n)
    fr_ = FRONT(A)
    ex.assume(z3.Implies(z3.Not(e0), A[fr_] != 0))
    if name == "front":
        return fr_
    if name == "pop":
        ex.storev(lv, mk(QU, z3.Store(A, fr_, A[fr_] - 1)))
        return UNIT.constructor(0)()
    return NotImplemented


FRONT = z3.Function("FRONT", IA, I)
HOOKS = {k: qu for k in ("push", "pop", "top", "front", "empty")}



def prop():
    return vf.Prop("C12", tu="graph.cpp", first="z3-noext", enum_order=False, contracts=CONTRACTS, method_hooks=HOOKS, overrides=[(r"GreedyGraphColoring<[^:]*$|^GreedyGraphColoring$", lambda tm, m: GC), (r"VertexInfo$", lambda tm, m: INFO), (r"^(std::)?priority_queue<", lambda tm, m: PQ), (r"^(std::)?queue<", lambda tm, m: QU), (r"(^|::)UndirectedGraph<|^UndirectedGraph$", lambda tm, m: UG), (r"(^|::)Graph<|^Graph$", lambda tm, m: GR)])


NATIVE = natspec.Native("c12.cpp", [], seconds=(15, 120))
NOTE = ("Proved for every finite graph: addVertex, addEdge, hasEdge, contains, edgesOutOf, edgesInto, the degrees and getEdges keep the "
        "representation invariant (in-edges are the converse of out-edges, endpoints are vertices, the edge cache is right unless marked "
        "stale) and report exactly the edges; contractEdge leaves exactly the redirected edges between the remaining vertices and keeps a "
        "self-loop only where there was one; topologicalSort lists every vertex once with every edge pointing forward, and fails only "
        "when some non-empty set of vertices has a predecessor in the set for each member (a cycle); sortGraphByLevels puts each vertex, "
        "once, in the row given by its longest path to an output; an undirected graph stays symmetric and reports exactly its edges; "
        "greedy colouring colours every vertex and gives adjacent vertices different colours, whichever "
        "entry the priority queue puts on top; getShortestPath returns a walk along edges whose length is the least (a Lean-defined minimum over "
        "all walks; 64-bit weights, lengths that would reach 2^64 - 1 count as unreachable) and fails only when there is none, in whatever "
        "order its queue serves vertices. "
        "Assumed: std::set, map and vector models, fewer than 2^62 in-edges per vertex, a longest path that fits an int, and a mergeFn "
        "that leaves the source vertex as it is. Strongly connected components, condensation, "
        "sources and sinks are checked by bounded native comparison.")
BOUNDED = ["termination of the colouring loops: random undirected graphs of up to 30 vertices",
           "strongly connected components and condenseGraph (Tarjan through a recursive std::function): random graphs of up to 12 vertices against a reachability closure",
           "termination of getShortestPath: random graphs against Bellman-Ford distances, weights up to 2^64 - 1", "getSources and getSinks (llvm::copy_if with an inserter)"]

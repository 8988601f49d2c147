"""Verification-condition generator.

Forward symbolic execution of one function's AST, path by path (a path is
replayed from the start for every new decision, so evaluation is straight-line
Python).  Loops with a contract are cut at their invariants, calls to functions
under contract use the contract only, other /repo functions are inlined, library
calls use the models of lib.py.  Every proof obligation is emitted as a closed
SMT-LIB query; nothing is decided here except cheap path pruning.
"""
import re
import z3
z3.set_param("warning", False)
import sorts as S
from sorts import *
from cppast import walk, tyof, strip_type, template_parts, line_of, LOOPS, split_args


class Unsupported(Exception):
    pass


class Unnamed(Unsupported):
    pass


class Fork(Exception):
    """a dry evaluation met something that needs a path of its own"""


class PathEnd(Exception):
    pass


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class LV:
    """an lvalue: root store key + access path"""
    __slots__ = ("root", "path")

    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)

    def sub(self, *p):
        return LV(self.root, self.path + p)

    def __repr__(self):
        return "LV(%s,%s)" % (self.root, self.path)


class Py:
    """non-SMT values"""


class Closure(Py):
    def __init__(self, func, frame, this, caps):
        self.func, self.frame, self.this, self.caps = func, frame, this, caps


REC_MEMO = {}


def rec_consts(f):
    """names of the record-sorted constants in a term"""
    k = f.get_id()
    if k in REC_MEMO:
        return REC_MEMO[k][1]
    out, todo, seen = set(), [f], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
        elif z3.is_app(t):
            if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.sort().name().startswith("Rec_"):
                out.add(t.decl().name())
            todo.extend(t.children())
    REC_MEMO[k] = (f, frozenset(out))
    return REC_MEMO[k][1]


class Native(Py):
    """a callable modelled by a python function f(ex, args)->value"""

    def __init__(self, f, name="fn", present=None):
        self.f, self.name, self.present = f, name, present


class Ptr(Py):
    def __init__(self, lv):
        self.lv = lv


class Iter(Py):
    def __init__(self, cont, idx, kind="seq", meta=None):
        self.cont, self.idx, self.kind, self.meta = cont, idx, kind, meta


class InitL(Py):
    def __init__(self, items):
        self.items = items


class Str(Py):
    def __init__(self, s):
        self.s = s


STRS = Opaque("Str")
STRID = z3.Function("strid", STRS, z3.IntSort())
_strs = {}


class Null(Py):
    pass


class Obj(Py):
    """opaque python-side object (used by models)"""

    def __init__(self, **kw):
        self.__dict__.update(kw)


class Frame:
    def __init__(self, func, parent=None, this=None):
        self.func, self.parent, self.this = func, parent, this
        self.vars = {}     # decl id -> LV
        self.names = {}    # name -> LV (latest)

    def lookup(self, did):
        f = self
        while f is not None:
            if did in f.vars:
                return f.vars[did]
            f = f.parent
        return None


class Loop:
    def __init__(self, inv=None, dec=None, unroll=None, hints=None, exit_hints=None, keep=(), forget=False):
        self.forget = forget            # after this loop's invariants, drop facts about superseded states
        self.inv, self.dec, self.unroll, self.hints, self.exit_hints = inv, dec, unroll, hints, exit_hints
        self.keep = keep


class Contract:
    def __init__(self, name, params=None, requires=None, ensures=None, loops=None, modifies=(), nparams=None,
                 decreases=None, tu=None, bv=False, overrides=(), axioms=(), hints=None, pick=None, overflow="check",
                 model_only=False, spec=None, closures=None, pure=False, post_hints=None, entry=None, callhints=None,
                 this=None, safety=True, ret=None, title=None, assume_asserts=False, canary=True, ghost=None,
                 no_term=False, on_call=None, invoke=None, retdef=None, group=None, closure_check=None, anyloop=None):
        self.name, self.params, self.requires, self.ensures = name, params, requires, ensures
        self.loops, self.modifies, self.nparams, self.decreases = loops or {}, set(modifies), nparams, decreases
        self.tu, self.bv, self.overrides, self.axioms = tu, bv, overrides, list(axioms)
        self.hints, self.pick, self.overflow, self.model_only = hints, pick, overflow, model_only
        self.closures, self.pure, self.post_hints, self.entry = closures or {}, pure, post_hints, entry
        self.this, self.safety, self.ret = this, safety, ret
        self.title = title or name
        self.canary = canary
        self.ghost = ghost
        self.no_term = no_term
        self.on_call = on_call
        self.invoke = invoke
        self.retdef = retdef      # the term that the (proved) postconditions say is returned
        self.closure_check = closure_check
        self.anyloop = anyloop
        self.group = group           # mutually recursive contracts share a group and a variant

    def matches(self, f):
        if not (f.qname == self.name or f.qname.endswith("::" + self.name)):
            return False
        if self.nparams is not None and len(f.params) != self.nparams:
            return False
        if self.pick and not self.pick(f):
            return False
        return True


class Oblig:
    def __init__(self, func, label, line, smt, path, kind):
        self.func, self.label, self.line, self.smt, self.path, self.kind = func, label, line, smt, path, kind
        self.result = None


P2 = z3.Function("pow2", z3.IntSort(), z3.IntSort())
BAND = z3.Function("band", z3.IntSort(), z3.IntSort(), z3.IntSort())
BOR = z3.Function("bor", z3.IntSort(), z3.IntSort(), z3.IntSort())
BXOR = z3.Function("bxor", z3.IntSort(), z3.IntSort(), z3.IntSort())


def pow2(x):
    if isinstance(x, int):
        return z3.IntVal(2 ** x)
    x = z3.simplify(x) if z3.is_expr(x) else x
    if z3.is_int_value(x) and 0 <= x.as_long() <= 4096:
        return z3.IntVal(2 ** x.as_long())
    return P2(x)


_k = z3.Int("k!p2")
P2_AXIOMS = [P2(0) == 1, z3.ForAll([_k], z3.Implies(_k >= 0, P2(_k) >= 1), patterns=[P2(_k)]),
             z3.ForAll([_k], z3.Implies(_k >= 1, P2(_k) == 2 * P2(_k - 1)), patterns=[P2(_k)])]


def has_quant(f, _c={}):
    h = _c.get(f.get_id())
    if h is not None:
        return h[1]
    r = False
    stack, seen = [f], set()
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            r = True
            break
        stack.extend(e.children())
    _c[f.get_id()] = (f, r)
    return r


class Env:
    """what contract lambdas see: variables by name, at the current state"""

    def __init__(self, ex, frame=None, args=None, snapshot=None, amap=None):
        object.__setattr__(self, "_ex", ex)
        object.__setattr__(self, "_frame", frame)
        object.__setattr__(self, "_args", args or {})
        object.__setattr__(self, "_snap", snapshot)

    def __getattr__(self, n):
        return self.get(n)

    def get(self, n):
        a = self._args
        if n in a:
            v = a[n]
            if isinstance(v, LV):
                return self._ex.load(v, self._snap)
            return v
        return self._ex.lookup_name(n, self._frame, self._snap)

    def has(self, n):
        try:
            self.get(n)
            return True
        except Unsupported:
            return False

    @property
    def old(self):
        return self._ex.old_env

    def idx(self, k=0):
        return self._ex.loop_index(k)

    def rng(self, k=0):
        """the container a range-for loop runs over"""
        ex = self._ex
        r = ex.loop_rng[k]
        return ex.load(r if isinstance(r, LV) else ex.lval(*r))

    def elempos(self, k, x):
        """the place at which a range-for loop over a set or map visits x"""
        return self._ex.loop_enum[k][1](x)

    def elem(self, k, i):
        """the i-th element a range-for loop visits"""
        return self._ex.loop_get[k](i)

    @property
    def pre(self):
        """state at entry of the innermost loop being cut"""
        return self._ex.loop_pre[-1]


class Exec:
    def __init__(self, verifier, contract, func, decisions):
        self.vf, self.c, self.func = verifier, contract, func
        self.decisions = list(decisions)
        self.pos = 0
        self.replay_len = len(decisions)
        self.alts = []
        self.pc = []
        self.store = {}
        self.ctypes = {}
        self.nkey = 0
        self.nfresh = 0
        self.tm = verifier.typemap(func.tu, contract)
        self.bv = contract.bv
        self.qs = z3.SolverFor("ALL") if False else z3.Solver()
        self.qs.set("rlimit", 300000)
        self.qs.set("timeout", 5000)
        self.depth = 0
        self.old_env = None
        self.loop_stack = []      # active loop info
        self.loop_idx = {}        # loop number -> index lv / value
        self.loop_rng = {}
        self.loop_get = {}
        self.loop_enum = {}
        self.enums = []
        self.loop_pre = []
        self.trace = []
        self.ap_raw = {}
        self.calllog = []      # (contract, pre-state, result) of the calls on this path
        self.callstack = [func]
        self.loop_numbers = None
        self.guard_false = 0
        self.dry = False
        self.spec_calls = {}
        for a in verifier.base_axioms + contract.axioms:
            self.pc.append(a)
            if not has_quant(a):
                self.qs.add(a)

    # ------------------------------------------------------------ basics
    def fresh(self, sort, hint="v"):
        self.nfresh += 1
        return z3.Const("%s!%d" % (hint, self.nfresh), sort)

    def newkey(self, name):
        self.nkey += 1
        return "%s#%d" % (name, self.nkey)

    def assume(self, f):
        if isinstance(f, (list, tuple)):
            for x in f:
                self.assume(x)
            return
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if z3.is_true(f):
            return
        self.pc.append(f)
        if not has_quant(f):
            self.qs.add(f)

    def instance(self, q, *ts):
        """an instance of a quantified fact already assumed on this path"""
        if not any(z3.eq(q, f) for f in self.pc):
            raise Unsupported("instance of a fact that is not assumed")
        self.assume(z3.substitute_vars(q.body(), *reversed(ts)))

    def implied(self, f):
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        self.qs.push()
        self.qs.add(z3.Not(f))
        r = self.qs.check()
        if r != z3.unsat:
            inst, done = [f], set()
            for _ in range(3):
                inst = [q for q in self.element_facts(z3.And(inst)) if q.get_id() not in done]
                if not inst:
                    break
                done |= {q.get_id() for q in inst}
                self.qs.add(*inst)
                r = self.qs.check()
                if r == z3.unsat:
                    break
        self.qs.pop()
        return r == z3.unsat

    def element_facts(self, f):
        """instances of the assumed facts about all elements of an array, at the elements the formula reads"""
        reads, seen, todo = {}, set(), [f]
        while todo:
            e = todo.pop()
            if e.get_id() in seen or z3.is_quantifier(e):
                continue
            seen.add(e.get_id())
            if z3.is_app(e):
                if e.decl().kind() == z3.Z3_OP_SELECT:
                    reads.setdefault(e.arg(0).get_id(), []).append(e.arg(1))
                todo += e.children()
        out = []
        if not reads:
            return out
        for q in self.pc:
            if z3.is_quantifier(q) and q.is_forall() and q.num_vars() == 1 and q.num_patterns() == 1:
                for p in q.pattern(0).children():
                    if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_SELECT and z3.is_var(p.arg(1)) and p.arg(0).get_id() in reads:
                        out += [z3.substitute_vars(q.body(), i) for i in reads[p.arg(0).get_id()]]
        return out

    def decide(self, compute):
        """record/replay a decision made by compute() -> (value, [alternatives])"""
        if self.dry:
            v, alts = compute()
            if alts:
                raise Fork()
            return v
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            return d
        v, alts = compute()
        for a in alts:
            self.vf.worklist.append(self.decisions[:self.pos] + [a])
        self.decisions.append(v)
        self.pos += 1
        return v

    def branch(self, cond, node=None):
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False

        def compute():
            if self.implied(cond):
                return True, []
            if self.implied(z3.Not(cond)):
                return False, []
            return True, [False]
        d = self.decide(compute)
        self.assume(cond if d else z3.Not(cond))
        self.trace.append((line_of(node) if node else None, d))
        return d

    def wrap_check(self, f):
        """decision: is f implied by the path condition (recorded so that replays agree)"""
        c = z3.simplify(f)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.decide(lambda: (self.implied(f), []))

    def check(self, goal, label, node=None, kind="assert"):
        if isinstance(goal, (list, tuple)):
            for i, g in enumerate(goal):
                self.check(g, "%s.%d" % (label, i), node, kind)
            return
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if kind == "safety" and not self.c.safety:
            self.assume(goal)
            return
        if self.dry:
            self.assume(goal)
            return
        if self.pos >= self.replay_len:   # not a replayed prefix
            g = z3.simplify(goal)
            if z3.is_true(g):
                self.vf.emit_trivial(self, label, node, kind)
            else:
                self.vf.emit(self, goal, label, node, kind)
        self.assume(goal)

    # ------------------------------------------------------------ store
    def load(self, lv, store=None):
        st = self.store if store is None else store
        if lv.root not in st:
            raise Unsupported("load of unknown %s" % lv.root)
        v = st[lv.root]
        for p in lv.path:
            v = self.sel(v, p)
        return v

    def sel(self, v, p):
        k = p[0]
        if isinstance(v, Py):
            if isinstance(v, Obj) and k == "attr":
                if hasattr(v, p[1]):
                    return getattr(v, p[1])
                if hasattr(v, "parts") and p[1] in ("first", "second"):
                    return v.parts[0 if p[1] == "first" else 1]
                raise Unsupported("member %s of %s" % (p[1], getattr(v, "tag", "python value")))
            raise Unsupported("path into python value")
        if k == "idx":
            return z3.Select(acc(v, 0), p[1])
        if k == "fld":
            return acc(v, p[1])
        if k == "opt":
            return acc(v, 1)
        if k == "mapval":
            return z3.Select(acc(v, 1), p[1])
        raise Unsupported("path " + k)

    def upd(self, v, path, new):
        if not path:
            return new
        p = path[0]
        inner = self.upd(self.sel(v, p), path[1:], new)
        s = v.sort()
        k = p[0]
        args = [acc(v, i) for i in range(s.constructor(0).arity())]
        if k == "idx":
            args[0] = z3.Store(args[0], p[1], self.coerce_sort(inner, args[0].sort().range()))
        elif k == "fld":
            args[p[1]] = self.coerce_sort(inner, args[p[1]].sort())
        elif k == "opt":
            args[1] = inner
        elif k == "mapval":
            args[1] = z3.Store(args[1], p[1], self.coerce_sort(inner, args[1].sort().range()))
        return s.constructor(0)(*args)

    def storev(self, lv, v):
        if not lv.path:
            cur = self.store.get(lv.root)
            if isinstance(v, z3.ExprRef) and isinstance(cur, z3.ExprRef):
                v = self.coerce_sort(v, cur.sort())
            elif isinstance(cur, z3.ExprRef) and isinstance(v, Py):
                v = self.coerce_sort(v, cur.sort())
            self.store[lv.root] = v
        else:
            self.store[lv.root] = self.upd(self.store[lv.root], lv.path, v)

    def coerce_sort(self, v, sort):
        if isinstance(v, z3.ExprRef):
            if v.sort() == sort:
                return v
            if sort == z3.RealSort() and v.sort() == z3.IntSort():
                return z3.ToReal(v)
            if sort == z3.IntSort() and v.sort() == z3.BoolSort():
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if kind(sort) == "xr" and z3.is_arith(v):
                return XR.fin(v if z3.is_real(v) else z3.ToReal(v))
            if kind(sort) == "opt" and INFO[sort.name()]["elem"] == v.sort():
                return mk(sort, z3.BoolVal(True), v)
            if kind(sort) == "seq" and kind(v) == "seq":
                raise Unsupported("seq sort mismatch %s vs %s" % (v.sort(), sort))
        if isinstance(v, Str) and sort == STRS:
            return self.strlit(v.s)
        if isinstance(v, Null) and sort == NODE:
            return NULLNODE
        if isinstance(v, Null) and kind(sort) == "opt":
            return self.default_of(sort)
        if isinstance(v, InitL):
            return self.init_to_sort(v, sort)
        if isinstance(v, bool):
            return z3.BoolVal(v)
        raise Unsupported("cannot coerce %s to %s" % (v if not isinstance(v, z3.ExprRef) else v.sort(), sort))

    def init_to_sort(self, il, sort):
        k = kind(sort)
        if k == "seq":
            e = INFO[sort.name()]["elem"]
            a = z3.K(z3.IntSort(), self.default_of(e)) if not il.items else self.fresh(z3.ArraySort(z3.IntSort(), e), "il")
            if il.items:
                a = z3.K(z3.IntSort(), self.default_of(e))
            for i, x in enumerate(il.items):
                a = z3.Store(a, i, self.coerce_sort(x, e))
            return mk(sort, a, z3.IntVal(len(il.items)))
        if k in ("tup", "rec"):
            es = INFO[sort.name()]["elems" if k == "tup" else "sorts"]
            items = list(il.items)
            while len(items) < len(es):
                items.append(self.default_of(es[len(items)]))
            return mk(sort, *[self.coerce_sort(x, e) for x, e in zip(items, es)])
        if k == "set":
            v = self.default_of(sort)
            for x in il.items:
                v = set_insert(v, self.coerce_sort(x, INFO[sort.name()]["elem"]))
            return v
        if k == "map":
            v = self.default_of(sort)
            for x in il.items:
                x = self.coerce_sort(x, Tup([INFO[sort.name()]["key"], INFO[sort.name()]["val"]]))
                v = map_set(v, tup(x, 0), tup(x, 1))
            return v
        if len(il.items) == 1:
            return self.coerce_sort(il.items[0], sort)
        if not il.items:
            return self.default_of(sort)
        raise Unsupported("init list to %s" % sort)

    def default_of(self, sort):
        k = kind(sort)
        if sort == z3.IntSort():
            return z3.IntVal(0)
        if sort == z3.RealSort():
            return z3.RealVal(0)
        if sort == z3.BoolSort():
            return z3.BoolVal(False)
        if sort.kind() == z3.Z3_BV_SORT:
            return z3.BitVecVal(0, sort.size())
        if sort == NODE:
            return NULLNODE
        if k == "seq":
            return mk(sort, z3.K(z3.IntSort(), self.default_of(INFO[sort.name()]["elem"])), z3.IntVal(0))
        if k == "opt":
            return mk(sort, z3.BoolVal(False), self.default_of(INFO[sort.name()]["elem"]))
        if k == "tup":
            return mk(sort, *[self.default_of(e) for e in INFO[sort.name()]["elems"]])
        if sort.kind() == z3.Z3_ARRAY_SORT and sort.range() == z3.IntSort():       # a multiset field of a model
            return z3.K(sort.domain(), z3.IntVal(0))
        if k == "rec":
            return mk(sort, *[self.default_of(e) for e in INFO[sort.name()]["sorts"]])
        if k == "set":
            return mk(sort, z3.K(INFO[sort.name()]["elem"], z3.BoolVal(False)), z3.IntVal(0))
        if k == "map":
            i = INFO[sort.name()]
            return mk(sort, z3.K(i["key"], z3.BoolVal(False)), z3.K(i["key"], self.default_of(i["val"])), z3.IntVal(0))
        if k == "apint":
            return mk(APINT, z3.IntVal(0), z3.IntVal(1))
        if k == "xr":
            return XR.fin(0)
        if k == "unit":
            return mk(UNIT)
        if k == "opaque":
            return z3.Const("dflt_" + sort.name(), sort)
        raise Unsupported("default of %s" % sort)

    def wf(self, v, ctype, depth=0):
        """type invariant of a havocked value"""
        out = []
        if not isinstance(v, z3.ExprRef):
            return out
        k = kind(v)
        if v.sort() == z3.IntSort() and ctype:
            ii = self.tm.int_info(ctype)
            if ii:
                lo, hi = irange(ii)
                out += [v >= lo, v <= hi]
        elif k == "apint":
            out += [width(v) >= 1, val(v) >= 0, val(v) < pow2(width(v))]
        elif k == "seq":
            out.append(ln(v) >= 0)
            if depth < 2:
                t, _, _ = strip_type(ctype or "")
                base, args = template_parts(t)
                m = re.match(r"^(.*?)\s*\[(\d+)\]$", t)
                et = args[0] if args else (m.group(1) if m else None)
                i = z3.Int("i!wf%d" % depth)
                sub = self.wf(z3.Select(acc(v, 0), i), et, depth + 1)
                if sub:
                    out.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ln(v)), z3.And(sub)),
                                         patterns=[z3.Select(acc(v, 0), i)]))
                if m:
                    out.append(ln(v) == int(m.group(2)))
        elif k == "opt":
            pass
        elif k in ("set", "map"):
            out.append(card(v) >= 0)
        elif k == "rec":
            pass
        return out

    # ------------------------------------------------------------ names
    def lookup_name(self, n, frame, snap=None):
        cand = None
        f = frame
        while f is not None:
            if n in f.names:
                return self.load(f.names[n], snap)
            f = f.parent
        for fr in reversed(self.frames):
            if n in fr.names:
                return self.load(fr.names[n], snap)
        alt = self.vf.renamed(self, n)
        if alt:
            for a in alt:
                for fr in reversed(self.frames):
                    if a in fr.names:
                        return self.load(fr.names[a], snap)
        raise Unnamed("contract of %s names '%s', which the current code has not (renamed or restructured)"
                          % (self.c.name, n))

    def loop_index(self, k):
        if k not in self.loop_idx:
            raise Unsupported("no loop %s" % (k,))
        v = self.loop_idx[k]
        return self.load(v) if isinstance(v, LV) else v

    def bind(self, frame, did, name, value, ctype):
        key = self.newkey(name or "anon")
        self.store[key] = value
        self.ctypes[key] = ctype
        lv = LV(key)
        frame.vars[did] = lv
        if name:
            frame.names[name] = lv
        return lv

    # ------------------------------------------------------------ run
    def run(self):
        f, c = self.func, self.c
        frame = Frame(f)
        self.frames = [frame]
        args = {}
        pnames = c.params or [p.get("name") for p in f.params]
        for i, p in enumerate(f.params):
            t = tyof(p)
            nm = p.get("name") or ("arg%d" % i)
            cn = pnames[i] if i < len(pnames) else nm
            if cn in c.closures or nm in c.closures:
                v = c.closures.get(cn) or c.closures.get(nm)
                v = v(self) if callable(v) and not isinstance(v, Py) else v
            else:
                s = self.tm.sort(t)
                v = z3.Const("%s!0" % cn, s)
                self.assume(self.wf(v, t))
            lv = self.bind(frame, p["id"], nm, v, t)
            args[cn] = lv
        if c.this:
            tv = c.this(self)
            key = self.newkey("this")
            self.store[key] = tv
            frame.this = LV(key)
            args["this"] = frame.this
        self.args = args
        self.old_store = dict(self.store)
        self.old_env = Env(self, None, args, self.old_store)
        self.top_env = self.old_env          # the function under proof, also while a callee's contract is read
        env = Env(self, frame, args)
        self.env = env
        if c.ghost:
            c.ghost(self, env)
        if c.requires:
            for r in aslist(c.requires(env)):
                self.assume(r)
        if c.decreases:
            self.dec0 = c.decreases(env)
        if self.pos >= self.replay_len and not self.decisions:
            self.vf.emit_cover(self, "precondition satisfiable")
        try:
            if c.entry:
                for fact in c.entry(self, env) or []:      # lemma instances
                    self.assume(fact)
            for ini in f.inits:
                self.ctor_init(ini, frame)
            self.exec(f.body, frame)
            ret = None
        except ReturnEx as r:
            ret = r.v
        except PathEnd:
            return
        except (BreakEx, ContinueEx):
            raise Unsupported("stray break")
        self.finish(ret, frame, env)

    def finish(self, ret, frame, env):
        c = self.c
        self.final_env = Env(self, frame, self.args)
        rt = c.ret
        if isinstance(ret, Py) and not isinstance(ret, Native):
            try:
                ret = self.coerce_sort(ret, self.ret_sort(self.func))
            except Unsupported:
                pass
        elif isinstance(ret, z3.ExprRef):
            try:
                ret = self.coerce_sort(ret, self.ret_sort(self.func))
            except Unsupported:
                pass
        if c.post_hints:
            for h in aslist(c.post_hints(self.final_env, ret)):
                self.assume(h)
        # frame: by-reference parameters not listed in modifies are unchanged
        for p, cn in zip(self.func.params, c.params or [p.get("name") for p in self.func.params]):
            t = tyof(p)
            _, isref, isconst = strip_type(t)
            if isref and not isconst and cn not in c.modifies and cn not in c.closures and not t.strip().endswith("&&"):
                a, b = self.load(self.args[cn]), self.load(self.args[cn], self.old_store)
                if isinstance(a, z3.ExprRef) and not z3.eq(a, b):
                    self.check(a == b, "frame: %s unchanged" % cn, self.func.node, "post")
        if c.ensures:
            self.check(aslist(c.ensures(self.final_env, ret)), "postcondition", self.func.node, "post")
        self.vf.normal_ends += 1

    def ret_sort(self, f):
        return self.tm.sort(f.rettype.split("(")[0].strip()) if "auto" not in f.rettype.split("(")[0] else \
            self._auto_ret(f)

    def _auto_ret(self, f):
        m = re.search(r"->\s*(.*)$", f.rettype)
        if m:
            return self.tm.sort(m.group(1))
        raise Unsupported("auto return")

    # ------------------------------------------------------------ statements
    def exec(self, n, fr):
        k = n["kind"]
        m = getattr(self, "s_" + k, None)
        if m is None:
            if k.endswith("Expr") or k.endswith("Operator") or k in ("ExprWithCleanups",):
                self.eval(n, fr)
                return
            raise Unsupported("statement %s at line %s" % (k, line_of(n)))
        m(n, fr)

    def s_CompoundStmt(self, n, fr):
        for c in n.get("inner", []):
            self.exec(c, fr)

    def s_NullStmt(self, n, fr):
        pass

    def s_AttributedStmt(self, n, fr):
        for c in n.get("inner", []):
            if not c["kind"].endswith("Attr"):
                self.exec(c, fr)

    def s_DeclStmt(self, n, fr):
        for d in n.get("inner", []):
            k = d["kind"]
            if k == "VarDecl":
                self.vardecl(d, fr)
            elif k == "DecompositionDecl":
                self.decomp(d, fr)
            elif k in ("TypedefDecl", "TypeAliasDecl", "UsingDecl", "StaticAssertDecl", "CXXRecordDecl", "UsingDirectiveDecl"):
                if k in ("TypedefDecl", "TypeAliasDecl") and d.get("name"):
                    self.tm.tu.aliases.setdefault(d["name"], tyof(d))
            else:
                raise Unsupported("decl " + k)

    def vardecl(self, d, fr):
        t = tyof(d)
        core, isref, _ = strip_type(t)
        inner = [c for c in d.get("inner", []) if not c["kind"].endswith("Attr") and not c["kind"].endswith("Comment")]
        name = d.get("name")
        if isref and inner:
            lv = self.lval(inner[0], fr, core)
            fr.vars[d["id"]] = lv
            if name:
                fr.names[name] = lv
            return
        if not inner:
            v = self.uninit(core)
        else:
            v = self.eval(inner[0], fr)
            v = self.conv_to(v, core)
        self.bind(fr, d["id"], name, v, t)

    def strlit(self, text):
        """a string constant; different texts are different constants"""
        c = z3.Const("str_" + text, STRS)
        if text not in _strs:
            _strs[text] = len(_strs)
        self.assume(STRID(c) == _strs[text])
        return c

    def conv_to(self, v, ctype):
        """give a python-side value its declared type where it has an SMT sort"""
        if isinstance(v, (InitL, Null, Str)):
            try:
                return self.coerce_sort(v, self.tm.sort(ctype))
            except Unsupported:
                if isinstance(v, (Null, Str)):
                    return v
                raise
        if isinstance(v, z3.ExprRef):
            t, _, _ = strip_type(ctype)
            if "auto" in t or "(lambda" in t:
                return v
            try:
                s = self.tm.sort(ctype)
            except Unsupported:
                return v
            if kind(s) == "opaque" or v.sort() == s:
                return v
            return self.coerce_sort(v, s)
        return v

    def uninit(self, ctype):
        s = self.tm.sort(ctype)
        if s in (z3.IntSort(), z3.RealSort(), z3.BoolSort()) or s.kind() == z3.Z3_BV_SORT:
            v = self.fresh(s, "uninit")
            self.assume(self.wf(v, ctype))
            return v
        return self.default_of(s)

    def decomp(self, d, fr):
        inner = d.get("inner", [])
        binds = [c for c in inner if c["kind"] == "BindingDecl"]
        init = [c for c in inner if c["kind"] != "BindingDecl"]
        t = tyof(d)
        core, isref, _ = strip_type(t)
        if isref:
            base = self.lval(init[0], fr, core)
        else:
            v = self.eval(init[0], fr)
            if isinstance(v, InitL):
                v = self.coerce_sort(v, self.tm.sort(core))
            base = self.bind(fr, d["id"], "__decomp", v, t)
        self.bind_decomp(binds, base, fr)

    def bind_decomp(self, binds, base, fr):
        v = self.load(base)
        if isinstance(v, Obj) and hasattr(v, "parts"):
            for i, b in enumerate(binds):
                self.bind(fr, b["id"], b.get("name"), v.parts[i], None)
                self.bind_holding(b, fr, fr.vars[b["id"]])
            return
        for i, b in enumerate(binds):
            lv = base.sub(("fld", i))
            fr.vars[b["id"]] = lv
            if b.get("name"):
                fr.names[b["name"]] = lv
            self.bind_holding(b, fr, lv)

    def bind_holding(self, b, fr, lv):
        # bindings of tuple-like types refer to hidden VarDecls
        for c in walk(b):
            if c["kind"] == "VarDecl":
                fr.vars[c["id"]] = lv
            if c["kind"] == "DeclRefExpr":
                rd = c.get("referencedDecl", {})
                if rd.get("kind") == "VarDecl":
                    fr.vars[rd["id"]] = lv

    def s_ReturnStmt(self, n, fr):
        inner = n.get("inner", [])
        if not inner:
            raise ReturnEx(None)
        f = fr.func
        rt = f.rettype.split("(")[0].strip()
        if rt.endswith("&") and getattr(self, "want_ref", False):
            raise ReturnEx(self.lval(inner[0], fr, rt))
        v = self.eval(inner[0], fr)
        raise ReturnEx(v)

    def s_IfStmt(self, n, fr):
        inner = list(n.get("inner", []))
        if n.get("isConstexpr"):
            # inner: cond, then [, else]; the compiler's value of the condition decides; the discarded branch may be a NullStmt
            v = str(inner[0].get("value", "")) if inner[0].get("kind") == "ConstantExpr" and len(inner) > 1 else ""
            if v in ("true", "false", "1", "0"):
                if v in ("true", "1"):
                    self.exec(inner[1], fr)
                elif len(inner) > 2:
                    self.exec(inner[2], fr)
                return
        if n.get("hasInit"):
            self.exec(inner.pop(0), fr)
        if n.get("hasVar"):
            self.exec(inner.pop(0), fr)
        c = self.cond(inner[0], fr)
        if self.branch(c, n):
            self.exec(inner[1], fr)
        elif len(inner) > 2:
            self.exec(inner[2], fr)

    def s_SwitchStmt(self, n, fr):
        inner = list(n.get("inner", []))
        if n.get("hasInit"):
            self.exec(inner.pop(0), fr)
        if n.get("hasVar"):
            self.exec(inner.pop(0), fr)
        v = self.eval(inner[0], fr)
        body = inner[1]
        flat, default = [], None      # statements in order; labels give start positions
        labels = []
        for st in body.get("inner", []) if body["kind"] == "CompoundStmt" else [body]:
            while st["kind"] in ("CaseStmt", "DefaultStmt"):
                if st["kind"] == "CaseStmt":
                    if len(st["inner"]) != 2:
                        raise Unsupported("case range")
                    labels.append((st["inner"][0], len(flat)))
                    st = st["inner"][1]
                else:
                    default = len(flat)
                    st = st["inner"][0]
            flat.append(st)
        start = default
        for e, pos in labels:
            c = self.eval(e, fr)
            a, b = self.unify(self.num(v), self.num(c))
            if self.branch(a == b, n):
                start = pos
                break
        if start is None:
            return
        try:
            for st in flat[start:]:
                self.exec(st, fr)
        except BreakEx:
            pass

    def s_BreakStmt(self, n, fr):
        raise BreakEx()

    def s_ContinueStmt(self, n, fr):
        raise ContinueEx()

    def cond(self, n, fr):
        v = self.eval(n, fr)
        return self.tobool(v)

    def tobool(self, v):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, Null):
            return z3.BoolVal(False)
        if isinstance(v, Native) and v.present is not None:
            return v.present                    # std::function parameter that may be empty
        if isinstance(v, (Closure, Native, Ptr, Str)):
            return z3.BoolVal(True)
        if isinstance(v, z3.ExprRef):
            if v.sort() == z3.BoolSort():
                return v
            if v.sort() == z3.IntSort():
                return v != 0
            if v.sort().kind() == z3.Z3_BV_SORT:
                return v != 0
            if v.sort() == z3.RealSort():
                return v != 0
            if v.sort() == NODE:
                return v != NULLNODE
            if kind(v) == "opt":
                return has(v)
        raise Unsupported("bool of %r" % (v,))

    # --- loops
    def number_loops(self):
        """expanded pre-order numbering: loops of helpers without contract count at the call site"""
        order = {}
        self.loop_shape = []

        def go(n, chain, depth, nest=0):
            if not isinstance(n, dict):
                return
            k = n.get("kind")
            if k in LOOPS:
                if (chain, n["id"]) not in order:
                    self.loop_shape.append("%s %d" % (k, nest))
                order.setdefault((chain, n["id"]), len(order))
                nest += 1
            if k == "LambdaExpr":
                # loops in the body belong to the lambda's place
                for c in n.get("inner", []):
                    if c.get("kind") == "CXXRecordDecl":
                        for d in c.get("inner", []):
                            if d.get("kind") == "CXXMethodDecl" and d.get("name") == "operator()":
                                go(d, chain, depth, nest)
                return
            for c in n.get("inner", []):
                go(c, chain, depth, nest)
            if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr") and depth < 6:
                fn = self.callee(n)
                if fn is not None and fn.body is not None and not self.vf.contract_for(fn) \
                        and fn.qname.split("::")[-1] not in self.vf.func_hooks and fn not in self.callstack_static:
                    self.callstack_static.append(fn)
                    go(fn.body, chain + (n["id"],), depth + 1, nest)
                    self.callstack_static.pop()
        self.callstack_static = [self.func]
        go(self.func.body, (), 0)
        self.loop_numbers = order

    def callee(self, n):
        inner = n.get("inner", [])
        if not inner:
            return None
        f = inner[0]
        while f.get("kind") in ("ImplicitCastExpr", "ParenExpr") and f.get("inner"):
            f = f["inner"][0]
        if f.get("kind") == "DeclRefExpr":
            return self.func.tu.resolve(f.get("referencedDecl", {}).get("id"))
        if f.get("kind") == "MemberExpr":
            return self.func.tu.resolve(f.get("referencedMemberDecl"))
        return None

    def loop_spec(self, n):
        if self.loop_numbers is None:
            self.number_loops()
        chain = tuple(self.chain) if hasattr(self, "chain") else ()
        num = self.loop_numbers.get((chain, n["id"]))
        if num is None:
            for (ch, i), v in self.loop_numbers.items():
                if i == n["id"]:
                    num = v
                    break
        if num is None and self.c.anyloop is not None:       # a loop in a generic lambda
            return "g", self.c.anyloop
        return num, self.c.loops.get(num)

    def modified(self, nodes, fr):
        """roots possibly written by the given AST nodes (syntactic over-approximation); name -> set of ways"""
        ways = {}

        def base_ref(e):
            while True:
                k = e.get("kind")
                if k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr"):
                    e = e["inner"][0]
                elif k == "ImplicitCastExpr" and e.get("castKind") in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase",
                                                                     "ArrayToPointerDecay", "LValueToRValue"):
                    e = e["inner"][0]
                elif k in ("MemberExpr", "ArraySubscriptExpr"):
                    e = e["inner"][0]
                elif k == "CXXOperatorCallExpr" and len(e.get("inner", [])) > 1:
                    e = e["inner"][1]
                elif k == "CXXMemberCallExpr":
                    m = e["inner"][0]
                    if m.get("kind") == "MemberExpr" and m.get("inner"):
                        e = m["inner"][0]
                    else:
                        return None
                elif k == "CallExpr" and len(e.get("inner", [])) > 1:
                    e = e["inner"][1]
                elif k == "UnaryOperator":
                    e = e["inner"][0]
                elif k == "CXXThisExpr":
                    return "this"
                elif k == "DeclRefExpr":
                    return e.get("referencedDecl", {}).get("id")
                elif k == "ConditionalOperator":
                    return None
                else:
                    return None

        def add(e, how):
            b = base_ref(e)
            if b is not None:
                ways.setdefault(b, set()).add(how)

        def is_const_ty(e):
            q = e.get("type", {}).get("qualType", "")
            d = e.get("type", {}).get("desugaredQualType", q)
            return strip_type(q)[2] or strip_type(d)[2]

        seen_fn = set()

        def go(n):
            if not isinstance(n, dict):
                return
            k = n.get("kind")
            inner = n.get("inner", [])
            if k in ("BinaryOperator",) and n.get("opcode") == "=":
                add(inner[0], "elem" if inner[0]["kind"] in ("ArraySubscriptExpr",) else "set")
            elif k == "CompoundAssignOperator":
                add(inner[0], "elem" if inner[0]["kind"] == "ArraySubscriptExpr" else "set")
            elif k == "UnaryOperator" and n.get("opcode") in ("++", "--"):
                add(inner[0], "set")
            elif k == "UnaryOperator" and n.get("opcode") == "&":
                add(inner[0], "set")
            elif k == "CXXOperatorCallExpr":
                fn = inner[0]
                while fn.get("kind") in ("ImplicitCastExpr",):
                    fn = fn["inner"][0]
                opn = fn.get("referencedDecl", {}).get("name", "")
                if opn in ("operator=", "operator+=", "operator-=", "operator*=", "operator/=", "operator++", "operator--",
                           "operator%=", "operator<<=", "operator>>=", "operator|=", "operator&=", "operator^="):
                    tgt = inner[1]
                    t2 = tgt
                    while t2.get("kind") in ("ParenExpr",):
                        t2 = t2["inner"][0]
                    el = t2.get("kind") in ("ArraySubscriptExpr",) or (
                        t2.get("kind") == "CXXOperatorCallExpr" and self._opname(t2) == "operator[]")
                    add(tgt, "elem" if el else "set")
                elif opn == "operator()":
                    go_lambda(inner[1])
                    for a in inner[2:]:
                        arg(a)
                elif opn == "operator[]":
                    # non-const operator[] on a map inserts
                    if not is_const_ty(inner[1]):
                        t = tyof(inner[1])
                        if any(x in t for x in ("map<", "Map<", "MapBase")):
                            add(inner[1], "set")
                        # element writes are seen at the assignment
            elif k == "CXXMemberCallExpr":
                m = inner[0]
                if m.get("kind") == "MemberExpr" and m.get("inner"):
                    o = m["inner"][0]
                    if not is_const_ty(o) and m.get("name") not in ("begin", "end", "size", "empty", "getTerms", "rbegin",
                                                                    "rend", "find", "back_", "data", "count"):
                        if m.get("name") in ("back", "front", "at", "value"):
                            pass
                        else:
                            add(o, "call:" + (m.get("name") or ""))
                for a in inner[1:]:
                    arg(a)
            elif k in ("CallExpr", "CXXConstructExpr"):
                for a in inner[1:] if k == "CallExpr" else []:
                    arg(a)
                if k == "CallExpr":
                    go_lambda(inner[0])
            for c in inner:
                go(c)

        def go_lambda(e):
            while e.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
                e = e["inner"][0]
            if e.get("kind") == "DeclRefExpr":
                did = e.get("referencedDecl", {}).get("id")
                lv = fr.lookup(did)
                if lv is not None:
                    v = self.store.get(lv.root)
                    if isinstance(v, Closure) and id(v) not in seen_fn:
                        seen_fn.add(id(v))
                        go(v.func.body)
                    if isinstance(v, Native) and hasattr(v, "mods"):
                        for x in v.mods:
                            ways.setdefault(x, set()).add("set")

        def arg(a):
            # passed by non-const reference?
            if a.get("valueCategory") == "lvalue" and not is_const_ty(a):
                k = a.get("kind")
                if k == "ImplicitCastExpr" and a.get("castKind") == "LValueToRValue":
                    return
                add(a, "arg")

        for n in nodes:
            go(n)
        roots = {}
        for did, w in ways.items():
            if did == "this":
                lv = fr.this
            else:
                lv = fr.lookup(did)
            if lv is not None:
                roots.setdefault(lv.root, set()).update(w if not lv.path else {"elem" if lv.path[0][0] == "idx" else "set"})
        return roots

    def _opname(self, n):
        fn = n["inner"][0]
        while fn.get("kind") == "ImplicitCastExpr":
            fn = fn["inner"][0]
        return fn.get("referencedDecl", {}).get("name", "")

    def havoc_root(self, root, ways):
        v = self.store[root]
        if isinstance(v, z3.ExprRef):
            if kind(v) == "opt" and False:
                pass
            nv = self.fresh(v.sort(), root.split("#")[0])
            if kind(v) == "seq" and ways <= {"elem"}:
                nv = mk(v.sort(), self.fresh(acc(v, 0).sort(), root.split("#")[0]), ln(v))
                self.store[root] = nv
                self.assume([w for w in self.wf(nv, self.ctypes.get(root)) if not z3.eq(w, ln(nv) >= 0)])
                return
            self.store[root] = nv
            self.assume(self.wf(nv, self.ctypes.get(root)))
        elif isinstance(v, Iter):
            self.store[root] = Iter(v.cont, self.fresh(z3.IntSort(), "it"), v.kind, v.meta)
        elif isinstance(v, (Closure, Native, Str)):
            pass
        elif isinstance(v, Obj) and hasattr(v, "havoc"):
            self.store[root] = v.havoc(self)
        else:
            raise Unsupported("havoc of %r" % v)

    def s_ForStmt(self, n, fr):
        inner = n["inner"]   # init, condvar, cond, inc, body
        init, condvar, cond, inc, body = (inner + [None] * 5)[:5]
        if init and init.get("kind"):
            self.exec(init, fr)
        self.loop(n, fr, cond if cond and cond.get("kind") else None, inc if inc and inc.get("kind") else None, body,
                  idxvar=self._find_idx(init, inc, fr))

    def _find_idx(self, init, inc, fr):
        """the counter of a counting loop, as an lvalue"""
        if not inc or not inc.get("kind"):
            return None
        for c in walk(inc):
            if c.get("kind") == "DeclRefExpr":
                return fr.lookup(c.get("referencedDecl", {}).get("id"))
        return None

    def s_WhileStmt(self, n, fr):
        inner = n["inner"]
        self.loop(n, fr, inner[0], None, inner[-1])

    def s_DoStmt(self, n, fr):
        body, cond = n["inner"][0], n["inner"][1]
        c = cond
        while c.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
            c = c["inner"][0]
        if (c.get("kind") == "CXXBoolLiteralExpr" and not c.get("value")) or \
                (c.get("kind") == "IntegerLiteral" and c.get("value") == "0"):
            try:
                self.exec(body, fr)
            except (BreakEx, ContinueEx):
                pass
            return
        self.loop(n, fr, cond, None, body, post_test=True)

    def unroll(self, n, fr, cond, inc, body, limit, post_test=False):
        first = post_test
        for it in range(limit + 1):
            if not first:
                c = self.cond(cond, fr) if cond else z3.BoolVal(True)
                if not self.branch(c, n):
                    return
            first = False
            if it == limit:
                break
            try:
                self.exec(body, fr)
            except BreakEx:
                return
            except ContinueEx:
                pass
            if inc:
                self.eval(inc, fr)
        self.check(z3.BoolVal(False), "loop unrolling of %d is complete" % limit, n, "unwind")
        raise PathEnd()

    def loop(self, n, fr, cond, inc, body, idxvar=None, post_test=False):
        num, spec = self.loop_spec(n)
        if spec is None or spec.unroll is not None:
            return self.unroll(n, fr, cond, inc, body, (spec.unroll if spec else 64), post_test)
        if idxvar is not None:
            self.loop_idx[num] = idxvar
        pre_store = dict(self.store)
        pre_env = Env(self, fr, self.args, pre_store)
        self.loop_pre.append(pre_env)
        env = Env(self, fr, self.args)
        lab = "loop %s" % num
        invs = lambda: aslist(spec.inv(env)) if spec.inv else []
        self.hint(spec, env, "init")
        self.check(invs(), lab + " invariant initially", n, "inv-init")
        mods = self.modified([x for x in (cond, inc, body) if x], fr)
        for r, w in mods.items():
            if r in pre_store and r not in spec.keep:
                self.havoc_root(r, w)
        for f in invs():
            self.assume(f)
        self.forget(spec, invs())
        def cond_dec():
            return aslist(spec.dec(env)) if spec.dec else None
        if post_test:
            go = True
        else:
            c = self.cond(cond, fr) if cond else z3.BoolVal(True)
            go = self.branch(c, n)
        if go:
            d0 = cond_dec()
            self.hint(spec, env, "body")
            try:
                self.exec(body, fr)
            except ContinueEx:
                pass
            except BreakEx:
                self.exit_hint(spec, env)
                self.loop_pre.pop()
                return
            if post_test:
                c = self.cond(cond, fr)
                if not self.branch(c, n):
                    self.exit_hint(spec, env)
                    self.loop_pre.pop()
                    return
            if inc:
                self.eval(inc, fr)
            self.hint(spec, env, "step")
            self.check(invs(), lab + " invariant preserved", n, "inv-step")
            if d0 is not None:
                d1 = cond_dec()
                self.check(lex_dec(d0, d1), lab + " terminates (variant decreases)", n, "term")
            else:
                self.vf.noterm.add((self.c.title, num))
            raise PathEnd()
        self.exit_hint(spec, env)
        self.loop_pre.pop()

    def forget(self, spec, invs):
        """drop the facts that mention a superseded state of a record: fewer assumptions, so what is proved stays proved"""
        if not spec.forget:
            return
        live = set()
        for v in list(self.store.values()) + list(self.old_store.values()) + invs:
            if isinstance(v, z3.ExprRef):
                live |= rec_consts(v)
        self.pc[:] = [f for f in self.pc if rec_consts(f) <= live]

    def hint(self, spec, env, where):
        if spec.hints:
            for h in aslist(spec.hints(env, where)):
                self.assume(h)

    def exit_hint(self, spec, env):
        if spec.exit_hints:
            for h in aslist(spec.exit_hints(env)):
                self.assume(h)

    def s_CXXForRangeStmt(self, n, fr):
        inner = n["inner"]
        # [init?, range decl, begin, end, cond, inc, loopvar, body]
        rng = inner[1]["inner"][0]
        loopvar = inner[6]["inner"][0]
        body = inner[7]
        rexpr = rng["inner"][0]
        num, spec = self.loop_spec(n)
        cont = self.range_of_container(rexpr, fr)   # (lenexpr, getter(i)->LV or value, extra)
        length, getter = cont
        key = self.newkey("idx")
        self.store[key] = z3.IntVal(0)
        ilv = LV(key)
        self.loop_idx[num] = ilv
        self.loop_rng[num] = self.last_rng if isinstance(self.last_rng, LV) else (rexpr, fr)
        self.loop_get[num] = getter
        self.loop_enum[num] = (self.enums or [None])[-1]

        def bindvar():
            i = self.load(ilv)
            x = getter(i)
            d = loopvar
            if d["kind"] == "DecompositionDecl":
                binds = [c for c in d.get("inner", []) if c["kind"] == "BindingDecl"]
                base = x if isinstance(x, LV) else self.bind(fr, d["id"], "__d", x, None)
                self.bind_decomp(binds, base, fr)
                return
            core, isref, _ = strip_type(tyof(d))
            if isinstance(x, LV):
                if isref:
                    fr.vars[d["id"]] = x
                    fr.names[d.get("name")] = x
                    return
                x = self.load(x)
            self.bind(fr, d["id"], d.get("name"), x, tyof(d))

        if spec is None or spec.unroll is not None:
            lim = spec.unroll if spec else 64
            for it in range(lim + 1):
                if not self.branch(z3.IntVal(it) < length, n):
                    return
                if it == lim:
                    break
                self.store[key] = z3.IntVal(it)
                bindvar()
                try:
                    self.exec(body, fr)
                except BreakEx:
                    return
                except ContinueEx:
                    pass
            self.check(z3.BoolVal(False), "loop unrolling of %d is complete" % lim, n, "unwind")
            raise PathEnd()
        pre_store = dict(self.store)
        self.loop_pre.append(Env(self, fr, self.args, pre_store))
        env = Env(self, fr, self.args)
        lab = "loop %s" % num
        invs = lambda: aslist(spec.inv(env)) if spec.inv else []
        self.hint(spec, env, "init")
        self.check(invs(), lab + " invariant initially", n, "inv-init")
        mods = self.modified([body], fr)
        # names bound to elements are rebound, not havocked
        for r, w in mods.items():
            if r in pre_store:
                self.havoc_root(r, w)
        i = self.fresh(z3.IntSort(), "idx%s" % num)
        self.store[key] = i
        self.assume([i >= 0, i <= length])
        for f in invs():
            self.assume(f)
        self.forget(spec, invs())
        if self.branch(i < length, n):
            bindvar()
            self.hint(spec, env, "body")
            try:
                self.exec(body, fr)
            except ContinueEx:
                pass
            except BreakEx:
                self.exit_hint(spec, env)
                self.loop_pre.pop()
                return
            self.store[key] = i + 1
            self.hint(spec, env, "step")
            self.check(invs(), lab + " invariant preserved", n, "inv-step")
            raise PathEnd()
        self.exit_hint(spec, env)
        self.loop_pre.pop()

    def range_of_container(self, e, fr):
        self.last_rng = None
        try:
            lv = self.lval(e, fr, strip_type(tyof(e))[0])
        except Unsupported:
            v = self.eval(e, fr)
            key = self.newkey("rng")
            self.store[key] = v
            lv = LV(key)
        self.last_rng = lv
        v = self.load(lv)
        if isinstance(v, InitL):
            v = self.coerce_sort(v, self.tm.sort(tyof(e)))
            self.storev(lv, v) if not lv.path else None
            self.store[lv.root] = v
        if isinstance(v, Obj) and hasattr(v, "range"):
            return v.range(self)
        k = kind(v)
        if k == "seq":
            return ln(v), (lambda i: lv.sub(("idx", i)))
        if k in ("set", "map"):
            return self.vf.lib.enumerate_container(self, lv, v)
        raise Unsupported("range over %s" % (v.sort() if isinstance(v, z3.ExprRef) else v))

    # ------------------------------------------------------------ lvalues
    def lval(self, n, fr, core=None):
        k = n["kind"]
        inner = n.get("inner", [])
        if k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr",
                 "SubstNonTypeTemplateParmExpr"):
            if k == "MaterializeTemporaryExpr" or inner[0].get("valueCategory") == "prvalue":
                v = self.eval(inner[0], fr)
                if core and not isinstance(v, Py):
                    try:
                        v = self.conv_to(v, core)
                    except Unsupported:
                        pass
                elif isinstance(v, InitL) and core:
                    v = self.conv_to(v, core)
                key = self.newkey("tmp")
                self.store[key] = v
                self.ctypes[key] = core
                return LV(key)
            return self.lval(inner[0], fr, core)
        if k == "DeclRefExpr":
            rd = n.get("referencedDecl", {})
            lv = fr.lookup(rd.get("id"))
            if lv is None:
                g = self.globalvar(rd, n)
                if g is not None:
                    return g
                raise Unsupported("unknown variable %s (line %s)" % (rd.get("name"), line_of(n)))
            return lv
        if k == "ImplicitCastExpr" and n.get("castKind") in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase",
                                                            "LValueToRValue", "ArrayToPointerDecay"):
            return self.lval(inner[0], fr, core)
        if k in ("CXXStaticCastExpr", "CXXConstCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr") and \
                n.get("castKind") in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase", "BaseToDerived"):
            return self.lval(inner[0], fr, core)
        if k == "MemberExpr":
            return self.member_lv(n, fr)
        if k == "ArraySubscriptExpr":
            b = self.lval(inner[0], fr)
            i = self.eval(inner[1], fr)
            return self.index_lv(b, i, n)
        if k == "UnaryOperator" and n.get("opcode") == "*":
            v = self.eval(inner[0], fr)
            return self.deref(v, n)
        if k == "UnaryOperator" and n.get("opcode") in ("++", "--"):
            self.eval(n, fr)
            return self.lval(inner[0], fr)
        if k in ("CompoundAssignOperator",) or (k == "BinaryOperator" and n.get("opcode") == "="):
            self.eval(n, fr)
            return self.lval(inner[0], fr)
        if k in ("CXXOperatorCallExpr", "CXXMemberCallExpr", "CallExpr"):
            r = self.call(n, fr, want_lv=True)
            if isinstance(r, LV):
                return r
            key = self.newkey("tmp")
            self.store[key] = r
            self.ctypes[key] = core
            return LV(key)
        if k == "CXXThisExpr":
            return fr_this(fr)
        if k == "ConditionalOperator":
            if self.branch(self.cond(inner[0], fr), n):
                return self.lval(inner[1], fr, core)
            return self.lval(inner[2], fr, core)
        if n.get("valueCategory") in ("prvalue", "xvalue", None):
            v = self.eval(n, fr)
            key = self.newkey("tmp")
            self.store[key] = v
            self.ctypes[key] = core
            return LV(key)
        raise Unsupported("lvalue %s line %s" % (k, line_of(n)))

    def globalvar(self, rd, n):
        g = self.vf.globals_override(self, rd, n)
        if g is not None:
            key = "G:" + rd.get("name", "?")
            if key not in self.store:
                self.store[key] = g
            return LV(key)
        d = self.func.tu.globals.get(rd.get("id"))
        if d is None:
            d = self.func.tu.by_id.get(rd.get("id"))
        if d is not None and d.get("kind") == "VarDecl":
            key = "G:" + rd.get("name", "?") + rd["id"]
            if key not in self.store:
                inner = [c for c in d.get("inner", []) if not c["kind"].endswith("Attr")]
                if not inner:
                    return None
                fr = Frame(self.func)
                v = self.conv_to(self.eval(inner[0], fr), tyof(d))
                self.store[key] = v
                if self.old_env is not None and key not in self.old_store:
                    self.old_store[key] = v
            return LV(key)
        return None

    def deref(self, v, n):
        if isinstance(v, Ptr):
            return v.lv
        if isinstance(v, Iter):
            if v.kind == "seq":
                c = self.load(v.cont)
                self.check(z3.And(v.idx >= 0, v.idx < ln(c)), "iterator dereference in range", n, "safety")
                return v.cont.sub(("idx", v.idx))
            if v.kind == "mapkey":
                key = self.newkey("deref")
                self.store[key] = self.vf.lib.map_entry(self, v)
                return LV(key)
        if isinstance(v, z3.ExprRef) and kind(v) == "opt":
            self.check(has(v), "optional has a value", n, "safety")
            key = self.newkey("deref")
            self.store[key] = get(v)
            return LV(key)
        if isinstance(v, z3.ExprRef) and v.sort() == NODE or isinstance(v, Obj) and hasattr(v, "member"):
            key = self.newkey("deref")
            self.store[key] = v
            return LV(key)
        raise Unsupported("deref of %r line %s" % (v, line_of(n)))

    def index_lv(self, b, i, n):
        v = self.load(b)
        if isinstance(v, Ptr):
            b = v.lv
            v = self.load(b)
        k = kind(v)
        if k == "seq":
            i = self.toint(i)
            self.check(z3.And(i >= 0, i < ln(v)), "index in bounds", n, "safety")
            return b.sub(("idx", i))
        if k == "map":
            info = INFO[v.sort().name()]
            key = self.coerce_sort(i, info["key"])
            # operator[] inserts a value-initialized element when absent
            dom = acc(v, 0)
            if not self.wrap_check(z3.Select(dom, key)):
                d = self.default_of(info["val"])
                present = z3.Select(dom, key)
                nv = mk(v.sort(), z3.Store(dom, key, z3.BoolVal(True)),
                        z3.Store(acc(v, 1), key, z3.If(present, z3.Select(acc(v, 1), key), d)),
                        z3.If(present, acc(v, 2), acc(v, 2) + 1))
                self.storev(b, nv)
            else:
                self.assume(z3.Select(dom, key))
            return b.sub(("mapval", key))
        raise Unsupported("index into %s line %s" % (v.sort() if isinstance(v, z3.ExprRef) else v, line_of(n)))

    def toint(self, v):
        if isinstance(v, z3.ExprRef) and v.sort().kind() == z3.Z3_BV_SORT:
            return z3.BV2Int(v)
        if isinstance(v, z3.ExprRef) and v.sort() == z3.BoolSort():
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def member_lv(self, n, fr):
        inner = n.get("inner", [])
        name = n.get("name")
        if n.get("isArrow"):
            b = inner[0]
            v = self.eval(b, fr)
            if isinstance(v, Ptr):
                base = v.lv
            else:
                base = self.deref(v, n)
        else:
            base = self.lval(inner[0], fr)
        return self.field_lv(base, name, n)

    def field_lv(self, base, name, n):
        v = self.load(base)
        if isinstance(v, Obj):
            r = v.member(self, base, name) if hasattr(v, "member") else None
            if r is not None:
                return r
            return base.sub(("attr", name))
        k = kind(v)
        if k == "rec":
            info = INFO[v.sort().name()]
            if name in info["fields"]:
                return base.sub(("fld", info["fields"].index(name)))
        if k == "tup" and name in ("first", "second"):
            return base.sub(("fld", 0 if name == "first" else 1))
        if v.sort() == NODE:
            r = self.vf.lib.node_field(self, v, name)
            if r is not None:
                key = self.newkey("nf")
                self.store[key] = r
                return LV(key)
        raise Unsupported("field %s of %s line %s" % (name, v.sort(), line_of(n)))

    # ------------------------------------------------------------ expressions
    def eval(self, n, fr):
        k = n["kind"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported("expression %s at line %s" % (k, line_of(n)))
        return m(n, fr)

    def _through(self, n, fr):
        return self.eval(n["inner"][0], fr)

    e_ParenExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_ConstantExpr = _through
    e_SubstNonTypeTemplateParmExpr = lambda self, n, fr: self.eval(n["inner"][-1], fr)

    def e_MaterializeTemporaryExpr(self, n, fr):
        return self.eval(n["inner"][0], fr)

    def e_CXXDefaultArgExpr(self, n, fr):
        if n.get("inner"):
            return self.eval(n["inner"][0], fr)
        raise Unsupported("default argument without expression line %s" % line_of(n))

    def e_CXXDefaultInitExpr(self, n, fr):
        if n.get("inner"):
            return self.eval(n["inner"][0], fr)
        raise Unsupported("default init")

    def e_IntegerLiteral(self, n, fr):
        return self.iconst(int(n["value"]), tyof(n))

    def iconst(self, v, ctype):
        if self.bv:
            ii = self.tm.int_info(ctype)
            if ii:
                return z3.BitVecVal(v, ii[0])
        return z3.IntVal(v)

    def e_CharacterLiteral(self, n, fr):
        return self.iconst(int(n["value"]), "int")

    def e_FloatingLiteral(self, n, fr):
        return z3.RealVal(n["value"])

    def e_CXXBoolLiteralExpr(self, n, fr):
        return z3.BoolVal(bool(n["value"]))

    def e_StringLiteral(self, n, fr):
        return Str(n.get("value", ""))

    def e_CXXNullPtrLiteralExpr(self, n, fr):
        return Null()

    def e_GNUNullExpr(self, n, fr):
        return Null()

    def e_ImplicitValueInitExpr(self, n, fr):
        return self.default_of(self.tm.sort(tyof(n)))

    def e_CXXScalarValueInitExpr(self, n, fr):
        return self.default_of(self.tm.sort(tyof(n)))

    def e_CXXThisExpr(self, n, fr):
        f = fr
        while f is not None and f.this is None:
            f = f.parent
        if f is None:
            raise Unsupported("no this")
        return Ptr(f.this)

    def e_DeclRefExpr(self, n, fr):
        rd = n.get("referencedDecl", {})
        if rd.get("kind") in ("FunctionDecl", "CXXMethodDecl"):
            fn = self.func.tu.resolve(rd.get("id"))
            return Obj(fnref=fn, name=rd.get("name"), decl=rd)
        if rd.get("kind") == "EnumConstantDecl":
            return self.vf.enum_const(self, rd, n)
        if rd.get("kind") == "VarDecl" and rd.get("name") == "nullopt":
            return Null()
        if rd.get("kind") == "NonTypeTemplateParmDecl":
            raise Unsupported("template parameter")
        if rd.get("kind") == "BindingDecl":
            lv = fr.lookup(rd.get("id"))
            if lv is None:
                raise Unsupported("binding")
            return self.load(lv)
        lv = self.lval(n, fr)
        return self.load(lv)

    def e_MemberExpr(self, n, fr):
        return self.load(self.member_lv(n, fr))

    def e_ArraySubscriptExpr(self, n, fr):
        return self.load(self.lval(n, fr))

    def e_LambdaExpr(self, n, fr):
        rec = n["inner"][0]
        body_m = None
        from cppast import Func
        for d in rec.get("inner", []):
            if d.get("kind") == "CXXMethodDecl" and d.get("name") == "operator()":
                body_m = d
            if d.get("kind") == "FunctionTemplateDecl":
                body_m = d
        fields = [d for d in rec.get("inner", []) if d.get("kind") == "FieldDecl"]
        capexprs = [c for c in n["inner"][1:] if c["kind"] != "CompoundStmt"]
        caps = {}
        for fd, ce in zip(fields, capexprs):
            if strip_type(tyof(fd))[1]:
                continue
            e = ce
            while e.get("kind") in ("ImplicitCastExpr", "ParenExpr", "CXXConstructExpr", "ExprWithCleanups") and e.get("inner"):
                e = e["inner"][0]
            if e.get("kind") == "DeclRefExpr":
                did = e["referencedDecl"]["id"]
                lv = fr.lookup(did)
                if lv is not None:
                    key = self.newkey("cap")
                    self.store[key] = self.load(lv)
                    self.ctypes[key] = self.ctypes.get(lv.root)
                    caps[did] = LV(key)
        if body_m is None:
            raise Unsupported("lambda without operator()")
        if body_m["kind"] == "FunctionTemplateDecl":
            return Closure(("generic", body_m), fr, None, caps)
        f = mkfunc(body_m, self.func.tu)
        if f.body is None:
            for c in n["inner"]:
                if c["kind"] == "CompoundStmt":
                    f.body = c
        return Closure(f, fr, None, caps)

    def e_InitListExpr(self, n, fr):
        items = []
        t = tyof(n)
        if n.get("array_filler") is not None:
            items = [self.eval(c, fr) for c in n["array_filler"] if c.get("kind") != "ImplicitValueInitExpr"]
        else:
            items = [self.eval(c, fr) for c in n.get("inner", [])]
        il = InitL(items)
        m = re.match(r"^(.*?)\s*\[(\d+)\]$", strip_type(t)[0])
        if m:
            es = self.tm.sort(m.group(1))
            while len(il.items) < int(m.group(2)) and int(m.group(2)) <= 64:
                il.items.append(self.default_of(es))
            return self.coerce_sort(il, self.tm.sort(t))
        try:
            s = self.tm.sort(t)
            if kind(s) in ("rec", "tup"):
                return self.coerce_sort(il, s)
            if s in (z3.IntSort(), z3.RealSort(), z3.BoolSort()) and len(items) <= 1:
                return items[0] if items else self.default_of(s)
        except Unsupported:
            pass
        il.ctype = t
        r = self.vf.lib.init_list(self, il, t)
        return r if r is not None else il

    def e_CXXStdInitializerListExpr(self, n, fr):
        v = self.eval(n["inner"][0], fr)
        return v

    def e_ConditionalOperator(self, n, fr):
        inner = n["inner"]
        c = self.cond(inner[0], fr)
        if any(x.get("kind") == "DeclRefExpr" and x.get("referencedDecl", {}).get("name") == "__assert_fail"
               for x in walk(inner[2])):
            self.check(c, "assertion holds", n, "safety")
            return None
        cs = z3.simplify(c)
        if z3.is_true(cs):
            return self.eval(inner[1], fr)
        if z3.is_false(cs):
            return self.eval(inner[2], fr)
        if self.is_pure(inner[1]) and self.is_pure(inner[2]):
            a, b = self.eval(inner[1], fr), self.eval(inner[2], fr)
            if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
                if a.sort() != b.sort():
                    if z3.is_int(a) and z3.is_real(b):
                        a = z3.ToReal(a)
                    elif z3.is_real(a) and z3.is_int(b):
                        b = z3.ToReal(b)
                if a.sort() == b.sort():
                    return z3.If(c, a, b)
        if getattr(self.vf, "merge_cond", False) and n.get("valueCategory") == "prvalue":
            arms = [(c, inner[1]), (z3.Not(c), inner[2])]
            if self.decide(lambda: (self.mergeable(arms, fr), [])):
                a, b = [self.under(q, m, fr) for q, m in arms]
                return z3.If(c, a, b)
        if self.branch(c, n):
            return self.eval(inner[1], fr)
        return self.eval(inner[2], fr)

    def under(self, cond, node, fr):
        """a side-effect-free expression evaluated where cond holds"""
        mark = len(self.pc)
        self.qs.push()
        try:
            self.assume(cond)
            m2 = len(self.pc)
            v = self.eval(node, fr)
            v = self.load(v) if isinstance(v, LV) else v
            facts = self.pc[m2:]
        finally:
            del self.pc[mark:]
            self.qs.pop()
        for f in facts:
            self.assume(z3.Implies(cond, f))
        return v

    def mergeable(self, arms, fr):
        """can both arms be evaluated without a fork or an effect, to values of one sort"""
        if self.dry:
            return False
        st, save = dict(self.store), {}
        for k in ("pc", "trace", "calllog", "callstack", "frames", "loop_stack", "loop_pre"):
            save[k] = list(getattr(self, k))
        nums = self.nfresh, self.nkey
        self.dry = True
        self.qs.push()
        try:
            vs = []
            for c, m in arms:
                if self.implied(z3.Not(c)):
                    return False
                vs.append(self.under(c, m, fr))
                if any(self.store.get(k) is not v for k, v in st.items()) or len(self.calllog) != len(save["calllog"]):
                    return False
            return all(isinstance(v, z3.ExprRef) for v in vs) and vs[0].sort() == vs[1].sort()
        except (Fork, PathEnd, Unsupported):
            return False
        finally:
            self.dry = False
            self.qs.pop()
            self.store = st
            self.nfresh, self.nkey = nums
            for k, v in save.items():
                getattr(self, k)[:] = v

    PURE = {"DeclRefExpr", "IntegerLiteral", "CXXBoolLiteralExpr", "FloatingLiteral", "ParenExpr", "ImplicitCastExpr",
            "BinaryOperator", "UnaryOperator"}

    def is_pure(self, n):
        for c in walk(n):
            if c["kind"] not in self.PURE:
                return False
            if c["kind"] == "UnaryOperator" and c.get("opcode") in ("++", "--", "*"):
                return False
            if c["kind"] == "BinaryOperator" and c.get("opcode") in ("=", "+", "-", "*", "/", "%", "<<", ">>") and not self.bv:
                if c.get("opcode") in ("=", "/", "%", "<<", ">>"):
                    return False
                # overflow checks make + - * impure unless floating
                if self.tm.int_info(tyof(c)):
                    return False
                if c.get("opcode") in ("-", "*") and self.tm.sort(tyof(c)) == XR:
                    return False
            if c["kind"] == "BinaryOperator" and self.bv:
                ii = self.tm.int_info(tyof(c))
                if c.get("opcode") in ("=", "/", "%", "<<", ">>") or \
                        (c.get("opcode") in ("+", "-", "*") and ii and ii[1]):
                    return False
            if c["kind"] == "ImplicitCastExpr" and c.get("castKind") in ("FloatingToIntegral", "IntegralCast") and not self.bv:
                if c.get("castKind") == "FloatingToIntegral":
                    return False
        return True

    def e_BinaryOperator(self, n, fr):
        op = n["opcode"]
        inner = n["inner"]
        if op == "=":
            rhs = self.eval(inner[1], fr)
            lv = self.lval(inner[0], fr)
            rhs = self.conv_to(rhs, tyof(inner[0])) if isinstance(rhs, (InitL, Null)) else rhs
            self.storev(lv, rhs)
            return rhs
        if op == ",":
            self.eval(inner[0], fr)
            return self.eval(inner[1], fr)
        if op in ("&&", "||"):
            a = self.cond(inner[0], fr)
            s = z3.simplify(a)
            if z3.is_false(s) and op == "&&":
                return z3.BoolVal(False)
            if z3.is_true(s) and op == "||":
                return z3.BoolVal(True)
            if z3.is_true(s) or z3.is_false(s):
                return self.cond(inner[1], fr)
            if self.is_pure(inner[1]):
                b = self.cond(inner[1], fr)
                return z3.And(a, b) if op == "&&" else z3.Or(a, b)
            if op == "&&":
                return self.cond(inner[1], fr) if self.branch(a, n) else z3.BoolVal(False)
            return z3.BoolVal(True) if self.branch(a, n) else self.cond(inner[1], fr)
        a = self.eval(inner[0], fr)
        b = self.eval(inner[1], fr)
        return self.binop(op, a, b, tyof(n), n, tyof(inner[0]), tyof(inner[1]))

    def binop(self, op, a, b, t, n, ta, tb):
        if isinstance(a, (Ptr, Iter, Null)) or isinstance(b, (Ptr, Iter, Null)):
            return self.ptr_op(op, a, b, n)
        if kind(a) == "xr" or kind(b) == "xr":
            return self.xr_op(op, a, b, n)
        if op in ("==", "!="):
            if a.sort() != b.sort():
                a, b = self.unify(a, b)
            r = a == b
            return r if op == "==" else z3.Not(r)
        if op in ("<", ">", "<=", ">="):
            a, b = self.unify(self.num(a), self.num(b))
            if a.sort().kind() == z3.Z3_BV_SORT:
                sg = (self.tm.int_info(ta) or (0, True))[1]
                f = {"<": (z3.ULT, lambda x, y: x < y), ">": (z3.UGT, lambda x, y: x > y),
                     "<=": (z3.ULE, lambda x, y: x <= y), ">=": (z3.UGE, lambda x, y: x >= y)}[op]
                return f[1](a, b) if sg else f[0](a, b)
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
        a, b = self.num(a), self.num(b)
        if z3.is_real(a) or z3.is_real(b):
            a, b = self.unify(a, b)
            if op == "/":
                self.check(b != 0, "no division by zero", n, "safety")
            if op == "*" and self.vf.mul_hook:
                r = self.vf.mul_hook(self, a, b, None)
                if r is not None:
                    return r
            return {"+": a + b, "-": a - b, "*": a * b, "/": a / b}[op]
        return self.arith(op, a, b, t, n, ta, tb)

    def xr_op(self, op, a, b, n):
        """exact reals extended by minus infinity; operations IEEE would make NaN or plus infinity are obligations"""
        a, b = self.coerce_sort(self.num(a), XR), self.coerce_sort(self.num(b), XR)
        fa, fb, va, vb = XR.is_fin(a), XR.is_fin(b), XR.xval(a), XR.xval(b)
        if op in ("==", "!="):
            return a == b if op == "==" else a != b
        if op in ("<", ">", "<=", ">="):
            if op in (">", ">="):
                fa, fb, va, vb = fb, fa, vb, va
            if op in ("<", ">"):
                return z3.And(fb, z3.Or(z3.Not(fa), va < vb))
            return z3.Or(z3.Not(fa), z3.And(fb, va <= vb))
        if op == "+":
            return z3.If(z3.And(fa, fb), XR.fin(va + vb), XR.ninf)
        if op == "-":
            self.check(fb, "no subtraction of minus infinity", n, "safety")
            return z3.If(fa, XR.fin(va - vb), XR.ninf)
        if op in ("*", "/"):
            self.check(z3.And(fa, fb), "finite operands of %s" % op, n, "safety")
            if op == "/":
                self.check(vb != 0, "no division by zero", n, "safety")
                return XR.fin(va / vb)
            return XR.fin(va * vb)
        raise Unsupported("xr " + op)

    def num(self, v):
        if isinstance(v, z3.ExprRef) and v.sort() == z3.BoolSort():
            return z3.If(v, self.iconst(1, "int"), self.iconst(0, "int"))
        return v

    def unify(self, a, b):
        if a.sort() == b.sort():
            return a, b
        if z3.is_int(a) and z3.is_real(b):
            return z3.ToReal(a), b
        if z3.is_real(a) and z3.is_int(b):
            return a, z3.ToReal(b)
        if a.sort() == z3.BoolSort():
            return self.unify(self.num(a), b)
        if b.sort() == z3.BoolSort():
            return self.unify(a, self.num(b))
        raise Unsupported("sorts %s / %s" % (a.sort(), b.sort()))

    def arith(self, op, a, b, t, n, ta=None, tb=None):
        ii = self.tm.int_info(t)
        if ii is None:
            raise Unsupported("arith on %s (line %s)" % (t, line_of(n)))
        w, sg = ii
        if self.bv:
            return self.bvarith(op, a, b, w, sg, n, ta)
        if op in ("+", "-", "*"):
            r = {"+": a + b, "-": a - b, "*": a * b}[op]
            r = fold(r)
            return self.fit(r, ii, n, op)
        if op in ("/", "%"):
            self.check(b != 0, "no division by zero", n, "safety")
            nonneg = (not sg) or self.wrap_check(z3.And(a >= 0, b > 0))
            if nonneg:
                return fold(a / b if op == "/" else a % b)
            if self.wrap_check(b > 0):
                q = z3.If(a >= 0, a / b, -((-a) / b))
                return q if op == "/" else z3.If(a >= 0, a % b, -((-a) % b))
            q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
            return q if op == "/" else a - b * q
        if op == "<<":
            self.check(z3.And(b >= 0, b < w), "shift amount in range", n, "safety")
            r = fold(a * pow2(b))
            return self.fit(r, ii, n, op)
        if op == ">>":
            self.check(z3.And(b >= 0, b < w), "shift amount in range", n, "safety")
            return fold(a / pow2(b))
        if op == "&":
            for x, y in ((a, b), (b, a)):
                y = z3.simplify(y)
                if z3.is_int_value(y):
                    c = y.as_long()
                    if c >= 0 and (c & (c + 1)) == 0:
                        return fold(x % (c + 1))
            return self.vf.lib.bitop(self, "&", a, b, ii, n)
        if op == "^":
            bb = z3.simplify(b)
            if z3.is_int_value(bb) and bb.as_long() == 1:
                if self.wrap_check(z3.And(a >= 0, a <= 1)):
                    return fold(1 - a)
                return fold(z3.If(a % 2 == 0, a + 1, a - 1))
            return self.vf.lib.bitop(self, "^", a, b, ii, n)
        if op == "|":
            return self.vf.lib.bitop(self, "|", a, b, ii, n)
        raise Unsupported("op " + op)

    def fit(self, r, ii, n, op):
        lo, hi = irange(ii)
        inr = z3.And(r >= lo, r <= hi)
        if ii[1]:
            if self.c.overflow == "math" or self.c.overflow == "math64" and ii[0] == 64:
                self.vf.math_ints.add(self.c.title)
                return r
            self.check(inr, "no signed overflow in %s" % op, n, "safety")
            return r
        if self.wrap_check(inr):
            return r
        return fold(r % (hi + 1))

    def bvarith(self, op, a, b, w, sg, n, ta):
        r = self.bvarith_(op, a, b, w, sg, n, ta)
        return z3.simplify(r) if all(z3.is_bv_value(x) for x in r.children()) else r

    def bvarith_(self, op, a, b, w, sg, n, ta):
        a, b = bvfit(a, w, sg), b
        if b.sort().size() != w:
            b = bvfit(b, w, False)
        if op in ("+", "-", "*"):
            if sg:
                if op == "+":
                    g = z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b))
                elif op == "-":
                    g = z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True))
                else:
                    g = z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b))
                self.check(g, "no signed overflow in " + op, n, "safety")
            return {"+": a + b, "-": a - b, "*": a * b}[op]
        if op == "&":
            return a & b
        if op == "|":
            return a | b
        if op == "^":
            return a ^ b
        if op in ("<<", ">>"):
            self.check(z3.ULT(b, w), "shift amount in range", n, "safety")
            if op == "<<":
                return a << b
            return (a >> b) if sg else z3.LShR(a, b)
        if op in ("/", "%"):
            self.check(b != 0, "no division by zero", n, "safety")
            if op == "/":
                return (a / b) if sg else z3.UDiv(a, b)
            return z3.SRem(a, b) if sg else z3.URem(a, b)
        raise Unsupported("bv op " + op)

    def ptr_op(self, op, a, b, n):
        if isinstance(a, Null) and isinstance(b, z3.ExprRef):
            a, b = b, a
        if isinstance(b, Null):
            if isinstance(a, z3.ExprRef) and a.sort() == NODE:
                r = a == NULLNODE
            elif isinstance(a, Null):
                r = z3.BoolVal(True)
            elif isinstance(a, (Ptr, Closure, Native)):
                r = z3.BoolVal(False)
            else:
                raise Unsupported("null compare")
            return r if op == "==" else z3.Not(r)
        if isinstance(a, Iter) and isinstance(b, Iter):
            if op == "-":
                return a.idx - b.idx
            r = {"==": a.idx == b.idx, "!=": a.idx != b.idx, "<": a.idx < b.idx}.get(op)
            if r is not None:
                return r
        if isinstance(a, Iter):
            return Iter(a.cont, a.idx + b if op == "+" else a.idx - b, a.kind, a.meta)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op in ("==", "!="):
            r = repr(a.lv) == repr(b.lv)
            return z3.BoolVal(r if op == "==" else not r)
        raise Unsupported("pointer op %s" % op)

    def e_CompoundAssignOperator(self, n, fr):
        op = n["opcode"][:-1]
        inner = n["inner"]
        rhs = self.eval(inner[1], fr)
        lv = self.lval(inner[0], fr)
        cur = self.load(lv)
        lt = n.get("computeLHSType", {})
        ct = lt.get("desugaredQualType") or lt.get("qualType") or tyof(inner[0])
        rt_ = n.get("computeResultType", {})
        rt = rt_.get("desugaredQualType") or rt_.get("qualType") or ct
        if isinstance(cur, Iter):
            r = self.ptr_op(op, cur, rhs, n)
        else:
            cur2 = self.cast_num(cur, ct, tyof(inner[0]), n)
            r = self.binop(op, cur2, rhs, rt, n, ct, tyof(inner[1]))
            r = self.cast_num(r, tyof(inner[0]), rt, n)
        self.storev(lv, r)
        return r

    def e_UnaryOperator(self, n, fr):
        op = n["opcode"]
        inner = n["inner"]
        if op in ("++", "--"):
            lv = self.lval(inner[0], fr)
            cur = self.load(lv)
            t = tyof(inner[0])
            if isinstance(cur, Iter):
                new = Iter(cur.cont, cur.idx + (1 if op == "++" else -1), cur.kind, cur.meta)
            elif z3.is_real(cur):
                new = cur + (1 if op == "++" else -1)
            else:
                new = self.arith("+" if op == "++" else "-", cur, self.iconst(1, t), t, n, t, t)
            self.storev(lv, new)
            return cur if n.get("isPostfix") else new
        if op == "&":
            return Ptr(self.lval(inner[0], fr))
        if op == "*":
            return self.load(self.lval(n, fr))
        v = self.eval(inner[0], fr)
        if op == "!":
            return z3.Not(self.tobool(v))
        if op == "-":
            v = self.num(v)
            if kind(v) == "xr":
                self.check(XR.is_fin(v), "no negation of minus infinity", n, "safety")
                return XR.fin(-XR.xval(v))
            if z3.is_real(v):
                return -v
            if self.bv:
                return -v
            return self.fit(fold(-v), self.tm.int_info(tyof(n)), n, "unary -")
        if op == "+":
            return v
        if op == "~":
            if self.bv:
                return ~v
            ii = self.tm.int_info(tyof(n))
            return fold(-v - 1) if ii[1] else fold((2 ** ii[0] - 1) - v)
        raise Unsupported("unary " + op)

    # casts
    def cast_num(self, v, to, frm, n):
        if not isinstance(v, z3.ExprRef):
            return v
        ti = self.tm.int_info(to)
        if ti:
            if z3.is_real(v):
                t = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
                if self.wrap_check(v >= 0):
                    t = z3.ToInt(v)
                lo, hi = irange(ti)
                self.check(z3.And(t >= lo, t <= hi), "float-to-int conversion in range", n, "safety")
                return t
            if v.sort() == z3.BoolSort():
                return z3.If(v, self.iconst(1, to), self.iconst(0, to))
            if self.bv:
                fi = self.tm.int_info(frm)
                return bvfit(v, ti[0], fi[1] if fi else False)
            if not z3.is_int(v):
                return v
            fi = self.tm.int_info(frm)
            lo, hi = irange(ti)
            if fi:
                flo, fhi = irange(fi)
                if flo >= lo and fhi <= hi:
                    return v
            if self.wrap_check(z3.And(v >= lo, v <= hi)):
                return v
            m = 2 ** ti[0]
            if ti[1]:
                return fold(z3.If(v % m >= m // 2, v % m - m, v % m))
            return fold(v % m)
        t, _, _ = strip_type(to)
        from sorts import FLOATS
        if t in FLOATS:
            if z3.is_int(v):
                return z3.ToReal(v)
            if v.sort() == z3.BoolSort():
                return z3.If(v, z3.RealVal(1), z3.RealVal(0))
            return v
        return v

    def e_ImplicitCastExpr(self, n, fr):
        ck = n.get("castKind")
        inner = n["inner"]
        if ck in ("LValueToRValue",):
            v = self.eval(inner[0], fr)
            return v
        if ck in ("NoOp", "ConstructorConversion", "UserDefinedConversion", "UncheckedDerivedToBase", "DerivedToBase",
                  "ArrayToPointerDecay", "FunctionToPointerDecay", "BaseToDerived", "BuiltinFnToFnPtr", "ToVoid", "BitCast"):
            return self.eval(inner[0], fr)
        if ck in ("NullToPointer", "NullToMemberPointer"):
            return Null()
        v = self.eval(inner[0], fr)
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
            return self.tobool(v)
        if ck in ("IntegralCast", "IntegralToFloating", "FloatingToIntegral", "FloatingCast", "BooleanToSignedIntegral"):
            return self.cast_num(v, tyof(n), tyof(inner[0]), n)
        raise Unsupported("cast %s line %s" % (ck, line_of(n)))

    def e_CXXStaticCastExpr(self, n, fr):
        if strip_type(n.get("type", {}).get("qualType", ""))[0] == "void":
            self.eval(n["inner"][0], fr)
            return None
        return self.e_ImplicitCastExpr(n, fr)

    e_CStyleCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = e_CXXStaticCastExpr

    def e_UnaryExprOrTypeTraitExpr(self, n, fr):
        raise Unsupported("sizeof")

    def e_CXXRewrittenBinaryOperator(self, n, fr):
        return self.eval(n["inner"][0], fr)

    def e_TypeTraitExpr(self, n, fr):
        return z3.BoolVal(bool(n.get("value")))

    def e_CXXNoexceptExpr(self, n, fr):
        return z3.BoolVal(True)

    def e_CXXNewExpr(self, n, fr):
        return self.vf.lib.new_expr(self, n, fr)

    def e_PredefinedExpr(self, n, fr):
        return Str("")

    # constructors
    def e_CXXConstructExpr(self, n, fr):
        t = tyof(n)
        inner = [c for c in n.get("inner", []) if not (c["kind"] == "CXXDefaultArgExpr" and not c.get("inner"))]
        return self.vf.lib.construct(self, n, fr, t, inner)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXInheritedCtorInitExpr(self, n, fr):
        raise Unsupported("inherited ctor")

    # calls
    def e_CallExpr(self, n, fr):
        r = self.call(n, fr)
        return self.load(r) if isinstance(r, LV) else r

    e_CXXMemberCallExpr = e_CXXOperatorCallExpr = e_CallExpr

    def call(self, n, fr, want_lv=False):
        k = n["kind"]
        inner = n["inner"]
        f = inner[0]
        while f.get("kind") in ("ImplicitCastExpr", "ParenExpr") and f.get("castKind") in (
                "FunctionToPointerDecay", "NoOp", "BuiltinFnToFnPtr", None):
            f = f["inner"][0]
        args = inner[1:]
        if k == "CXXMemberCallExpr" and f.get("kind") == "MemberExpr":
            name = f.get("name")
            fn = self.func.tu.resolve(f.get("referencedMemberDecl"))
            objn = f["inner"][0]

            def getobj():
                if f.get("isArrow"):
                    v = self.eval(objn, fr)
                    if isinstance(v, Ptr):
                        return v.lv
                    if isinstance(v, (Iter,)) or (isinstance(v, z3.ExprRef) and kind(v) in ("opt",)):
                        return self.deref(v, n)
                    key = self.newkey("obj")
                    self.store[key] = v
                    return LV(key)
                return self.lval(objn, fr, strip_type(tyof(objn))[0])
            c = self.vf.contract_for(fn) if fn else None
            ot = tyof(objn)
            r = self.vf.lib.method(self, n, fr, ot, name, getobj, args, want_lv) if c is None else NotImplemented
            if r is not NotImplemented:
                return r
            if fn is not None and (fn.body is not None or c is not None):
                return self.invoke(fn, [getobj()] + list(args), n, fr, want_lv, method=True)
            raise Unsupported("method %s on %s line %s" % (name, ot, line_of(n)))
        if k == "CallExpr" and f.get("kind") == "MemberExpr":
            # static member function named through an object
            f = dict(kind="DeclRefExpr", referencedDecl=dict(id=f.get("referencedMemberDecl"), name=f.get("name"),
                                                             kind="FunctionDecl", type=f.get("type", {})))
        if f.get("kind") == "DeclRefExpr":
            rd = f.get("referencedDecl", {})
            name = rd.get("name")
            if rd.get("kind") in ("VarDecl", "ParmVarDecl", "BindingDecl"):
                v = self.load(self.lval(f, fr))
                return self.call_value(v, args, n, fr)
            fn = self.func.tu.resolve(rd.get("id"))
            c = self.vf.contract_for(fn) if fn else None
            if fn is None:
                c = self.vf.contract_by_decl(self, rd, n)
                if c is not None:
                    return self.apply_contract(c, None, args, n, fr)
            is_method_op = k == "CXXOperatorCallExpr" and rd.get("kind") == "CXXMethodDecl"
            if c is None:
                r = self.vf.lib.function(self, n, fr, name, rd, args, want_lv, is_method_op)
                if r is not NotImplemented:
                    return r
            if fn is not None and (fn.body is not None or c is not None):
                return self.invoke(fn, list(args), n, fr, want_lv, method=is_method_op)
            raise Unsupported("function %s : %s line %s" % (name, rd.get("type", {}).get("qualType"), line_of(n)))
        v = self.eval(f, fr)
        return self.call_value(v, args, n, fr)

    def call_value(self, v, args, n, fr):
        if isinstance(v, Native):
            return v.f(self, [self.eval(a, fr) for a in args])
        if isinstance(v, Closure):
            return self.call_closure(v, [self.argval(a, fr) for a in args], n)
        if isinstance(v, Obj) and hasattr(v, "fnref") and v.fnref is not None:
            return self.invoke(v.fnref, list(args), n, fr, False)
        raise Unsupported("call of %r line %s" % (v, line_of(n)))

    def call_fn(self, v, vals, n):
        """call a callable value on given values"""
        if isinstance(v, Native):
            return v.f(self, list(vals))
        if isinstance(v, Closure):
            return self.call_closure(v, list(vals), n)
        if isinstance(v, Obj) and getattr(v, "fnref", None) is not None:
            lvs = []
            for x in vals:
                key = self.newkey("cargs")
                self.store[key] = x
                lvs.append(LV(key))
            r = self.invoke(v.fnref, lvs, n, None, False)
            return self.load(r) if isinstance(r, LV) else r
        raise Unsupported("call of %r" % (v,))

    def closure_obligation(self, v, n, label, make, spec="fn"):
        """on a separate path: call the closure on arbitrary arguments and check what it returns.
        make() -> (arguments, facts about them, ret -> obligations)"""
        if isinstance(v, Native) and v.name == spec:
            return                                   # an arbitrary function already assumed to meet this specification
        if self.branch(self.fresh(z3.BoolSort(), "closurepath")):
            vals, facts, post = make()
            for f in facts:
                self.assume(f)
            r = self.call_fn(v, vals, n)
            r = self.load(r) if isinstance(r, LV) else r
            self.check(aslist(post(r)), label, n, "pre")
            raise PathEnd()

    def argval(self, a, fr):
        if a.get("valueCategory") == "lvalue":
            try:
                return self.lval(a, fr, strip_type(tyof(a))[0])
            except Unsupported:
                pass
        return self.eval(a, fr)

    def call_closure(self, cl, args, n):
        f = cl.func
        if isinstance(f, tuple):
            f = self.pick_generic(f[1], args)
        fr = Frame(f, cl.frame)
        for did, lv in cl.caps.items():
            fr.vars[did] = lv
        for p, a in zip(f.params, args):
            t = tyof(p)
            isref = strip_type(t)[1]
            if isinstance(a, LV) and isref:
                fr.vars[p["id"]] = a
                if p.get("name"):
                    fr.names[p["name"]] = a
            else:
                v = self.load(a) if isinstance(a, LV) else a
                v = self.conv_to(v, strip_type(t)[0])
                self.bind(fr, p["id"], p.get("name"), v, t)
        return self.run_body(f, fr, n)

    def pick_generic(self, ft, args):
        cands = [mkfunc(d, self.func.tu) for d in ft.get("inner", []) if d.get("kind") == "CXXMethodDecl"]
        cands = [c for c in cands if c.body is not None and "auto" not in tyof(c.params[0])] or cands
        # instantiations follow the pattern declaration
        good = []
        for c in cands:
            ok = True
            for p, a in zip(c.params, args):
                v = self.load(a) if isinstance(a, LV) else a
                t = strip_type(tyof(p))[0]
                if isinstance(v, z3.ExprRef):
                    if "auto" in t:
                        ok = False
                    else:
                        s = self.tm.sort(t)
                        if s != v.sort():
                            ok = False
            if ok:
                good.append(c)
        if not good:
            raise Unsupported("generic lambda instantiation")
        return good[0]

    def run_body(self, f, fr, n, want_ref=False):
        self.depth += 1
        if self.depth > 40:
            raise Unsupported("inlining too deep")
        self.frames.append(fr)
        saved = getattr(self, "want_ref", False)
        self.want_ref = want_ref
        try:
            for ini in f.inits:
                self.ctor_init(ini, fr)
            self.exec(f.body, fr)
            return None
        except ReturnEx as r:
            v = r.v
            if isinstance(v, LV):
                return v
            rt = f.rettype.split("(")[0].strip()
            if isinstance(v, (InitL, Null)) or (isinstance(v, z3.ExprRef) and rt and "auto" not in rt):
                try:
                    v = self.conv_to(v, rt)
                except Unsupported:
                    pass
            return v
        finally:
            self.want_ref = saved
            self.frames.pop()
            self.depth -= 1

    def invoke(self, fn, args, n, fr, want_lv, method=False):
        c = self.vf.contract_for(fn)
        if c is not None:
            return self.apply_contract(c, fn, args, n, fr, method)
        if fn in self.callstack:
            raise Unsupported("recursive function %s without contract" % fn.qname)
        nf = Frame(fn)
        pargs = args
        if method:
            o = args[0]
            nf.this = o if isinstance(o, LV) else self.lval(o, fr)
            pargs = args[1:]
        for p, a in zip(fn.params, pargs):
            t = tyof(p)
            core, isref, _ = strip_type(t)
            if isinstance(a, LV):
                lv = a
            elif isref:
                lv = self.lval(a, fr, core)
            else:
                v = self.conv_to(self.eval(a, fr), core) if isinstance(a, dict) else a
                self.bind(nf, p["id"], p.get("name"), v, t)
                continue
            if isref:
                v = self.load(lv)
                if isinstance(v, InitL) and not lv.path:
                    self.store[lv.root] = self.conv_to(v, core)
                nf.vars[p["id"]] = lv
                if p.get("name"):
                    nf.names[p["name"]] = lv
            else:
                self.bind(nf, p["id"], p.get("name"), self.load(lv), t)
        if len(pargs) < len(fn.params):
            raise Unsupported("missing arguments")
        self.callstack.append(fn)
        chain = getattr(self, "chain", [])
        self.chain = chain + [n["id"]]
        self.vf.inlined.add(fn.qname)
        try:
            return self.run_body(fn, nf, n, want_ref=want_lv)
        finally:
            self.callstack.pop()
            self.chain = chain

    def apply_contract(self, c, fn, args, n, fr, method=False):
        """modular call: check requires, havoc modified arguments, assume ensures"""
        lab = c.title
        amap = {}
        pargs = list(args)
        if method:
            o = pargs.pop(0)
            amap["this"] = o if isinstance(o, LV) else self.lval(o, fr)
        params = fn.params if fn is not None else [None] * len(pargs)
        pnames = c.params or [p.get("name") for p in params]
        for i, (p, a) in enumerate(zip(params, pargs)):
            cn = pnames[i]
            t = tyof(p) if p is not None else (tyof(a) if isinstance(a, dict) else "")
            core, isref, isconst = strip_type(t)
            if isinstance(a, LV):
                v = a
            elif isref and isinstance(a, dict) and (cn in c.modifies):
                v = self.lval(a, fr, core)
            elif isinstance(a, dict):
                v = self.eval(a, fr)
                if p is not None:
                    v = self.conv_to(v, core)
            else:
                v = a
            amap[cn] = v
        if c.invoke:
            return c.invoke(self, amap, n, fr)
        for cn, v in list(amap.items()):
            if not isinstance(v, LV):
                key = self.newkey("arg_" + cn)
                self.store[key] = v
                amap[cn] = LV(key)
        pre_store = dict(self.store)
        pre = Env(self, None, amap, pre_store)
        if c.requires:
            self.check(aslist(c.requires(Env(self, None, amap))), "precondition of " + lab, n, "pre")
        if c.closure_check:
            c.closure_check(self, Env(self, None, amap), n)
        if c.decreases and (c is self.c or c.group and c.group == self.c.group) and hasattr(self, "dec0"):
            d1 = aslist(c.decreases(Env(self, None, amap)))
            self.check(lex_dec(aslist(self.dec0), d1), "recursion terminates (variant decreases)", n, "term")
        for cn in c.modifies:
            if cn in amap:
                lv = amap[cn]
                cur = self.load(lv)
                if isinstance(cur, z3.ExprRef):
                    nv = self.fresh(cur.sort(), cn)
                    self.assume(self.wf(nv, self.ctypes.get(lv.root)))
                    self.storev(lv, nv)
        saved = self.old_env
        self.old_env = pre
        ret = None
        rt = c.ret(self) if c.ret else None
        if rt is None and fn is not None:
            r0 = fn.rettype.split("(")[0].strip()
            if r0 != "void":
                rt = self.ret_sort(fn)
        if c.retdef:
            ret = c.retdef(Env(self, None, amap))
        elif rt is not None:
            ret = self.fresh(rt, "ret_" + re.sub(r"\W", "_", c.name.split("::")[-1]))
            if fn is not None and "auto" not in fn.rettype.split("(")[0]:
                self.assume(self.wf(ret, fn.rettype.split("(")[0].strip()))
        if c.ensures:
            for e in aslist(c.ensures(Env(self, None, amap), ret)):
                self.assume(e)
        self.old_env = saved
        self.vf.used_contracts.setdefault(self.c.title, set()).add(c.title)
        self.calllog.append((c.title, pre, ret))
        if c.on_call:
            for h in aslist(c.on_call(self, pre, ret)):
                self.assume(h)
        return ret

    def ctor_init(self, ini, fr):
        fi = ini.get("anyInit")
        if fi and fi.get("kind") == "FieldDecl":
            lv = self.field_lv(fr.this, fi.get("name"), ini)
            v = self.eval(ini["inner"][0], fr)
            self.storev(lv, self.conv_to(v, tyof(fi)))
        elif ini.get("inner"):
            self.vf.lib.base_init(self, ini, fr)


def fr_this(fr):
    f = fr
    while f is not None and f.this is None:
        f = f.parent
    if f is None:
        raise Unsupported("no this")
    return f.this


NULLNODE = z3.Const("nullnode", NODE)


def irange(ii):
    w, sg = ii
    return (-(2 ** (w - 1)), 2 ** (w - 1) - 1) if sg else (0, 2 ** w - 1)


def bvfit(a, w, sg):
    s = a.sort().size()
    if s == w:
        return a
    if s > w:
        return z3.Extract(w - 1, 0, a)
    return z3.SignExt(w - s, a) if sg else z3.ZeroExt(w - s, a)


def fold(e):
    """fold constants only (keeps symbolic terms as written)"""
    if all(z3.is_int_value(c) or z3.is_rational_value(c) for c in e.children()) or not e.children():
        return z3.simplify(e)
    s = z3.simplify(e)
    if z3.is_int_value(s):
        return s
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        c = z3.simplify(e.arg(0))
        if z3.is_true(c) or z3.is_false(c):
            return e.arg(1 if z3.is_true(c) else 2)
    return e


def aslist(x):
    if x is None:
        return []
    if isinstance(x, (list, tuple)):
        out = []
        for y in x:
            out += aslist(y)
        return out
    return [x]


def lex_dec(d0, d1):
    """d1 < d0 lexicographically, all components bounded below by 0"""
    alts = []
    for i in range(len(d0)):
        alts.append(z3.And([d1[j] == d0[j] for j in range(i)] + [d1[i] < d0[i], d0[i] >= 0]))
    return z3.Or(alts)


def mkfunc(n, tu):
    from cppast import Func
    f = Func()
    inner = n.get("inner", [])
    f.node = n
    f.qname = "lambda::" + n.get("name", "")
    f.params = [c for c in inner if c.get("kind") == "ParmVarDecl"]
    f.body = next((c for c in inner if c.get("kind") == "CompoundStmt"), None)
    f.id = n["id"]
    f.mangled = n.get("mangledName") or n["id"]
    f.cls = None
    f.file = None
    f.inits = []
    f.tu = tu
    f.rettype = n.get("type", {}).get("qualType", "")
    f.is_const = True
    f.lambda_of = None
    return f


def set_insert(v, x):
    m = acc(v, 0)
    return mk(v.sort(), z3.Store(m, x, z3.BoolVal(True)), z3.If(z3.Select(m, x), acc(v, 1), acc(v, 1) + 1))


def set_erase(v, x):
    m = acc(v, 0)
    return mk(v.sort(), z3.Store(m, x, z3.BoolVal(False)), z3.If(z3.Select(m, x), acc(v, 1) - 1, acc(v, 1)))


def map_set(v, k, x):
    d = acc(v, 0)
    return mk(v.sort(), z3.Store(d, k, z3.BoolVal(True)), z3.Store(acc(v, 1), k, x),
              z3.If(z3.Select(d, k), acc(v, 2), acc(v, 2) + 1))


def map_erase(v, k):
    d = acc(v, 0)
    return mk(v.sort(), z3.Store(d, k, z3.BoolVal(False)), acc(v, 1),
              z3.If(z3.Select(d, k), acc(v, 2) - 1, acc(v, 2)))

"""Models (trusted contracts) of the library types the code under proof uses:
llvm::APInt, vectors, optionals, pairs, sets, maps, iterators and a few std/llvm functions.
Every model used in a run is recorded in `used` and reported as trusted."""
import re
import z3
import sorts as S
import lemmas
from sorts import *
from cppast import tyof, strip_type, template_parts, line_of, walk
from engine import (Unsupported, LV, Py, Closure, Native, Ptr, Iter, InitL, Str, Null, Obj, PathEnd, pow2, P2, fold,
                    irange, NULLNODE, BAND, BOR, BXOR, set_insert, set_erase, map_set, map_erase, STRS, bvfit, aslist, PathEnd)

used = set()

ABITS = z3.Function("activeBits", z3.IntSort(), z3.IntSort())
CTZ = z3.Function("ctz", z3.IntSort(), z3.IntSort())
LOG2R = z3.Function("log2r", z3.RealSort(), z3.RealSort())
SQRTR = z3.Function("sqrtr", z3.RealSort(), z3.RealSort())
_n = z3.Int("n!lib")
_r = z3.Real("r!lib")
# facts about the model functions (definitions, restated in Lean where used)
LIB_AXIOMS = [
    z3.ForAll([_n], z3.Implies(_n > 0, z3.And(ABITS(_n) >= 1, _n < P2(ABITS(_n)), _n >= P2(ABITS(_n) - 1))),
              patterns=[ABITS(_n)]),
    ABITS(0) == 0,
    z3.ForAll([_n], z3.Implies(_n > 0, z3.And(CTZ(_n) >= 0, CTZ(_n) < _n, P2(CTZ(_n)) >= 1, _n % P2(CTZ(_n)) == 0,
                                              _n == (_n / P2(CTZ(_n))) * P2(CTZ(_n)),
                                              (_n / P2(CTZ(_n))) % 2 == 1, _n / P2(CTZ(_n)) >= 1,
                                              z3.Implies(_n % 2 == 0, CTZ(_n) >= 1))),
              patterns=[CTZ(_n)]),
    z3.ForAll([_r], z3.Implies(_r >= 0, z3.And(SQRTR(_r) >= 0, SQRTR(_r) * SQRTR(_r) == _r)), patterns=[SQRTR(_r)]),
]


def note(x):
    used.add(x)


def bval(ex, n, v):
    return v


def leaves(t):
    """the alternatives of a conditional term (a conditional is not a legal trigger)"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        return leaves(t.arg(1)) + leaves(t.arg(2))
    if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_DT_ACCESSOR, z3.Z3_OP_SELECT) and any(has_ite(c) for c in t.children()):
        c = t.arg(0)
        return [z3.simplify(t.decl()(q, *t.children()[1:])) for q in leaves(c)] if c.decl().kind() == z3.Z3_OP_ITE else []
    return [t]


def has_ite(t):
    return z3.is_app(t) and (t.decl().kind() == z3.Z3_OP_ITE or any(has_ite(c) for c in t.children()))


class Lib:
    def __init__(self, vf):
        self.vf = vf

    # ------------------------------------------------------------------ methods
    def method(self, ex, n, fr, ot, name, getobj, args, want_lv):
        core, _, _ = strip_type(ot)
        if core.endswith("*"):
            core = strip_type(core[:-1])[0]
        hook = self.vf.method_hooks.get(name)
        if hook is not None:
            r = hook(ex, n, fr, core, name, getobj, args, want_lv)
            if r is not NotImplemented:
                return r
        base, targs = template_parts(core)
        b = base.split("::")[-1]
        lv = None
        try:
            lv = getobj()
            v = ex.load(lv)
        except Unsupported:
            raise
        if isinstance(v, InitL):
            v = ex.coerce_sort(v, ex.tm.sort(core))
            if not lv.path:
                ex.store[lv.root] = v
        if isinstance(v, Obj):
            m = getattr(v, "m_" + name, None)
            if m is not None:
                return m(ex, [ex.eval(a, fr) for a in args], n)
            if hasattr(v, "method"):
                return v.method(ex, name, args, n, fr)
            return NotImplemented
        if isinstance(v, Ptr):
            lv = v.lv
            v = ex.load(lv)
        if isinstance(v, Iter):
            return self.iter_method(ex, n, fr, v, name, args)
        if isinstance(v, Closure) or isinstance(v, Native):
            if name == "operator()":
                return ex.call_value(v, args, n, fr)
            if name.startswith("operator "):
                return v
            return NotImplemented
        if not isinstance(v, z3.ExprRef):
            return NotImplemented
        k = kind(v)
        f = {"apint": self.apint, "seq": self.seq, "opt": self.opt, "set": self.set_, "map": self.map_}.get(k)
        if v.sort() == NODE and name in ("get", "operator bool", "operator->", "operator*"):
            return v != NULLNODE if name == "operator bool" else v
        if f is None and z3.is_real(v) and name in ("isZero", "isNegative", "convertToDouble") and not args:
            note("llvm::APFloat::%s as exact reals" % name)
            return v if name == "convertToDouble" else v == 0 if name == "isZero" else v < 0
        if f is None:
            return NotImplemented
        return f(ex, n, fr, lv, v, name, args, want_lv)

    # --- APInt
    def samew(self, ex, a, b, n, what):
        ex.check(width(a) == width(b), "APInt %s: equal bit widths" % what, n, "safety")

    def wid(self, ex, w):
        h = self.vf.width_hint
        return z3.IntVal(h) if h and ex.wrap_check(w == h) else w

    def ap_wrap(self, ex, r, w, signed=False):
        w = self.wid(ex, w)
        m = pow2(w)
        if ex.wrap_check(z3.And(r >= 0, r < m)):
            return mk(APINT, r, w)
        t = fold(r % m)
        ex.ap_raw[t.get_id()] = (t, r, w, signed)
        return mk(APINT, t, w)

    def ap_unw(self, ex, x, w, sig=False):
        """a value congruent to x modulo 2^w, before it was wrapped (sig: only a signed one)"""
        t = ex.ap_raw.get(x.get_id()) if z3.is_expr(x) else None
        return t[1] if t is not None and (t[3] or not sig) and z3.eq(fold(t[2] == w), z3.BoolVal(True)) else x

    def ap_signed(self, ex, x, w):
        """the two's complement reading"""
        r = self.ap_unw(ex, x, w)
        if r is not x and ex.wrap_check(z3.And(r >= -pow2(w - 1), r < pow2(w - 1))):
            return r
        if ex.wrap_check(x < pow2(w - 1)):
            return x
        return z3.If(x >= pow2(w - 1), x - pow2(w), x)

    def apint(self, ex, n, fr, lv, v, name, args, want_lv):
        note("llvm::APInt::" + name)
        A = [ex.eval(a, fr) for a in args]
        x, w = val(v), width(v)

        def other():
            o = A[0]
            if kind(o) == "apint":
                self.samew(ex, v, o, n, name)
                return val(o)
            return o
        if name in ("getBitWidth",):
            return w
        if name in ("zext", "zextOrSelf"):
            ex.check(A[0] >= w, "APInt zext to a width not below its own", n, "safety")
            return mk(APINT, x, A[0])
        if name == "sext":
            ex.check(A[0] >= w, "APInt sext to a width not below its own", n, "safety")
            neg = x >= pow2(w - 1)
            return mk(APINT, z3.If(neg, x - pow2(w) + pow2(A[0]), x), A[0])
        if name == "sextOrTrunc":
            if ex.wrap_check(A[0] == w):
                return v
            if ex.wrap_check(A[0] < w):
                return self.ap_wrap(ex, x, A[0])
            if ex.wrap_check(A[0] > w):
                return mk(APINT, z3.If(x >= pow2(w - 1), x - pow2(w) + pow2(A[0]), x), A[0])
            raise Unsupported("sextOrTrunc to a width of unknown order")
        if name == "trunc":
            ex.check(z3.And(A[0] <= w), "APInt trunc to a width not above its own", n, "safety")
            return self.ap_wrap(ex, x, A[0])
        if name == "zextOrTrunc":
            return self.ap_wrap(ex, x, A[0])
        if name in ("urem", "udiv"):
            o = other()
            ex.check(o != 0, "APInt %s: divisor not zero" % name, n, "safety")
            r = fold(x % o if name == "urem" else x / o)
            if kind(A[0]) != "apint":
                if name == "urem":
                    return r
            return mk(APINT, r, w)
        if name in ("srem", "sdiv"):
            o = other()
            ex.check(o != 0, "APInt %s: divisor not zero" % name, n, "safety")
            sx = self.ap_signed(ex, x, w)
            if kind(A[0]) == "apint":
                so = z3.If(o >= pow2(w - 1), o - pow2(w), o)
            else:
                so = o
            if ex.wrap_check(z3.And(so > 0)):
                so = o
                aq = z3.If(sx >= 0, sx / so, -((-sx) / so))
            else:
                aq = z3.If(sx >= 0, z3.If(so > 0, sx / so, -(sx / (-so))), z3.If(so > 0, -((-sx) / so), (-sx) / (-so)))
            if sx is x and so is o:
                return mk(APINT, fold(x % o if name == "srem" else x / o), w)
            if name == "srem" and so is o:
                r = z3.If(sx >= 0, sx % o, -((-sx) % o))
                ex.assume(lemmas.SREM_MOD(sx, o))
            else:
                r = sx - so * aq if name == "srem" else aq
            return self.ap_wrap(ex, r, w, True)
        if name in ("lshr", "shl", "lshrInPlace"):
            s = val(A[0]) if kind(A[0]) == "apint" else A[0]
            if name.startswith("lshr"):
                r = mk(APINT, fold(x / pow2(s)), w)
                if name == "lshrInPlace":
                    ex.storev(lv, r)
                    return None
                return r
            return mk(APINT, fold((x * pow2(s)) % pow2(w)), w)
        if name in ("ult", "ule", "ugt", "uge", "eq", "ne", "operator==", "operator!="):
            o = other()
            return {"ult": x < o, "ule": x <= o, "ugt": x > o, "uge": x >= o, "eq": x == o, "operator==": x == o,
                    "ne": x != o, "operator!=": x != o}[name]
        if name in ("slt", "sle", "sgt", "sge"):
            o = other()
            sx = z3.If(x >= pow2(w - 1), x - pow2(w), x)
            so = z3.If(o >= pow2(w - 1), o - pow2(w), o) if kind(A[0]) == "apint" else o
            return {"slt": sx < so, "sle": sx <= so, "sgt": sx > so, "sge": sx >= so}[name]
        if name == "isZero":
            return x == 0
        if name == "isOne":
            return x == 1
        if name in ("isNegative", "isSignBitSet"):
            r = self.ap_signed(ex, x, w)
            return r < 0 if r is self.ap_unw(ex, x, w) and r is not x else x >= pow2(w - 1)
        if name == "isNonNegative":
            return x < pow2(w - 1)
        if name == "isStrictlyPositive":
            return z3.And(x < pow2(w - 1), x != 0)
        if name == "getZExtValue":
            ex.check(x < 2 ** 64, "APInt getZExtValue: value fits 64 bits", n, "safety")
            return x
        if name == "getLimitedValue":
            lim = A[0] if A else z3.IntVal(2 ** 64 - 1)
            return z3.If(x > lim, lim, x)
        if name == "getSExtValue":
            sx = self.ap_signed(ex, x, w)
            ex.check(z3.And(sx >= -2 ** 63, sx < 2 ** 63), "APInt getSExtValue: value fits 64 bits", n, "safety")
            return sx
        if name == "getActiveBits":
            ex.assume(z3.Implies(x > 0, z3.And(ABITS(x) >= 1, ABITS(x) <= w)))
            return z3.If(x == 0, z3.IntVal(0), ABITS(x))
        if name in ("countTrailingZeros", "countr_zero"):
            ex.assume(z3.Implies(x > 0, z3.And(CTZ(x) >= 0, CTZ(x) < w)))
            return z3.If(x == 0, w, CTZ(x))
        if name == "operator[]":
            ex.check(z3.And(A[0] >= 0, A[0] < w), "APInt bit index in range", n, "safety")
            return fold((x / pow2(A[0])) % 2) == 1
        if name == "isPowerOf2":
            return z3.And(x != 0, x == P2(ABITS(x) - 1))
        if name in ("operator+=", "operator-=", "operator*="):
            o = other()
            x, o = self.ap_unw(ex, x, w, True), self.ap_unw(ex, o, w, True)
            r = {"operator+=": x + o, "operator-=": x - o, "operator*=": x * o}[name]
            ex.storev(lv, self.ap_wrap(ex, fold(r), w))
            return lv
        if name == "operator++" or name == "operator--":
            new = self.ap_wrap(ex, x + 1 if name == "operator++" else x - 1, w)
            ex.storev(lv, new)
            return v if args else lv
        if name == "operator<<=":
            s = val(A[0]) if kind(A[0]) == "apint" else A[0]
            ex.storev(lv, mk(APINT, fold((x * pow2(s)) % pow2(w)), w))
            return lv
        if name in ("operator=",):
            if kind(A[0]) != "apint":
                ex.storev(lv, mk(APINT, fold(A[0] % pow2(w)), w))
            else:
                ex.storev(lv, A[0])
            return lv
        if name == "operator-" and not A:
            return self.ap_wrap(ex, z3.If(x == 0, z3.IntVal(0), pow2(w) - x), w)
        if name == "operator*" or name == "umul_ov":
            if name == "operator*":
                return self.ap_wrap(ex, fold(x * other()), w)
        if name == "abs":
            return mk(APINT, z3.If(x >= pow2(w - 1), pow2(w) - x, x), w)
        return NotImplemented

    # --- sequences
    def seq(self, ex, n, fr, lv, v, name, args, want_lv):
        note("vector/ArrayRef::" + name)
        L = ln(v)
        info = INFO[v.sort().name()]
        es = info["elem"]
        if name in ("size", "length", "ssize"):
            return L
        if name == "empty":
            return L == 0
        if name in ("begin", "cbegin"):
            return Iter(lv, z3.IntVal(0))
        if name in ("end", "cend"):
            return Iter(lv, L)
        if name in ("data",):
            return Iter(lv, z3.IntVal(0))
        if name in ("reserve", "shrink_to_fit"):
            for a in args:
                ex.eval(a, fr)
            return None
        if name in ("push_back", "emplace_back"):
            if name == "emplace_back" and len(args) != 1:
                items = [ex.eval(a, fr) for a in args]
                x = None
                if self.vf.emplace_hook:
                    x = self.vf.emplace_hook(ex, es, items, args, n, fr)
                if x is None:
                    x = ex.coerce_sort(InitL(items), es)
            else:
                x = ex.eval(args[0], fr)
                x = ex.coerce_sort(x, es) if not (isinstance(x, z3.ExprRef) and x.sort() == es) else x
            v = ex.load(lv)
            L = ln(v)
            ex.storev(lv, mk(v.sort(), z3.Store(acc(v, 0), L, x), fold(L + 1)))
            return lv.sub(("idx", L)) if name == "emplace_back" else None
        if name in ("pop_back", "pop_back_val"):
            ex.check(L > 0, "pop_back of a non-empty vector", n, "safety")
            ex.storev(lv, mk(v.sort(), acc(v, 0), fold(L - 1)))
            return z3.Select(acc(v, 0), L - 1) if name == "pop_back_val" else None
        if name == "back":
            ex.check(L > 0, "back of a non-empty vector", n, "safety")
            return lv.sub(("idx", fold(L - 1)))
        if name == "front":
            ex.check(L > 0, "front of a non-empty vector", n, "safety")
            return lv.sub(("idx", z3.IntVal(0)))
        if name in ("operator[]", "at"):
            i = ex.eval(args[0], fr)
            return ex.index_lv(lv, i, n)
        if name == "clear":
            ex.storev(lv, mk(v.sort(), acc(v, 0), z3.IntVal(0)))
            return None
        if name == "resize":
            A = [ex.eval(a, fr) for a in args]
            nl = A[0]
            d = ex.coerce_sort(A[1], es) if len(A) > 1 else ex.default_of(es)
            ex.storev(lv, self.resized(ex, v, nl, d))
            return None
        if name == "assign" and len(args) == 2:
            A = [ex.eval(a, fr) for a in args]
            if isinstance(A[0], z3.ExprRef):
                ex.storev(lv, mk(v.sort(), z3.K(z3.IntSort(), ex.coerce_sort(A[1], es)), A[0]))
                return None
        if name == "swap":
            o = ex.lval(args[0], fr)
            ov = ex.load(o)
            ex.storev(lv, ov)
            ex.storev(o, v)
            return None
        if name == "operator=":
            x = ex.eval(args[0], fr)
            ex.storev(lv, ex.coerce_sort(x, v.sort()))
            return lv
        if name in ("slice", "drop_front", "take_front", "drop_back", "take_back"):
            A = [ex.eval(a, fr) for a in args] or [z3.IntVal(1)]
            if name == "drop_front":
                st, cnt = A[0], L - A[0]
            elif name == "take_front":
                st, cnt = z3.IntVal(0), A[0]
            elif name == "drop_back":
                st, cnt = z3.IntVal(0), L - A[0]
            elif name == "take_back":
                st, cnt = L - A[0], A[0]
            else:
                st = A[0]
                cnt = A[1] if len(A) > 1 else L - A[0]
            ex.check(z3.And(st >= 0, cnt >= 0, st + cnt <= L), "slice in range", n, "safety")
            i = z3.Int("i!sl")
            st_s = z3.simplify(st)
            if z3.is_int_value(st_s) and st_s.as_long() == 0:
                return mk(v.sort(), acc(v, 0), fold(cnt))
            return mk(v.sort(), z3.Lambda([i], z3.Select(acc(v, 0), i + st)), fold(cnt))
        if name in ("vec", "copy"):
            return v
        if name == "erase" and len(args) == 1:
            it = ex.eval(args[0], fr)
            if isinstance(it, LV):
                it = ex.load(it)
            if isinstance(it, Iter) and it.kind == "seq":
                ex.check(z3.And(it.idx >= 0, it.idx < L), "erase of an element of the vector", n, "safety")
                i = z3.Int("i!er")
                a = ex.fresh(acc(v, 0).sort(), "erased")
                ex.assume(z3.ForAll([i], z3.Select(a, i) == z3.Select(acc(v, 0), z3.If(i < it.idx, i, i + 1)),
                                    patterns=[z3.Select(a, i)]))
                nv = mk(v.sort(), a, fold(L - 1))
                ex.storev(lv, nv)
                if self.vf.on_erase:
                    for f in self.vf.on_erase(ex, v, nv, it.idx):
                        ex.assume(f)
                return Iter(lv, it.idx, "seq")
        if name.startswith("operator "):
            return v
        if name in ("rbegin", "rend"):
            return Iter(lv, L - 1 if name == "rbegin" else z3.IntVal(-1), "rseq")
        if name in ("insert", "append"):
            A = [ex.eval(a, fr) for a in args]
            if name == "append" and len(A) == 2 and isinstance(A[0], Iter):
                return self.append_range(ex, lv, v, A[0], A[1])
            if name == "insert" and len(A) == 3 and isinstance(A[0], Iter) and isinstance(A[1], Iter) and \
                    ex.wrap_check(A[0].idx == L):
                return self.append_range(ex, lv, v, A[1], A[2])
            if name == "append" and len(A) == 1 and kind(A[0]) == "seq":
                key = ex.newkey("app")
                ex.store[key] = A[0]
                return self.append_range(ex, lv, v, Iter(LV(key), z3.IntVal(0)), Iter(LV(key), ln(A[0])))
        return NotImplemented

    def resized(self, ex, v, nl, d):
        L = ln(v)
        if ex.wrap_check(L == 0):
            return mk(v.sort(), z3.K(z3.IntSort(), d), nl)
        if ex.wrap_check(nl <= L):
            return mk(v.sort(), acc(v, 0), nl)
        i = z3.Int("i!rs")
        a = ex.fresh(acc(v, 0).sort(), "rsz")
        ex.assume(z3.ForAll([i], z3.Select(a, i) == z3.If(i < L, z3.Select(acc(v, 0), i), d), patterns=[z3.Select(a, i)]))
        return mk(v.sort(), a, nl)

    def append_range(self, ex, lv, v, b, e):
        src = ex.load(b.cont)
        L = ln(v)
        cnt = fold(e.idx - b.idx)
        i = z3.Int("i!ap")
        a = ex.fresh(acc(v, 0).sort(), "app")
        ex.assume(z3.ForAll([i], z3.Select(a, i) == z3.If(i < L, z3.Select(acc(v, 0), i),
                                                          z3.Select(acc(src, 0), i - L + b.idx)),
                            patterns=[z3.Select(a, i)]))
        ex.storev(lv, mk(v.sort(), a, fold(L + cnt)))
        return None

    # --- optional
    def opt(self, ex, n, fr, lv, v, name, args, want_lv):
        note("optional/FailureOr::" + name)
        if name in ("has_value", "operator bool"):
            return has(v)
        if name == "operator LogicalResult":
            return Obj(lr=has(v))
        if name in ("value", "operator*", "operator->"):
            ex.check(has(v), "optional has a value", n, "safety")
            return lv.sub(("opt",))
        if name == "value_or":
            d = ex.coerce_sort(ex.eval(args[0], fr), INFO[v.sort().name()]["elem"])
            return z3.If(has(v), get(v), d)
        if name == "reset":
            ex.storev(lv, ex.default_of(v.sort()))
            return None
        if name in ("operator=", "emplace"):
            x = ex.eval(args[0], fr)
            if isinstance(x, z3.ExprRef) and x.sort() == v.sort():
                ex.storev(lv, x)
            else:
                e = INFO[v.sort().name()]["elem"]
                ex.storev(lv, mk(v.sort(), z3.BoolVal(True), ex.coerce_sort(x, e)))
            return lv
        return NotImplemented

    # --- sets and maps
    def set_(self, ex, n, fr, lv, v, name, args, want_lv):
        note("set::" + name)
        e = INFO[v.sort().name()]["elem"]
        if name == "size":
            return card(v)
        if name == "empty":
            return card(v) == 0
        if name in ("contains", "count"):
            x = ex.coerce_sort(ex.eval(args[0], fr), e)
            return mem(v, x) if name == "contains" else z3.If(mem(v, x), z3.IntVal(1), z3.IntVal(0))
        if name in ("insert", "emplace"):
            if len(args) == 1:
                x = ex.eval(args[0], fr)
                x = ex.coerce_sort(x, e)
                v = ex.load(lv)
                was = mem(v, x)
                ex.storev(lv, set_insert(v, x))
                return Obj(parts=[Iter(lv, x, "setkey", {"found": z3.BoolVal(True)}), z3.Not(was)])
        if name == "erase":
            x = ex.coerce_sort(ex.eval(args[0], fr), e)
            was = mem(v, x)
            ex.storev(lv, set_erase(v, x))
            return z3.If(was, z3.IntVal(1), z3.IntVal(0))
        if name == "clear":
            ex.storev(lv, ex.default_of(v.sort()))
            return None
        if name == "find":
            x = ex.coerce_sort(ex.eval(args[0], fr), e)
            return Iter(lv, x, "setkey", {"found": mem(v, x)})
        if name in ("begin", "cbegin"):
            return Iter(lv, z3.IntVal(0), "setit")
        if name in ("end", "cend"):
            return Iter(lv, None, "end", {"found": z3.BoolVal(False)})
        if name == "operator=":
            ex.storev(lv, ex.coerce_sort(ex.eval(args[0], fr), v.sort()))
            return lv
        return NotImplemented

    def map_(self, ex, n, fr, lv, v, name, args, want_lv):
        note("map::" + name)
        info = INFO[v.sort().name()]
        ks, vs = info["key"], info["val"]
        dom = acc(v, 0)
        if name == "size":
            return card(v)
        if name == "empty":
            x = z3.Const("x!me", ks)
            ex.assume(card(v) >= 0)
            ex.assume(z3.ForAll([x], z3.Implies(z3.Select(dom, x), card(v) > 0), patterns=[z3.Select(dom, x)]))
            return card(v) == 0
        if name in ("begin", "cbegin", "rbegin") and ks == z3.IntSort() and "unordered" not in (ex.ctypes.get(lv.root) or "") \
                and "Dense" not in (ex.ctypes.get(lv.root) or ""):
            # the least / greatest key of an ordered map (past the end when it is empty)
            note("std::map::begin/rbegin is the least/greatest key")
            x = z3.Int("x!mk")
            M = ex.fresh(ks, "mapkey")
            ex.assume(card(v) >= 0)
            ex.assume(z3.Implies(card(v) > 0, z3.Select(dom, M)))
            ex.assume(z3.ForAll([x], z3.Implies(z3.Select(dom, x), z3.And(card(v) > 0, M <= x if name != "rbegin" else x <= M)),
                                patterns=[z3.Select(dom, x)]))
            return Iter(lv, M, "mapkey", {"found": card(v) > 0})
        if name in ("contains", "count"):
            x = ex.coerce_sort(ex.eval(args[0], fr), ks)
            m = z3.Select(dom, x)
            return m if name == "contains" else z3.If(m, z3.IntVal(1), z3.IntVal(0))
        if name == "find":
            x = ex.coerce_sort(ex.eval(args[0], fr), ks)
            return Iter(lv, x, "mapkey", {"found": z3.Select(dom, x)})
        if name in ("end", "cend"):
            return Iter(lv, None, "end", {"found": z3.BoolVal(False)})
        if name == "at":
            x = ex.coerce_sort(ex.eval(args[0], fr), ks)
            ex.check(z3.Select(dom, x), "map::at key present", n, "safety")
            return lv.sub(("mapval", x))
        if name == "lookup":
            x = ex.coerce_sort(ex.eval(args[0], fr), ks)
            return z3.If(z3.Select(dom, x), z3.Select(acc(v, 1), x), ex.default_of(vs))
        if name == "operator[]":
            return ex.index_lv(lv, ex.eval(args[0], fr), n)
        if name in ("insert", "emplace", "try_emplace", "insert_or_assign"):
            A = [ex.eval(a, fr) for a in args]
            if len(A) == 1:
                p = A[0]
                if isinstance(p, InitL):
                    p = ex.coerce_sort(p, Tup([ks, vs]))
                if not (isinstance(p, z3.ExprRef) and kind(p) == "tup"):
                    return NotImplemented
                kx, vx = tup(p, 0), tup(p, 1)
            else:
                kx, vx = A[0], A[1]
            kx = ex.coerce_sort(kx, ks)
            vx = ex.coerce_sort(vx, vs)
            v = ex.load(lv)
            dom = acc(v, 0)
            was = z3.Select(dom, kx)
            if name == "insert_or_assign":
                ex.storev(lv, map_set(v, kx, vx))
            else:
                ex.storev(lv, mk(v.sort(), z3.Store(dom, kx, z3.BoolVal(True)),
                                 z3.Store(acc(v, 1), kx, z3.If(was, z3.Select(acc(v, 1), kx), vx)),
                                 z3.If(was, acc(v, 2), acc(v, 2) + 1)))
            return Obj(parts=[Iter(lv, kx, "mapkey", {"found": z3.BoolVal(True)}), z3.Not(was)])
        if name == "erase":
            a = ex.eval(args[0], fr)
            if isinstance(a, Iter):
                a = a.idx
            x = ex.coerce_sort(a, ks)
            was = z3.Select(dom, x)
            ex.storev(lv, map_erase(v, x))
            return z3.If(was, z3.IntVal(1), z3.IntVal(0))
        if name == "clear":
            ex.storev(lv, ex.default_of(v.sort()))
            return None
        if name == "operator=":
            ex.storev(lv, ex.coerce_sort(ex.eval(args[0], fr), v.sort()))
            return lv
        return NotImplemented

    def map_entry(self, ex, it):
        v = ex.load(it.cont)
        info = INFO[v.sort().name()]
        return mk(Tup([info["key"], info["val"]]), it.idx, z3.Select(acc(v, 1), it.idx))

    def iter_method(self, ex, n, fr, it, name, args):
        if name in ("operator->", "operator*", "operator=="):
            return NotImplemented
        return NotImplemented

    def enumerate_container(self, ex, lv, v):
        """iteration order of a set/map: a bijection between [0,card) and the members, increasing for ordered ones"""
        note("set/map iteration visits each member once (in increasing key order for std::set/map)")
        k = kind(v)
        info = INFO[v.sort().name()]
        ks = info["elem"] if k == "set" else info["key"]
        en = z3.Function("enum!%d" % ex.nfresh, z3.IntSort(), ks)
        pos = z3.Function("enumpos!%d" % ex.nfresh, ks, z3.IntSort())
        ex.nfresh += 1
        i, j = z3.Ints("i!en j!en")
        x = z3.Const("x!en", ks)
        C = card(v)
        dom = acc(v, 0)
        ex.assume(C >= 0)
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < C), z3.And(z3.Select(dom, en(i)), pos(en(i)) == i)),
                            patterns=[en(i)]))
        ex.assume(z3.ForAll([x], z3.Implies(z3.Select(dom, x), z3.And(pos(x) >= 0, pos(x) < C, en(pos(x)) == x)),
                            patterns=[z3.Select(q, x) for q in leaves(dom) if not has_ite(q)] + [pos(x)]))
        ct = ex.ctypes.get(lv.root) or ""
        if ks == z3.IntSort() and self.vf.enum_order:
            ordered = not any(s in ct for s in ("unordered", "Dense", "SmallPtr")) if not lv.path else True
            if ordered:
                ex.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < C), en(i) < en(j)),
                                    patterns=[z3.MultiPattern(en(i), en(j))]))
        ex.enums = getattr(ex, "enums", [])
        ex.enums.append((en, pos, v))
        if k == "set":
            return C, (lambda t: en(t))
        T = Tup([info["key"], info["val"]])
        snap = v

        def getter(t):
            cur = ex.load(lv)
            return mk(T, en(t), z3.Select(acc(cur, 1), en(t)))
        return C, getter

    # ------------------------------------------------------------------ operators and free functions
    def function(self, ex, n, fr, name, rd, args, want_lv, is_method_op):
        hook = self.vf.func_hooks.get(name)
        if hook is not None:
            r = hook(ex, n, fr, name, rd, args, want_lv)
            if r is not NotImplemented:
                return r
        if name and name.startswith("operator"):
            return self.operator(ex, n, fr, name, rd, args, want_lv, is_method_op)
        h = getattr(self, "f_" + (name or ""), None)
        if h is not None:
            r = h(ex, n, fr, args, rd)
            if r is not NotImplemented:
                note("function " + name)
            return r
        return NotImplemented

    def operator(self, ex, n, fr, name, rd, args, want_lv, is_method_op):
        op = name[len("operator"):]
        a0 = args[0]
        try:
            user = kind(ex.tm.sort(strip_type(tyof(a0))[0])) == "rec"
        except Unsupported:
            user = False
        if user and op != "=":
            # an operator of a record of the code under verification: its own body or contract, operands evaluated once
            fn = ex.func.tu.resolve((rd or {}).get("id"))
            if fn is not None and fn.body is not None:
                return NotImplemented
        if op in ("=", "+=", "-=", "*=", "++", "--", "[]", "<<=", "->", "*", "()", "/=", "%=", "==", "!=") and \
                (op not in ("*", "==", "!=", "-") or True):
            lhs_lv = None
            if op == "*" and len(args) == 2:
                pass
            elif op in ("==", "!="):
                pass
            else:
                lhs_lv = ex.lval(a0, fr, strip_type(tyof(a0))[0])
                v = ex.load(lhs_lv)
                if isinstance(v, InitL):
                    v = ex.conv_to(v, strip_type(tyof(a0))[0])
                    if not lhs_lv.path:
                        ex.store[lhs_lv.root] = v
                if op == "()":
                    return ex.call_value(v, args[1:], n, fr)
                if isinstance(v, Ptr):
                    return v.lv if op in ("->", "*") else NotImplemented
                if isinstance(v, Iter):
                    return self.iter_op(ex, n, fr, op, lhs_lv, v, args)
                if isinstance(v, Obj):
                    if hasattr(v, "op"):
                        return v.op(ex, op, lhs_lv, args, n, fr)
                    if op == "=":
                        ex.store[lhs_lv.root] = ex.eval(args[1], fr)
                        return lhs_lv
                    return NotImplemented
                if isinstance(v, (Closure, Native, Null)):
                    if op == "=":
                        ex.store[lhs_lv.root] = ex.eval(args[1], fr)
                        return lhs_lv
                    return NotImplemented
                k = kind(v)
                if v.sort() == NODE:
                    if op in ("->", "*"):
                        return lhs_lv
                    if op == "=":
                        ex.storev(lhs_lv, ex.conv_to(ex.eval(args[1], fr), tyof(a0)))
                        return lhs_lv
                if op == "=" and k in ("tup", "rec", "opaque", "unit"):
                    ex.storev(lhs_lv, ex.coerce_sort(ex.eval(args[1], fr), v.sort()))
                    return lhs_lv
                m = {"apint": self.apint, "seq": self.seq, "opt": self.opt, "set": self.set_, "map": self.map_}.get(k)
                if m is not None:
                    r = m(ex, n, fr, lhs_lv, v, name, args[1:], want_lv)
                    if r is not NotImplemented:
                        return r
                if z3.is_real(v) and op in ("=", "+=", "-=", "*=", "/="):
                    x = ex.eval(args[1], fr)
                    x = ex.coerce_sort(x, v.sort())
                    r = {"=": x, "+=": v + x, "-=": v - x, "*=": v * x, "/=": v / x}[op]
                    note("APFloat arithmetic as exact reals")
                    ex.storev(lhs_lv, r)
                    return lhs_lv
                if z3.is_int(v) and op == "=":
                    ex.storev(lhs_lv, ex.eval(args[1], fr))
                    return lhs_lv
                return NotImplemented
        V = [ex.eval(a, fr) for a in args]
        if any(isinstance(x, (InitL,)) for x in V):
            V = [ex.conv_to(x, tyof(a)) if isinstance(x, InitL) else x for x, a in zip(V, args)]
        if isinstance(V[0], Iter) or (len(V) > 1 and isinstance(V[1], Iter)):
            return self.iter_bin(ex, n, op, V)
        if any(isinstance(x, Null) for x in V) and op in ("==", "!="):
            return ex.ptr_op(op, V[0], V[1], n)
        if any(isinstance(x, Obj) for x in V):
            for x in V:
                if isinstance(x, Obj) and hasattr(x, "binop"):
                    return x.binop(ex, op, V, n)
            return NotImplemented
        k0 = kind(V[0])
        k1 = kind(V[1]) if len(V) > 1 else None
        if len(V) == 1 and op == "-" and k0 == "apint":
            x, w = val(V[0]), width(V[0])
            return self.ap_wrap(ex, z3.If(x == 0, z3.IntVal(0), pow2(w) - x), w)
        if len(V) == 1 and op == "-" and z3.is_real(V[0]):
            note("APFloat arithmetic as exact reals")
            return -V[0]
        if k0 == "apint" or k1 == "apint":
            note("llvm::APInt::" + name)
            w = width(V[0]) if k0 == "apint" else width(V[1])
            if k0 == "apint" and k1 == "apint":
                if op in ("<<", ">>"):
                    pass
                else:
                    self.samew(ex, V[0], V[1], n, name)
            g = lambda t: val(t) if kind(t) == "apint" else t
            a = g(V[0])
            b = g(V[1]) if len(V) > 1 else None
            if op in ("+", "-", "*"):
                if op == "*" and self.vf.mul_hook:
                    r = self.vf.mul_hook(ex, a, b, w)
                    if r is not None:
                        return mk(APINT, r, w)
                a, b = self.ap_unw(ex, a, w, True), self.ap_unw(ex, b, w, True)
                r = {"+": a + b, "-": a - b, "*": a * b}[op]
                return self.ap_wrap(ex, fold(r), w)
            if op == "==":
                return a == b
            if op == "!=":
                return a != b
            if op == "<<":
                return mk(APINT, fold((a * pow2(b)) % pow2(w)), w)
            return NotImplemented
        if len(V) == 2 and z3.is_expr(V[0]) and z3.is_expr(V[1]):
            if op in ("==", "!=") and V[0].sort() == V[1].sort():
                if k0 == "seq":
                    i = z3.Int("i!eq")
                    r = z3.And(ln(V[0]) == ln(V[1]), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ln(V[0])),
                                                                               at(V[0], i) == at(V[1], i))))
                else:
                    r = V[0] == V[1]
                return r if op == "==" else z3.Not(r)
            if k0 == "tup" and op in ("<", ">") and V[0].sort() == V[1].sort() and \
                    all(e in (z3.IntSort(), z3.RealSort()) for e in INFO[V[0].sort().name()]["elems"]):
                m = len(INFO[V[0].sort().name()]["elems"])
                a, b = (V[0], V[1]) if op == "<" else (V[1], V[0])
                r = z3.BoolVal(False)
                for i in reversed(range(m)):
                    r = z3.Or(tup(a, i) < tup(b, i), z3.And(tup(a, i) == tup(b, i), r))
                return r
            if z3.is_arith(V[0]) and z3.is_arith(V[1]):
                if z3.is_real(V[0]) or z3.is_real(V[1]):
                    a, b = ex.unify(V[0], V[1])
                    note("APFloat arithmetic as exact reals")
                    if op == "/":
                        ex.check(b != 0, "no division by zero", n, "safety")
                    if op == "*" and self.vf.mul_hook:
                        r = self.vf.mul_hook(ex, a, b, None)
                        if r is not None:
                            return r
                    t = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b,
                         "<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b,
                         "==": lambda: a == b, "!=": lambda: a != b}.get(op)
                    if t:
                        return t()
                t = {"<": lambda: V[0] < V[1], ">": lambda: V[0] > V[1], "<=": lambda: V[0] <= V[1],
                     ">=": lambda: V[0] >= V[1]}.get(op)
                if t:
                    return t()
            if k0 == "opt" and op in ("==", "!=") and V[1].sort() == INFO[V[0].sort().name()]["elem"]:
                r = z3.And(has(V[0]), get(V[0]) == V[1])
                return r if op == "==" else z3.Not(r)
        return NotImplemented

    def iter_op(self, ex, n, fr, op, lv, it, args):
        if op in ("++", "--"):
            d = 1 if op == "++" else -1
            if it.kind == "rseq":
                d = -d
            if it.kind not in ("seq", "rseq"):
                raise Unsupported("iterator increment on %s" % it.kind)
            new = Iter(it.cont, fold(it.idx + d), it.kind, it.meta)
            ex.store[lv.root] = new
            return it if len(args) > 1 else lv
        if op in ("+=", "-="):
            x = ex.eval(args[1], fr)
            ex.store[lv.root] = Iter(it.cont, fold(it.idx + x if op == "+=" else it.idx - x), it.kind, it.meta)
            return lv
        if op in ("*", "->"):
            if it.kind in ("mapkey", "setkey"):
                ex.check(it.meta["found"], "dereferenced iterator is not end()", n, "safety")
                if it.kind == "setkey":
                    key = ex.newkey("deref")
                    ex.store[key] = it.idx
                    return LV(key)
                return EntryLV(ex, it)
            if it.kind == "rseq":
                return ex.deref(Iter(it.cont, it.idx), n)
            return ex.deref(it, n)
        if op == "=":
            ex.store[lv.root] = ex.eval(args[1], fr)
            return lv
        if op == "[]":
            x = ex.eval(args[1], fr)
            return ex.deref(Iter(it.cont, fold(it.idx + x), it.kind, it.meta), n)
        return NotImplemented

    def iter_bin(self, ex, n, op, V):
        a, b = V[0], V[1]
        if isinstance(a, Iter) and isinstance(b, Iter):
            if a.kind in ("mapkey", "setkey", "end") or b.kind in ("mapkey", "setkey", "end"):
                fa, fb = a.meta["found"], b.meta["found"]
                if b.kind == "end":
                    r = z3.Not(fa)
                elif a.kind == "end":
                    r = z3.Not(fb)
                else:
                    r = z3.Or(z3.And(fa, fb, a.idx == b.idx), z3.And(z3.Not(fa), z3.Not(fb)))
                return r if op == "==" else z3.Not(r)
            if op == "-":
                return fold(a.idx - b.idx)
            t = {"==": a.idx == b.idx, "!=": a.idx != b.idx, "<": a.idx < b.idx, ">": a.idx > b.idx,
                 "<=": a.idx <= b.idx, ">=": a.idx >= b.idx}.get(op)
            return t if t is not None else NotImplemented
        if op in ("+", "-") and isinstance(a, Iter):
            return Iter(a.cont, fold(a.idx + b if op == "+" else a.idx - b), a.kind, a.meta)
        return NotImplemented

    # --- functions
    def f_udivrem(self, ex, n, fr, args, rd):
        if len(args) != 4:
            return NotImplemented
        a, b = ex.eval(args[0], fr), ex.eval(args[1], fr)
        ql, rl = ex.lval(args[2], fr), ex.lval(args[3], fr)
        if not (kind(a) == "apint" and kind(b) == "apint"):
            return NotImplemented
        note("llvm::APInt::udivrem")
        self.samew(ex, a, b, n, "udivrem")
        ex.check(val(b) != 0, "APInt udivrem: divisor not zero", n, "safety")
        ex.storev(ql, mk(APINT, fold(val(a) / val(b)), width(a)))
        ex.storev(rl, mk(APINT, fold(val(a) % val(b)), width(a)))
        return None

    def _vals(self, ex, fr, args):
        return [ex.eval(a, fr) for a in args]

    def f_min(self, ex, n, fr, args, rd):
        V = self._vals(ex, fr, args)
        if len(V) != 2:
            return NotImplemented
        a, b = V
        return z3.If(b < a, b, a)

    def f_max(self, ex, n, fr, args, rd):
        if not args:                                    # std::numeric_limits<T>::max() of an integer type
            ii = ex.tm.int_info(tyof(n))
            return z3.IntVal(irange(ii)[1]) if ii else NotImplemented
        V = self._vals(ex, fr, args)
        if len(V) != 2:
            return NotImplemented
        a, b = V
        return z3.If(a < b, b, a)

    def f_abs(self, ex, n, fr, args, rd):
        a = ex.eval(args[0], fr)
        if z3.is_int(a):
            ii = ex.tm.int_info(tyof(args[0]))
            if ii and not ex.c.overflow == "math":
                ex.check(a > irange(ii)[0], "no signed overflow in abs", n, "safety")
        return z3.If(a >= 0, a, -a)

    f_fabs = f_abs

    def f_move(self, ex, n, fr, args, rd):
        if len(args) != 1:
            return NotImplemented
        return ex.argval(args[0], fr)

    f_forward = f_move
    f_as_const = f_move
    f_addressof = lambda self, ex, n, fr, args, rd: Ptr(ex.lval(args[0], fr))

    def f_swap(self, ex, n, fr, args, rd):
        a, b = ex.lval(args[0], fr), ex.lval(args[1], fr)
        va, vb = ex.load(a), ex.load(b)
        ex.storev(a, vb)
        ex.storev(b, va)
        return None

    def f___assert_fail(self, ex, n, fr, args, rd):
        ex.check(z3.BoolVal(False), "assertion holds", n, "safety")
        raise PathEnd()

    f___assert_rtn = f___assert_fail

    def f_llvm_unreachable_internal(self, ex, n, fr, args, rd):
        ex.check(z3.BoolVal(False), "llvm_unreachable is not reached", n, "safety")
        raise PathEnd()

    f_report_fatal_error = f_llvm_unreachable_internal
    f_abort = f_llvm_unreachable_internal

    def f_make_pair(self, ex, n, fr, args, rd):
        V = self._vals(ex, fr, args)
        s = ex.tm.sort(tyof(n))
        return ex.coerce_sort(InitL(V), s)

    f_make_tuple = f_make_pair

    def f_failed(self, ex, n, fr, args, rd):
        v = ex.eval(args[0], fr)
        if isinstance(v, Obj) and hasattr(v, "lr"):
            return z3.Not(v.lr)
        return z3.Not(has(v))

    def f_succeeded(self, ex, n, fr, args, rd):
        v = ex.eval(args[0], fr)
        if isinstance(v, Obj) and hasattr(v, "lr"):
            return v.lr
        return has(v)

    def f_failure(self, ex, n, fr, args, rd):
        return Null()

    def f_success(self, ex, n, fr, args, rd):
        return Obj(lr=z3.BoolVal(True))

    def f_ceil(self, ex, n, fr, args, rd):
        v = ex.eval(args[0], fr)
        v = v if z3.is_real(v) else z3.ToReal(v)
        note("std::ceil exact")
        return z3.ToReal(-z3.ToInt(-v))

    def f_floor(self, ex, n, fr, args, rd):
        v = ex.eval(args[0], fr)
        return z3.ToReal(z3.ToInt(v))

    def f_sqrt(self, ex, n, fr, args, rd):
        v = ex.eval(args[0], fr)
        v = v if z3.is_real(v) else z3.ToReal(v)
        ex.check(v >= 0, "sqrt of a non-negative number", n, "safety")
        return SQRTR(v)

    def f_log2(self, ex, n, fr, args, rd):
        v = ex.eval(args[0], fr)
        v = v if z3.is_real(v) else z3.ToReal(v)
        return LOG2R(v)

    def f_bit_width(self, ex, n, fr, args, rd):
        v = ex.eval(args[0], fr)
        return z3.If(v == 0, z3.IntVal(0), ABITS(v))

    def f_isPowerOf2_64(self, ex, n, fr, args, rd):
        v = ex.eval(args[0], fr)
        return z3.And(v > 0, v == P2(ABITS(v) - 1))

    f_isPowerOf2_32 = f_isPowerOf2_64
    f_has_single_bit = f_isPowerOf2_64

    def f_Log2_64(self, ex, n, fr, args, rd):
        v = ex.eval(args[0], fr)
        return z3.If(v == 0, z3.IntVal(2 ** 32 - 1), ABITS(v) - 1)

    f_Log2_32 = f_Log2_64

    def f_Log2_64_Ceil(self, ex, n, fr, args, rd):
        v = ex.eval(args[0], fr)
        return z3.If(v <= 1, z3.IntVal(0), ABITS(v - 1))

    f_Log2_32_Ceil = f_Log2_64_Ceil

    def quantified(self, ex, n, fr, args, want):
        """any_of / all_of: the predicate as a term of one arbitrary element, then quantified over the range"""
        a, b, f = [ex.eval(q, fr) for q in args[:3]]
        if not (isinstance(a, Iter) and isinstance(b, Iter) and a.kind == "seq"):
            return NotImplemented
        note("std::any_of / std::all_of")
        t0 = ex.fresh(z3.IntSort(), "elt")
        mark, pos, st = len(ex.pc), ex.pos, dict(ex.store)
        ex.qs.push()
        ex.assume(z3.And(a.idx <= t0, t0 < b.idx))
        r = ex.call_closure(f, [a.cont.sub(("idx", t0))], n)
        r = ex.truth(r) if not (isinstance(r, z3.ExprRef) and z3.is_bool(r)) else r
        if any(ex.store.get(k) is not v for k, v in st.items()):
            raise Unsupported("predicate with side effects")
        forks = [d for d in ex.decisions[pos:ex.pos]]
        del ex.pc[mark:]
        ex.qs.pop()
        if forks:
            raise Unsupported("branching predicate in any_of / all_of")
        q = z3.Int("t!aq")
        body = z3.substitute(r, (t0, q))
        el = z3.Select(arr(ex.load(a.cont)), q)
        rng = z3.And(a.idx <= q, q < b.idx)
        w = ex.fresh(z3.IntSort(), "wit")
        res = ex.fresh(z3.BoolSort(), "quant")
        bad = body if want == "any" else z3.Not(body)
        ex.assume(z3.Implies(res == (want == "any"), z3.And(a.idx <= w, w < b.idx, z3.substitute(bad, (q, w)))))
        ex.assume(z3.Implies(res != (want == "any"), z3.ForAll([q], z3.Implies(rng, z3.Not(bad)), patterns=[el])))
        return res

    def generic_pred(self, ex, f, elems, n, assume):
        """a predicate closure applied to arbitrary elements, as a term"""
        mark, pos, st = len(ex.pc), ex.pos, dict(ex.store)
        ex.qs.push()
        ex.assume(assume)
        r = ex.call_closure(f, elems, n)
        r = ex.truth(r) if not (isinstance(r, z3.ExprRef) and z3.is_bool(r)) else r
        if any(ex.store.get(k) is not v for k, v in st.items()):
            raise Unsupported("predicate with side effects")
        forks = [d for d in ex.decisions[pos:ex.pos]]
        del ex.pc[mark:]
        ex.qs.pop()
        if forks:
            raise Unsupported("branching predicate in a standard algorithm")
        return r

    @staticmethod
    def subterms(q):
        out, todo, seen = [], [q], set()
        while todo:
            y = todo.pop()
            if y.get_id() not in seen:
                seen.add(y.get_id())
                out.append(y)
                todo += y.children()
        return out

    def f_map_range(self, ex, n, fr, args, rd):
        """a list mapped through a pure closure, element by element"""
        V = self._vals(ex, fr, args)
        v = ex.load(V[0]) if isinstance(V[0], LV) else V[0]
        if not (len(V) == 2 and isinstance(v, z3.ExprRef) and INFO.get(v.sort().name(), {}).get("kind") == "seq"):
            return NotImplemented
        key = ex.newkey("mapped")
        ex.store[key] = v
        t0 = ex.fresh(z3.IntSort(), "elt")
        mark, pos, st = len(ex.pc), ex.pos, dict(ex.store)
        r = ex.call_closure(V[1], [LV(key).sub(("idx", t0))], n)
        r = ex.load(r) if isinstance(r, LV) else r
        if any(ex.store.get(k) is not w for k, w in st.items()) or ex.pos != pos or len(ex.pc) != mark or not isinstance(r, z3.ExprRef):
            raise Unsupported("mapped closure is not a pure expression")
        consts = lambda q: {y.get_id() for y in self.subterms(q) if z3.is_const(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED}
        if not consts(r) <= consts(v) | consts(t0):
            raise Unsupported("mapped closure makes new values")
        note("llvm::map_range: element by element")
        ns = Seq(r.sort())
        b = ex.fresh(z3.ArraySort(z3.IntSort(), r.sort()), "mapped")
        q = z3.Int("q!mr")
        ex.assume(z3.ForAll([q], b[q] == z3.substitute(r, (t0, q)), patterns=[b[q]]))
        return mk(ns, b, ln(v))

    def f_sort(self, ex, n, fr, args, rd):
        """std::sort with a strict weak order: a permutation of the elements, no later one less than an earlier one"""
        V = self._vals(ex, fr, args)
        if not (len(V) in (2, 3) and isinstance(V[0], Iter) and isinstance(V[1], Iter) and V[0].kind == "seq"):
            return NotImplemented
        lv = V[0].cont
        v = ex.load(lv)
        if not (ex.wrap_check(V[0].idx == 0) and ex.wrap_check(V[1].idx == ln(v))):
            return NotImplemented
        less = V[2] if len(V) == 3 else self.vf.order_hook and self.vf.order_hook(ex, v.sort())
        if less is None and INFO[v.sort().name()]["elem"] in (z3.IntSort(), z3.RealSort()):
            less = lambda a, b: a < b
        if not less:
            return NotImplemented
        note("std::sort: a sorted permutation")
        L = ln(v)
        b = ex.fresh(acc(v, 0).sort(), "sorted")
        perm, inv = (ex.fresh(z3.ArraySort(z3.IntSort(), z3.IntSort()), h) for h in ("perm", "iperm"))
        i, j = z3.Ints("i!so j!so")
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < L), z3.And(
            0 <= perm[i], perm[i] < L, inv[perm[i]] == i, b[i] == z3.Select(acc(v, 0), perm[i]))), patterns=[b[i], perm[i]]))
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < L), z3.And(
            0 <= inv[i], inv[i] < L, perm[inv[i]] == i, b[inv[i]] == z3.Select(acc(v, 0), i))), patterns=[z3.Select(acc(v, 0), i), inv[i]]))
        nv = mk(v.sort(), b, L)
        ex.storev(lv, nv)
        if callable(less):
            r = less(b[j], b[i])
        else:
            t0, t1 = ex.fresh(z3.IntSort(), "elt"), ex.fresh(z3.IntSort(), "elt")
            r = self.generic_pred(ex, less, [lv.sub(("idx", t1)), lv.sub(("idx", t0))], n, z3.And(0 <= t0, t0 < t1, t1 < L))
            r = z3.substitute(r, (t0, i), (t1, j))
        ex.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < L), z3.Not(r)), patterns=[z3.MultiPattern(b[i], b[j])]))
        if self.vf.on_sort:
            for f in self.vf.on_sort(ex, v, nv, perm, inv):
                ex.assume(f)
        return None

    def f_adjacent_find(self, ex, n, fr, args, rd):
        V = self._vals(ex, fr, args)
        if not (len(V) == 3 and isinstance(V[0], Iter) and isinstance(V[1], Iter) and V[0].kind == "seq"):
            return NotImplemented
        note("std::adjacent_find")
        lv = V[0].cont
        t0 = ex.fresh(z3.IntSort(), "elt")
        lo, hi = V[0].idx, V[1].idx
        r = self.generic_pred(ex, V[2], [lv.sub(("idx", t0)), lv.sub(("idx", t0 + 1))], n, z3.And(lo <= t0, t0 + 1 < hi))
        pred = lambda q: z3.substitute(r, (t0, q))
        res = ex.fresh(z3.IntSort(), "adj")
        q = z3.Int("q!af")
        ex.assume(z3.And(lo <= res, res <= hi, z3.Implies(res != hi, z3.And(res + 1 < hi, pred(res)))))
        ex.assume(z3.ForAll([q], z3.Implies(z3.And(lo <= q, q + 1 < hi, q < res), z3.Not(pred(q))),
                            patterns=[z3.Select(arr(ex.load(lv)), q)]))
        return Iter(lv, res)

    def f_any_of(self, ex, n, fr, args, rd):
        return self.quantified(ex, n, fr, args, "any")

    def f_all_of(self, ex, n, fr, args, rd):
        return self.quantified(ex, n, fr, args, "all")

    def f_reverse(self, ex, n, fr, args, rd):
        if len(args) == 2:
            V = self._vals(ex, fr, args)
            if all(isinstance(x, Iter) and x.kind == "seq" for x in V):
                lv = V[0].cont
                v = ex.load(lv)
                b, e = V[0].idx, V[1].idx
                i = z3.Int("i!rv")
                a = ex.fresh(acc(v, 0).sort(), "rev")
                ex.assume(z3.ForAll([i], z3.Select(a, i) == z3.If(z3.And(b <= i, i < e),
                                                                  z3.Select(acc(v, 0), b + e - 1 - i),
                                                                  z3.Select(acc(v, 0), i)), patterns=[z3.Select(a, i)]))
                ex.storev(lv, mk(v.sort(), a, ln(v)))
                return None
        if len(args) == 1:
            lv = ex.lval(args[0], fr)
            v = ex.load(lv)
            if kind(v) == "seq":
                L = ln(v)
                return Obj(range=lambda ex: (L, lambda i: lv.sub(("idx", fold(L - 1 - i)))))
        return NotImplemented

    def f_iota(self, ex, n, fr, args, rd):
        V = self._vals(ex, fr, args)
        if len(V) == 3 and isinstance(V[0], Iter) and V[0].kind == "seq":
            lv = V[0].cont
            v = ex.load(lv)
            b, e, s = V[0].idx, V[1].idx, V[2]
            i = z3.Int("i!io")
            a = ex.fresh(acc(v, 0).sort(), "iota")
            ex.assume(z3.ForAll([i], z3.Select(a, i) == z3.If(z3.And(b <= i, i < e), s + i - b, z3.Select(acc(v, 0), i)),
                                patterns=[z3.Select(a, i)]))
            ex.storev(lv, mk(v.sort(), a, ln(v)))
            return None
        return NotImplemented

    def f_accumulate(self, ex, n, fr, args, rd):
        return NotImplemented

    def f_seq(self, ex, n, fr, args, rd):
        V = self._vals(ex, fr, args)
        lo, hi = (z3.IntVal(0), V[0]) if len(V) == 1 else (V[0], V[1])
        return Obj(range=lambda ex: (fold(z3.If(hi > lo, hi - lo, z3.IntVal(0))), lambda i: fold(lo + i)))

    def f_enumerate(self, ex, n, fr, args, rd):
        if len(args) != 1:
            return NotImplemented
        L, g = ex.range_of_container(args[0], fr)

        def getter(i):
            key = ex.newkey("enumidx")
            ex.store[key] = i
            x = g(i)
            xl = x if isinstance(x, LV) else None
            v = ex.load(x) if xl is not None else x
            o = Obj(parts=[i, v], partlvs=[LV(key), xl])
            o.m_index = lambda ex, A, nn: i
            o.m_value = lambda ex, A, nn: xl if xl is not None else v
            return o
        return Obj(range=lambda ex: (L, getter))

    def f_zip(self, ex, n, fr, args, rd):
        RS = [ex.range_of_container(a, fr) for a in args]
        L = RS[0][0]
        for r in RS[1:]:
            L = z3.If(r[0] < L, r[0], L)

        def getter(i):
            xs = [g(i) for _, g in RS]
            return Obj(parts=[ex.load(x) if isinstance(x, LV) else x for x in xs],
                       partlvs=[x if isinstance(x, LV) else None for x in xs])
        return Obj(range=lambda ex: (fold(L), getter))

    f_zip_equal = f_zip_first = f_zip

    def f_to_vector(self, ex, n, fr, args, rd):
        return ex.eval(args[0], fr)

    def f_get(self, ex, n, fr, args, rd):
        if len(args) != 1:
            return NotImplemented
        v = ex.argval(args[0], fr)
        m = re.search(r"get<(\d+)", " ".join(str(x) for x in [n.get("inner", [{}])[0].get("inner", [{}])[0]
                                                              .get("referencedDecl", {}).get("type", {})]))
        return NotImplemented

    def bitop(self, ex, op, a, b, ii, n):
        f = {"&": BAND, "|": BOR, "^": BXOR}[op]
        note("bit operation " + op)
        lo, hi = irange(ii)
        ex.check(z3.And(a >= 0, b >= 0), "bit operation on non-negative values (model limit)", n, "safety")
        r = f(a, b)
        if op == "&":
            ex.assume([r >= 0, r <= a, r <= b])
        else:
            ex.assume([r >= 0, r <= hi])
        return r

    # ------------------------------------------------------------------ construction
    def construct(self, ex, n, fr, t, inner):
        hook = self.vf.ctor_hook
        if hook is not None:
            r = hook(ex, n, fr, t, inner)
            if r is not NotImplemented:
                return r
        core, _, _ = strip_type(t)
        base, targs = template_parts(core)
        b = base.split("::")[-1]
        if b == "function" or b == "function_ref" or "(lambda" in core:
            if len(inner) == 1:
                v = ex.eval(inner[0], fr)
                return v
            if not inner:
                return Null()
        if b in ("basic_string", "StringRef", "Twine", "StringLiteral", "string", "source_location"):
            if b in ("basic_string", "string") and inner:
                v = ex.eval(inner[0], fr)
                return v if isinstance(v, Str) or (isinstance(v, z3.ExprRef) and v.sort() == STRS) else Str("")
            return Str("")
        if b in ("LogicalResult", "ParseResult"):
            if len(inner) == 1:
                return ex.eval(inner[0], fr)
        try:
            s = ex.tm.sort(core)
        except Unsupported:
            s = None
        if len(inner) == 1:
            it = strip_type(tyof(inner[0]))[0]
            if it == core or (n.get("hadMultipleCandidates") is not None and False):
                v = ex.eval(inner[0], fr)
                if isinstance(v, LV):
                    v = ex.load(v)
                return v
        k = kind(s) if s is not None else None
        if k == "apint":
            V = [ex.eval(a, fr) for a in inner]
            note("llvm::APInt construction")
            if not V:
                return mk(APINT, z3.IntVal(0), z3.IntVal(1))
            if len(V) == 1 and kind(V[0]) == "apint":
                return V[0]
            w, x = V[0], V[1]
            ex.check(w >= 0, "APInt width", n, "safety")
            signed = V[2] if len(V) > 2 else z3.BoolVal(False)
            trunc = V[3] if len(V) > 3 else z3.BoolVal(False)
            if not z3.is_int(x):
                raise Unsupported("APInt construction from words line %s" % line_of(n))
            sx = z3.If(x >= 2 ** 63, x - 2 ** 64, x)
            fits = z3.If(signed, z3.Or(w >= 64, z3.And(sx >= -pow2(w - 1), sx < pow2(w - 1))), x < pow2(w))
            ex.check(z3.Or(trunc, fits), "APInt construction: value fits the width", n, "safety")
            x = fold(z3.If(signed, sx, x))
            return mk(APINT, self.ap_val(ex, x, w, signed), w)
        if k == "seq":
            e = INFO[s.name()]["elem"]
            V = [ex.eval(a, fr) for a in inner if a["kind"] != "CXXDefaultArgExpr"]
            if not V:
                return ex.default_of(s)
            if len(V) == 1:
                v = V[0]
                if isinstance(v, InitL):
                    return ex.coerce_sort(v, s)
                if isinstance(v, z3.ExprRef) and v.sort() == s:
                    return v
                if isinstance(v, z3.ExprRef) and v.sort() == e and kind(v) == "rec":
                    return mk(s, z3.Store(acc(ex.default_of(s), 0), 0, v), z3.IntVal(1))      # a view of one element
                if isinstance(v, Obj) and hasattr(v, "range"):
                    return self.collect(ex, v.range(ex), s)
                if z3.is_int(v):
                    note("vector(n) construction")
                    if not ex.wrap_check(v >= 0):
                        ex.check(v >= 0, "vector size not negative", n, "safety")
                    return mk(s, z3.K(z3.IntSort(), ex.default_of(e)), v)
                if isinstance(v, Null):
                    return ex.default_of(s)
            if len(V) == 2:
                if isinstance(V[0], Iter) and isinstance(V[1], Iter) and V[0].kind == "setit" and V[1].kind == "end":
                    src = ex.load(V[0].cont)
                    if kind(src) != "set" or INFO[src.sort().name()]["elem"] != e:
                        return NotImplemented
                    C, g = self.enumerate_container(ex, V[0].cont, src)
                    i = z3.Int("i!si")
                    a = ex.fresh(z3.ArraySort(z3.IntSort(), e), "elems")
                    ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < C), z3.Select(a, i) == g(i)), patterns=[z3.Select(a, i), g(i)]))
                    return mk(s, a, C)
                if isinstance(V[0], Iter) and isinstance(V[1], Iter) and V[0].kind == "seq":
                    src = ex.load(V[0].cont)
                    b0 = z3.simplify(V[0].idx)
                    if z3.is_int_value(b0) and b0.as_long() == 0:
                        return mk(s, acc(src, 0), V[1].idx)
                    i = z3.Int("i!it")
                    a = ex.fresh(acc(src, 0).sort(), "rng")
                    ex.assume(z3.ForAll([i], z3.Select(a, i) == z3.Select(acc(src, 0), i + V[0].idx),
                                        patterns=[z3.Select(a, i)]))
                    return mk(s, a, fold(V[1].idx - V[0].idx))
                if isinstance(V[0], Iter) and z3.is_expr(V[1]):
                    src = ex.load(V[0].cont)
                    return mk(s, acc(src, 0), V[1])
                if z3.is_expr(V[0]) and z3.is_int(V[0]):
                    note("vector(n, v) construction")
                    return mk(s, z3.K(z3.IntSort(), ex.coerce_sort(V[1], e)), V[0])
        if k == "opt":
            if not inner:
                return ex.default_of(s)
            v = ex.eval(inner[0], fr)
            if isinstance(v, LV):
                v = ex.load(v)
            if isinstance(v, (Null,)):
                return ex.default_of(s)
            if isinstance(v, z3.ExprRef) and v.sort() == s:
                return v
            if isinstance(v, z3.ExprRef) and kind(v) == "unit":
                return ex.default_of(s)
            if isinstance(v, Obj) and hasattr(v, "lr"):
                return ex.default_of(s)
            return mk(s, z3.BoolVal(True), ex.coerce_sort(v, INFO[s.name()]["elem"]))
        if k in ("tup",):
            V = [ex.eval(a, fr) for a in inner]
            V = [ex.load(v) if isinstance(v, LV) else v for v in V]
            if len(V) == 1 and isinstance(V[0], z3.ExprRef) and V[0].sort() == s:
                return V[0]
            if len(V) == 1 and isinstance(V[0], z3.ExprRef) and kind(V[0]) == "tup":
                return mk(s, *[ex.coerce_sort(tup(V[0], i), e) for i, e in enumerate(INFO[s.name()]["elems"])])
            return ex.coerce_sort(InitL(V), s)
        if k in ("set", "map"):
            V = [ex.eval(a, fr) for a in inner if a["kind"] != "CXXDefaultArgExpr"]
            if not V or (len(V) == 1 and z3.is_expr(V[0]) and V[0].sort() == z3.IntSort()):
                return ex.default_of(s)
            if isinstance(V[0], InitL) or (isinstance(V[0], z3.ExprRef) and V[0].sort() == s):
                return ex.coerce_sort(V[0], s)
        if s == NODE:
            V = [ex.eval(a, fr) for a in inner]
            if not V:
                return NULLNODE
            if isinstance(V[0], Null):
                return NULLNODE
            return V[0]
        if s is not None and z3.is_expr(s) is False and s == z3.RealSort():
            V = [ex.eval(a, fr) for a in inner]
            V = [v for v in V if isinstance(v, z3.ExprRef) and z3.is_arith(v)]
            if V:
                return V[-1] if z3.is_real(V[-1]) else z3.ToReal(V[-1])
            return z3.RealVal(0)
        # user record: run the constructor
        if k == "rec" or (s is not None and k == "opaque"):
            if k == "rec":
                if len(inner) == 1:
                    it = strip_type(tyof(inner[0]))[0]
                    try:
                        if ex.tm.sort(it) == s:
                            return ex.eval(inner[0], fr)
                    except Unsupported:
                        pass
                fn = self.find_ctor(ex, n, core, inner)
                if fn is not None:
                    key = ex.newkey("obj")
                    ex.store[key] = self.rec_default(ex, core, s)
                    ex.ctypes[key] = core
                    if fn == "default":
                        return ex.store[key]
                    ex.invoke(fn, [LV(key)] + list(inner), n, fr, False, method=True)
                    return ex.store[key]
            if not inner:
                return Obj(tag=core)
            if len(inner) == 1:
                return ex.eval(inner[0], fr)
        raise Unsupported("construction of %s line %s" % (t, line_of(n)))

    def ap_val(self, ex, x, w, signed):
        if ex.wrap_check(z3.And(x >= 0, x < pow2(w))):
            return x
        return fold(x % pow2(w))

    def rec_default(self, ex, core, s):
        base, _ = template_parts(core)
        rec = ex.func.tu.records.get(core) or ex.func.tu.records.get(base) or ex.func.tu.records.get(base.split("::")[-1])
        vals = []
        if not rec or len(rec["fields"]) != len(INFO[s.name()]["sorts"]):      # fields live in a base class: any value, its constructor sets them
            return mk(s, *[ex.default_of(srt) if srt.kind() == z3.Z3_ARRAY_SORT else ex.fresh(srt, "uninit_" + f) for f, srt in zip(INFO[s.name()]["fields"], INFO[s.name()]["sorts"])])
        for (f, ft, node), srt in zip(rec["fields"], INFO[s.name()]["sorts"]):
            init = [c for c in node.get("inner", []) if not c["kind"].endswith("Attr") and "Comment" not in c["kind"]]
            if init and node.get("hasInClassInitializer"):
                from engine import Frame
                vals.append(ex.coerce_sort(ex.eval(init[0], Frame(ex.func)), srt))
            elif srt in (z3.IntSort(), z3.RealSort(), z3.BoolSort()):
                vals.append(ex.fresh(srt, "uninit_" + f))
            else:
                vals.append(ex.default_of(srt))
        return mk(s, *vals)

    def find_ctor(self, ex, n, core, inner):
        """the constructor a CXXConstructExpr runs, by its parameter types"""
        ct = n.get("ctorType", {}).get("qualType")
        base, _ = template_parts(core)
        nm = base.split("::")[-1]
        cands = []
        for f in ex.func.tu.func_by_id.values():
            if f.node.get("kind") == "CXXConstructorDecl" and f.node.get("name", "").split("<")[0] == nm:
                if f.node.get("type", {}).get("qualType") == ct or ct is None:
                    if len(f.params) >= len(inner):
                        cands.append(f)
        for f in cands:
            if f.body is not None:
                if f.node.get("isImplicit") or (not f.params and not f.inits and not f.body.get("inner")):
                    if not f.inits and not inner:
                        return "default"
                return f
            d = ex.func.tu.def_by_mangled.get(f.mangled)
            if d is not None:
                return d
        if not inner:
            return "default"
        return None

    def collect(self, ex, rng, s):
        L, g = rng
        e = INFO[s.name()]["elem"]
        i = z3.Int("i!co")
        x = g(i)
        x = ex.load(x) if isinstance(x, LV) else x
        if not isinstance(x, z3.ExprRef):
            raise Unsupported("collect")
        a = ex.fresh(z3.ArraySort(z3.IntSort(), e), "col")
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < L), z3.Select(a, i) == x), patterns=[z3.Select(a, i)]))
        return mk(s, a, L)

    def init_list(self, ex, il, t):
        return None

    def new_expr(self, ex, n, fr):
        hook = self.vf.func_hooks.get("operator new")
        r = hook(ex, n, fr) if hook else NotImplemented
        if r is NotImplemented:
            raise Unsupported("new")
        return r

    def base_init(self, ex, ini, fr):
        # base class initializer: same representation, copy when it yields a value
        v = ex.eval(ini["inner"][0], fr)
        if isinstance(v, z3.ExprRef) and v.sort() == ex.load(fr.this).sort():
            ex.storev(fr.this, v)

    def node_field(self, ex, v, name):
        return self.vf.node_field(ex, v, name) if self.vf.node_field else None


def EntryLV(ex, it):
    """(*it) for a map iterator: a pair whose second is an alias of the mapped value"""
    v = ex.load(it.cont)
    key = ex.newkey("entry")
    ex.store[key] = MapEntry(it)
    return LV(key)


class MapEntry(Obj):
    def __init__(self, it):
        super().__init__(it=it)

    def member(self, ex, base, name):
        if name == "first":
            key = ex.newkey("mk")
            ex.store[key] = self.it.idx
            return LV(key)
        if name == "second":
            return self.it.cont.sub(("mapval", self.it.idx))
        return None

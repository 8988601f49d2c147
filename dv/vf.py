"""Verifier: runs the VC generator over every function under contract and discharges the obligations."""
import hashlib, json, os, re, subprocess, sys, time, threading, traceback
import concurrent.futures as cf
import multiprocessing as mp
import z3
import engine, lib, lemmas
from engine import *
from sorts import TypeMap, INFO
from cppast import TU, walk, tyof, strip_type, line_of, ExtractionError

HERE = os.path.dirname(os.path.abspath(__file__))
Z3 = "z3-new"
SOLVERS = [
    ("z3", ["z3-new", "-in", "-smt2", "rlimit=%d" % 40_000_000, "-T:20"]),
    ("z3-nombqi", ["z3-new", "-in", "-smt2", "smt.mbqi=false", "smt.auto_config=false", "smt.ematching=true",
                   "rlimit=%d" % 60_000_000, "-T:30"]),
    ("cvc5", ["cvc5", "--lang=smt2", "--tlimit=30000", "--rlimit=4000000", "-"]),
    ("z3-noext", ["z3-new", "-in", "-smt2", "smt.array.extensional=false", "smt.mbqi=false", "rlimit=%d" % 40_000_000, "-T:20"]),
    ("z3-arith2", ["z3-new", "-in", "-smt2", "smt.arith.solver=2", "smt.mbqi=false", "rlimit=%d" % 80_000_000, "-T:40"]),
]


def symbols(e, cache={}):
    h = cache.get(e.get_id())
    if h is not None:
        return h[1]
    r = _symbols(e)
    cache[e.get_id()] = (e, r)      # the expression is kept alive, so its id stays its own
    return r


def _symbols(e):
    out, stack, seen = set(), [e], set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
                out.add(x.decl().name())
            stack.extend(x.children())
    return out


def trigger_syms(a):
    if z3.is_quantifier(a) and a.num_patterns():
        return (set.union(*[symbols(a.pattern(i)) for i in range(a.num_patterns())]) - {"pattern"}) or symbols(a)
    return symbols(a)


class NL:
    """abstraction of non-linear integer/real operations by uninterpreted functions (sound for unsat)"""

    def __init__(self):
        self.cache = {}
        self.funs = {}
        self.side = []
        self.keep = []

    def f(self, name, *sorts):
        k = (name,) + tuple(s.name() for s in sorts)
        if k not in self.funs:
            self.funs[k] = z3.Function("nl_%s_%d" % (name, len(self.funs)), *sorts)
        return self.funs[k]

    def isnum(self, e):
        return z3.is_int_value(e) or z3.is_rational_value(e)

    def go(self, e):
        i = e.get_id()
        if i in self.cache:
            return self.cache[i]
        r = self._go(e)
        self.cache[i] = r
        self.keep.append(e)
        return r

    def _go(self, e):
        if z3.is_var(e):
            return e
        if z3.is_quantifier(e):
            # work under the binder with de Bruijn variables kept as they are
            b = self.go(e.body())
            if z3.eq(b, e.body()):
                return e
            vs = [z3.Const("qv!%d!%s" % (len(self.keep), e.var_name(i)), e.var_sort(i)) for i in range(e.num_vars())]
            sub = list(reversed(vs))
            inst = z3.substitute_vars(b, *sub)
            if e.is_lambda():
                return z3.Lambda(vs, inst)
            pats = [z3.substitute_vars(self.go_pat(e.pattern(i)), *sub) for i in range(e.num_patterns())]
            q = z3.ForAll if e.is_forall() else z3.Exists
            return q(vs, inst, patterns=pats) if pats else q(vs, inst)
        if not e.children():
            return e
        d = e.decl().kind()
        if d == z3.Z3_OP_MUL:
            c, fac, todo = None, [], list(reversed(e.children()))
            while todo:
                x = todo.pop()
                k = x.decl().kind() if z3.is_app(x) else None
                if k == z3.Z3_OP_MUL:
                    todo.extend(reversed(x.children()))
                elif k == z3.Z3_OP_UMINUS:
                    todo.append(x.arg(0))
                    c = z3.simplify(-c) if c is not None else (z3.IntVal(-1) if z3.is_int(x) else z3.RealVal(-1))
                else:
                    fac.append(x)
            ch = [self.go(x) for x in fac]
            fs = []
            for x in ch:
                if self.isnum(x):
                    c = x if c is None else z3.simplify(c * x)
                else:
                    fs.append(x)
            if not fs:
                return c
            if len(fs) == 1:
                return fs[0] if c is None else c * fs[0]
            fs.sort(key=lambda x: x.get_id())
            s = e.sort()
            r = fs[0]
            m = self.f("mul", s, s, s)
            for x in fs[1:]:
                a, b = (r, x) if r.get_id() <= x.get_id() else (x, r)
                r = m(a, b)
                if not z3.eq(a, b) and not any(True for _ in self.leaves(r)):
                    self.side.append(r == m(b, a))
            return r if c is None else c * r
        ch = [self.go(c) for c in e.children()]
        if d in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_DIV, z3.Z3_OP_REM) and not self.isnum(ch[1]):
            s = e.sort()
            nm = {z3.Z3_OP_IDIV: "div", z3.Z3_OP_MOD: "mod", z3.Z3_OP_DIV: "rdiv", z3.Z3_OP_REM: "rem"}[d]
            r = self.f(nm, s, s, s)(ch[0], ch[1])
            if nm == "mod" and not any(z3.is_var(x) for x in self.leaves(e)):
                self.side.append(z3.Implies(ch[1] > 0, z3.And(r >= 0, r < ch[1])))
                self.side.append(z3.Implies(z3.And(ch[0] >= 0, ch[0] < ch[1]), r == ch[0]))
            return r
        if all(z3.eq(a, b) for a, b in zip(ch, e.children())):
            return e
        return z3.substitute(e, *[(a, b) for a, b in zip(e.children(), ch) if not z3.eq(a, b)]) if False else \
            self.rebuild(e, ch)

    def rebuild(self, e, ch):
        k = e.decl().kind()
        if k == z3.Z3_OP_AND:
            return z3.And(ch)
        if k == z3.Z3_OP_OR:
            return z3.Or(ch)
        if k == z3.Z3_OP_ADD:
            return z3.Sum(ch)
        if k == z3.Z3_OP_SUB and len(ch) > 2:
            r = ch[0]
            for x in ch[1:]:
                r = r - x
            return r
        if k == z3.Z3_OP_DISTINCT:
            return z3.Distinct(*ch)
        return e.decl()(*ch)

    def go_pat(self, p):
        ch = [self.go(c) for c in p.children()]
        return z3.MultiPattern(*ch) if all(z3.is_app(c) for c in ch) else p

    def leaves(self, e):
        stack, seen = [e], set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_var(x):
                yield x
            if not z3.is_quantifier(x):
                stack.extend(x.children())


class Verifier:
    """one per function under contract (forked worker)"""

    def __init__(self, prop, contract, func):
        self.prop, self.c, self.func = prop, contract, func
        self.worklist = [[]]
        self.base_axioms = []
        self.axioms = [(a, trigger_syms(a)) for a in [l.axiom() for l in lemmas.P2_BASE] + list(lib.LIB_AXIOMS) + list(prop.axioms)
                       + list(contract.axioms)]
        self.obligs, self.covers, self.ends = [], [], []
        self.trivial = 0
        self.noterm, self.math_ints, self.inlined = set(), set(), set()
        self.used_contracts = {}
        self.normal_ends = 0
        self.seen = set()
        self.lib = lib.Lib(self)
        self.method_hooks = prop.method_hooks
        self.func_hooks = prop.func_hooks
        self.ctor_hook = prop.ctor_hook
        self.mul_hook, self.width_hint = prop.mul_hook, prop.width_hint
        self.merge_cond, self.node_field = prop.merge_cond, prop.node_field
        self.enum_order = prop.enum_order
        self.on_sort, self.on_erase, self.order_hook, self.emplace_hook = prop.on_sort, prop.on_erase, prop.order_hook, prop.emplace_hook
        self.paths = 0

    def typemap(self, tu, contract):
        key = "_tm%s" % contract.bv
        tm = TypeMap(tu, contract.bv, list(contract.overrides) + list(self.prop.overrides))
        return tm

    def contract_for(self, fn):
        if fn is None:
            return None
        for c in self.prop.contracts:
            if c.matches(fn):
                return c
        return None

    def contract_by_decl(self, ex, rd, n):
        name = rd.get("name")
        f = self.prop.decl_contracts.get(name)
        return f

    def renamed(self, ex, name):
        return self.prop.renamed(self.c, self.func, name)

    def globals_override(self, ex, rd, n):
        if rd.get("name") == "DebugFlag":
            return z3.BoolVal(False)
        g = self.prop.globals.get(rd.get("name"))
        return g(ex) if callable(g) else g

    def enum_const(self, ex, rd, n):
        d = ex.func.tu.by_id.get(rd.get("id"))
        nm = rd.get("name")
        t = rd.get("type", {}).get("qualType", "enum")
        en = [x for x in self.prop.enum_constants(ex.func.tu, t)]
        if nm in en:
            return z3.IntVal(en.index(nm))
        raise Unsupported("enum constant " + str(nm))

    # ------------------------------------------------------------ emission
    def smt(self, ex, extra, absq=False):
        fs = ex.pc + extra
        syms = set()
        for f in fs:
            syms |= symbols(f)
        chosen, rest, changed = [], list(self.axioms), True
        while changed:
            changed = False
            nr = []
            for a, t in rest:
                if t <= syms:
                    chosen.append(a)
                    syms |= symbols(a)
                    changed = True
                else:
                    nr.append((a, t))
            rest = nr
        s = z3.Solver()
        s.add(chosen)
        s.add(fs)
        txt = s.to_smt2()
        if not absq:
            return txt
        if ex.bv:
            return txt, None
        try:
            ab = NL()
            g = [ab.go(x) for x in chosen + fs]
            if not ab.funs:
                return txt, None
            s2 = z3.Solver()
            s2.add(g)
            s2.add(ab.side)
            return txt, s2.to_smt2()
        except z3.Z3Exception:
            return txt, None

    def emit(self, ex, goal, label, node, kind):
        key = None
        smt, smt_abs = self.smt(ex, [z3.Not(goal)], True)
        h = hashlib.sha1(smt.encode()).hexdigest()
        if h in self.seen:
            return
        self.seen.add(h)
        self.obligs.append(dict(first=self.prop.first, smt_abs=smt_abs, func=self.c.title, label=label, line=line_of(node) if node else None, smt=smt, kind=kind,
                                path=[t for t in ex.trace if t[0]][-12:]))

    def emit_trivial(self, ex, label, node, kind):
        self.trivial += 1

    def emit_cover(self, ex, label):
        self.covers.append(dict(func=self.c.title, label=label, smt=self.smt(ex, [])))

    def run(self):
        t0 = time.time()
        while self.worklist:
            d = self.worklist.pop()
            ex = Exec(self, self.c, self.func, d)
            before = self.normal_ends
            ex.run()
            self.paths += 1
            if self.normal_ends > before and len(self.ends) < 12:
                self.ends.append(dict(func=self.c.title, label="path end reachable", smt=self.smt(ex, [])))
            if self.paths > 4000:
                raise Unsupported("too many paths in " + self.c.title)
            if time.time() - t0 > self.prop.gen_timeout:
                raise Unsupported("VC generation time limit in " + self.c.title)


_PROP = None


def shape(v):
    """the loops of the function, with those of inlined helpers: kind and nesting, in order of numbering"""
    try:
        ex = Exec(v, v.c, v.func, [])
        ex.number_loops()
        return ex.loop_shape
    except Exception as e:
        return ["%s" % e]


def _gen(i):
    """generate the obligations of the i-th contract (in a forked worker)"""
    prop = _PROP
    c, f = prop.targets[i]
    t0 = time.time()
    v = Verifier(prop, c, f)
    err = None
    try:
        v.run()
    except Unsupported as e:
        err = "unsupported: %s" % e
    except (RecursionError, z3.Z3Exception, KeyError, AttributeError, IndexError, TypeError, ValueError,
            AssertionError) as e:
        err = "engine: %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])
    return dict(i=i, title=c.title, err=err, shape=shape(v), obligs=v.obligs, covers=v.covers, ends=v.ends, trivial=v.trivial,
                noterm=sorted(map(str, v.noterm)), math=sorted(v.math_ints), inlined=sorted(v.inlined), used=sorted(v.used_contracts),
                paths=v.paths, libused=sorted(lib.used), lemmas=sorted(lemmas.USED), gen_s=time.time() - t0,
                normal_ends=v.normal_ends)


def run_solver(cmd, text, tmo=60):
    try:
        p = subprocess.run(cmd, input=text, capture_output=True, text=True, timeout=tmo)
    except subprocess.TimeoutExpired:
        return "timeout"
    out = p.stdout.strip().split("\n")
    for l in out:
        if l in ("sat", "unsat", "unknown", "timeout"):
            return l
    return "error:" + (p.stdout + p.stderr)[:200]


def discharge(o, quick=False, deadline=None):
    t0 = time.time()
    res = []
    if o.get("smt_abs"):
        r = run_solver(["z3-new", "-in", "-smt2", "rlimit=%d" % 10_000_000, "-T:8"], o["smt_abs"])
        res.append(("z3-linear", r))
        if r == "unsat":
            o["by"] = "z3-linear"
            o["res"], o["ok"], o["time"] = res, True, time.time() - t0
            return o
    if o.get("first"):      # a property may name the back end to ask first, briefly
        r = run_solver([c for n, c in SOLVERS if n == o["first"]][0][:-1] + ["-T:6"], o["smt"])
        res.append((o["first"], r))
        if r == "unsat":
            o["by"], o["res"], o["ok"], o["time"] = o["first"], res, True, time.time() - t0
            return o
    for name, cmd in SOLVERS[:1] if quick else SOLVERS:
        if deadline and time.time() > deadline:
            res.append((name, "skipped (time budget)"))
            continue
        txt = o["smt"]
        if name == "cvc5":
            txt = "(set-logic ALL)\n" + txt
        r = run_solver(cmd, txt)
        res.append((name, r))
        if r == "unsat":
            o["by"] = name
            break
        if r == "sat" and name == "z3":
            break
    o["res"] = res
    o["ok"] = res[-1][1] == "unsat"
    o["time"] = time.time() - t0
    return o


def reachable(o):
    """vacuity guard: the assumptions must not be refutable"""
    r = run_solver(["z3-new", "-in", "-smt2", "rlimit=3000000", "-T:5"], o["smt"], 20)
    o["refuted"] = (r == "unsat")
    return o


class Prop:
    """one property: its contracts and everything they need"""

    def __init__(self, pid, tu=None, tu_filters=("mlir::heir",), contracts=(), axioms=(), decl_contracts=None, overrides=(),
                 method_hooks=None, func_hooks=None, ctor_hook=None, globals=None, trusted=(), gen_timeout=200,
                 extra_flags=(), bounded=(), lemmas=(), mul_hook=None, on_sort=None, on_erase=None,
                 order_hook=None, emplace_hook=None, width_hint=None, merge_cond=False, node_field=None, first=None, enum_order=True):
        self.first, self.enum_order = first, enum_order
        self.merge_cond, self.node_field = merge_cond, node_field
        self.width_hint = width_hint
        self.pid = pid
        self.on_sort, self.on_erase, self.order_hook, self.emplace_hook = on_sort, on_erase, order_hook, emplace_hook
        self.mul_hook = mul_hook        # product as a defined function symbol (exact, only keeps solvers out of nonlinear search)
        self.tu_name, self.tu_filters, self.contracts = tu, tu_filters, list(contracts)
        self.axioms = list(axioms)
        self.decl_contracts = decl_contracts or {}
        self.overrides = list(overrides)
        self.method_hooks, self.func_hooks, self.ctor_hook = method_hooks or {}, func_hooks or {}, ctor_hook
        self.globals = globals or {}
        self.trusted = list(trusted)
        self.gen_timeout = gen_timeout
        self.extra_flags = list(extra_flags)
        self.bounded = list(bounded)
        self.more_lemmas = list(lemmas)
        self.targets = []
        self.baseline = {}
        p = os.path.join(HERE, "baseline", pid + ".json")
        if os.path.exists(p):
            self.baseline = json.load(open(p))

    def load(self):
        self.tus = {}

        def get(name):
            if name not in self.tus:
                self.tus[name] = TU(name, self.tu_filters, self.extra_flags)
            return self.tus[name]
        names = sorted(set((c.tu or self.tu_name) for c in self.contracts if not c.model_only))
        with cf.ThreadPoolExecutor(4) as ex:
            list(ex.map(get, names))
        missing = []
        for c in self.contracts:
            if c.model_only:
                continue
            tu = get(c.tu or self.tu_name)
            fs = [f for f in tu.funcs if c.matches(f)]
            fs = [f for f in fs if f.node.get("mangledName")] or fs      # instantiations rather than template patterns
            seen, uniq = set(), []
            for f in fs:
                if f.mangled not in seen:
                    seen.add(f.mangled)
                    uniq.append(f)
            if not uniq:
                missing.append(c.title)
                continue
            for f in uniq[:1] if not getattr(c, "all", False) else uniq:
                self.targets.append((c, f))
        return missing

    def enum_constants(self, tu, t):
        t = strip_type(t)[0].split("::")[-1]
        for n in tu.by_id.values():
            if n.get("kind") == "EnumDecl" and n.get("name") == t:
                return [c.get("name") for c in n.get("inner", []) if c.get("kind") == "EnumConstantDecl"]
        return []

    # ---------------------------------------------------------- renaming
    def decls(self, f):
        out = []
        for p in f.params:
            out.append((p.get("name"), strip_type(tyof(p))[0]))
        for n in walk(f.body):
            if n.get("kind") in ("VarDecl", "BindingDecl", "ParmVarDecl") and n.get("name") and \
                    not n["name"].startswith("__"):
                out.append((n["name"], strip_type(tyof(n))[0]))
        return out

    def renamed(self, c, f, name):
        base = self.baseline.get(c.title)
        if not base:
            return None
        cur = self.decls(f)
        cn, bn = {x[0] for x in cur}, {x[0] for x in base}
        rem = [tuple(x) for x in base if x[0] not in cn]
        add = [x for x in cur if x[0] not in bn]
        t = next((x[1] for x in rem if x[0] == name), None)
        if t is None:
            return None
        r = [x[0] for x in rem if x[1] == t]
        a = [x[0] for x in add if x[1] == t]
        # drop duplicates, keep order
        r, a = list(dict.fromkeys(r)), list(dict.fromkeys(a))
        if len(r) != len(a) or name not in r:
            return None
        return [a[r.index(name)]]


def verify(prop, jobs=8, budget=420, log=None):
    """-> result dictionary"""
    global _PROP
    t0 = time.time()
    missing = prop.load()
    t_ext = time.time() - t0
    _PROP = prop
    sys.setrecursionlimit(20000)
    gens = []
    deadline = t0 + budget
    obligs, covers, ends = [], [], []
    lock = threading.Lock()
    ctx = mp.get_context("fork")
    with cf.ProcessPoolExecutor(max_workers=max(1, min(jobs, len(prop.targets) or 1)), mp_context=ctx) as pool, \
            cf.ThreadPoolExecutor(jobs) as sol:
        futs = [pool.submit(_gen, i) for i in range(len(prop.targets))]
        sf = []
        for f in cf.as_completed(futs):
            g = f.result()
            gens.append(g)
            for o in g["obligs"]:
                obligs.append(o)
                sf.append(sol.submit(discharge, o, False, deadline))
            for o in g["covers"] + g["ends"]:
                covers.append(o)
                sf.append(sol.submit(reachable, o))
        for x in sf:
            x.result()
    gens.sort(key=lambda g: g["i"])
    return dict(missing=missing, gens=gens, obligs=obligs, covers=covers, extract_s=t_ext, wall=time.time() - t0)

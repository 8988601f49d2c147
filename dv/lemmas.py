"""Lemmas and ghost definitions.

A lemma is stated once, as an SMT term; the Lean statement is generated from
that term, and `lean_text` produces a file in which Lean's kernel checks
`example : <generated statement> := <theorem>` against the proofs in dv/lean/.
A lemma proved by the SMT solver itself (by induction, say) is listed with its
own obligations instead.  Ghost functions have a Lean definition each; their
defining equations are lemmas like any other.
"""
import os, re, subprocess, time
import z3
from engine import P2
import sorts as S

HERE = os.path.dirname(os.path.abspath(__file__))
REG = {}
LEAN_FUN = {"pow2": "DV.pow2", "band": "DV.band"}      # SMT function name -> Lean constant
USED = set()


def ghost(name, lean, *sorts):
    f = z3.Function(name, *sorts)
    LEAN_FUN[name] = lean
    return f


class Lemma:
    def __init__(self, name, vars, concl, hyps=(), lean=None, patterns=None, module="Basic"):
        self.name, self.vars, self.hyps, self.concl = name, list(vars), list(hyps), concl
        self.lean = lean or ("DV." + name)
        self.patterns = patterns
        self.module = module
        REG[name] = self

    def formula(self):
        b = z3.Implies(z3.And(self.hyps), self.concl) if self.hyps else self.concl
        return b

    def __call__(self, *args):
        USED.add(self.name)
        args = [z3.IntVal(a) if isinstance(a, int) and v.sort() == z3.IntSort() else
                z3.ToReal(a) if z3.is_expr(a) and z3.is_int(a) and v.sort() == z3.RealSort() else a
                for a, v in zip(args, self.vars)]
        return z3.substitute(self.formula(), *list(zip(self.vars, args)))

    def axiom(self):
        USED.add(self.name)
        f = self.formula()
        if not self.vars:
            return f
        if self.patterns:
            return z3.ForAll(self.vars, f, patterns=self.patterns)
        return z3.ForAll(self.vars, f)


def lsort(s):
    if s == z3.IntSort():
        return "ℤ"
    if s == z3.RealSort():
        return "ℝ"
    if s == z3.BoolSort():
        return "Prop"
    if s.kind() == z3.Z3_ARRAY_SORT:
        return "(%s → %s)" % (lsort(s.domain()), lsort(s.range()))
    info = S.INFO.get(s.name(), {})
    if info.get("kind") == "rec":
        return "(" + " × ".join(lsort(q) for q in info["sorts"]) + ")"
    if info.get("kind") == "apint":
        return "(ℤ × ℤ)"
    raise Exception("no Lean sort for %s" % s)


def lname(n):
    n = re.sub(r"[^A-Za-z0-9_]", "_", n)
    return n if not re.match(r"^(end|at|from|in|by|let|have|fun|if|then|else|do|λ)$", n) else n + "'"


def tolean(e, bound=()):
    if z3.is_var(e):
        return bound[-1 - z3.get_var_index(e)]
    if z3.is_quantifier(e):
        names = []
        b = list(bound)
        for i in range(e.num_vars()):
            nm = lname(e.var_name(i)) + "_q%d" % len(b)
            names.append("(%s : %s)" % (nm, lsort(e.var_sort(i))))
            b.append(nm)
        body = tolean(e.body(), b)
        if e.is_lambda():
            return "(fun %s => %s)" % (" ".join(names), body)
        return "(%s %s, %s)" % ("∀" if e.is_forall() else "∃", " ".join(names), body)
    if z3.is_int_value(e):
        return "(%s : ℤ)" % e.as_long()
    if z3.is_rational_value(e):
        return "((%s : ℝ)/(%s : ℝ))" % (e.numerator_as_long(), e.denominator_as_long()) if e.denominator_as_long() != 1 \
            else "(%s : ℝ)" % e.numerator_as_long()
    d = e.decl()
    k = d.kind()
    a = [tolean(c, bound) for c in e.children()]
    K = z3
    binop = {K.Z3_OP_ADD: "+", K.Z3_OP_MUL: "*", K.Z3_OP_SUB: "-"}
    if k in binop:
        return "(" + (" %s " % binop[k]).join(a) + ")"
    if k == K.Z3_OP_IDIV or k == K.Z3_OP_DIV:
        return "(%s / %s)" % tuple(a)
    if k == K.Z3_OP_MOD:
        return "(%s %% %s)" % tuple(a)
    if k == K.Z3_OP_UMINUS:
        return "(-%s)" % a[0]
    if k == K.Z3_OP_LE:
        return "(%s ≤ %s)" % tuple(a)
    if k == K.Z3_OP_LT:
        return "(%s < %s)" % tuple(a)
    if k == K.Z3_OP_GE:
        return "(%s ≥ %s)" % tuple(a)
    if k == K.Z3_OP_GT:
        return "(%s > %s)" % tuple(a)
    if k == K.Z3_OP_EQ:
        return "(%s = %s)" % tuple(a) if e.arg(0).sort() != z3.BoolSort() else "(%s ↔ %s)" % tuple(a)
    if k == K.Z3_OP_DISTINCT:
        return "(%s ≠ %s)" % tuple(a)
    if k == K.Z3_OP_AND:
        return "(" + " ∧ ".join(a) + ")" if a else "True"
    if k == K.Z3_OP_OR:
        return "(" + " ∨ ".join(a) + ")" if a else "False"
    if k == K.Z3_OP_NOT:
        return "(¬ %s)" % a[0]
    if k == K.Z3_OP_IMPLIES:
        return "(%s → %s)" % tuple(a)
    if k == K.Z3_OP_TRUE:
        return "True"
    if k == K.Z3_OP_FALSE:
        return "False"
    if k == K.Z3_OP_TO_REAL:
        return "((%s : ℤ) : ℝ)" % a[0]
    if k == K.Z3_OP_TO_INT:
        return "(Int.floor %s)" % a[0]
    if k == K.Z3_OP_SELECT:
        return "(%s %s)" % (a[0], " ".join(a[1:]))
    if k == K.Z3_OP_STORE:
        return "(Function.update %s)" % " ".join(a)
    if k == K.Z3_OP_ITE:
        return "(if %s then %s else %s)" % tuple(a)
    if k == K.Z3_OP_DT_ACCESSOR:
        srt = e.arg(0).sort()
        cnt = srt.constructor(0).arity()
        idx = [i for i in range(cnt) if z3.eq(srt.accessor(0, i), d)][0]
        return "(%s%s%s)" % (a[0], ".2" * idx, ".1" if idx < cnt - 1 else "")
    if k == K.Z3_OP_DT_CONSTRUCTOR:
        return "(" + ", ".join(a) + ")"
    if k == K.Z3_OP_UNINTERPRETED:
        if not a:
            return lname(d.name())
        if d.name() not in LEAN_FUN:
            raise Exception("no Lean definition for " + d.name())
        return "(%s %s)" % (LEAN_FUN[d.name()], " ".join(a))
    raise Exception("to Lean: %s" % e)


def statement(l):
    vs = " ".join("(%s : %s)" % (lname(str(v)), lsort(v.sort())) for v in l.vars)
    hs = " → ".join([tolean(h) for h in l.hyps] + [tolean(l.concl)])
    return "∀ %s, %s" % (vs, hs) if vs else hs


def lean_text(names):
    """proof modules that the used lemmas need, concatenated, followed by the statement checks"""
    mods = []
    for n in sorted(names):
        m = REG[n].module
        if m not in mods:
            mods.append(m)
    DEPS = {"Slots": ["Poly"], "Rotate": ["Poly"], "Polyn": ["Poly"], "Bicyclic": ["Slots", "Poly", "ModArith"]}
    mods += [d for d in dict.fromkeys(d for m in list(mods) for d in DEPS.get(m, [])) if d not in mods]
    order = ["Basic"] + sorted((m for m in mods if m != "Basic"), key=lambda m: (m == "Bicyclic", m))
    txt, imports = [], []
    for m in order:
        p = os.path.join(HERE, "lean", m + ".lean")
        for line in open(p):
            if line.startswith("import "):
                if line not in imports:
                    imports.append(line)
            else:
                txt.append(line)
        txt.append("\n")
    out = "".join(imports) + "\n" + "".join(txt)
    out += "\nsection\nopen Classical\n"
    for n in sorted(names):
        out += "noncomputable example : %s := by\n  intros; first | (apply %s <;> assumption) | (apply %s)\n" % (
            statement(REG[n]), REG[n].lean, REG[n].lean) if False else \
            "example : %s := @%s\n" % (statement(REG[n]), REG[n].lean)
    out += "end\n" + "".join("#print axioms %s\n" % REG[n].lean for n in sorted(names))
    return out


def check_lean(names, workdir, timeout=600):
    """returns dict(ok, detail, checked, time)"""
    t0 = time.time()
    names = [n for n in names if n in REG]
    if not names:
        return dict(ok=True, checked=[], time=0.0, detail="")
    text = lean_text(names)
    p = os.path.join(workdir, "Lemmas.lean")
    open(p, "w").write(text)
    try:
        r = subprocess.run(["lean", p], capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return dict(ok=False, checked=[], time=time.time() - t0, detail="lean timed out")
    out = r.stdout + r.stderr
    bad = r.returncode != 0 or "error" in out or "sorry" in out
    axs = set(re.findall(r"depends on axioms: \[([^\]]*)\]", out))
    allax = set(x.strip() for a in axs for x in a.split(","))
    extra = allax - {"propext", "Classical.choice", "Quot.sound", "Lean.ofReduceBool", "Lean.trustCompiler"}
    return dict(ok=not bad and not extra, checked=sorted(names), time=time.time() - t0, detail=out[-3000:],
                axioms=sorted(allax))


# ---------------------------------------------------------------- facts about pow2 (checked like every lemma)
_k, _a, _b, _p = z3.Ints("k a b p")
POW2_ZERO = Lemma("pow2_zero", [], P2(0) == 1)
POW2_POS = Lemma("pow2_pos", [_k], P2(_k) >= 1, [_k >= 0], patterns=[P2(_k)])
POW2_SUCC = Lemma("pow2_succ", [_k], P2(_k) == 2 * P2(_k - 1), [_k >= 1], patterns=[P2(_k)])
POW2_ADD = Lemma("pow2_add", [_a, _b], P2(_a + _b) == P2(_a) * P2(_b), [_a >= 0, _b >= 0])
POW2_MONO = Lemma("pow2_mono", [_a, _b], P2(_a) <= P2(_b), [_a >= 0, _a <= _b])
POW2_LT = Lemma("pow2_lt", [_a, _b], 2 * P2(_a) <= P2(_b), [_a >= 0, _a < _b])
POW2_GT = Lemma("pow2_gt", [_a], _a < P2(_a), [_a >= 0])
MUL_LT_SQ = Lemma("mul_lt_sq", [_a, _b, _p], z3.And(_a * _b >= 0, _a * _b < _p * _p), [_a >= 0, _b >= 0, _a < _p, _b < _p])
PW = ghost("pw", "DV.pw", z3.IntSort(), z3.IntSort(), z3.IntSort())
GCD = ghost("gcd", "DV.gcd", z3.IntSort(), z3.IntSort(), z3.IntSort())
P2_BASE = [POW2_ZERO, POW2_POS]
_x, _o = z3.Ints("x o")
_T = z3.If(_x >= 0, _x % _o, -((-_x) % _o))
SREM_MOD = Lemma("srem_mod", [_x, _o], z3.And(_T % _o == _x % _o, (_T + _o) % _o == _x % _o, _T < _o, _T > -_o, z3.Implies(_x <= 0, _T <= 0)), [_o > 0],
                 module="ModArith")

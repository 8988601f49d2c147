"""ghost vocabulary shared by C13 and C16: row-major strides, sums, products (Lean module IndexFlat)"""
import z3
from sorts import *
from lemmas import Lemma, ghost

I, Bo = z3.IntSort(), z3.BoolSort()
A = z3.ArraySort(I, I)
M = "IndexFlat"
SUMP = ghost("sump", "DV.sump", A, A, I, I)
ROWMAJ = ghost("rowmaj", "DV.rowmaj", A, A, I, Bo)
TOTAL = ghost("total", "DV.total", A, A, I, I)
INR = ghost("inrange", "DV.inrange", A, A, I, Bo)
NOOVF = ghost("noovf", "DV.noovf", A, A, I, I, Bo)
SUFP = ghost("sufp", "DV.sufp", A, I, I, I)
RSTR = ghost("rstride", "DV.rstride", A, I, A)
PREFP = ghost("prefp", "DV.prefp", A, I, I)
POSS = ghost("posshape", "DV.posshape", A, I, Bo)
x, y, s, g = (z3.Const(c, A) for c in "xysg")
n, i, k, off = z3.Ints("n i k off")


def L(name, vars, concl, hyps=(), **kw):
    return Lemma(name, vars, concl, hyps, module=M, **kw)


S_ZERO = L("sump_zero", [x, g], SUMP(x, g, 0) == 0)
S_SUCC = L("sump_succ", [x, g, k], SUMP(x, g, k + 1) == SUMP(x, g, k) + x[k] * g[k], [k >= 0])
RM_POS = L("rowmaj_pos", [s, g, n, i], z3.And(g[i] >= 1, s[i] >= 1), [ROWMAJ(s, g, n), 0 <= i, i < n])
RM_STEP = L("rowmaj_step", [s, g, n, i], g[i] == g[i + 1] * s[i + 1], [ROWMAJ(s, g, n), 0 <= i, i + 1 < n])
RM_LAST = L("rowmaj_last", [s, g, n], g[n - 1] == 1, [ROWMAJ(s, g, n), n >= 1])
TOTAL_DEF = L("total_def", [s, g, n], TOTAL(s, g, n) == z3.If(n >= 1, g[0] * s[0], z3.IntVal(1)))
INR_GET = L("inrange_get", [x, s, n, i], z3.And(0 <= x[i], x[i] < s[i]), [INR(x, s, n), 0 <= i, i < n])
INR_DEF = L("inrange_def", [x, s, n], INR(x, s, n) == z3.ForAll([i], z3.Implies(0 <= i, z3.Implies(i < n, z3.And(
    0 <= x[i], x[i] < s[i]))), patterns=[x[i]]))
SUM_BOUND = L("sum_bound", [x, s, g, n, i], z3.And(0 <= SUMP(x, g, i), SUMP(x, g, i) <= TOTAL(s, g, n) - g[i - 1]),
              [ROWMAJ(s, g, n), INR(x, s, n), 1 <= i, i <= n])
SUM_RANGE = L("sum_range", [x, s, g, n], z3.And(0 <= SUMP(x, g, n), SUMP(x, g, n) < TOTAL(s, g, n)),
              [ROWMAJ(s, g, n), INR(x, s, n), n >= 0])
NOOVF_GET = L("noovf_get", [x, g, off, k, n] if False else [x, g, off, n, k],
              z3.And(-2 ** 63 <= off + SUMP(x, g, k + 1), off + SUMP(x, g, k + 1) <= 2 ** 63 - 1,
                     -2 ** 63 <= x[k] * g[k], x[k] * g[k] <= 2 ** 63 - 1), [NOOVF(x, g, off, n), 0 <= k, k < n])
RM_NOOVF = L("rowmaj_noovf", [x, s, g, off, n], NOOVF(x, g, off, n),
             [ROWMAJ(s, g, n), INR(x, s, n), n >= 0, off >= 0, off + TOTAL(s, g, n) <= 2 ** 63 - 1])
UNIQ = L("rowmaj_unique", [x, y, s, g, n], z3.ForAll([i], z3.Implies(0 <= i, z3.Implies(i < n, x[i] == y[i]))),
         [ROWMAJ(s, g, n), INR(x, s, n), INR(y, s, n), SUMP(x, g, n) == SUMP(y, g, n)])
TAIL_BOUND = L("tail_bound", [x, s, g, n, k], z3.And(0 <= SUMP(x, g, n) - SUMP(x, g, k + 1),
                                                     SUMP(x, g, n) - SUMP(x, g, k + 1) < g[k]),
               [ROWMAJ(s, g, n), INR(x, s, n), 0 <= k, k < n])
RSTR_GET = L("rstride_get", [s, n, i], RSTR(s, n)[i] == SUFP(s, n, i + 1))
SUFP_END = L("sufp_end", [s, n], SUFP(s, n, n) == 1)
SUFP_STEP = L("sufp_step", [s, n, k], SUFP(s, n, k) == s[k] * SUFP(s, n, k + 1), [k < n])
SUFP_POS = L("sufp_pos", [s, n, k], SUFP(s, n, k) >= 1, [POSS(s, n), k >= 0])
SUFP_LE = L("sufp_le", [s, n, k], SUFP(s, n, k) <= PREFP(s, n), [POSS(s, n), 0 <= k, k <= n])
PREFP_ZERO = L("prefp_zero", [s], PREFP(s, 0) == 1)
PREFP_STEP = L("prefp_step", [s, k], PREFP(s, k + 1) == PREFP(s, k) * s[k], [k >= 0])
PREFP_FULL = L("prefp_full", [s, n], PREFP(s, n) == SUFP(s, n, 0))
PREFP_POS = L("prefp_pos", [s, n, k], PREFP(s, k) >= 1, [POSS(s, n), k <= n])
PREFP_MONO = L("prefp_mono", [s, n, k], PREFP(s, k) <= PREFP(s, n), [POSS(s, n), 0 <= k, k <= n])
RSTR_RM = L("rstride_rowmaj", [s, n], z3.And(ROWMAJ(s, RSTR(s, n), n), TOTAL(s, RSTR(s, n), n) == PREFP(s, n)),
            [POSS(s, n), n >= 0])
POSS_GET = L("posshape_get", [s, n, i], s[i] >= 1, [POSS(s, n), 0 <= i, i < n])

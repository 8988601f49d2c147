"""C07: the bicyclic and tricyclic kernels multiply matrices."""
from slots import *
import slots
import c01
from lemmas import GCD, SREM_MOD


def BL(name, vs, concl, hyps=(), **kw):
    return Lemma(name, vs, concl, list(hyps), module="Bicyclic", **kw)


A3S = z3.ArraySort(I, RARR)
BICR = ghost("bicR", "DV.bicR", I, I, I, I, z3.ArraySort(I, I))   # the published rotation: hp * (c*m*p^-1 mod n)
MINV = ghost("minv", "DV.minv", I, I, I)                            # inverse of p modulo n
BMM = ghost("bmm", "DV.bmm", A3S, A3S, I, I, I, I, z3.RealSort())   # entry of the batched matrix product
c, h, i, j, y, u, pi = z3.Ints("c h i j y u pi")
A3v, B3v = z3.Consts("A3 B3", A3S)
A3, B3 = z3.Consts("A3!ghost B3!ghost", A3S)                        # the matrices
BIC_DEF = BL("bic_def", [q, m, pi, n, c], BICR(q, m, pi, n)[c] == q * ((c * m * pi) % n))
ROTY = BL("roty_eq", [c, m, pi, n], ((c * m) % n * pi) % n == (c * m * pi) % n)
_X = ((c * m) % n * pi) % n
BIC_CODE = BL("bic_code", [c, h, m, p, n, pi], z3.And(h * p * _X == BICR(h * p, m, pi, n)[c], (h * p * _X) % (h * n * p) == BICR(h * p, m, pi, n)[c]), [n >= 1, p >= 1, h >= 1])
MINV_EQ = BL("minv_eq", [p, n, t], MINV(p, n) == t, [n >= 1, 0 <= t, t < n, (p * t) % n == 1 % n])
_R = BICR(h * p, m, t, n)[c]
BIC_ROT = BL("bic_rot", [c, h, m, p, n, t], z3.And(_R >= 0, _R < h * n * p, _R % n == (c * (h * m)) % n, _R % p == 0, _R % h == 0),
             [n >= 1, p >= 1, h >= 1, 0 <= t, t < n, (p % n * t) % n == 1 % n])
TRI_MOD = BL("tri_mod", [x_, y, k, h, n, p], z3.And((k + x_) % h == (k + y) % h, (k + x_) % n == (k + y) % n, (k + x_) % p == (k + y) % p),
             [x_ % (h * n * p) == y % (h * n * p)])
ADD_MOD = BL("add_mod_eq", [x_, y, k, n], (x_ + k) % n == (y + k) % n, [x_ % n == y % n])
PROD_BD = BL("mul_le_bnd", [x_, y, k, u], z3.And(0 <= x_ * y, x_ * y <= k * u), [0 <= x_, 0 <= y, x_ <= k, y <= u])
TRI = BL("tri_correct", [A3v, B3v, V_, W_, E_, R_, Z_, h, m, n, p, s],
         BS(E_, R_, Z_, V_, h * m, s, n) == BMM(A3v, B3v, n, s % h, s % m, s % p),
         [h >= 1, m >= 1, n >= 1, p >= 1, GCD(h * m, n) == 1,
          z3.ForAll([t], V_[t] == A3v[t % h][t % m][t % n]), z3.ForAll([t], W_[t] == B3v[t % h][t % n][t % p]),
          z3.ForAll([c], z3.Implies(0 <= c, z3.Implies(c < n, z3.And(z3.Not(Z_[c]), z3.ForAll([t], E_[c][t] == W_[t]), R_[c] % n == (c * (h * m)) % n,
                                                                     R_[c] % p == 0, R_[c] % h == 0))))])

modinv = Contract("multiplicativeInverse", params=["x", "modulo"], model_only=True, ret=lambda ex: APINT,      # proved under C01; by minv_eq the inverse is MINV
                  requires=lambda e: c01.modinv.requires(e) + [GCD(val(e.x), val(e.modulo)) == 1, val(e.modulo) >= 1],
                  retdef=lambda e: mk(APINT, MINV(val(e.x), val(e.modulo)), width(e.x)),
                  ensures=lambda e, ret: c01.modinv.ensures(e, ret) + [MINV_EQ(val(e.x), val(e.modulo), val(ret))])


def dims(e):
    H = e.h if e.has("h") else z3.IntVal(1)
    return H, e.m, e.n, e.p


def packedB(e):
    h, m, n, p = dims(e)
    lb = LVA(e.packedB)
    return z3.ForAll([t], lb[t] == B3[t % h][t % n][t % p], patterns=[lb[t]])


def tri_req(e):
    h, m, n, p = dims(e)
    la = LVA(e.packedA)
    return [h >= 1, m >= 1, n >= 1, p >= 1, n <= 2 ** 30, h * m <= I53, h * m * n <= I53, h * n * p <= I53, GCD(h * m, n) == 1, GCD(p, n) == 1,
            z3.ForAll([t], la[t] == A3[t % h][t % m][t % n], patterns=[la[t]]), packedB(e)]


def rotR(o):
    h, m, n, p = dims(o)
    return BICR(h * p, m, MINV(p % n, n), n)


def rotspec(o, g, j, i_, O):
    h, m, n, p = dims(o)
    M = h * n * p
    c = j * g + i_
    pi = MINV(p % n, n)
    off = O.period * g * j
    roty = rotR(o)[c]

    def post(ex, ret):
        D = O.period * (j * g)
        a, b = S0 + O.period * (j * g) + ret, S0 + roty
        lb = LVA(o.packedB)
        for x in (a, b):
            ex.instance(packedB(o), x)
        ex.assume(ADD_MOD(ret, roty - D, D, M))
        ex.assume(TRI_MOD(D + ret, roty, S0, h, n, p))
        return [z3.And(0 <= ret, ret < M), ret % M == (roty - off) % M, (D + ret) % M == roty % M, a % h == b % h, a % n == b % n, a % p == b % p, lb[a] == lb[b]]
    return [BIC_DEF(h * p, m, pi, n, c), ROTY(c, m, pi, n), BIC_CODE(c, h, m, p, n, pi), BIC_ROT(c, h, m, p, n, pi), MUL_BND(g, O.steps, O.period, I53), MUL_BND(g * j, O.steps, O.period, I53),
            PROD_BD(c, m, n, m), PROD_BD((c * m) % n, pi, n, n), SREM_MOD(roty - off, M), z3.And(c >= 0, pi >= 0, pi < n, (p % n * pi) % n == 1 % n)], post


def post_hints(e, ret):
    h, m, n, p = dims(e.old)
    la, lb = LVA(e.old.packedA), LVA(e.old.packedB)
    R = rotR(e.old)
    return [z3.ForAll([s], TRI(A3, B3, la, lb, z3.K(I, lb), R, NOZ, h, m, n, p, s), patterns=[EVA(ret)[s]]),
            z3.ForAll([c], BIC_ROT(c, h, m, p, n, MINV(p % n, n)), patterns=[R[c]])]


def ents(e, ret):
    h, m, n, p = dims(e.old)
    return [ret != NULLNODE, all_s(ret, lambda s: BMM(A3, B3, n, s % h, s % m, s % p))]


def entry(ex, e):
    h, m, n, p = dims(e)
    return [c01.G_STEP2(p, n), c01.G_STEP2(m, n), PROD_BD(h, m, h * m, n)]


def kern(name, params):
    k = Contract(name, ret=lambda ex: NODE, params=params, requires=tri_req, ensures=ents, entry=entry, post_hints=post_hints)
    k.rows, k.rot, k.rotspec = lambda o: z3.K(I, LVA(o.packedB)), rotR, rotspec
    return k


bic = kern("implementBicyclicMatmul", ["packedA", "packedB", "m", "n", "p", "dagType"])
tri = kern("implementTricyclicBatchMatmul", ["packedA", "packedB", "h", "m", "n", "p", "dagType"])


def prop():
    return vf.Prop("C07", tu="kernels.cpp", contracts=[bic, tri, modinv, cc, bsgs] + slot_factories(LVA, LVM) + DAGTYPES, axioms=slots.AXIOMS, overrides=OVERRIDES,
                   method_hooks={"index": h_index}, func_hooks=HOOKS, decl_contracts={"multiplicativeInverse": modinv}, trusted=[])


NATIVE = natspec.Native("c07.cpp", ["lib/Utils/APIntUtils.cpp"], seconds=(15, 90))
NOTE = ("Proved of both kernels for all batch counts h and dimensions m, n, p with gcd(h*m, n) = gcd(p, n) = 1 (weaker than pairwise coprime), "
        "h*m*n and h*n*p at most 2^53 (a DAG node keeps its rotation as a double) and n at most 2^30, and all real matrix contents: every slot s of the "
        "result holds entry (s mod h, s mod m, s mod p) of the product, and each rotation of the second operand lies in [0, h*n*p) and is congruent to the "
        "published formula minus the giant-step offset. No 64-bit intermediate wraps. The baby-step giant-step kernel under them is re-proved here; "
        "multiplicativeInverse is proved under C01. Trusted: std::sqrt/ceil exact on these sizes, slot "
        "values as real numbers, models of llvm::APInt and the standard library, clang's AST, z3/cvc5, Lean. The native companion multiplies random matrices "
        "with an independent evaluator and checks the multiset of rotations, also for dimensions near the 53-bit limit.")

"""C01: modular arithmetic on APInt."""
import z3
from sorts import *
from engine import Contract, Loop, pow2, P2
from lemmas import Lemma, PW, GCD, POW2_ADD, MUL_LT_SQ, POW2_SUCC
import vf

b, e, m, r, x, A, B, r0, r1, P, q, s = z3.Ints("b e m r x A B r0 r1 P q s")
M = "ModArith"
PW0 = Lemma("pw_zero", [b], PW(b, 0) == 1, module=M)
ME_INIT = Lemma("modexp_init", [b, e, m], ((1 % m) * PW(b % m, e)) % m == PW(b, e) % m, [e >= 0, m > 0], module=M)
ME_EVEN = Lemma("modexp_even", [r, b, e, m], (r * PW((b * b) % m, e / 2)) % m == (r * PW(b, e)) % m,
                [e >= 0, m > 0, e % 2 == 0], module=M)
ME_ODD = Lemma("modexp_odd", [r, b, e, m], (((r * b) % m) * PW((b * b) % m, e / 2)) % m == (r * PW(b, e)) % m,
               [e >= 0, m > 0, e % 2 != 0], module=M)
G_STEP = Lemma("gcd_step", [A, B], GCD(B, A % B) == GCD(A, B), [A >= 0, B > 0], module=M)
G_STEP2 = Lemma("gcd_step'", [A, B], GCD(A % B, B) == GCD(A, B), [A >= 0, B > 0], module=M)
G_COMM = Lemma("gcd_comm'", [A, B], GCD(A, B) == GCD(B, A), module=M)
G_ZERO = Lemma("gcd_zero", [A], GCD(A, 0) == A, [A >= 0], module=M)
EU_NEG = Lemma("euclid_neg", [x, A, B, r0, r1, m], (r0 % r1 + x * (A + B * (r0 / r1))) % m == 0,
               [m > 0, r1 > 0, (r0 + x * A) % m == 0, (r1 - x * B) % m == 0], module=M)
EU_POS = Lemma("euclid_pos", [x, A, B, r0, r1, m], (r1 % r0 - x * (B + A * (r1 / r0))) % m == 0,
               [m > 0, r0 > 0, (r0 + x * A) % m == 0, (r1 - x * B) % m == 0], module=M)
EU_DET = Lemma("euclid_det", [r, s, A, B, m], z3.And(s * (A + B * (r / s)) + (r % s) * B == m, A + B * (r / s) <= m,
                                                     A + B * (r / s) >= 0),
               [s > 0, r >= 0, A >= 0, B >= 0, r * B + s * A == m], module=M)
EU_HALF = Lemma("euclid_half", [r, s, A, B, m], B * (s + 1) <= m, [s >= 0, r > s, A >= 0, B >= 0, r * B + s * A == m],
                module=M)
t = z3.Int("t")
_W = (t - (B * q) % P) % P
W_SUB = Lemma("wrap_sub", [t, A, B, q, P], z3.If(_W == 0, z3.IntVal(0), P - _W) == A + B * q,
              [P > 0, t >= 0, t < P, A == z3.If(t == 0, z3.IntVal(0), P - t), A + B * q < P, A + B * q >= 0], module=M)
W_SUB2 = Lemma("wrap_sub'", [t, A, B, q, P], (B - (t * q) % P) % P == B + A * q,
               [P > 0, t >= 0, t < P, A == z3.If(t == 0, z3.IntVal(0), P - t), B + A * q < P, B + A * q >= 0], module=M)
INV_NEG = Lemma("inv_neg", [x, A, m], (x * (m - A)) % m == 1 % m, [m > 0, (1 + x * A) % m == 0], module=M)
INV_POS = Lemma("inv_pos", [x, B, m], (x * B) % m == 1 % m, [m > 0, (1 - x * B) % m == 0], module=M)

MAXW = 2 ** 24       # LLVM's own limit on integer widths


def wide(ex, e):
    """assumed where a product is computed at twice the width"""
    w = width(e.modulus)
    ex.assume([POW2_ADD(w, w), P2(w * 2) == P2(w + w), MUL_LT_SQ(val(e.a), val(e.b), P2(w))])


modmul = Contract(
    "modularMultiplication", nparams=3,
    requires=lambda e: [width(e.a) == width(e.modulus), width(e.b) == width(e.modulus), val(e.modulus) != 0,
                        width(e.modulus) <= MAXW],
    ensures=lambda e, ret: [width(ret) == width(e.modulus),
                            val(ret) == (val(e.a) * val(e.b)) % val(e.modulus)],
    entry=wide)

modexp = Contract(
    "modularExponentiation", nparams=3,
    requires=lambda e: [width(e.base) == width(e.modulus), val(e.modulus) != 0,
                        width(e.modulus) <= MAXW],
    ensures=lambda e, ret: [width(ret) == width(e.modulus),
                            val(ret) == PW(val(e.base), val(e.exponent)) % val(e.modulus)],
    entry=lambda ex, e: ex.assume([ME_INIT(val(e.base), val(e.exponent), val(e.modulus)), POW2_SUCC(width(e.modulus))]),
    post_hints=lambda e, ret: [PW0(val(e.b))] if e.has("b") else [],
    loops={0: Loop(
        inv=lambda e: [width(e.res) == width(e.modulus), width(e.b) == width(e.modulus),
                       width(e.e) == width(e.exponent), val(e.e) >= 0, val(e.res) < val(e.modulus), val(e.res) >= 0,
                       val(e.b) >= 0, val(e.b) < val(e.modulus),
                       (val(e.res) * PW(val(e.b), val(e.e))) % val(e.modulus)
                       == PW(val(e.base), val(e.exponent)) % val(e.modulus)],
        dec=lambda e: val(e.e),
        hints=lambda e, w: [ME_EVEN(val(e.res), val(e.b), val(e.e), val(e.modulus)),
                            ME_ODD(val(e.res), val(e.b), val(e.e), val(e.modulus))] if w == "body" else [])})


def ghosts(e):
    """r0, r1, A, B of the extended Euclid state; t[0] stands for -A, t[1] for B"""
    w = width(e.x)
    R0, R1 = val(at(e.r, 0)), val(at(e.r, 1))
    P_ = P2(w)
    t0 = val(at(e.t, 0))
    A_ = z3.If(t0 == 0, z3.IntVal(0), P_ - t0)
    B_ = val(at(e.t, 1))
    return R0, R1, A_, B_, val(e.modulo), val(e.x), P_


def inv_mi(e):
    R0, R1, A_, B_, M_, X, P_ = ghosts(e)
    w = width(e.x)
    out = [z3.Or(e.i == 0, e.i == 1), ln(e.r) == 2, ln(e.t) == 2]
    for k in (0, 1):
        out += [width(at(e.r, k)) == w, width(at(e.t, k)) == w]
    out += [width(e.q) == w, R0 >= 0, R1 >= 0, B_ >= 0, A_ >= 0, R0 <= M_, R1 <= M_,
            R0 * B_ + R1 * A_ == M_, (R0 + X * A_) % M_ == 0, (R1 - X * B_) % M_ == 0,
            z3.If(e.i == 0, R0 > R1, R1 > R0),
            GCD(R0, R1) == GCD(X, M_), A_ <= M_, B_ <= M_,
            z3.If(e.i == 0, A_ * (R0 + 1) <= M_, B_ * (R1 + 1) <= M_)]
    return out


def hint_mi(e, w):
    R0, R1, A_, B_, M_, X, P_ = ghosts(e)
    if w == "body":
        q0, q1 = R0 / R1, R1 / R0
        return [EU_NEG(X, A_, B_, R0, R1, M_), EU_POS(X, A_, B_, R0, R1, M_), EU_DET(R0, R1, A_, B_, M_),
                EU_DET(R1, R0, B_, A_, M_), EU_HALF(R0, R1, A_, B_, M_),
                EU_HALF(R1, R0, B_, A_, M_), W_SUB(val(at(e.t, 0)), A_, B_, q0, P_),
                W_SUB2(val(at(e.t, 0)), A_, B_, q1, P_), G_STEP2(R0, R1),
                G_COMM(R0, R1), G_COMM(R1 % R0, R0), G_STEP2(R1, R0)]
    return []


def init_mi(ex, e):
    X, M_ = val(e.x), val(e.modulo)
    ex.assume([G_COMM(X, M_), POW2_SUCC(width(e.x))])


def post_mi(e, ret):
    R0, R1, A_, B_, M_, X, P_ = ghosts(e)
    return [INV_NEG(X, A_, M_), INV_POS(X, B_, M_), G_ZERO(R0), G_ZERO(R1), G_COMM(R0, R1)]


modinv = Contract(
    "multiplicativeInverse", nparams=2,
    requires=lambda e: [width(e.x) == width(e.modulo), val(e.x) < val(e.modulo), width(e.x) <= MAXW],
    ensures=lambda e, ret: [
        width(ret) == width(e.x),
        z3.Implies(GCD(val(e.x), val(e.modulo)) == 1,
                   z3.And(val(ret) >= 0, val(ret) < val(e.modulo),
                          (val(e.x) * val(ret)) % val(e.modulo) == 1 % val(e.modulo))),
        z3.Implies(GCD(val(e.x), val(e.modulo)) != 1, val(ret) == 0)],
    entry=init_mi, post_hints=post_mi,
    loops={0: Loop(inv=inv_mi, dec=lambda e: z3.If(e.i == 0, val(at(e.r, 1)), val(at(e.r, 0))), hints=hint_mi)})


def prop():
    return vf.Prop("C01", tu="apint.cpp", contracts=[modmul, modexp, modinv])


import natspec as _check
NATIVE = _check.Native("c01.cpp", ["lib/Utils/APIntUtils.cpp"], seconds=(40, 300))
NOTE = "Proved for every operand width up to 2^24 bits (LLVM's limit) and all values: postconditions, assertions, shift/index safety and termination of the three functions. Trusted: the models of llvm::APInt operations in dv/lib.py, clang's AST, z3/cvc5, Lean."

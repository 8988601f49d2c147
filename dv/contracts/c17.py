"""C17: power-of-two and degree-splitting helpers, decided in 64/32-bit machine arithmetic (bit vectors)."""
import z3
from sorts import *
from engine import Contract, Loop
import vf
import natspec


def B(k, w=64):
    return z3.BitVecVal(k, w)


next_p2 = Contract(
    "nextPowerOfTwo", params=["v"], bv=True,
    requires=lambda e: [z3.ULE(e.v, B(2 ** 63))],
    ensures=lambda e, ret: [
        z3.Implies(e.old.v == 0, ret == 0),
        z3.Implies(e.old.v != 0, z3.And(
            z3.Or([ret == B(2 ** k) for k in range(64)]),      # a power of two
            z3.UGE(ret, e.old.v),                               # not below v
            z3.ULT(z3.LShR(ret, B(1)), e.old.v)))])             # and the least such

is_p2 = Contract(
    "isPowerOfTwo", params=["n"], bv=True,
    ensures=lambda e, ret: [ret == z3.Or([e.old.n == B(2 ** k) for k in range(63)])])

split = Contract(
    "splitDegree", params=["n"], bv=True, tu="chebps.cpp",
    requires=lambda e: [e.n > 0],
    ensures=lambda e, ret: [
        tup(ret, 0) + tup(ret, 1) == e.old.n, tup(ret, 0) >= 0, tup(ret, 1) >= 0,
        z3.Implies(e.old.n > 1, z3.And(tup(ret, 0) < e.old.n, tup(ret, 1) < e.old.n)),
        z3.Implies(e.old.n > 1, z3.And(tup(ret, 0) - tup(ret, 1) < e.old.n,
                                       tup(ret, 1) - tup(ret, 0) < e.old.n))],
    loops={0: Loop(unroll=64)})


def bit(x, i):
    return z3.LShR(x, i) & B(1, 32)


def mirrored(r, n, w):
    """bit i of r is bit w-1-i of n, for i < w, and r has no other bit"""
    return z3.And([z3.Implies(z3.ULT(B(i, 32), w), bit(r, B(i, 32)) == bit(n, w - B(1 + i, 32))) for i in range(32)] +
                  [z3.Or(z3.ULT(B(i, 32), w), bit(r, B(i, 32)) == 0) for i in range(32)])


_r2 = z3.BitVec("r2", 32)
rev = Contract(
    "reverseBits", params=["n", "bitWidth"], bv=True, tu="ntt.cpp",
    requires=lambda e: [z3.ULE(e.bitWidth, B(32, 32)),
                        z3.Or(e.bitWidth == B(32, 32), z3.ULT(e.n, B(1, 32) << e.bitWidth))],
    ensures=lambda e, ret: [
        mirrored(ret, e.old.n, e.old.bitWidth),
        # reversing the result gives n back
        z3.ForAll([_r2], z3.Implies(mirrored(_r2, ret, e.old.bitWidth), _r2 == e.old.n))],
    loops={0: Loop(unroll=33)})


def prop():
    return vf.Prop("C17", tu="mathutils.cpp", contracts=[next_p2, is_p2, split, rev])


NATIVE = natspec.Native("c17.cpp", ["lib/Utils/Polynomial/NTT.cpp", "lib/Utils/APIntUtils.cpp"], seconds=(20, 120))
NOTE = "Proved for all 64/32-bit inputs in exact machine arithmetic (bit vectors); loops are unrolled to their full width, with an obligation that no further iteration exists. Trusted: clang's AST, z3."

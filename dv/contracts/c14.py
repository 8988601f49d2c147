"""C14: ring dimension selection against the published 128-bit classical, uniform ternary secret table (ia.cr/2024/463)."""
import z3
from sorts import *
from engine import Contract, Loop
import vf, natspec

# (ring dimension, largest log2 of the total modulus)
TABLE = [(1024, 26), (2048, 53), (4096, 106), (8192, 214), (16384, 430), (32768, 868), (65536, 1747), (131072, 3523)]


def secure(n, lq):
    return z3.Or([z3.And(n == d, lq <= q) for d, q in TABLE])


ring = Contract(
    "computeRingDim", params=["logPQ", "minRingDim"],
    # a request the table can serve
    requires=lambda e: [e.logPQ <= TABLE[-1][1], e.minRingDim <= TABLE[-1][0]],
    ensures=lambda e, ret: [
        secure(ret, e.old.logPQ),                                    # in the table, modulus small enough
        z3.Or([ret == 2 ** k for k in range(32)]),                   # a power of two
        ret >= e.old.minRingDim,
        # no smaller entry serves
        z3.And([z3.Implies(z3.And(d >= e.old.minRingDim, e.old.logPQ <= q), ret <= d) for d, q in TABLE])],
    loops={0: Loop(unroll=len(TABLE))})


def prop():
    return vf.Prop("C14", tu="rlwesec.cpp", contracts=[ring],
                   trusted=["double is treated as real (the modulus size is only compared)"])


NATIVE = natspec.Native("c14.cpp", ["lib/Parameters/RLWESecurityParams.cpp"], seconds=(5, 30))
NOTE = ("Proved for every real modulus size up to 3523 bits and every minimum dimension up to 131072 (outside, no entry exists "
        "and the code asserts); the expected table is written out in the contract and compared with the one in the code.")

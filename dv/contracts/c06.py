"""C06: rotate-and-reduce, BSGS and Halevi-Shoup kernels compute their sums."""
from slots import *
import slots


def prop():
    return vf.Prop("C06", tu="kernels.cpp", contracts=CONTRACTS, axioms=slots.AXIOMS, overrides=OVERRIDES,
                   method_hooks={"index": h_index}, func_hooks=HOOKS, trusted=[])


NATIVE = natspec.Native("c06.cpp", [], seconds=(15, 90))
NOTE = ("Proved, for every slot (a cyclic vector is a periodic function on the integers, so indices mod n are covered): both forms of the "
        "rotate-and-reduce accumulation (step count a power of two, any period, + or *), both forms of the baby-step giant-step kernel (arbitrary "
        "extraction and rotation callbacks meeting their specification, marked diagonals skipped), implementRotateAndReduce, the ciphertext-ciphertext "
        "form, implementDot, implementMatvec, the broadcasted reduce (every slot gets the sum of its block, given the mask of each block's last period) and Halevi-Shoup, unrolled and rolled, square and squat, against the matrix-vector product. Loop nodes "
        "are verified by an invariant preserved by their body for an arbitrary iteration. Preconditions: steps <= 2^30, |period| <= 2^30, matrix sides "
        "<= 2^29. The meaning of each node (the factories' contracts) is what C10 proves of the factories' bodies and evaluators; nextPowerOfTwo is "
        "proved under C17. Trusted: std::sqrt/ceil/log2 exact on these sizes, slot values as real numbers (exact arithmetic), std::map/vector models, "
        "clang's AST, z3/cvc5, Lean. The native companion evaluates the DAGs with an independent evaluator.")

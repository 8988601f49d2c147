#include "common.h"
#include <set>
#include "lib/Kernel/AbstractValue.h"
#include "lib/Kernel/ArithmeticDag.h"
#include "lib/Kernel/KernelImplementation.h"
#include "lib/Utils/RotationUtils.h"
using namespace dv;
using namespace mlir::heir;
using namespace mlir::heir::kernel;
typedef SymbolicValue S;
typedef std::shared_ptr<ArithmeticDagNode<S>> NP;
// rotations of values that depend on a secret leaf
struct Walk {
  std::map<const void *, bool> sec;
  std::set<int64_t> shifts;
  bool cst(const NP &n, int64_t &v) {
    if (auto *c = std::get_if<ConstantScalarNode>(&n->node_variant)) { v = (int64_t)c->value; return true; }
    return false;
  }
  bool ev(const NP &n) {
    auto it = sec.find(n.get());
    if (it != sec.end()) return it->second;
    bool r = std::visit([&](auto &&v) -> bool {
      using V = std::decay_t<decltype(v)>;
      if constexpr (std::is_same_v<V, LeafNode<S>>) return v.value.isSecret();
      else if constexpr (std::is_same_v<V, AddNode<S>> || std::is_same_v<V, SubtractNode<S>> || std::is_same_v<V, MultiplyNode<S>>) {
        bool a = ev(v.left), b = ev(v.right);
        return a || b;
      } else if constexpr (std::is_same_v<V, LeftRotateNode<S>>) {
        bool a = ev(v.operand);
        int64_t k;
        if (!cst(v.shift, k)) die("rotation by a non-constant in an unrolled kernel");
        if (a && k) shifts.insert(k);
        return a;
      } else if constexpr (std::is_same_v<V, ExtractNode<S>>) return ev(v.operand);
      else return false;
    }, n->node_variant);
    sec[n.get()] = r;
    return r;
  }
};
static void cover(int64_t period, int64_t steps, bool plain, const std::map<int, bool> &z, const char *op) {
  S vec({64}, true), pts({steps, 64}, false);
  auto dag = implementRotateAndReduce<S>(vec, plain ? std::optional<S>(pts) : std::nullopt, period, steps, DagType::floatTensor(64, {64}), z, op);
  Walk w;
  w.ev(dag);
  auto ann = rotateAndReduceRotationIndices(period, steps, plain);
  for (int64_t k : w.shifts) check(ann.contains(k), str("the kernel rotates by ", k, ", which is announced"));
}
GROUP(rotate_and_reduce) {
  for (long k = 0; more() && k < 60000; ++k) {
    int64_t period = k % 5 == 0 ? 1 : rin(-3, 40), steps = k < 400 ? 1 + k / 2 : rin(1, 700);
    bool plain = k & 1;
    std::map<int, bool> z;
    if (plain && k % 3 == 0) for (int i = 0; i < steps; ++i) if (rnd(3) == 0) z[i] = true;
    begin(str("period ", period, " steps ", steps, " plaintexts ", plain, " zero diagonals ", z.size()), steps == 1);
    cover(period, steps, plain, z, (k & 2) || plain ? "arith.addi" : "arith.mulf");
  }
}
GROUP(linear_transform) {
  for (long k = 0; more() && k < 60000; ++k) {
    int64_t slots = k % 3 ? (int64_t)1 << rnd(14) : rin(1, 5000);
    int64_t log = rin(-1, 5);
    std::vector<int32_t> d(rnd(20));
    for (auto &v : d) v = k % 2 ? rin(-(int)std::min<int64_t>(slots, 100000), slots) : rin(-5 * slots, 5 * slots);
    begin(str("slots ", slots, " logBSGS ", log, " diagonals ", vec(d)), d.empty());
    int64_t n1 = log < 0 ? slots : findBestBSGSRatio(d, slots, log);
    check(n1 >= 1 && n1 <= slots, str("the split ", n1, " lies in [1, slots]"));
    auto res = lintransRotationIndices(d, slots, log);
    for (int64_t v : d) {
      int64_t r = ((v % slots) + slots) % slots, baby = r % n1, giant = r - baby;
      check(!baby || res.contains(baby), str("baby part ", baby, " of diagonal ", v, " is announced"));
      check(!giant || res.contains(giant), str("giant part ", giant, " of diagonal ", v, " is announced"));
    }
    for (int64_t x : res) check(x > 0 && x < slots, str("announced index ", x, " lies in (0, slots)"));
  }
}
GROUP(normalize) {
  for (long k = 0; more() && k < 200000; ++k) {
    int64_t slots = 1 + (k % 4 ? rin(0, 1 << 20) : (((int64_t)rnd(1u << 31)) << 30)), rot = k % 7 == 0 ? slots * rin(-3, 3) * (slots < 1 << 21) : rin(-(1 << 30), 1 << 30);
    if (k % 5 == 0) rot = (int64_t)(((uint64_t)rnd(1u << 31) << 33) ^ ((uint64_t)rnd(1u << 31) << 4));
    begin(str("rotation ", rot, " slots ", slots), rot == 0);
    __int128 r = (__int128)rot % slots;
    if (r < 0) r += slots;
    check(normalizeRotation(rot, slots) == (int64_t)r, "normalised to the representative in [0, slots)");
  }
}

#include "common.h"
#include "lib/Kernel/AbstractValue.h"
#include "lib/Kernel/ArithmeticDag.h"
#include "lib/Kernel/RotationCountVisitor.h"
#include <unordered_map>
#include <unordered_set>
using namespace dv;
using namespace mlir::heir;
using namespace mlir::heir::kernel;
typedef ArithmeticDagNode<SymbolicValue> N;
typedef std::shared_ptr<N> P;
typedef unsigned __int128 U;

// operands evaluated by a node, in order; the loop body and its trip count apart
struct Ops { std::vector<P> v; P body; __int128 trips = 1; std::vector<int> data; std::string kind; size_t shifts = 0; bool secretLeaf = false; };
static Ops ops(const P &n) {
  Ops o;
  std::visit([&](auto &&x) {
    using V = std::decay_t<decltype(x)>;
    if constexpr (std::is_same_v<V, LeafNode<SymbolicValue>>) o.secretLeaf = x.value.isSecret();
    else if constexpr (std::is_same_v<V, AddNode<SymbolicValue>> || std::is_same_v<V, SubtractNode<SymbolicValue>> ||
                       std::is_same_v<V, MultiplyNode<SymbolicValue>> || std::is_same_v<V, ComparisonNode<SymbolicValue>>) o.v = {x.left, x.right}, o.data = {0, 1};
    else if constexpr (std::is_same_v<V, FloorDivNode<SymbolicValue>>) o.v = {x.left}, o.data = {0};
    else if constexpr (std::is_same_v<V, PowerNode<SymbolicValue>>) o.v = {x.base}, o.data = {0};
    else if constexpr (std::is_same_v<V, LeftRotateNode<SymbolicValue>>) o.v = {x.operand}, o.data = {0}, o.shifts = 1;
    else if constexpr (std::is_same_v<V, LeftRotateBulkNode<SymbolicValue>>) o.v = {x.operand}, o.data = {0}, o.shifts = x.shifts.size();
    else if constexpr (std::is_same_v<V, ExtractNode<SymbolicValue>>) o.v = {x.operand, x.index}, o.data = {0};
    else if constexpr (std::is_same_v<V, InsertNode<SymbolicValue>>) o.v = {x.scalar, x.dest, x.index}, o.data = {0, 1};
    else if constexpr (std::is_same_v<V, IfElseNode<SymbolicValue>>) o.v = {x.condition, x.thenBody, x.elseBody}, o.data = {0, 1, 2};
    else if constexpr (std::is_same_v<V, YieldNode<SymbolicValue>>) { o.v = x.elements; for (size_t i = 0; i < o.v.size(); ++i) o.data.push_back(i); }
    else if constexpr (std::is_same_v<V, ResultAtNode<SymbolicValue>>) o.v = {x.operand}, o.data = {0};
    else if constexpr (std::is_same_v<V, ForLoopNode<SymbolicValue>>) {
      o.v = x.inits;
      for (size_t i = 0; i < o.v.size(); ++i) o.data.push_back(i);
      o.body = x.body;
      o.trips = 0;
      if (x.step > 1000 || (int64_t)x.upper - x.lower < 200000)
        for (int64_t i = x.lower; i < x.upper; i += x.step) ++o.trips;
      else { __int128 r = (__int128)x.upper - x.lower; o.trips = r / x.step + (r % x.step != 0); }
    }
  }, n->node_variant);
  return o;
}
static std::unordered_map<const N *, bool> secretMemo;
static bool secret(const P &n) {
  auto it = secretMemo.find(n.get());
  if (it != secretMemo.end()) return it->second;
  Ops o = ops(n);
  bool s = o.secretLeaf;
  for (int i : o.data) s = secret(o.v[i]) || s;
  if (o.body) s = secret(o.body) || s;
  return secretMemo[n.get()] = s;
}
static int64_t own(const P &n, const Ops &o) { return o.shifts && secret(o.v[0]) ? (int64_t)o.shifts : 0; }
// every node once, at its first occurrence; a body as often as the loop runs
static U count(const P &n, std::unordered_set<const N *> &seen) {
  if (!seen.insert(n.get()).second) return 0;
  Ops o = ops(n);
  U r = own(n, o);
  for (auto &c : o.v) r += count(c, seen);
  if (o.body) r += count(o.body, seen) * (U)o.trips;
  return r;
}
struct Gen {
  std::vector<P> pool;      // the nodes of one scope; inner scopes also see the outer ones
  bool loops;
  int depth = 0;
  P any() { return pool[rnd(3) ? rnd(pool.size()) : pool.size() - 1 - rnd(std::min<size_t>(pool.size(), 3))]; }
  P idx() { return rnd(3) ? N::constantScalar(rin(0, 5), DagType::index()) : any(); }
  void grow(int steps);
};
void Gen::grow(int steps) {
  for (int s = 0; s < steps; ++s) {
    P n;
    switch (rnd(loops && depth < 3 ? 21 : 18)) {
      case 0: n = N::leaf(SymbolicValue({4}, rnd(2))); break;
      case 1: n = N::constantScalar(rin(-3, 9), DagType::integer(32)); break;
      case 2: n = N::add(any(), any()); break;
      case 3: n = N::sub(any(), any()); break;
      case 4: n = N::mul(any(), any()); break;
      case 5: n = N::floorDiv(any(), rin(1, 4)); break;
      case 6: n = N::power(any(), rnd(4)); break;
      case 7: case 8: n = N::leftRotate(any(), rin(-3, 4)); break;
      case 9: n = N::leftRotate(any(), any()); break;
      case 10: { std::vector<P> sh(rnd(5)); for (auto &x : sh) x = idx(); n = N::leftRotateBulk(any(), sh); break; }
      case 11: n = N::extract(any(), idx()); break;
      case 12: n = N::insert(any(), any(), idx()); break;
      case 13: n = N::comparison(any(), any(), ComparisonPredicate::LT); break;
      case 14: n = N::ifElse(any(), any(), any()); break;
      case 15: { std::vector<P> e(rnd(4)); for (auto &x : e) x = any(); n = N::yield(e); break; }
      case 16: n = N::resultAt(any(), rnd(3)); break;
      case 17: n = rnd(2) ? N::splat(2, DagType::intTensor(32, {4})) : rnd(2) ? N::constantTensor({1, 2}, DagType::intTensor(32, {2})) : rnd(2) ? N::empty({4}, DagType::intTensor(32, {4})) : N::variable(DagType::index()); break;
      default: {
        std::vector<P> in(rnd(3));
        std::vector<DagType> ty(in.size(), DagType::index());
        for (auto &x : in) x = any();
        int32_t step = rnd(3) ? rin(1, 5) : rin(1, 1 << 20), lo = rin(-20, 20), hi = lo + rin(-6, 30);
        if (rnd(12) == 0) { lo = -2147483647 - 1 + rnd(3); hi = 2147483647 - rnd(3); step = rnd(2) ? 1 << 30 : 2147483647; }
        if (rnd(8) == 0) { n = N::loop(in, ty, lo, hi, step); break; }
        n = N::loop(in, ty, lo, hi, step, [&](P iv, const std::vector<P> &args) {
          size_t mark = pool.size();
          pool.push_back(iv);
          for (auto &a : args) pool.push_back(a);
          ++depth;
          grow(rnd(6));
          --depth;
          std::vector<P> e(std::max<size_t>(1, args.size()));
          for (auto &x : e) x = any();
          P y = N::yield(e);
          if (rnd(3)) pool.resize(mark);      // else body nodes are shared with the code after the loop
          return y;
        });
      }
    }
    pool.push_back(n);
  }
}
static void run(bool loops) {
  for (long k = 0; more() && k < 40000; ++k) {
    Gen g;
    g.loops = loops;
    g.pool = {N::leaf(SymbolicValue({4}, true)), N::leaf(SymbolicValue({4}, rnd(2)))};
    uint64_t s0 = rs;
    g.grow(rin(1, 25));
    P root = g.pool.back();
    secretMemo.clear();
    std::unordered_set<const N *> seen;
    U want = count(root, seen);
    begin(str(loops ? "DAG with loops" : "DAG", ", generator state ", s0), seen.size() < 3);
    if (want > (U)1 << 62) continue;
    RotationCountVisitor v;
    int64_t got = v.process(root);
    check(got == (int64_t)want, str("count ", got, ", the DAG performs ", (int64_t)want, " rotations"));
    check(v.process(root) == got, "a visitor used twice counts afresh");
    if (!loops) {
      int64_t sum = 0;
      std::vector<P> todo{root};
      std::unordered_set<const N *> r{root.get()};
      while (!todo.empty()) {
        P n = todo.back();
        todo.pop_back();
        Ops o = ops(n);
        sum += own(n, o);
        for (auto &c : o.v) if (r.insert(c.get()).second) todo.push_back(c);
      }
      check(got == sum, str("count ", got, ", sum over the distinct nodes ", sum));
    }
  }
}
GROUP(straight) { run(false); }
GROUP(loops) { run(true); }
GROUP(trip_counts) {
  static const int32_t B[] = {-2147483647 - 1, -2147483647, -1000, -7, -1, 0, 1, 2, 5, 6, 7, 100, 2147483646, 2147483647};
  static const int32_t S[] = {1, 2, 3, 7, 1000, 1 << 20, 2147483647};
  for (int32_t lo : B) for (int32_t hi : B) for (int32_t st : S) {
    if (!more()) return;
    begin(str("loop from ", lo, " to ", hi, " by ", st), hi <= lo);
    auto x = N::leaf(SymbolicValue({4}, true));
    auto l = N::loop(std::vector<P>{x}, std::vector<DagType>{DagType::index()}, lo, hi, st, [&](P, const std::vector<P> &a) {
      return N::yield({N::add(a[0], N::leftRotate(x, 3))});
    });
    __int128 t = hi <= lo ? 0 : ((__int128)hi - lo + st - 1) / st;
    RotationCountVisitor v;
    int64_t got = v.process(l);
    check(got == (int64_t)t, str("count ", got, ", iterations ", (int64_t)t));
  }
}

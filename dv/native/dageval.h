// An independent evaluator of arithmetic DAGs (no caching of loop bodies, long double scalars / slot vectors).
#pragma once
#include "lib/Kernel/AbstractValue.h"
#include "lib/Kernel/ArithmeticDag.h"
#include <unordered_map>
namespace dv {
using namespace mlir::heir;
using namespace mlir::heir::kernel;
template <class T> using NP = std::shared_ptr<ArithmeticDagNode<T>>;

// scalar DAGs: constants, leaves, add, sub, mul, power
template <class T> struct ScalarEval {
  std::function<long double(const T &)> leaf;
  std::unordered_map<const void *, long double> memo;
  long muls = 0;
  long double ev(const NP<T> &n) {
    if (!n) return 0;
    auto it = memo.find(n.get());
    if (it != memo.end()) return it->second;
    long double r = std::visit([&](auto &&v) -> long double {
      using V = std::decay_t<decltype(v)>;
      if constexpr (std::is_same_v<V, ConstantScalarNode> || std::is_same_v<V, SplatNode>) return v.value;
      else if constexpr (std::is_same_v<V, LeafNode<T>>) return leaf(v.value);
      else if constexpr (std::is_same_v<V, AddNode<T>>) return ev(v.left) + ev(v.right);
      else if constexpr (std::is_same_v<V, SubtractNode<T>>) return ev(v.left) - ev(v.right);
      else if constexpr (std::is_same_v<V, MultiplyNode<T>>) { ++muls; return ev(v.left) * ev(v.right); }
      else { die("unexpected node kind in a scalar DAG"); }
    }, n->node_variant);
    memo[n.get()] = r;
    return r;
  }
};

// slot-vector DAGs of any node kind; values are 64-bit ring elements (wrapping), so sums and products are exact mod 2^64
struct Val {
  enum K { S, V, M, T } k = S;
  int64_t s = 0;
  std::vector<int64_t> v;
  std::vector<std::vector<int64_t>> m;
  std::vector<Val> t;
};
inline Val sc(int64_t x) { Val r; r.s = x; return r; }
inline Val ve(std::vector<int64_t> x) { Val r; r.k = Val::V; r.v = std::move(x); return r; }
inline Val ma(std::vector<std::vector<int64_t>> x) { Val r; r.k = Val::M; r.m = std::move(x); return r; }
struct Tag : public AbstractValue {
  int id = 0;
  bool secret = true;
  std::vector<int64_t> shape;
  Tag(int i, std::vector<int64_t> s, bool sec = true) : id(i), secret(sec), shape(std::move(s)) {}
  std::vector<int64_t> getShape() const override { return shape; }
};
inline int64_t wadd(int64_t a, int64_t b) { return (int64_t)((uint64_t)a + (uint64_t)b); }
inline int64_t wsub(int64_t a, int64_t b) { return (int64_t)((uint64_t)a - (uint64_t)b); }
inline int64_t wmul(int64_t a, int64_t b) { return (int64_t)((uint64_t)a * (uint64_t)b); }
inline int64_t fdiv(int64_t a, int64_t b) { int64_t q = a / b; return (a % b && ((a < 0) != (b < 0))) ? q - 1 : q; }
struct SlotEval {
  typedef NP<Tag> N;
  std::map<int, Val> leaves;
  std::vector<std::unordered_map<const void *, Val>> memo{1};
  std::unordered_map<const void *, Val> bound;      // variables of the loops being run
  long rotations = 0;                                // ciphertext rotations by a nonzero amount
  std::vector<int64_t> shifts;
  template <class F> static Val zip(const Val &a, const Val &b, F f) {
    if (a.k == Val::S && b.k == Val::S) return sc(f(a.s, b.s));
    if (a.k == Val::V && b.k == Val::V) {
      check(a.v.size() == b.v.size(), "operands of one size");
      std::vector<int64_t> r(a.v.size());
      for (size_t i = 0; i < r.size(); ++i) r[i] = f(a.v[i], b.v[i]);
      return ve(r);
    }
    if (a.k == Val::S && b.k == Val::V) return zip(ve(std::vector<int64_t>(b.v.size(), a.s)), b, f);
    if (a.k == Val::V && b.k == Val::S) return zip(a, ve(std::vector<int64_t>(a.v.size(), b.s)), f);
    die("operation on values of different kinds");
  }
  static Val fill(const std::vector<int64_t> &sh, int64_t x) {
    if (sh.empty()) return sc(x);
    if (sh.size() == 1) return ve(std::vector<int64_t>(sh[0], x));
    return ma(std::vector<std::vector<int64_t>>(sh[0], std::vector<int64_t>(sh[1], x)));
  }
  static Val rot(const Val &a, int64_t k) {
    if (a.k != Val::V) die("rotation of something that is not a vector");
    int64_t n = a.v.size();
    std::vector<int64_t> r(n);
    for (int64_t i = 0; i < n; ++i) r[i] = a.v[(((i + k % n) % n) + n) % n];
    return ve(r);
  }
  const Val &ev(const N &n) {
    if (!n) die("an absent node is evaluated");
    for (size_t i = memo.size(); i-- > 0;) {
      auto it = memo[i].find(n.get());
      if (it != memo[i].end()) return it->second;
    }
    Val r = std::visit([&](auto &&v) -> Val {
      using X = std::decay_t<decltype(v)>;
      if constexpr (std::is_same_v<X, ConstantScalarNode>) return sc((int64_t)v.value);
      else if constexpr (std::is_same_v<X, SplatNode>) return fill(v.type.getShape(), (int64_t)v.value);
      else if constexpr (std::is_same_v<X, ConstantTensorNode>) { std::vector<int64_t> r; for (double d : v.value) r.push_back((int64_t)d); return ve(r); }
      else if constexpr (std::is_same_v<X, EmptyNode>) return fill(v.shape, 77);
      else if constexpr (std::is_same_v<X, LeafNode<Tag>>) return leaves.at(v.value.id);
      else if constexpr (std::is_same_v<X, VariableNode<Tag>>) { auto it = bound.find(n.get()); check(it != bound.end(), "a loop variable is used inside its loop"); return it->second; }
      else if constexpr (std::is_same_v<X, AddNode<Tag>>) { Val a = ev(v.left), b = ev(v.right); return zip(a, b, wadd); }
      else if constexpr (std::is_same_v<X, SubtractNode<Tag>>) { Val a = ev(v.left), b = ev(v.right); return zip(a, b, wsub); }
      else if constexpr (std::is_same_v<X, MultiplyNode<Tag>>) { Val a = ev(v.left), b = ev(v.right); return zip(a, b, wmul); }
      else if constexpr (std::is_same_v<X, FloorDivNode<Tag>>) { Val a = ev(v.left); return zip(a, sc(v.divisor), fdiv); }
      else if constexpr (std::is_same_v<X, PowerNode<Tag>>) { Val a = ev(v.base), r = zip(a, sc(0), [](int64_t, int64_t) { return (int64_t)1; }); for (size_t i = 0; i < v.exponent; ++i) r = zip(r, a, wmul); return r; }
      else if constexpr (std::is_same_v<X, LeftRotateNode<Tag>>) { Val a = ev(v.operand); int64_t k = ev(v.shift).s; shifts.push_back(k); return rot(a, k); }
      else if constexpr (std::is_same_v<X, LeftRotateBulkNode<Tag>>) { Val a = ev(v.operand), r; r.k = Val::T; for (auto &x : v.shifts) r.t.push_back(rot(a, ev(x).s)); return r; }
      else if constexpr (std::is_same_v<X, ExtractNode<Tag>>) {
        Val a = ev(v.operand); int64_t k = ev(v.index).s;
        if (a.k == Val::M) { check(k >= 0 && k < (int64_t)a.m.size(), str("extraction index ", k, " in range")); return ve(a.m.at(k)); }
        if (a.k == Val::V) { check(k >= 0 && k < (int64_t)a.v.size(), str("extraction index ", k, " in range")); return sc(a.v.at(k)); }
        die("extraction from a scalar");
      }
      else if constexpr (std::is_same_v<X, InsertNode<Tag>>) {
        Val a = ev(v.scalar), d = ev(v.dest); int64_t k = ev(v.index).s;
        if (d.k == Val::M) { check(k >= 0 && k < (int64_t)d.m.size(), "insertion index in range"); d.m.at(k) = a.v; }
        else { check(k >= 0 && k < (int64_t)d.v.size(), "insertion index in range"); d.v.at(k) = a.s; }
        return d;
      }
      else if constexpr (std::is_same_v<X, ComparisonNode<Tag>>) {
        int64_t a = ev(v.left).s, b = ev(v.right).s;
        switch (v.predicate) {
          case ComparisonPredicate::LT: return sc(a < b);
          case ComparisonPredicate::LE: return sc(a <= b);
          case ComparisonPredicate::GT: return sc(a > b);
          case ComparisonPredicate::GE: return sc(a >= b);
          case ComparisonPredicate::EQ: return sc(a == b);
          default: return sc(a != b);
        }
      }
      else if constexpr (std::is_same_v<X, IfElseNode<Tag>>) { bool c = ev(v.condition).s; return c ? ev(v.thenBody) : ev(v.elseBody); }
      else if constexpr (std::is_same_v<X, YieldNode<Tag>>) { Val r; r.k = Val::T; for (auto &x : v.elements) r.t.push_back(ev(x)); return r; }
      else if constexpr (std::is_same_v<X, ResultAtNode<Tag>>) { Val a = ev(v.operand); check(a.k == Val::T && v.index < a.t.size(), "result index in range"); return a.t.at(v.index); }
      else if constexpr (std::is_same_v<X, ForLoopNode<Tag>>) {
        Val cur; cur.k = Val::T;
        for (auto &x : v.inits) cur.t.push_back(ev(x));
        for (int64_t i = v.lower; i < v.upper; i += v.step) {
          memo.emplace_back();
          bound[v.inductionVar.get()] = sc(i);
          for (size_t j = 0; j < v.iterArgs.size(); ++j) bound[v.iterArgs[j].get()] = cur.t[j];
          Val nx = ev(v.body);
          memo.pop_back();
          check(nx.k == Val::T && nx.t.size() == cur.t.size(), "the loop body yields one value per loop-carried value");
          cur = nx;
        }
        bound.erase(v.inductionVar.get());
        for (auto &x : v.iterArgs) bound.erase(x.get());
        return cur;
      }
      else { die("unexpected node kind"); }
    }, n->node_variant);
    return memo.back()[n.get()] = std::move(r);
  }
};
}  // namespace dv

#include "common.h"
#include "lib/Kernel/AbstractValue.h"
#include "lib/Kernel/ArithmeticDag.h"
#include "lib/Kernel/EvalVisitor.h"
#include <unordered_map>
using namespace dv;
using namespace mlir::heir;
using namespace mlir::heir::kernel;
typedef LiteralValue T;
typedef ArithmeticDagNode<T> N;
typedef std::shared_ptr<N> P;
typedef std::vector<int64_t> Vals;

// ---- every factory stores the kind it names and its operands in their places
static P op() { return N::leaf(LiteralValue(rin(-5, 5))); }
static DagType ty(int64_t *mark) { *mark = rin(1, 1000); return DagType::floatTensor(32, {*mark}); }
static bool isTy(const DagType &t, int64_t mark) { return t.getShape() == std::vector<int64_t>{mark}; }
static bool isIdx(const P &n, double v) {
  auto *c = n ? std::get_if<ConstantScalarNode>(&n->node_variant) : nullptr;
  return c && c->value == v && std::holds_alternative<IndexType>(c->type.type_variant);
}
static std::vector<P> kept;         // the nodes under examination live until the next case
template <class X> static X *as(const P &n, const char *what) {
  kept.push_back(n);
  check(n != nullptr, std::string(what) + " yields a node");
  X *x = std::get_if<X>(&n->node_variant);
  check(x != nullptr, std::string(what) + " yields a node of its kind");
  return x;
}
GROUP(factories) {
  while (more()) {
    int64_t mk;
    P a = op(), b = op(), c = op();
    std::vector<P> l;
    for (int i = rin(0, 5); i > 0; --i) l.push_back(op());
    int v = rin(-99, 99);
    size_t z = rnd(50);
    auto pred = (ComparisonPredicate)rnd(6);
    int32_t lo = rin(-9, 9), hi = rin(-9, 20), st = rin(1, 4);
    int which = rnd(24);
    kept.clear();
    begin("factory " + str(which), false);
    switch (which) {
    case 0: { auto *x = as<LeafNode<T>>(N::leaf(LiteralValue(v)), "leaf"); check(std::get<int>(x->value.get()) == v, "leaf value"); break; }
    case 1: { auto t = ty(&mk); auto *x = as<ConstantScalarNode>(N::constantScalar(v / 8.0, t), "constantScalar"); check(x->value == v / 8.0 && isTy(x->type, mk), "constantScalar fields"); break; }
    case 2: { auto t = ty(&mk); std::vector<double> w; for (size_t i = 0; i < z; ++i) w.push_back(rin(-9, 9)); auto *x = as<ConstantTensorNode>(N::constantTensor(w, t), "constantTensor"); check(x->value == w && isTy(x->type, mk), "constantTensor fields"); break; }
    case 3: { auto t = ty(&mk); auto *x = as<SplatNode>(N::splat(v / 4.0, t), "splat"); check(x->value == v / 4.0 && isTy(x->type, mk), "splat fields"); break; }
    case 4: { auto t = ty(&mk); std::vector<int64_t> s; for (size_t i = 0; i < z % 4; ++i) s.push_back(rin(1, 9)); auto *x = as<EmptyNode>(N::empty(s, t), "empty"); check(x->shape == s && isTy(x->type, mk), "empty fields"); break; }
    case 5: { auto *x = as<AddNode<T>>(N::add(a, b), "add"); check(x->left == a && x->right == b, "add operands"); break; }
    case 6: { auto *x = as<SubtractNode<T>>(N::sub(a, b), "sub"); check(x->left == a && x->right == b, "sub operands"); break; }
    case 7: { auto *x = as<MultiplyNode<T>>(N::mul(a, b), "mul"); check(x->left == a && x->right == b, "mul operands"); break; }
    case 8: { auto *x = as<FloorDivNode<T>>(N::floorDiv(a, v), "floorDiv"); check(x->left == a && x->divisor == v, "floorDiv operands"); break; }
    case 9: { auto *x = as<PowerNode<T>>(N::power(a, z), "power"); check(x->base == a && x->exponent == z, "power operands"); break; }
    case 10: { auto *x = as<LeftRotateNode<T>>(N::leftRotate(a, (int64_t)v), "leftRotate"); check(x->operand == a && isIdx(x->shift, v), "leftRotate by a constant"); break; }
    case 11: { auto *x = as<LeftRotateNode<T>>(N::leftRotate(a, b), "leftRotate"); check(x->operand == a && x->shift == b, "leftRotate operands"); break; }
    case 12: { auto *x = as<LeftRotateBulkNode<T>>(N::leftRotateBulk(a, l), "leftRotateBulk"); check(x->operand == a && x->shifts == l, "leftRotateBulk operands"); break; }
    case 13: { auto *x = as<ExtractNode<T>>(N::extract(a, b), "extract"); check(x->operand == a && x->index == b, "extract operands"); break; }
    case 14: { auto *x = as<ExtractNode<T>>(N::extract(a, z), "extract"); check(x->operand == a && isIdx(x->index, z), "extract at a constant"); break; }
    case 15: { auto *x = as<InsertNode<T>>(N::insert(a, b, c), "insert"); check(x->scalar == a && x->dest == b && x->index == c, "insert operands"); break; }
    case 16: { auto *x = as<InsertNode<T>>(N::insert(a, b, z), "insert"); check(x->scalar == a && x->dest == b && isIdx(x->index, z), "insert at a constant"); break; }
    case 17: { auto *x = as<ComparisonNode<T>>(N::comparison(a, b, pred), "comparison"); check(x->left == a && x->right == b && x->predicate == pred, "comparison operands"); break; }
    case 18: { auto *x = as<ComparisonNode<T>>(N::comparison(a, (double)v, pred), "comparison"); check(x->left == a && isIdx(x->right, v) && x->predicate == pred, "comparison with a constant"); break; }
    case 19: {
      P n = rnd(2) ? N::ifElse(a, b, c) : N::ifElse(a, [&]() { return b; }, [&]() { return c; });
      auto *x = as<IfElseNode<T>>(n, "ifElse"); check(x->condition == a && x->thenBody == b && x->elseBody == c, "ifElse operands"); break; }
    case 20: { auto *x = as<YieldNode<T>>(N::yield(l), "yield"); check(x->elements == l, "yield operands"); break; }
    case 21: { auto *x = as<ResultAtNode<T>>(N::resultAt(a, z), "resultAt"); check(x->operand == a && x->index == z, "resultAt operands"); break; }
    case 22: {
      auto t = ty(&mk); P iv, ia, y;
      auto *x = as<ForLoopNode<T>>(rnd(5) ? N::loop(a, t, lo, hi, st, [&](P i, const P &q) { iv = i; ia = q; return y = N::yield({N::add(i, q)}); }) : N::loop(a, t, lo, hi, st), "loop");
      check(x->lower == lo && x->upper == hi && x->step == st && x->inits == std::vector<P>{a} && x->iterArgs.size() == 1 && x->body == y, "loop fields");
      check(!y || (x->inductionVar == iv && x->iterArgs[0] == ia), "loop variables are the ones the body was built from");
      check(isTy(as<VariableNode<T>>(x->iterArgs[0], "loop")->type, mk), "loop variable's type");
      check(std::holds_alternative<IndexType>(as<VariableNode<T>>(x->inductionVar, "loop")->type.type_variant), "induction variable's type");
      break; }
    default: {
      std::vector<int64_t> ms; std::vector<DagType> ts; std::vector<P> ias; P iv, y;
      for (size_t i = 0; i < l.size(); ++i) { ts.push_back(ty(&mk)); ms.push_back(mk); }
      auto *x = as<ForLoopNode<T>>(N::loop(l, ts, lo, hi, st, [&](P i, const std::vector<P> &q) { iv = i; ias = q; return y = N::yield(q); }), "loop");
      check(x->lower == lo && x->upper == hi && x->step == st && x->inits == l && x->body == y && x->inductionVar == iv && x->iterArgs == ias && ias.size() == l.size(), "loop fields");
      for (size_t i = 0; i < l.size(); ++i) check(isTy(as<VariableNode<T>>(ias[i], "loop")->type, ms[i]), "loop variable's type");
    } }
  }
}

// ---- programs: an expression tree of our own, built side by side with the DAG, evaluated without any cache
struct E { int op; std::vector<std::shared_ptr<E>> k; int64_t imm = 0, lo = 0, hi = 0, st = 1; int var = -1; std::vector<int> vars; };
typedef std::shared_ptr<E> X;
enum { LEAF, ADD, SUB, MUL, DIV, CMP, IF, VAR, LOOP, YIELD, RES, ROT, EXT, INS, POW, BULK };
static int64_t w(__int128 x) { return (int64_t)(uint64_t)(unsigned __int128)x; }
static int64_t wm(int64_t a, int64_t b) { return (int64_t)((uint64_t)a * (uint64_t)b); }
static bool narrow;                 // 32-bit arithmetic of the reference evaluator: stay small
static long steps_;
static bool cmp(int64_t p, int64_t a, int64_t b) {
  switch (p) { case 0: return a < b; case 1: return a <= b; case 2: return a > b; case 3: return a >= b; case 4: return a == b; } return a != b;
}
struct TooBig {};
static Vals ref(const X &x, std::map<int, int64_t> &env) {
  if (++steps_ > 200000) throw TooBig();
  auto s = [&](int i) { return ref(x->k[i], env)[0]; };
  int64_t r = 0;
  switch (x->op) {
  case LEAF: r = x->imm; break;
  case ADD: r = w((__int128)s(0) + s(1)); break;
  case SUB: r = w((__int128)s(0) - s(1)); break;
  case MUL: r = wm(s(0), s(1)); break;
  case DIV: r = s(0) / x->imm; break;
  case CMP: r = cmp(x->imm, s(0), s(1)); break;
  case IF: return s(0) ? ref(x->k[1], env) : ref(x->k[2], env);
  case VAR: r = env.at(x->var); break;
  case RES: return {ref(x->k[0], env)[x->imm]};
  case YIELD: { Vals v; for (auto &c : x->k) v.push_back(ref(c, env)[0]); return v; }
  case ROT: case EXT: r = w(3 * (__int128)s(0) + s(1)); break;      // any function of the operands
  case INS: r = w(3 * (__int128)s(0) + 5 * (__int128)s(1) + s(2)); break;
  case POW: r = w(s(0) * (__int128)x->imm); break;
  case BULK: { __int128 t = s(0); for (size_t i = 1; i < x->k.size(); ++i) t = w(t * 7 + s(i)); r = w(t); break; }
  case LOOP: {
    Vals v;
    for (size_t i = 0; i + 1 < x->k.size(); ++i) v.push_back(ref(x->k[i], env)[0]);
    for (int64_t i = x->lo; i < x->hi; i += x->st) {
      env[x->var] = i;
      for (size_t q = 0; q < v.size(); ++q) env[x->vars[q]] = v[q];
      v = ref(x->k.back(), env);
    }
    return v; }
  }
  if (narrow && (r > 1000000 || r < -1000000)) throw TooBig();
  return {r};
}

struct Visitor : CachingVisitor<T, Vals> {
  using CachingVisitor<T, Vals>::operator();
  std::unordered_map<const void *, int64_t> bound;
  int64_t s(const P &n) { return process(n)[0]; }
  Vals operator()(const LeafNode<T> &n) override { return {std::get<int>(n.value.get())}; }
  Vals operator()(const ConstantScalarNode &n) override { return {(int64_t)n.value}; }
  Vals operator()(const SplatNode &n) override { return {(int64_t)n.value}; }
  Vals operator()(const AddNode<T> &n) override { int64_t a = s(n.left); return {w((__int128)a + s(n.right))}; }
  Vals operator()(const SubtractNode<T> &n) override { int64_t a = s(n.left); return {w((__int128)a - s(n.right))}; }
  Vals operator()(const MultiplyNode<T> &n) override { int64_t a = s(n.left); return {wm(a, s(n.right))}; }
  Vals operator()(const FloorDivNode<T> &n) override { return {s(n.left) / n.divisor}; }
  Vals operator()(const PowerNode<T> &n) override { return {w(s(n.base) * (__int128)n.exponent)}; }
  Vals operator()(const LeftRotateNode<T> &n) override { int64_t a = s(n.operand); return {w(3 * (__int128)a + s(n.shift))}; }
  Vals operator()(const LeftRotateBulkNode<T> &n) override { __int128 t = s(n.operand); for (auto &q : n.shifts) t = w(t * 7 + s(q)); return {w(t)}; }
  Vals operator()(const ExtractNode<T> &n) override { int64_t a = s(n.operand); return {w(3 * (__int128)a + s(n.index))}; }
  Vals operator()(const InsertNode<T> &n) override { int64_t a = s(n.scalar), b = s(n.dest); return {w(3 * (__int128)a + 5 * (__int128)b + s(n.index))}; }
  Vals operator()(const ComparisonNode<T> &n) override { int64_t a = s(n.left); return {cmp((int)n.predicate, a, s(n.right))}; }
  Vals operator()(const IfElseNode<T> &n) override { return s(n.condition) ? process(n.thenBody) : process(n.elseBody); }
  Vals operator()(const VariableNode<T> &n) override { return {bound.at(&n)}; }
  Vals operator()(const YieldNode<T> &n) override { Vals v; for (auto &e : n.elements) v.push_back(s(e)); return v; }
  Vals operator()(const ResultAtNode<T> &n) override { return {process(n.operand)[n.index]}; }
  Vals operator()(const ForLoopNode<T> &n) override {
    Vals v;
    auto slot = [](const P &q) { return (const void *)std::get_if<VariableNode<T>>(&q->node_variant); };
    for (auto &i : n.inits) v.push_back(s(i));
    for (int64_t i = n.lower; i < n.upper; i += n.step) {
      clearSubtreeCache(n.body);
      bound[slot(n.inductionVar)] = i;
      for (size_t q = 0; q < v.size(); ++q) bound[slot(n.iterArgs[q])] = v[q];
      v = process(n.body);
    }
    return v;
  }
};

struct Pair { P n; X x; int free = 0; };     // free: depth of the innermost scope the value depends on (0: none)
static std::shared_ptr<E> ex(int op, std::vector<X> k = {}, int64_t imm = 0) { auto e = std::make_shared<E>(); e->op = op; e->k = std::move(k); e->imm = imm; return e; }
struct Gen {
  std::vector<std::vector<Pair>> scopes{1};
  int nvars = 0;
  bool vec;           // also kinds the reference evaluator has no scalar meaning for
  DagType I = DagType::integer(64);
  Pair any() {
    size_t s = rnd(2) ? scopes.size() - 1 : rnd(scopes.size());
    while (scopes[s].empty()) s = (s + 1) % scopes.size();
    auto &v = scopes[s];
    return v[rnd(2) ? rnd(v.size()) : v.size() - 1 - rnd(std::min<size_t>(v.size(), 3))];
  }
  void add(Pair p) { scopes[std::min<size_t>(p.free, scopes.size() - 1)].push_back(p); }
  static int mx(std::initializer_list<Pair> l) { int r = 0; for (auto &p : l) r = std::max(r, p.free); return r; }
  Pair leaf() {
    int v = rin(-4, 9);
    return {rnd(2) ? N::leaf(LiteralValue(v)) : N::constantScalar(v, I), ex(LEAF, {}, v)};
  }
  std::vector<P> nodes(const std::vector<Pair> &v) { std::vector<P> r; for (auto &p : v) r.push_back(p.n); return r; }
  void grow(int count, int depth) {
    while (count-- > 0) {
      Pair a = any(), b = any(), c = any();
      switch (rnd(vec ? 16 : 10)) {
      case 0: add(leaf()); break;
      case 1: add({N::add(a.n, b.n), ex(ADD, {a.x, b.x}), mx({a, b})}); break;
      case 2: add({N::sub(a.n, b.n), ex(SUB, {a.x, b.x}), mx({a, b})}); break;
      case 3: add({N::mul(a.n, b.n), ex(MUL, {a.x, b.x}), mx({a, b})}); break;
      case 4: { int d = rin(1, 4); add({N::floorDiv(a.n, d), ex(DIV, {a.x}, d), a.free}); break; }
      case 5: { int p = rnd(6); add({N::comparison(a.n, b.n, (ComparisonPredicate)p), ex(CMP, {a.x, b.x}, p), mx({a, b})}); break; }
      case 6: {
        // two branches of one shape
        int m = rin(1, 2);
        std::vector<Pair> t, e;
        int f = a.free;
        for (int i = 0; i < m; ++i) { t.push_back(any()); e.push_back(any()); f = std::max({f, t.back().free, e.back().free}); }
        auto xs = [](const std::vector<Pair> &v) { std::vector<X> r; for (auto &p : v) r.push_back(p.x); return r; };
        P n = N::ifElse(a.n, N::yield(nodes(t)), N::yield(nodes(e)));
        X x = ex(IF, {a.x, ex(YIELD, xs(t)), ex(YIELD, xs(e))});
        for (int i = 0; i < m; ++i) add({N::resultAt(n, i), ex(RES, {x}, i), f});
        break; }
      case 7: case 8: case 9: {
        if (depth >= 3) break;
        int m = rin(1, 3), d = scopes.size();
        std::vector<Pair> in;
        int f = 0;
        for (int i = 0; i < m; ++i) { in.push_back(any()); f = std::max(f, in.back().free); }
        int lo = rin(-2, 3), hi = lo + rin(-1, 4), st = rin(1, 3);
        X x = ex(LOOP);
        for (auto &p : in) x->k.push_back(p.x);
        x->lo = lo, x->hi = hi, x->st = st, x->var = nvars++;
        for (int i = 0; i < m; ++i) x->vars.push_back(nvars++);
        auto body = [&](P iv, const std::vector<P> &q) {
          scopes.emplace_back();
          auto v = [&](int id) { auto e = ex(VAR); e->var = id; return e; };
          scopes.back().push_back({iv, v(x->var), d});
          for (int i = 0; i < m; ++i) scopes.back().push_back({q[i], v(x->vars[i]), d});
          grow(rin(1, 6), depth + 1);
          std::vector<P> ns; X y = ex(YIELD);
          for (int i = 0; i < m; ++i) { Pair p = any(); ns.push_back(p.n); y->k.push_back(p.x); if (p.free < d) f = std::max(f, p.free); }
          for (auto &p : scopes.back()) (void)p;
          scopes.pop_back();
          x->k.push_back(y);
          return N::yield(ns);
        };
        f = d - 1;            // the body may use anything of the enclosing scopes
        P n;
        if (m == 1 && rnd(2)) n = N::loop(in[0].n, I, lo, hi, st, [&](P iv, const P &q) { return body(iv, {q}); });
        else n = N::loop(nodes(in), std::vector<DagType>(m, I), lo, hi, st, body);
        for (int i = 0; i < m; ++i) add({N::resultAt(n, i), ex(RES, {x}, i), f});
        break; }
      case 10: add({N::leftRotate(a.n, b.n), ex(ROT, {a.x, b.x}), mx({a, b})}); break;
      case 11: add({N::extract(a.n, b.n), ex(EXT, {a.x, b.x}), mx({a, b})}); break;
      case 12: add({N::insert(a.n, b.n, c.n), ex(INS, {a.x, b.x, c.x}), mx({a, b, c})}); break;
      case 13: { int e = rin(0, 5); add({N::power(a.n, e), ex(POW, {a.x}, e), a.free}); break; }
      case 14: add({N::leftRotateBulk(a.n, {b.n, c.n}), ex(BULK, {a.x, b.x, c.x}), mx({a, b, c})}); break;
      case 15: { int v = rin(-3, 3); add({N::splat(v, I), ex(LEAF, {}, v)}); break; }
      }
    }
  }
};
static void program(bool vec, std::function<void(const std::vector<Pair> &)> f) {
  Gen g;
  g.vec = vec;
  for (int i = 0; i < 3; ++i) g.add(g.leaf());
  g.grow(rin(3, thorough ? 16 : 11), 0);
  f(g.scopes[0]);
}
static bool values(const std::vector<Pair> &ps, std::vector<Vals> &out) {
  steps_ = 0;
  std::map<int, int64_t> env;
  try { for (auto &p : ps) out.push_back(ref(p.x, env)); } catch (TooBig &) { return false; }
  return true;
}
GROUP(traversal) {
  narrow = false;
  while (more())
    program(true, [&](const std::vector<Pair> &ps) {
      std::vector<Vals> want;
      if (!values(ps, want)) return;
      begin("program of " + str(ps.size()) + " outer nodes, " + str(steps_) + " steps", ps.size() < 5);
      Visitor one;
      std::vector<size_t> order;
      for (size_t i = 0; i < ps.size(); ++i) order.push_back(i);
      for (size_t i = ps.size(); i > 1; --i) std::swap(order[i - 1], order[rnd(i)]);
      for (size_t i : order) check(one.process(ps[i].n) == want[i], "a cached evaluation equals the uncached one");
      Visitor many;
      std::vector<P> roots;
      std::vector<size_t> which;                     // roots may repeat
      for (size_t i = 0; i < ps.size(); ++i) { which.push_back(i); if (!rnd(4)) which.push_back(rnd(ps.size())); }
      if (rnd(2)) which.push_back(which[0]);
      for (size_t i : which) roots.push_back(ps[i].n);
      auto got = many.process(llvm::ArrayRef<P>(roots));
      check(got.size() == which.size(), "one result per root");
      for (size_t i = 0; i < which.size(); ++i) check(got[i] == want[which[i]], "several roots at once give each root's value");
    });
}
GROUP(evaluator) {
  narrow = true;
  while (more())
    program(false, [&](const std::vector<Pair> &ps) {
      std::vector<Vals> want;
      if (!values(ps, want)) return;
      begin("evalKernel on " + str(ps.size()) + " outer nodes, " + str(steps_) + " steps", ps.size() < 5);
      std::vector<P> roots;
      for (size_t i = 0; i < ps.size(); ++i) {
        roots.push_back(ps[i].n);
        auto r = evalKernel(ps[i].n);
        check(r.size() == 1 && std::get<int>(r[0].get()) == want[i][0], "the reference evaluator gives the program's value");
      }
      auto rs = multiEvalKernel(roots);
      for (size_t i = 0; i < ps.size(); ++i) check(rs[i].size() == 1 && std::get<int>(rs[i][0].get()) == want[i][0], "evaluating several roots gives each root's value");
    });
}

// the reference evaluator on vectors and matrices, operation by operation
typedef std::vector<int> VI;
typedef std::vector<VI> MI;
static P leafOf(const VI &v) { return N::leaf(LiteralValue(v)); }
static VI vecOf(const P &n) { auto r = evalKernel(n); check(r.size() == 1 && std::holds_alternative<VI>(r[0].get()), "a vector"); return std::get<VI>(r[0].get()); }
GROUP(vectors) {
  while (more()) {
    int n = rin(1, 9), m = rin(1, 4), i = rnd(n), j = rnd(m), k = rin(-30, 30), d = rin(1, 4);
    auto rv = [&](int len) { VI v(len); for (auto &x : v) x = rin(-50, 50); return v; };
    VI a = rv(n), b = rv(n), w(n);
    MI mat(m);
    for (auto &r : mat) r = rv(n);
    int which = rnd(12);
    begin("vector operation " + str(which) + " size " + str(n) + " shift " + str(k) + " first " + str(a[0]), n < 2);
    auto ty = DagType::intTensor(32, {m, n});
    switch (which) {
    case 0: for (int q = 0; q < n; ++q) w[q] = a[q] + b[q]; check(vecOf(N::add(leafOf(a), leafOf(b))) == w, "sum"); break;
    case 1: for (int q = 0; q < n; ++q) w[q] = a[q] - b[q]; check(vecOf(N::sub(leafOf(a), leafOf(b))) == w, "difference"); break;
    case 2: for (int q = 0; q < n; ++q) w[q] = a[q] * b[q]; check(vecOf(N::mul(leafOf(a), leafOf(b))) == w, "product"); break;
    case 3: for (int q = 0; q < n; ++q) { a[q] = std::abs(a[q]); w[q] = a[q] / d; } check(vecOf(N::floorDiv(leafOf(a), d)) == w, "quotient"); break;
    case 4: for (int q = 0; q < n; ++q) w[q] = a[(((q + k) % n) + n) % n]; check(vecOf(N::leftRotate(leafOf(a), (int64_t)k)) == w, "rotation"); break;
    case 5: check(vecOf(N::extract(N::leaf(LiteralValue(mat)), (size_t)j)) == mat[j], "row"); break;
    case 6: check(std::get<int>(evalKernel(N::extract(leafOf(a), (size_t)i))[0].get()) == a[i], "element"); break;
    case 7: { auto r = evalKernel(N::insert(leafOf(b), N::leaf(LiteralValue(mat)), (size_t)j)); mat[j] = b; check(std::get<MI>(r[0].get()) == mat, "row replaced"); break; }
    case 8: { w = a; w[i] = k; check(vecOf(N::insert(N::leaf(LiteralValue(k)), leafOf(a), (size_t)i)) == w, "element replaced"); break; }
    case 9: { std::vector<double> c(b.begin(), b.end()); check(vecOf(N::constantTensor(c, DagType::intTensor(32, {n}))) == b, "constant"); break; }
    case 10: check(vecOf(N::splat(k, ty)) == VI(m * n, k), "splat"); break;
    default: check(std::get<MI>(evalKernel(N::empty({m, n}, ty))[0].get()) == MI(m, VI(n, 0)), "empty"); }
  }
}

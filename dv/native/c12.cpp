// graphs of up to ~9 vertices (and some larger), with self-loops, dead ends and parallel paths, against brute force
#include "common.h"
#include "mlir/include/mlir/Support/LLVM.h"
#include "lib/Utils/Graph/Graph.h"
using namespace dv;
using namespace mlir::heir::graph;
typedef std::set<std::pair<int, int>> Edges;
typedef std::set<int> Vs;

struct Ref {
  Vs v;
  Edges e;
  std::vector<int> ids;
  Graph<int> g;
  std::string desc;
};
static std::string show(const Edges &e) {
  std::ostringstream o;
  for (auto &p : e) o << " " << p.first << ">" << p.second;
  return o.str();
}
// a random history of additions, some of them with unknown vertices
static Ref build(int maxn, bool acyclic, bool loops) {
  Ref r;
  int n = (int)rin(0, maxn), dens = (int)rin(1, 6);
  std::vector<int> perm;
  for (int i = 0; i < n; ++i) perm.push_back((int)(rnd(4) ? i : i + 100 * (int)rin(-1, 1)));
  for (int i = n - 1; i > 0; --i) std::swap(perm[i], perm[rnd(i + 1)]);
  for (int x : perm) { r.g.addVertex(x); r.v.insert(x); }
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    if (acyclic ? i >= j : (!loops && i == j)) continue;
    if (rnd(7) >= (uint64_t)dens && !(rnd(3) == 0 && j == i + 1)) continue;
    bool w = rnd(2);
    bool ok = w ? r.g.addEdge(perm[i], perm[j], (int)rin(1, 9)) : r.g.addEdge(perm[i], perm[j]);
    r.e.insert({perm[i], perm[j]});
    if (!ok) { begin("vertices " + vec(r.v) + " edges" + show(r.e)); fail("addEdge between known vertices returned false"); }
    if (rnd(9) == 0) { r.g.hasEdge(perm[i], perm[rnd(n)]); r.g.getEdges(); r.g.edgesInto(perm[i]); }
  }
  if (rnd(2) && r.g.addEdge(n ? perm[0] : 0, 7777)) fail("addEdge to an unknown vertex returned true");
  if (rnd(2) && r.g.addEdge(7778, n ? perm[0] : 0, 3)) fail("addEdge from an unknown vertex returned true");
  r.desc = "vertices " + vec(r.v) + " edges" + show(r.e);
  r.ids = perm;
  return r;
}
static void queries(Graph<int> &g, const Vs &v, const Edges &e, const char *what) {
  std::string w = std::string(what) + ": ";
  check(g.getVertices() == v, w + "getVertices");
  check(g.empty() == v.empty(), w + "empty");
  Vs probe = v;
  probe.insert({7777, 7778, -5});
  Vs src, snk;
  for (int a : probe) {
    std::vector<int> o, i;
    for (int b : probe) {
      check(g.hasEdge(a, b) == (e.count({a, b}) > 0), w + str("hasEdge(", a, ",", b, ")"));
      if (e.count({a, b})) o.push_back(b);
      if (e.count({b, a})) i.push_back(b);
    }
    check(g.contains(a) == (v.count(a) > 0), w + "contains");
    check(g.edgesOutOf(a) == o, w + str("edgesOutOf(", a, ") is ", vec(g.edgesOutOf(a))));
    check(g.edgesInto(a) == i, w + str("edgesInto(", a, ") is ", vec(g.edgesInto(a))));
    check(g.getOutDegree(a) == o.size(), w + "getOutDegree");
    check(g.getInDegree(a) == i.size(), w + "getInDegree");
    if (v.count(a) && i.empty()) src.insert(a);
    if (v.count(a) && o.empty()) snk.insert(a);
  }
  check(g.getEdges() == e, w + "getEdges:" + show(g.getEdges()));
  check(g.getSources() == src, w + "getSources");
  check(g.getSinks() == snk, w + "getSinks");
}
static std::map<int, Vs> closure(const Vs &v, const Edges &e) {  // reachable by one or more edges
  std::map<int, Vs> r;
  for (auto &p : e) r[p.first].insert(p.second);
  for (int k : v) for (int i : v) if (r[i].count(k)) for (int j : Vs(r[k])) r[i].insert(j);
  return r;
}
static bool cyclic(const Vs &v, const Edges &e) {
  auto c = closure(v, e);
  for (int x : v) if (c[x].count(x)) return true;
  return false;
}
GROUP(edges) {
  while (more()) {
    Ref r = build(8, false, true);
    begin(r.desc, r.e.empty());
    queries(r.g, r.v, r.e, "after additions");
    // additions after a query
    if (r.ids.size() > 1) {
      int a = r.ids[rnd(r.ids.size())], b = r.ids[rnd(r.ids.size())];
      r.g.addEdge(a, b);
      r.e.insert({a, b});
      r.g.addVertex(a);
      queries(r.g, r.v, r.e, "after another addition");
    }
  }
}
static void topo(Ref &r) {
  bool cyc = cyclic(r.v, r.e);
  auto t = r.g.topologicalSort();
  check(failed(t) == cyc, cyc ? "topologicalSort succeeds on a cyclic graph" : "topologicalSort fails on an acyclic graph");
  auto l = r.g.sortGraphByLevels();
  check(failed(l) == cyc, "sortGraphByLevels fails or succeeds wrongly");
  if (cyc) return;
  std::map<int, size_t> pos;
  for (size_t i = 0; i < t->size(); ++i) { check(r.v.count((*t)[i]) && !pos.count((*t)[i]), "topologicalSort " + vec(*t)); pos[(*t)[i]] = i; }
  check(pos.size() == r.v.size(), "topologicalSort leaves out a vertex " + vec(*t));
  for (auto &p : r.e) check(pos[p.first] < pos[p.second], "topologicalSort " + vec(*t));
  std::map<int, size_t> lev;
  for (size_t i = 0; i < l->size(); ++i) for (int x : (*l)[i]) { check(r.v.count(x) && !lev.count(x), str("level of ", x)); lev[x] = i; }
  check(lev.size() == r.v.size(), "sortGraphByLevels leaves out a vertex");
  std::map<int, size_t> h;  // longest path to an output
  size_t mx = 0;
  for (size_t i = t->size(); i-- > 0;) {
    int x = (*t)[i];
    h[x] = 0;
    for (auto &p : r.e) if (p.first == x) h[x] = std::max(h[x], h[p.second] + 1);
    mx = std::max(mx, h[x]);
  }
  for (int x : r.v) check(lev[x] == mx - h[x], str("vertex ", x, " sits on level ", lev[x], " instead of ", mx - h[x]));
}
GROUP(acyclic) { while (more()) { Ref r = build((int)(rnd(10) ? 9 : 40), true, false); begin(r.desc, r.e.empty()); topo(r); } }
GROUP(cyclic) { while (more()) { Ref r = build(6, false, rnd(3) == 0); begin(r.desc, r.e.empty()); topo(r); } }

static Vs cls(const Ref &r, std::map<int, Vs> &c, int x) {
  Vs s{x};
  for (int y : r.v) if (c[x].count(y) && c[y].count(x)) s.insert(y);
  return s;
}
GROUP(components) {
  while (more()) {
    Ref r = build(9, rnd(8) == 0, rnd(3) == 0);
    if (rnd(2)) { Edges few; for (auto &p : r.e) if (rnd(3)) few.insert(p); (void)few; }
    begin(r.desc, r.e.empty());
    auto c = closure(r.v, r.e);
    auto s = r.g.getStronglyConnectedComponents();
    std::set<Vs> got(s.begin(), s.end()), want;
    for (int x : r.v) want.insert(cls(r, c, x));
    check(got == want && s.size() == want.size(), "components differ from the classes of mutual reachability");
    queries(r.g, r.v, r.e, "after getStronglyConnectedComponents");
  }
}
// the graph with b merged into a: no edge inside {a, b}, every other edge redirected
static void merge(Vs &v, Edges &e, int a, int b) {
  Edges n;
  for (auto p : e) {
    if (p.first == b) p.first = a;
    if (p.second == b) p.second = a;
    if (p.first == a && p.second == a) continue;
    n.insert(p);
  }
  e = n;
  if (a != b) v.erase(b);
}
GROUP(contract) {
  while (more()) {
    Ref r = build(7, rnd(4) == 0, rnd(2));
    std::string d = r.desc;
    for (int step = 0; step < 4 && !r.v.empty(); ++step) {
      int a, b;
      if (r.e.empty() || rnd(8) == 0) { auto i = r.v.begin(); std::advance(i, rnd(r.v.size())); a = *i; b = rnd(3) ? *r.v.rbegin() : 7777; }
      else { auto i = r.e.begin(); std::advance(i, rnd(r.e.size())); a = i->first; b = i->second; }
      d += str(" contract ", a, ">", b);
      begin(d, r.e.empty());
      std::vector<std::pair<int, int>> calls;
      std::function<void(int &, const int &)> f = [&](int &x, const int &y) { calls.push_back({x, y}); };
      bool withFn = rnd(2);
      bool had = r.e.count({a, b}) > 0;
      bool ok = withFn ? r.g.contractEdge(a, b, f) : r.g.contractEdge(a, b);
      check(ok == had, "contractEdge's result");
      bool loop = r.e.count({a, a}) > 0;
      if (had) merge(r.v, r.e, a, b);
      // a loop the remaining vertex had before may stay; none may appear
      if (had && loop && a != b && r.g.hasEdge(a, a)) r.e.insert({a, a});
      if (withFn && a != b) check(calls == (had && a != b ? std::vector<std::pair<int, int>>{{a, b}} : std::vector<std::pair<int, int>>{}), "merge function calls");
      queries(r.g, r.v, r.e, "after contractEdge");
    }
  }
}
GROUP(condense) {
  while (more()) {
    Ref r = build(8, rnd(8) == 0, rnd(2));
    begin(r.desc, r.e.empty());
    auto c = closure(r.v, r.e);
    std::map<int, int> into;  // where each merged vertex went
    std::function<void(int &, const int &)> f = [&](int &x, const int &y) { check(!into.count(y) && x != y, "vertex merged twice"); into[y] = x; };
    r.g.condenseGraph(f);
    auto rep = [&](int x) { for (int k = 0; into.count(x) && k < 100; ++k) x = into[x]; return x; };
    Vs v;
    Edges e;
    for (int x : r.v) {
      v.insert(rep(x));
      check(cls(r, c, x).count(rep(x)) > 0, str("vertex ", x, " merged outside its component"));
      check(rep(x) == rep(*cls(r, c, x).begin()), str("component of ", x, " is not a single vertex"));
    }
    for (auto &p : r.e) if (rep(p.first) != rep(p.second)) e.insert({rep(p.first), rep(p.second)});
    queries(r.g, v, e, "after condenseGraph");
    check(succeeded(r.g.topologicalSort()), "condensed graph is not acyclic");
  }
}
GROUP(shortest) {
  while (more()) {
    Ref r = build(8, rnd(4) == 0, rnd(3) == 0);
    if (r.v.empty()) continue;
    auto pick = [&] { return rnd(12) ? r.ids[rnd(r.ids.size())] : 7777; };
    int a = pick(), b = pick();
    bool weighted = rnd(2), huge = weighted && rnd(4) == 0;
    std::map<std::pair<int, int>, uint64_t> w;
    std::string d = r.desc + str(" from ", a, " to ", b);
    for (auto &p : r.e) { w[p] = huge && rnd(2) ? ~0ull / (1 + rnd(3)) - rnd(4) : weighted ? rnd(5) + (rnd(4) ? 0 : 20) : 1; if (weighted) d += str(" w(", p.first, ",", p.second, ")=", w[p]); }
    begin(d, r.e.empty());
    const uint64_t INF = ~0ull;
    std::map<int, uint64_t> dist;
    for (int x : r.v) dist[x] = x == a ? 0 : INF;
    for (size_t k = 0; k <= r.v.size(); ++k) for (auto &p : r.e) if (dist[p.first] != INF && w[p] < INF - dist[p.first]) dist[p.second] = std::min(dist[p.second], dist[p.first] + w[p]);
    std::function<uint64_t(int, int)> f = [&](int x, int y) { auto i = w.find({x, y}); check(i != w.end(), "weight asked of a pair that is no edge"); return i->second; };
    auto p = weighted ? r.g.getShortestPath(a, b, f) : r.g.getShortestPath(a, b);
    bool reach = r.v.count(a) && r.v.count(b) && dist[b] != INF;
    check(succeeded(p) == reach, reach ? "fails although the vertex is reachable" : "returns a path although there is none");
    if (!reach) { queries(r.g, r.v, r.e, "after getShortestPath"); continue; }
    check(!p->empty() && p->front() == a && p->back() == b, "path " + vec(*p));
    uint64_t len = 0;
    for (size_t i = 0; i + 1 < p->size(); ++i) { check(r.e.count({(*p)[i], (*p)[i + 1]}) > 0, "path uses a missing edge: " + vec(*p)); len += w[{(*p)[i], (*p)[i + 1]}]; }
    check(len == dist[b], str("path ", vec(*p), " has length ", len, " instead of ", dist[b]));
  }
}
GROUP(colouring) {
  GreedyGraphColoring<int> reused;
  while (more()) {
    UndirectedGraph<int> g;
    Vs v;
    Edges e;
    int n = (int)rin(0, rnd(6) ? 9 : 30), dens = (int)rin(1, 6);
    for (int i = 0; i < n; ++i) { int x = (int)rin(-20, 60); g.addVertex(x); v.insert(x); }
    std::vector<int> ids(v.begin(), v.end());
    for (int a : ids) for (int b : ids) if (a < b && rnd(7) < (uint64_t)dens) {
      bool sw = rnd(2);
      check(g.addEdge(sw ? b : a, sw ? a : b), "addEdge between known vertices returned false");
      e.insert({a, b});
      e.insert({b, a});
    }
    check(!g.addEdge(7777, n ? ids[0] : 0) && !g.addEdge(n ? ids[0] : 0, 7777), "addEdge of an unknown vertex returned true");
    begin("undirected: vertices " + vec(v) + " edges" + show(e), e.empty());
    for (int k = 0; k < 2; ++k) {
      check(g.getVertices() == v && g.empty() == v.empty(), "undirected getVertices");
      for (int a : v) {
        std::vector<int> o;
        for (int b : v) { check(g.hasEdge(a, b) == (e.count({a, b}) > 0), "undirected hasEdge"); if (e.count({a, b})) o.push_back(b); }
        check(g.edgesIncidentTo(a) == o, "edgesIncidentTo");
        check(g.contains(a), "undirected contains");
      }
      check(!g.hasEdge(7777, 1) && !g.contains(7777) && g.edgesIncidentTo(7777).empty(), "undirected unknown vertex");
      GreedyGraphColoring<int> fresh;
      auto c = (k ? reused : fresh).color(g);
      for (int a : v) check(c.count(a) && c[a] >= 0, str("vertex ", a, " is not coloured"));
      check(c.size() == v.size(), "colours of unknown vertices");
      for (auto &p : e) check(c[p.first] != c[p.second], str("adjacent vertices ", p.first, " and ", p.second, " have colour ", c[p.first]));
    }
  }
}

#include "common.h"
#include <random>
#include "lib/Dialect/TensorExt/Transforms/ShiftScheme.h"
using namespace mlir;
using namespace mlir::heir::tensor_ext;
using namespace dv;
typedef std::vector<int64_t> V;
static void one(int64_t m, int64_t cts, const V &order, const std::vector<std::pair<int64_t, int64_t>> &mp) {
  int64_t N = m * cts;
  std::string d = str("slots ", m, " ciphertexts ", cts, " order ", vec(order), " mapping");
  for (size_t i = 0; i < mp.size() && i < 12; ++i) d += str(" ", mp[i].first, "->", mp[i].second);
  begin(d, mp.size() < 2 || N < 4);
  Mapping map(m, cts);
  auto ctslot = [&](int64_t v) { return CtSlot{v / m, v % m}; };
  std::map<int64_t, int64_t> want;  // target -> source, the closest source wins, the earlier one on a tie
  auto dist = [&](int64_t x, int64_t y) { return std::abs(x / m - y / m) * m + std::abs(x % m - y % m); };
  for (auto [s, t] : mp) {
    map.add(ctslot(s), ctslot(t));
    auto it = want.find(t);
    if (it == want.end()) want[t] = s;
    else if (dist(t, s) < dist(t, it->second)) it->second = s;
  }
  auto got = map.getTargetToSource();
  check(got.size() == want.size() && map.size() == want.size(), str("Mapping holds ", got.size(), " entries"));
  for (auto [t, s] : want) {
    auto it = got.find(ctslot(t));
    check(it != got.end() && it->second == ctslot(s), str("Mapping::add keeps the wrong source for target ", t));
  }
  ShiftStrategy st(m, cts, order);
  V ord = order;
  if (ord.empty()) for (int64_t p = 1; p < N; p *= 2) ord.push_back(p);
  st.evaluate(map);
  auto rounds = st.getRounds();
  check(rounds.size() == ord.size() + 1, str(rounds.size(), " rounds"));
  std::set<std::pair<int64_t, int64_t>> keys;
  for (auto [t, s] : want) {
    int64_t sh = st.getVirtualShift(ctslot(s), ctslot(t));
    check(0 <= sh && sh < N && (((__int128)s - sh - t) % N) == 0, str("virtual shift ", sh, " of ", s, "->", t));
    keys.insert({s, sh});
    int64_t pos = s;
    for (size_t r = 0; r <= ord.size(); ++r) {
      if (r) {
        check(rounds[r].rotationAmount == ord[r - 1], str("round ", r, " rotates by ", rounds[r].rotationAmount));
        if (ord[r - 1] & sh) pos = (int64_t)((((__int128)pos - ord[r - 1]) % N + N) % N);
      }
      auto it = rounds[r].positions.find(SourceShift{ctslot(s), sh});
      check(it != rounds[r].positions.end(), str("round ", r, " lost ", s, " shift ", sh));
      check(it->second == ctslot(pos), str("round ", r, " has ", s, " shift ", sh, " at ct ", it->second.ct, " slot ", it->second.slot));
    }
    check(pos == t, "does not reach its target");
  }
  for (auto &r : rounds) check(r.positions.size() == keys.size(), "tracks the wrong number of sources");
}
static std::vector<std::pair<int64_t, int64_t>> mapping(int64_t N, size_t k) {
  std::vector<std::pair<int64_t, int64_t>> r;
  for (size_t i = 0; i < k; ++i) r.push_back({(int64_t)rnd(N), (int64_t)rnd(rnd(3) ? N : std::min<int64_t>(N, 4))});
  return r;
}
static V permuted(int64_t N) {
  V o; for (int64_t p = 1; p < N; p *= 2) o.push_back(p);
  for (size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[rnd(i)]);
  return o;
}
GROUP(order) {
  auto t = [&](int64_t n) {
    begin(str("defaultShiftOrder(", n, ")"), n < 3);
    auto o = defaultShiftOrder(n);
    V want; for (__int128 p = 1; p < n; p *= 2) want.push_back((int64_t)p);
    check(V(o.begin(), o.end()) == want, str("gives ", vec(o)));
  };
  for (int64_t n = 1; n < 5000; ++n) t(n);
  for (int b = 2; b < 63; ++b) for (int d = -2; d <= 2; ++d) t((1ll << b) + d);
  while (more()) t(1 + (int64_t)(rnd() >> (1 + rnd(62))) );
}
GROUP(exhaustive) {
  for (int64_t m : {1, 2, 4, 8}) for (int64_t c : {1, 2, 3, 4, 5})
    for (int64_t s = 0; s < m * c; ++s) for (int64_t t = 0; t < m * c; ++t) one(m, c, {}, {{s, t}});
}
GROUP(random) {
  one(1, 1, {}, {}); one(4, 1, {}, {});
  while (more()) {
    int64_t m = 1ll << rnd(7), c = 1 + rnd(rnd(2) ? 4 : 9);
    one(m, c, rnd(2) ? V{} : permuted(m * c), mapping(m * c, rnd(20)));
  }
}
GROUP(large) {
  while (more()) {
    int lm = rnd(50); int64_t m = 1ll << lm, c = 1 + rnd(1ll << std::min(12, 60 - lm));
    one(m, c, rnd(2) ? V{} : permuted(m * c), mapping(m * c, rnd(8)));
  }
}

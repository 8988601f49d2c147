#include "common.h"
#include <cmath>
#include "lib/Parameters/RLWESecurityParams.h"
using namespace mlir::heir;
using namespace dv;
static const int T[8][2] = {{1024, 26}, {2048, 53}, {4096, 106}, {8192, 214}, {16384, 430}, {32768, 868}, {65536, 1747}, {131072, 3523}};
static void one(double q, int m) {
  begin(str("computeRingDim(", q, ",", m, ")"), m <= 0);
  int want = 0;
  for (auto &t : T) if (t[0] >= m && t[1] >= q) { want = t[0]; break; }
  int r = computeRingDim(q, m);
  check(r == want, str("returned ", r, ", the smallest secure table entry is ", want));
}
GROUP(boundaries) {
  for (int m : {-1, 0, 1, 2, 512, 1023, 1024, 1025, 2048, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 65537, 131071, 131072})
    for (auto &t : T) for (double d : {-1.0, -0.5, -1e-9, 0.0}) { one(t[1] + d, m); if (t[1] < 3523) { one(t[1] - d, m); one(std::nextafter(t[1], 1e9), m); } }
}
GROUP(random) { for (long k = 0; more() && k < 300000; ++k) one(rnd(3523000001ull) / 1e6, (int)rnd(131073)); }

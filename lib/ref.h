// Reference implementations used as oracles (independent of SMASH).
#ifndef VERIF_REF_H_
#define VERIF_REF_H_
#include <cmath>
#include <cstdlib>
#include <functional>
#include <vector>

namespace ref {
using L = long double;
inline L fact(int n) {
  L r = 1;
  for (int i = 2; i <= n; i++) r *= i;
  return r;
}
// Clebsch-Gordan coefficient <j1 m1 j2 m2 | J M>, all arguments doubled
// (Racah's closed formula)
inline L clebsch(int j1, int j2, int J, int m1, int m2, int M) {
  if (m1 + m2 != M) return 0;
  if (std::abs(m1) > j1 || std::abs(m2) > j2 || std::abs(M) > J) return 0;
  if ((j1 + m1) % 2 || (j2 + m2) % 2 || (J + M) % 2) return 0;
  if (J < std::abs(j1 - j2) || J > j1 + j2 || (j1 + j2 + J) % 2) return 0;
  auto h = [](int x) { return x / 2; };
  const L pre = sqrtl((J + 1) * fact(h(J + j1 - j2)) * fact(h(J - j1 + j2)) *
                      fact(h(j1 + j2 - J)) / fact(h(j1 + j2 + J) + 1)) *
                sqrtl(fact(h(J + M)) * fact(h(J - M)) * fact(h(j1 - m1)) *
                      fact(h(j1 + m1)) * fact(h(j2 - m2)) * fact(h(j2 + m2)));
  L sum = 0;
  for (int k = 0; k <= h(j1 + j2 - J); k++) {
    const int a = h(j1 + j2 - J) - k, b = h(j1 - m1) - k, c = h(j2 + m2) - k,
              d = h(J - j2 + m1) + k, e = h(J - j1 - m2) + k;
    if (a < 0 || b < 0 || c < 0 || d < 0 || e < 0) continue;
    sum += (k % 2 ? -1 : 1) / (fact(k) * fact(a) * fact(b) * fact(c) * fact(d) *
                               fact(e));
  }
  return pre * sum;
}
// composite Gauss-Legendre quadrature (8 points per panel)
inline L integrate(const std::function<L(L)> &f, L a, L b, int panels = 64) {
  static const L x[4] = {0.1834346424956498049394761L,
                         0.5255324099163289858177390L,
                         0.7966664774136267395915539L,
                         0.9602898564975362316835609L};
  static const L w[4] = {0.3626837833783619829651504L,
                         0.3137066458778872873379622L,
                         0.2223810344533744705443560L,
                         0.1012285362903762591525314L};
  L s = 0;
  const L hw = (b - a) / panels / 2;
  for (int p = 0; p < panels; p++) {
    const L m = a + (2 * p + 1) * hw;
    for (int i = 0; i < 4; i++) s += w[i] * (f(m + hw * x[i]) + f(m - hw * x[i]));
  }
  return s * hw;
}
}  // namespace ref
#endif

// Statistical oracles with rigorous error bounds (false alarms below 1e-8).
#ifndef VERIF_STAT_H_
#define VERIF_STAT_H_
#include <algorithm>
#include <cmath>
#include <functional>
#include <vector>

namespace stat_ {
// Dvoretzky-Kiefer-Wolfowitz: P(D > 3.4 / sqrt(n)) < 2 exp(-2 * 3.4^2) = 2e-10
inline double ks_limit(size_t n, double d = 3.4) {
  return d / std::sqrt(static_cast<double>(n));
}
// largest distance between the empirical distribution of the samples and cdf
inline double ks(std::vector<double> v,
                 const std::function<double(double)> &cdf) {
  std::sort(v.begin(), v.end());
  double d = 0;
  const double n = static_cast<double>(v.size());
  size_t i = 0;
  while (i < v.size()) {
    size_t j = i;
    while (j < v.size() && v[j] == v[i]) j++;
    const double f = cdf(v[i]);
    // cdf is continuous: ties in the samples are steps
    d = std::max(d, std::max(std::abs(f - static_cast<double>(i) / n),
                             std::abs(f - static_cast<double>(j) / n)));
    i = j;
  }
  return d;
}
// Chernoff: P(observed count as far from n p as this) < 2 exp(-n D)
inline double count_surprise(double observed, double n, double p) {
  const double f = observed / n;
  if (p <= 0) return observed > 0 ? 1e300 : 0;
  if (p >= 1) return observed < n ? 1e300 : 0;
  double s = 0;
  if (f > 0) s += f * std::log(f / p);
  if (f < 1) s += (1 - f) * std::log((1 - f) / (1 - p));
  return n * s;
}
constexpr double kSurprise = 22.;  // exp(-22) = 3e-10
// cumulative distribution of an unnormalised density on [a, b], tabulated
class Cdf {
 public:
  Cdf(const std::function<double(double)> &f, double a, double b,
      size_t n = 4000)
      : a_(a), h_((b - a) / static_cast<double>(n)), F_(n + 1, 0.) {
    static const double x[2] = {0.339981043584856, 0.861136311594053};
    static const double w[2] = {0.652145154862546, 0.347854845137454};
    for (size_t i = 0; i < n; i++) {
      double s = 0;
      const double m = a_ + (static_cast<double>(i) + 0.5) * h_;
      for (int k = 0; k < 2; k++)
        s += w[k] * (f(m + h_ / 2 * x[k]) + f(m - h_ / 2 * x[k]));
      F_[i + 1] = F_[i] + s * h_ / 2;
    }
    norm_ = F_[n];
    for (double &v : F_) v /= norm_;
  }
  double operator()(double x) const {
    const double u = (x - a_) / h_;
    if (u <= 0) return 0;
    const size_t i = static_cast<size_t>(u);
    if (i + 1 >= F_.size()) return 1;
    return F_[i] + (u - static_cast<double>(i)) * (F_[i + 1] - F_[i]);
  }
  double norm() const { return norm_; }

 private:
  double a_, h_, norm_;
  std::vector<double> F_;
};
}  // namespace stat_
#endif

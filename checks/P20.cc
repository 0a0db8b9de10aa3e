// P20: interpolation, tabulation, integration, root finding, smoothing,
// averages and clocks.
#include <unistd.h>

#include <fstream>
#include <map>
#include <memory>

#include "ref.h"
#include "smash/average.h"
#include "smash/clock.h"
#include "smash/integrate.h"
#include "smash/interpolation.h"
#include "smash/lowess.h"
#include "smash/rootsolver.h"
#include "smash/tabulation.h"
#include "smashkit.h"

using namespace smash;

namespace {
using L = long double;
// distinct abscissae, shuffled, with ordinates
void points(pbt::Case &c, size_t n, std::vector<double> *x,
            std::vector<double> *y) {
  double at = c.uniform(-10., 10.);
  for (size_t i = 0; i < n; i++) {
    x->push_back(at);
    y->push_back(c.below(5) == 0 ? 0. : c.uniform(-10., 10.));
    at += c.logreal(1e-2, 5.);
  }
  for (size_t i = n; i > 1; i--) {
    const size_t j = c.below(i);
    std::swap((*x)[i - 1], (*x)[j]);
    std::swap((*y)[i - 1], (*y)[j]);
  }
}
double abscissa(pbt::Case &c, const std::map<double, double> &m) {
  const double a = m.begin()->first, b = m.rbegin()->first;
  switch (c.below(5)) {
    case 0:
      return std::next(m.begin(), static_cast<long>(c.below(m.size())))->first;
    case 1:
      return a - c.logreal(1e-3, 10.);
    case 2:
      return b + c.logreal(1e-3, 10.);
    default:
      return c.uniform(a, b);
  }
}
}  // namespace

PBT_PROP(linear, 600, 3000) {
  std::vector<double> x, y;
  points(c, c.count(2, 15), &x, &y);
  if (c.below(8) == 0) {
    const size_t i = c.below(x.size());
    const size_t j = (i + 1 + c.below(x.size() - 1)) % x.size();
    x[j] = x[i];
    bool threw = false;
    try {
      InterpolateDataLinear<double> f(x, y);
    } catch (std::runtime_error &) {
      threw = true;
    }
    PBT_CHECK(c, threw, "two values at the same point were accepted");
    c.label("duplicate");
    return;
  }
  std::map<double, double> m;
  for (size_t i = 0; i < x.size(); i++) m[x[i]] = y[i];
  InterpolateDataLinear<double> f(x, y);
  for (int k = 0; k < 10; k++) {
    const double a = abscissa(c, m);
    auto hi = m.lower_bound(a);
    if (hi == m.begin()) ++hi;
    if (hi == m.end()) --hi;
    auto lo = std::prev(hi);
    const L t = (static_cast<L>(a) - lo->first) /
                (static_cast<L>(hi->first) - lo->first);
    const double r = static_cast<double>((1 - t) * lo->second + t * hi->second);
    PBT_CLOSE(c, f(a), r, 1e-9, 1e-10 * static_cast<double>(1 + fabsl(t)) * 1e3,
              "linear interpolation at " << a);
  }
  const double x0 = c.uniform(-5., 5.), x1 = x0 + c.logreal(1e-2, 5.);
  const double y0 = c.uniform(-5., 5.), y1 = c.uniform(-5., 5.);
  InterpolateLinear<double> g(x0, y0, x1, y1);
  PBT_CLOSE(c, g(x0), y0, 1e-9, 1e-9, "line through the first point");
  PBT_CLOSE(c, g(x1), y1, 1e-9, 1e-9, "line through the second point");
  PBT_CLOSE(c, g((x0 + x1) / 2), (y0 + y1) / 2, 1e-9, 1e-9, "middle");
  // trilinear: f1..f8 with x fastest
  double v[8];
  for (double &e : v) e = c.uniform(-5., 5.);
  const double ax = c.unit(), ay = c.unit(), az = c.unit();
  double r = 0;
  for (int i = 0; i < 8; i++)
    r += v[i] * (i & 1 ? ax : 1 - ax) * (i & 2 ? ay : 1 - ay) *
         (i & 4 ? az : 1 - az);
  PBT_CLOSE(c,
            interpolate_trilinear(ax, ay, az, v[0], v[1], v[2], v[3], v[4],
                                  v[5], v[6], v[7]),
            r, 1e-10, 1e-12, "trilinear interpolation");
  c.nontrivial(x.size() > 2);
}

PBT_PROP(spline, 400, 2000) {
  std::vector<double> x, y;
  points(c, c.count(3, 14), &x, &y);
  std::map<double, double> m;
  for (size_t i = 0; i < x.size(); i++) m[x[i]] = y[i];
  auto refused = [](const std::vector<double> &a, const std::vector<double> &b) {
    try {
      InterpolateDataSpline f(a, b);
    } catch (std::runtime_error &) {
      return true;
    }
    return false;
  };
  if (c.below(6) == 0) {
    std::vector<double> z(y.begin(), y.end() - 1);
    PBT_CHECK(c, refused(x, z), "vectors of different length");
    PBT_CHECK(c, refused({x[0], x[1]}, {y[0], y[1]}), "two points");
    std::vector<double> d = x;
    d[c.below(d.size() - 1) + 1] = d[0];
    PBT_CHECK(c, refused(d, y), "duplicate point");
    c.label("refused");
    return;
  }
  InterpolateDataSpline f(x, y);
  // natural cubic spline
  std::vector<L> X, Y;
  for (auto &e : m) {
    X.push_back(e.first);
    Y.push_back(e.second);
  }
  const size_t n = X.size();
  std::vector<L> M(n, 0), cp(n, 0), dp(n, 0);
  for (size_t i = 1; i + 1 < n; i++) {
    const L h0 = X[i] - X[i - 1], h1 = X[i + 1] - X[i];
    const L a = h0, b = 2 * (h0 + h1), cc = h1;
    const L d = 6 * ((Y[i + 1] - Y[i]) / h1 - (Y[i] - Y[i - 1]) / h0);
    const L w = b - a * cp[i - 1];
    cp[i] = cc / w;
    dp[i] = (d - a * dp[i - 1]) / w;
  }
  for (size_t i = n - 2; i >= 1; i--) M[i] = dp[i] - cp[i] * M[i + 1];
  for (int k = 0; k < 10; k++) {
    const double a = abscissa(c, m);
    L r, scale = 0;
    if (a <= X[0]) {
      r = Y[0];
    } else if (a >= X[n - 1]) {
      r = Y[n - 1];
    } else {
      size_t i = 1;
      while (X[i] < a) i++;
      const L h = X[i] - X[i - 1], p = X[i] - a, q = a - X[i - 1];
      r = (M[i - 1] * p * p * p + M[i] * q * q * q) / (6 * h) +
          (Y[i - 1] / h - M[i - 1] * h / 6) * p +
          (Y[i] / h - M[i] * h / 6) * q;
      scale = (fabsl(M[i - 1]) + fabsl(M[i])) * h * h + fabsl(Y[i]) +
              fabsl(Y[i - 1]);
    }
    PBT_CLOSE(c, f(a), static_cast<double>(r), 1e-8,
              static_cast<double>(scale) * 1e-9 + 1e-10, "spline at " << a);
  }
  c.nontrivial(true);
}

PBT_PROP(tabulation, 400, 2000) {
  const double lo = c.uniform(-5., 5.), range = c.logreal(1e-2, 20.);
  const size_t num = c.below(10) == 0 ? c.below(2) : c.count(2, 60);
  const double a0 = c.uniform(-3., 3.), a1 = c.uniform(-3., 3.),
               w = c.uniform(0.1, 3.);
  auto f = [=](double x) { return a0 + a1 * std::sin(w * x); };
  if (num < 2) {
    bool threw = false;
    try {
      Tabulation t(lo, range, num, f);
    } catch (std::runtime_error &) {
      threw = true;
    }
    PBT_CHECK(c, threw, "a table with " << num << " intervals");
    c.label("refused");
    return;
  }
  size_t calls = 0;
  Tabulation made(lo, range, num, [&](double x) {
    calls++;
    return f(x);
  });
  Tabulation t = made;
  PBT_CHECK(c, !t.is_empty() && Tabulation().is_empty(), "is_empty");
  if (c.below(3) == 0) {
    // file round trip, with something else before and behind
    const std::string name = "/tmp/verif-tab." + std::to_string(getpid());
    sha256::Hash h, h2;
    for (auto &b : h) b = static_cast<uint8_t>(c.below(256));
    h2 = h;
    h2[c.below(h.size())] ^= static_cast<uint8_t>(1u << c.below(8));
    Tabulation other(0., 1., 2, [](double) { return 7.; });
    {
      std::ofstream o(name, std::ios::binary);
      other.write(o, h2);
      made.write(o, h);
      other.write(o, h);
    }
    bool first, last;
    {
      std::ifstream in(name, std::ios::binary);
      first = Tabulation::from_file(in, h2).get_value_linear(0.5) == 7.;
      t = Tabulation::from_file(in, h);
      last = Tabulation::from_file(in, h).get_value_linear(0.5) == 7.;
    }
    bool empty;
    {
      std::ifstream in(name, std::ios::binary);
      empty = Tabulation::from_file(in, h).is_empty();
    }
    unlink(name.c_str());
    PBT_CHECK(c, first && last, "tables in the same file are mixed up");
    PBT_CHECK(c, !t.is_empty(), "table not read back");
    PBT_CHECK(c, empty, "a table of another configuration was accepted");
    c.label("file");
  }
  const double dx = range / static_cast<double>(num), hi = lo + range;
  for (int k = 0; k < 12; k++) {
    double x;
    size_t node = 0;
    switch (c.below(6)) {
      case 0:
        node = c.below(num + 1);
        x = lo + static_cast<double>(node) * dx;
        break;
      case 1:
        x = lo - c.logreal(1e-6, 5.);
        break;
      case 2:
        x = hi + c.logreal(1e-6, 1.) * 5 * range;
        break;
      default:
        x = c.uniform(lo, hi);
    }
    for (auto e :
         {Extrapolation::Zero, Extrapolation::Const, Extrapolation::Linear}) {
      double r;
      if (x < lo) {
        r = 0.;
      } else if (x > hi && e == Extrapolation::Zero) {
        if (x < hi + 1e-9 * (1 + std::abs(hi))) continue;
        r = 0.;
      } else if (x > hi && e == Extrapolation::Const) {
        r = f(hi);
      } else {
        const double u = (x - lo) / dx;
        const double i = std::min(std::floor(u), static_cast<double>(num - 1));
        const double fa = f(lo + i * dx), fb = f(lo + (i + 1) * dx);
        r = fa + (u - i) * (fb - fa);
        // nodes at the very end: rounding decides
        if (e == Extrapolation::Zero && std::abs(x - hi) < 1e-9 * (1 + range))
          continue;
      }
      PBT_CLOSE(c, t.get_value_linear(x, e), r, 1e-7, 1e-8,
                "linear value at " << x << " in [" << lo << ", " << hi << "]");
    }
    const double u = (x - lo) / dx;
    if (x < lo) {
      PBT_CHECK(c, t.get_value_step(x) == 0., "step below the range");
    } else if (std::abs(u - std::floor(u) - 0.5) > 1e-6) {
      const double i = std::min(std::round(u), static_cast<double>(num));
      PBT_CLOSE(c, t.get_value_step(x), f(lo + i * dx), 1e-9, 1e-10,
                "step value at " << x);
    }
  }
  c.nontrivial(a1 != 0.);
}

PBT_PROP(integrals, 300, 1500) {
  // polynomial + exponential + oscillation + peak, with known integral
  double p[4];
  for (double &e : p) e = c.below(3) == 0 ? 0. : c.uniform(-5., 5.);
  const double ea = c.uniform(-2., 2.), el = c.uniform(-2., 2.);
  const double sa = c.uniform(-2., 2.), sw = c.uniform(0.2, 15.);
  const double ba = c.uniform(-1., 1.), bm = c.uniform(-2., 2.),
               bw = c.logreal(0.05, 1.);
  const double scale = c.logreal(1e-3, 1e3);
  auto f = [&](double x) {
    return scale *
           (p[0] + x * (p[1] + x * (p[2] + x * p[3])) + ea * std::exp(el * x) +
            sa * std::sin(sw * x) + ba * bw / ((x - bm) * (x - bm) + bw * bw));
  };
  auto F = [&](L x) {
    return scale *
           (x * (p[0] + x * (p[1] / 2 + x * (p[2] / 3 + x * p[3] / 4))) +
            (std::abs(el) < 1e-8 ? ea * x : ea / el * expl(el * x)) -
            sa / sw * cosl(sw * x) + ba * atanl((x - bm) / bw));
  };
  const double a = c.uniform(-3., 3.);
  const double b = c.below(10) == 0 ? a : a + c.logreal(1e-2, 5.);
  const double want = static_cast<double>(F(b) - F(a));
  Integrator in;
  double rel = 5e-4, abs = 1e-9;
  if (c.below(3) == 0) {
    rel = c.logreal(1e-7, 1e-3);
    abs = rel * 1e-4;
    in.set_precision(abs, rel);
    c.label("precision");
  }
  c.note() << "integral " << want << " over [" << a << ", " << b << "]";
  // a small result of large contributions of both signs cannot be had exactly
  double big = 0;
  for (int i = 0; i <= 20; i++)
    big = std::max(big, std::abs(f(a + i * (b - a) / 20)));
  if (std::abs(want) < 1e-4 * big * (b - a)) c.discard();
  const Result r = in(a, b, [&](double x) { return f(x); });
  PBT_CLOSE(c, r.value(), want, rel, abs, "integral");
  PBT_CHECK(c, r.error() <= std::max(abs, std::abs(r.value()) * rel),
            "error estimate above the requested precision was accepted");
  PBT_CLOSE(c, static_cast<double>(r), r.value(), 0., 0., "conversion");
  if (want < 0) c.label("negative");
  // error check
  const double v = c.uniform(-10., 10.), er = c.logreal(1e-6, 1.),
               rt = c.logreal(1e-4, 1.);
  bool threw = false;
  try {
    Result(v, er).check_error("test", rt, 1e-5);
  } catch (std::runtime_error &) {
    threw = true;
  }
  PBT_CHECK(c, threw == (er > std::max(1e-5, std::abs(v) * rt)),
            "error " << er << " of " << v << " at relative tolerance " << rt
                     << (threw ? " refused" : " accepted"));
  c.nontrivial(a != b);
}

PBT_PROP(integrals2d, 40, 200) {
  Integrator2d in;
  const double a0 = c.uniform(-2., 2.), a1 = a0 + c.logreal(1e-1, 3.);
  const double b0 = c.uniform(-2., 2.), b1 = b0 + c.logreal(1e-1, 3.);
  const double k = c.uniform(-1.5, 1.5), l = c.uniform(0.3, 2.),
               s = (c.flip() ? 1 : -1) * c.logreal(1e-2, 100.);
  auto f = [=](double x, double y) {
    return s * (std::exp(k * x) * (1 + y * y) + l * x * x * y * y);
  };
  auto e = [&](double x) { return std::abs(k) < 1e-9 ? x : std::exp(k * x) / k; };
  auto cube = [](double x) { return x * x * x / 3; };
  const double want = s * ((e(a1) - e(a0)) * (b1 - b0 + cube(b1) - cube(b0)) +
                           l * (cube(a1) - cube(a0)) * (cube(b1) - cube(b0)));
  PBT_CLOSE(c, static_cast<double>(in(a0, a1, b0, b1, f)), want, 5e-4, 1e-8,
            "two-dimensional integral");
  // region where the integrand vanishes, as for spectral functions
  const double cut = c.uniform(a0, a1);
  PBT_CLOSE(c,
            static_cast<double>(in(a0, a1, b0, b1,
                                   [=](double x, double) {
                                     return x < cut ? 0. : (x - cut) * s;
                                   })),
            s * (a1 - cut) * (a1 - cut) / 2 * (b1 - b0), 2e-2,
            1e-4 * std::abs(s) * (a1 - a0) * (a1 - a0) * (b1 - b0),
            "integral with an edge");
  PBT_CHECK(c, static_cast<double>(in(a0, a0, b0, b1, f)) == 0., "empty range");
  bool threw = false;
  try {
    in(a1, a0, b0, b1, f);
  } catch (std::invalid_argument &) {
    threw = true;
  }
  PBT_CHECK(c, threw, "wrong limits accepted");
  c.label(s < 0 ? "negative" : "positive");
  c.nontrivial(true);
}

PBT_PROP(roots, 400, 2000) {
  auto make = [&](double *root) {
    *root = (c.flip() ? 1 : -1) * c.logreal(1e-2, 10.);
    const double r = *root, k = (c.flip() ? 1 : -1) * c.logreal(0.1, 10.),
                 q = c.unit();
    const int kind = static_cast<int>(c.below(3));
    return std::function<double(double)>([=](double x) {
      const double d = x - r;
      switch (kind) {
        case 0:
          return k * d;
        case 1:
          return k * (d + q * d * d * d);
        default:
          return k * std::tanh(d * (1 + q));
      }
    });
  };
  double r1, r2;
  auto f1 = make(&r1), f2 = make(&r2);
  const double lo = r1 - c.logreal(1e-2, 5.), hi = r1 + c.logreal(1e-2, 5.);
  RootSolver1D s1(f1);
  // another solver that lives, and dies, meanwhile must not matter
  if (c.below(3) == 0) {
    auto s2 = std::make_unique<RootSolver1D>(f2);
    auto x = s2->try_find_root(r2 - 1., r2 + 1., 200);
    PBT_CHECK(c, x.has_value() && std::abs(*x - r2) < 1e-5,
              "root of the other function");
    if (c.flip()) s2.reset();
    auto y = s1.try_find_root(lo, hi, 200);
    PBT_CHECK(c, y.has_value() && std::abs(*y - r1) < 1e-6 * std::abs(r1),
              "root " << r1 << " not found with two solvers alive");
    c.label("two solvers");
  }
  if (c.below(4) == 0) {
    // a solver used while another one is at work
    RootSolver1D outer([&](double x) {
      RootSolver1D inner(f2);
      auto y = inner.try_find_root(r2 - 1., r2 + 1., 200);
      return f1(x) + (y ? *y - r2 : 1e3);
    });
    auto y = outer.try_find_root(lo, hi, 200);
    PBT_CHECK(c, y.has_value() && std::abs(*y - r1) < 1e-3 * std::abs(r1),
              "root " << r1 << " not found with a solver inside");
    c.label("nested");
    return;
  }
  c.note() << "root " << r1 << " in [" << lo << ", " << hi << "]";
  RootSolver1D s(f1);
  const bool inside = c.below(4) != 0;
  auto y = inside ? s.try_find_root(lo, hi, 500)
                  : s.try_find_root(r1 + 0.1, r1 + 1.5, 500);
  if (inside) {
    PBT_CHECK(c, y.has_value(), "root not found");
    PBT_CHECK(c, std::abs(*y - r1) < 1e-6 * std::abs(r1),
              "root is " << *y << ", not " << r1);
    PBT_CHECK(c, *y >= lo && *y <= hi, "outside of the bracket");
    // too few iterations: no root rather than a wrong one
    auto z = s.try_find_root(lo, hi, 1);
    PBT_CHECK(c, !z || std::abs(*z - r1) < 1e-6 * std::abs(r1),
              "unconverged root " << *z);
  } else {
    PBT_CHECK(c, !y.has_value(), "root where there is none");
    c.label("no root");
  }
  c.nontrivial(inside);
}

namespace {
// Cleveland's robust locally weighted regression, written from its definition
std::vector<L> lowess_ref(const std::vector<double> &x,
                          const std::vector<double> &y, double span,
                          size_t iter, double delta) {
  const size_t n = x.size();
  const size_t ns = std::max<size_t>(
      2, std::min(n, static_cast<size_t>(span * static_cast<double>(n) + 1e-7)));
  std::vector<L> rw(n, 1), ys(n, 0);
  for (size_t it = 0; it <= iter; it++) {
    size_t left = 0;
    auto fit = [&](size_t i) -> L {
      while (left + ns < n && x[i] - x[left] > x[left + ns] - x[i]) left++;
      const L h = std::max(x[i] - x[left], x[left + ns - 1] - x[i]);
      std::vector<L> w(n, 0);
      L sum = 0;
      for (size_t j = left; j < n; j++) {
        const L r = fabsl(static_cast<L>(x[j]) - x[i]);
        if (r <= 0.999L * h || r == 0) {
          const L q = h > 0 ? r / h : 0;
          w[j] = (r <= 0.001L * h ? 1 : powl(1 - q * q * q, 3)) * rw[j];
          sum += w[j];
        }
      }
      if (sum <= 0) return y[i];
      L xm = 0, ym = 0, sxx = 0, sxy = 0;
      for (size_t j = 0; j < n; j++) {
        xm += w[j] / sum * x[j];
        ym += w[j] / sum * y[j];
      }
      for (size_t j = 0; j < n; j++) {
        sxx += w[j] / sum * (x[j] - xm) * (x[j] - xm);
        sxy += w[j] / sum * (x[j] - xm) * (y[j] - ym);
      }
      if (h <= 0 || sqrtl(sxx) <= 0.001L * (x[n - 1] - x[0])) return ym;
      return ym + sxy / sxx * (x[i] - xm);
    };
    if (delta <= 0) {
      for (size_t i = 0; i < n; i++) ys[i] = fit(i);
    } else {
      // points within delta of the last fitted one are interpolated
      size_t last = 0;
      ys[0] = fit(0);
      while (last + 1 < n) {
        size_t i = last + 1;
        const double cut = x[last] + delta;
        size_t j = i;
        while (j < n && x[j] <= cut) j++;
        i = std::max(i, j - 1);
        ys[i] = fit(i);
        for (size_t k = last + 1; k < i; k++) {
          const L t = (static_cast<L>(x[k]) - x[last]) /
                      (static_cast<L>(x[i]) - x[last]);
          ys[k] = t * ys[i] + (1 - t) * ys[last];
        }
        last = i;
      }
    }
    if (it == iter) break;
    std::vector<L> res(n);
    for (size_t i = 0; i < n; i++) res[i] = fabsl(y[i] - ys[i]);
    std::vector<L> so = res;
    std::sort(so.begin(), so.end());
    const L cmad = n % 2 ? 6 * so[n / 2] : 3 * (so[n / 2] + so[n / 2 - 1]);
    for (size_t i = 0; i < n; i++) {
      if (cmad == 0) {
        rw[i] = 0;
        continue;
      }
      const L q = res[i] / cmad;
      rw[i] = q <= 0.001L ? 1 : q <= 0.999L ? (1 - q * q) * (1 - q * q) : 0;
    }
  }
  return ys;
}
}  // namespace

PBT_PROP(smoothing, 500, 2500) {
  const size_t n = c.count(1, 40);
  std::vector<double> x, y;
  double at = c.uniform(-5., 5.);
  for (size_t i = 0; i < n; i++) {
    x.push_back(at);
    y.push_back(std::sin(at) + c.uniform(-.3, .3) +
                (c.below(8) == 0 ? c.uniform(-5., 5.) : 0.));
    at += c.logreal(1e-1, 2.);
  }
  const double span = c.uniform(0.1, 1.);
  const size_t iter = c.below(4);
  const double delta = c.flip() ? 0. : c.logreal(0.05, 4.);
  c.note() << n << " points span " << span << " iterations " << iter
           << " delta " << delta;
  const std::vector<double> s = smooth(x, y, span, iter, delta);
  PBT_CHECK(c, s.size() == n, "number of points");
  if (n < 2) {
    PBT_CHECK(c, s[0] == y[0], "single point");
    return;
  }
  const size_t ns = std::max<size_t>(
      2, std::min(n, static_cast<size_t>(span * static_cast<double>(n) + 1e-7)));
  if (ns > 6 || iter == 0) {
    // (otherwise all residuals may be zero up to rounding)
    const std::vector<L> r = lowess_ref(x, y, span, iter, delta);
    for (size_t i = 0; i < n; i++)
      PBT_CLOSE(c, s[i], static_cast<double>(r[i]), 1e-6, 1e-6,
                "smoothed value " << i);
    c.label("reference");
  }
  // a straight line stays as it is
  std::vector<double> z;
  const double a = c.uniform(-3., 3.), b = c.uniform(-3., 3.);
  for (double e : x) z.push_back(a + b * e);
  const auto line = smooth(x, z, span, 0, delta);
  for (size_t i = 0; i < n; i++)
    if (ns > 3)
      PBT_CLOSE(c, line[i], z[i], 1e-7, 1e-7, "point " << i << " of a line");
  // scaling
  const double k = c.logreal(0.1, 10.), o = c.uniform(-5., 5.);
  std::vector<double> x2, y2;
  for (size_t i = 0; i < n; i++) {
    x2.push_back(x[i] * 2 - 8);
    y2.push_back(y[i] * k + o);
  }
  if (ns > 6 || iter == 0) {
    const auto s2 = smooth(x2, y2, span, iter, delta * 2);
    for (size_t i = 0; i < n; i++)
      PBT_CLOSE(c, s2[i], s[i] * k + o, 1e-6, 1e-6, "scaled data");
  }
  if (delta > 0) c.label("delta");
  c.nontrivial(n > 4);
}

PBT_PROP(averages, 500, 2500) {
  std::vector<double> x, y;
  const size_t n = c.count(1, 30);
  int at = static_cast<int>(c.range(-5, 5));
  for (size_t i = 0; i < n; i++) {
    x.push_back(at);
    y.push_back(c.uniform(-10., 10.));
    at += static_cast<int>(c.below(3));
  }
  Average<double> avg;
  L sum = 0;
  PBT_CHECK(c, avg.average() == 0. && avg.number_of_values() == 0, "empty");
  for (size_t i = 0; i < n; i++) {
    avg.add(y[i]);
    sum += y[i];
    PBT_CLOSE(c, avg.average(), static_cast<double>(sum / (i + 1)), 1e-10, 1e-12,
              "average of " << i + 1 << " values");
    PBT_CHECK(c, avg.number_of_values() == i + 1, "number of values");
    if (c.below(10) == 0) {
      avg.clear();
      PBT_CHECK(c, avg.average() == 0. && avg.number_of_values() == 0, "clear");
      for (size_t j = 0; j <= i; j++) avg.add(y[j]);
    }
  }
  const auto d = dedup_avg(x, y);
  std::map<double, std::pair<L, int>> m;
  for (size_t i = 0; i < n; i++) {
    m[x[i]].first += y[i];
    m[x[i]].second++;
  }
  PBT_CHECK(c, d.first.size() == m.size() && d.second.size() == m.size(),
            "number of distinct points");
  size_t i = 0;
  for (const auto &e : m) {
    PBT_CHECK(c, d.first[i] == e.first, "points");
    PBT_CLOSE(c, d.second[i],
              static_cast<double>(e.second.first / e.second.second), 1e-10,
              1e-12, "average of points at the same place");
    i++;
  }
  bool threw = false;
  try {
    dedup_avg(x, std::vector<double>(n + 1, 0.));
  } catch (std::runtime_error &) {
    threw = true;
  }
  PBT_CHECK(c, threw, "vectors of different size");
  threw = false;
  try {
    dedup_avg(std::vector<double>{}, std::vector<double>{});
  } catch (std::runtime_error &) {
    threw = true;
  }
  PBT_CHECK(c, threw, "no points");
  c.nontrivial(m.size() < n);
}

// A clock against exact integer arithmetic in units of 1e-6 fm.
PBT_PROP(uniform_clock, 800, 4000) {
  auto toint = [](double t) { return static_cast<int64_t>(std::llround(t * 1e6)); };
  auto time = [&]() {
    switch (c.below(3)) {
      case 0:
        return static_cast<double>(c.range(-50, 50));
      case 1:
        return static_cast<double>(c.range(-5000, 5000)) * 0.01;
      default:
        return static_cast<double>(c.range(-50000000, 50000000)) * 1e-6;
    }
  };
  auto step = [&]() {
    switch (c.below(3)) {
      case 0:
        return 0.1 * static_cast<double>(1 + c.below(50));
      case 1:
        return 1e-6 * static_cast<double>(1 + c.below(3000000));
      default:
        return c.logreal(1e-3, 20.);
    }
  };
  const double t0 = time(), dt = step();
  const double te = c.below(8) == 0 ? t0 - c.below(3) : t0 + c.logreal(1e-2, 100.);
  int64_t base = toint(t0), tick = toint(dt), end = toint(te), n = 0;
  std::unique_ptr<UniformClock> k;
  const double bad = c.below(10) == 0 ? (c.flip() ? 0. : c.flip() ? 2e-7 : -1.)
                                      : dt;
  try {
    k = std::make_unique<UniformClock>(t0, bad, te);
  } catch (std::range_error &) {
  }
  const bool ok = bad == dt && base < end;
  PBT_CHECK(c, (k != nullptr) == ok,
            "clock from " << t0 << " to " << te << " with steps of " << bad
                          << (ok ? " refused" : " accepted"));
  if (!ok) {
    c.label("refused");
    return;
  }
  auto check = [&]() {
    const int64_t now = base + n * tick;
    const double tol = 1e-9 + 1e-12 * std::abs(static_cast<double>(now) * 1e-6);
    PBT_CLOSE(c, k->current_time(),
              static_cast<double>(std::min(now, end)) * 1e-6, 1e-12, tol,
              "current time");
    PBT_CLOSE(c, k->next_time(),
              static_cast<double>(std::min(now + tick, end)) * 1e-6, 1e-12, tol,
              "next time");
    PBT_CLOSE(c, k->timestep_duration(),
              now > end ? 0.
                        : static_cast<double>(std::min(tick, end - now)) * 1e-6,
              1e-12, tol, "time step");
    const double u = static_cast<double>(now + c.range(-2, 2) * 1000) * 1e-6;
    if (toint(u) != now) {
      PBT_CHECK(c, (*k < u) == (now < toint(u)), "clock < time");
      PBT_CHECK(c, (*k > u) == (now > toint(u)), "clock > time");
    }
    const double a = static_cast<double>(now) * 1e-6 + static_cast<double>(c.range(-2, 2));
    UniformClock other(a, 1., a + 10.);
    if (toint(a) != now)
      PBT_CHECK(c, (*k < other) == (now < toint(a)), "clock < clock");
  };
  check();
  bool past = false;
  for (size_t i = 0, m = c.count(1, 15); i < m; i++) {
    switch (c.below(6)) {
      case 0:
      case 1:
        ++*k;
        n++;
        break;
      case 2: {
        const int64_t s = static_cast<int64_t>(c.below(5));
        *k += s;
        n += s;
        break;
      }
      case 3: {
        const double d = step();
        *k += d;
        base += toint(d);
        break;
      }
      case 4: {
        const double d = step();
        k->set_timestep_duration(d);
        base += n * tick;
        n = 0;
        tick = toint(d);
        c.label("step changed");
        break;
      }
      case 5: {
        double s = time();
        const bool out = c.flip() && tick >= 10;
        if (out) {
          // the last multiple of the step before the start (which is kept
          // away from multiples, where rounding decides)
          const int64_t v = toint(s);
          int64_t q = v / tick;
          if (q * tick > v) q--;
          s = static_cast<double>(
                  q * tick + 1 +
                  static_cast<int64_t>(
                      c.below(static_cast<uint64_t>(tick) - 2))) * 1e-6;
          base = q * tick;
          c.label("output clock");
        } else {
          base = toint(s);
        }
        k->reset(s, out);
        n = 0;
        break;
      }
    }
    if (base + n * tick > end) past = true;
    check();
  }
  bool threw = false;
  try {
    *k += -c.logreal(1e-3, 1.);
  } catch (std::range_error &) {
    threw = true;
  }
  PBT_CHECK(c, threw, "clock turned back");
  if (past) c.label("past the end");
  c.nontrivial(n > 0);
}

PBT_PROP(custom_clock, 600, 3000) {
  std::vector<double> t;
  const size_t n = c.count(1, 12);
  for (size_t i = 0; i < n; i++)
    t.push_back(static_cast<double>(c.range(-20, 40)) * 0.5);
  CustomClock k(t);
  std::sort(t.begin(), t.end());
  double start = 0.;
  int64_t at = -1;
  auto get = [](std::function<double()> f, double *r) {
    try {
      *r = f();
      return true;
    } catch (std::out_of_range &) {
      return false;
    }
  };
  for (size_t i = 0, m = c.count(1, 20); i < m; i++) {
    const int64_t size = static_cast<int64_t>(t.size());
    double a = 0, b = 0, d = 0;
    const bool ca = get([&]() { return k.current_time(); }, &a),
               cb = get([&]() { return k.next_time(); }, &b),
               cd = get([&]() { return k.timestep_duration(); }, &d);
    PBT_CHECK(c, ca == (at < size), "current time available");
    PBT_CHECK(c, cb == (at + 1 < size), "next time available");
    PBT_CHECK(c, cd == cb, "time step available");
    if (ca)
      PBT_CHECK(c, a == (at < 0 ? start : t[static_cast<size_t>(at)]),
                "current time " << a);
    if (cb)
      PBT_CHECK(c, b == t[static_cast<size_t>(at + 1)], "next time " << b);
    if (cd) PBT_CLOSE(c, d, b - a, 1e-12, 1e-12, "time step");
    if (ca) {
      PBT_CHECK(c, (k < a + 0.25) && !(k < a) && (k > a - 0.25) && !(k > a),
                "comparison with a time");
    }
    switch (c.below(8)) {
      case 0:
        start = static_cast<double>(c.range(-20, 40)) * 0.5;
        k.reset(start, c.flip());
        at = -1;
        c.label("reset");
        break;
      case 1: {
        if (at >= 0) break;
        const double s = static_cast<double>(c.range(-24, 20)) * 0.5;
        k.remove_times_in_past(s);
        t.erase(std::remove_if(t.begin(), t.end(),
                               [&](double e) { return e <= s; }),
                t.end());
        c.label("remove");
        break;
      }
      default:
        if (at < static_cast<int64_t>(t.size())) {
          ++k;
          at++;
        }
    }
  }
  c.nontrivial(n > 1);
}

namespace pbt {
void setup() { kit::load_default(); }
void reset_case(uint64_t) {}
}  // namespace pbt
PBT_MAIN

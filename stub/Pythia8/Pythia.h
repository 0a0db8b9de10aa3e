// Stand-in for the Pythia 8 headers, which this sandbox does not have. It only
// declares what SMASH uses, so that the translation units of SMASH that include
// Pythia compile unmodified. Every check that links it runs with strings off,
// so no function of the stand-in decides a verdict: hadronisation calls throw.
#ifndef VERIF_STUB_PYTHIA_H_
#define VERIF_STUB_PYTHIA_H_
#include <array>
#include <cmath>
#include <cstdlib>
#include <iomanip>
#include <iostream>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#define PYTHIA_VERSION 8.316
#define PYTHIA_VERSION_INTEGER 8316
namespace Pythia8 {
[[noreturn]] inline void stub_unavailable(const char *what) {
  throw std::runtime_error(std::string("Pythia stand-in: ") + what +
                           " is not available");
}
class Vec4 {
 public:
  Vec4(double x = 0., double y = 0., double z = 0., double t = 0.)
      : x_(x), y_(y), z_(z), t_(t) {}
  double px() const { return x_; }
  double py() const { return y_; }
  double pz() const { return z_; }
  double e() const { return t_; }
  double m2Calc() const { return t_ * t_ - x_ * x_ - y_ * y_ - z_ * z_; }
  double mCalc() const {
    const double s = m2Calc();
    return s >= 0 ? std::sqrt(s) : -std::sqrt(-s);
  }
  double pAbs() const { return std::sqrt(x_ * x_ + y_ * y_ + z_ * z_); }
  Vec4 &operator+=(const Vec4 &o) {
    x_ += o.x_, y_ += o.y_, z_ += o.z_, t_ += o.t_;
    return *this;
  }
  Vec4 &operator-=(const Vec4 &o) {
    x_ -= o.x_, y_ -= o.y_, z_ -= o.z_, t_ -= o.t_;
    return *this;
  }
  friend Vec4 operator+(Vec4 a, const Vec4 &b) { return a += b; }
  friend Vec4 operator-(Vec4 a, const Vec4 &b) { return a -= b; }
  friend Vec4 operator*(double f, const Vec4 &b) {
    return Vec4(f * b.x_, f * b.y_, f * b.z_, f * b.t_);
  }
  friend Vec4 operator*(const Vec4 &b, double f) { return f * b; }

 private:
  double x_, y_, z_, t_;
};
class ParticleDataEntry {
 public:
  double m0() const { return 0.; }
};
using ParticleDataEntryPtr = std::shared_ptr<ParticleDataEntry>;
class ParticleData {
 public:
  bool isParticle(int) const { return false; }
  double m0(int id) const {
    auto it = m_.find(std::abs(id));
    return it == m_.end() ? 0.33 : it->second;
  }
  void m0(int id, double m) { m_[std::abs(id)] = m; }
  void mWidth(int, double) {}
  double mSel(int id) { return m0(id); }
  bool isBaryon(int id) const {
    const int a = std::abs(id);
    return a > 1000 && (a / 1000) % 10 && (a / 100) % 10 && (a / 10) % 10;
  }
  bool isQuark(int id) const { return id != 0 && std::abs(id) < 9; }
  bool isDiquark(int id) const {
    const int a = std::abs(id);
    return a > 1000 && a < 10000 && (a / 10) % 10 == 0;
  }
  bool isOctetHadron(int) const { return false; }
  int nQuarksInCode(int id, int q) const {
    const int a = std::abs(id);
    if (isQuark(id)) return a == q;
    if (isDiquark(id)) return ((a / 1000) % 10 == q) + ((a / 100) % 10 == q);
    return ((a / 1000) % 10 == q) + ((a / 100) % 10 == q) +
           ((a / 10) % 10 == q);
  }
  int baryonNumberType(int id) const {
    const int s = id > 0 ? 1 : -1;
    return isQuark(id) ? s : isDiquark(id) ? 2 * s : isBaryon(id) ? 3 * s : 0;
  }
  ParticleDataEntryPtr particleDataEntryPtr(int) { return nullptr; }
  ParticleDataEntryPtr findParticle(int) { return nullptr; }

 private:
  std::map<int, double> m_;
};
class Particle {
 public:
  int id() const { return id_; }
  void id(int i) { id_ = i; }
  int status() const { return st_; }
  int col() const { return col_; }
  int acol() const { return acol_; }
  bool isFinal() const { return st_ > 0; }
  bool isQuark() const { return ParticleData().isQuark(id_); }
  bool isDiquark() const { return ParticleData().isDiquark(id_); }
  bool isGluon() const { return id_ == 21; }
  bool isParton() const { return isGluon() || isQuark() || isDiquark(); }
  bool isHadron() const { return std::abs(id_) > 100 && !isDiquark(); }
  Vec4 p() const { return p_; }
  void p(const Vec4 &v) { p_ = v; }
  void p(double x, double y, double z, double t) { p_ = Vec4(x, y, z, t); }
  double e() const { return p_.e(); }
  double pAbs() const { return p_.pAbs(); }
  double pAbs2() const { return p_.pAbs() * p_.pAbs(); }
  void px(double v) { p_ = Vec4(v, py(), pz(), e()); }
  void py(double v) { p_ = Vec4(px(), v, pz(), e()); }
  void pz(double v) { p_ = Vec4(px(), py(), v, e()); }
  double px() const { return p_.px(); }
  double py() const { return p_.py(); }
  double pz() const { return p_.pz(); }
  void e(double v) { p_ = Vec4(px(), py(), pz(), v); }
  double m() const { return m_; }
  void m(double v) { m_ = v; }
  double y() const { return 0.5 * std::log((e() + pz()) / (e() - pz())); }
  int id_ = 0, st_ = 0, col_ = 0, acol_ = 0;
  double m_ = 0.;
  Vec4 p_;
};
class Event {
 public:
  void init(const std::string & = "", ParticleData * = nullptr, int = 100) {}
  void reset() {
    e_.assign(1, Particle());
    j_.clear();
  }
  int size() const { return static_cast<int>(e_.size()); }
  Particle &operator[](int i) { return e_.at(static_cast<size_t>(i)); }
  const Particle &operator[](int i) const {
    return e_.at(static_cast<size_t>(i));
  }
  int append(int id, int status, int col, int acol, const Vec4 &p,
             double m = 0.) {
    Particle q;
    q.id_ = id, q.st_ = status, q.col_ = col, q.acol_ = acol, q.p_ = p,
    q.m_ = m;
    e_.push_back(q);
    return size() - 1;
  }
  int append(const Particle &q) {
    e_.push_back(q);
    return size() - 1;
  }
  void remove(int a, int b, bool = true) {
    e_.erase(e_.begin() + a, e_.begin() + b + 1);
  }
  void list() const {}
  void listJunctions() const {}
  void clearJunctions() { j_.clear(); }
  int appendJunction(int kind, int a, int b, int c) {
    j_.push_back({kind, a, b, c});
    return sizeJunction() - 1;
  }
  int sizeJunction() const { return static_cast<int>(j_.size()); }
  int kindJunction(int i) const { return j_.at(static_cast<size_t>(i))[0]; }
  int colJunction(int i, int k) const {
    return j_.at(static_cast<size_t>(i)).at(static_cast<size_t>(k) + 1);
  }
  void eraseJunction(int i) { j_.erase(j_.begin() + i); }

 private:
  std::vector<Particle> e_;
  std::vector<std::array<int, 4>> j_;
};
class Info {
 public:
  int dummy = 0;
};
class Rndm {
 public:
  void init(int = 0) {}
};
class SigmaTotal {
 public:
  void initInfoPtr(Info &) {}
  void init() {}
  bool calc(int, int, double) { return true; }
  double sigmaAX() const { return 1.; }
  double sigmaXB() const { return 1.; }
  double sigmaXX() const { return 1.; }
};
class FlavContainer {
 public:
  explicit FlavContainer(int i = 0) : id(i) {}
  FlavContainer &anti(const FlavContainer &o) {
    id = -o.id;
    return *this;
  }
  int id;
};
class StringFlav {
 public:
  void initInfoPtr(Info &) {}
  void init() {}
  FlavContainer pick(FlavContainer &, double = -1., double = 0.) {
    stub_unavailable("StringFlav::pick");
  }
  int combine(FlavContainer &, FlavContainer &) {
    stub_unavailable("StringFlav::combine");
  }
};
class Settings {
 public:
  void mode(const std::string &, int) {}
  void parm(const std::string &, double) {}
  void flag(const std::string &, bool) {}
  int mode(const std::string &) { return 0; }
  double parm(const std::string &) { return 1.; }
};
class Pythia {
 public:
  Settings settings;
  Pythia(const std::string & = "", bool = false) : info(info_) {}
  bool readString(const std::string &) { return true; }
  bool init() { return true; }
  bool next() { stub_unavailable("Pythia::next"); }
  bool forceHadronLevel(bool = true) {
    stub_unavailable("Pythia::forceHadronLevel");
  }
  bool setKinematics(double) { return true; }
  double parm(const std::string &) { return 1.; }
  Event event;
  ParticleData particleData;
  Rndm rndm;
  const Info &info;

 private:
  Info info_;
};
}  // namespace Pythia8
#endif

// P21: the configuration as a tree of keys: values, sections, unused keys,
// merging, validation and conversions.
#include <unistd.h>

#include <filesystem>
#include <fstream>
#include <functional>
#include <list>
#include <map>
#include <optional>
#include <set>

#include "smash/configuration.h"
#include "smash/input_keys.h"
#include "smash/stringify.h"
#include "smashkit.h"

using namespace smash;

namespace {
// ---------------------------------------------------------------- the model
struct T {
  enum Kind { Null, Scalar, Seq, Map } k = Null;
  std::string s;
  std::vector<std::string> seq;
  std::vector<std::pair<std::string, T>> map;
  T *at(const std::string &l) {
    for (auto &e : map)
      if (e.first == l) return &e.second;
    return nullptr;
  }
  void erase(const std::string &l) {
    for (size_t i = 0; i < map.size(); i++)
      if (map[i].first == l) {
        map.erase(map.begin() + static_cast<long>(i));
        return;
      }
  }
  bool empty() const { return k == Null || (k == Map && map.empty()); }
};
bool same(const T &a, const T &b) {
  if (a.k != b.k) return false;
  if (a.k == T::Scalar) return a.s == b.s;
  if (a.k == T::Seq) return a.seq == b.seq;
  if (a.k == T::Map) {
    if (a.map.size() != b.map.size()) return false;
    for (const auto &e : a.map) {
      const T *o = const_cast<T &>(b).at(e.first);
      if (!o || !same(e.second, *o)) return false;
    }
  }
  return true;
}
bool same_root(const T &a, const T &b) {
  return (a.empty() && b.empty()) || same(a, b);
}
void prune(T *t) {
  if (t->k != T::Map) return;
  for (auto &e : t->map) prune(&e.second);
  std::vector<std::pair<std::string, T>> keep;
  for (auto &e : t->map)
    if (!(e.second.k == T::Map && e.second.map.empty())) keep.push_back(e);
  t->map = keep;
}
T *find(T *t, const KeyLabels &l) {
  for (const auto &x : l) {
    if (!t || t->k != T::Map) return nullptr;
    t = t->at(x);
  }
  return t;
}
bool adds_nothing(const T &t) {
  if (t.k != T::Map) return false;
  for (const auto &e : t.map)
    if (!adds_nothing(e.second)) return false;
  return true;
}
void merge(T *a, const T &b) {
  if (b.k != T::Map) {
    *a = b;
    return;
  }
  // an empty section adds nothing
  if (b.map.empty() && a->k == T::Null) return;
  if (a->k != T::Map) {
    *a = T();
    a->k = T::Map;
  }
  for (const auto &e : b.map) {
    if (adds_nothing(e.second) && !a->at(e.first)) continue;
    T *x = a->at(e.first);
    if (!x) {
      a->map.emplace_back(e.first, T());
      x = &a->map.back().second;
    }
    merge(x, e.second);
  }
}
T from_yaml(const YAML::Node &n) {
  T t;
  if (n.IsScalar()) {
    t.k = T::Scalar;
    t.s = n.Scalar();
  } else if (n.IsSequence()) {
    t.k = T::Seq;
    for (const auto &e : n) t.seq.push_back(e.Scalar());
  } else if (n.IsMap()) {
    t.k = T::Map;
    for (const auto &e : n)
      t.map.emplace_back(e.first.Scalar(), from_yaml(e.second));
  }
  return t;
}
std::string show(const T &t) {
  std::string r;
  switch (t.k) {
    case T::Null:
      return "~";
    case T::Scalar:
      return "'" + t.s + "'";
    case T::Seq:
      for (const auto &e : t.seq) r += (r.empty() ? "" : ", ") + e;
      return "[" + r + "]";
    case T::Map:
      for (const auto &e : t.map)
        r += (r.empty() ? "" : ", ") + e.first + ": " + show(e.second);
      return "{" + r + "}";
  }
  return r;
}

// ----------------------------------------------------------- YAML generation
const char *kLabels[] = {"A", "B", "C", "D"};
std::string label(pbt::Case &c) { return kLabels[c.below(4)]; }
KeyLabels labels(pbt::Case &c, size_t max = 3) {
  KeyLabels l;
  for (size_t n = 1 + c.below(max); n; n--) l.push_back(label(c));
  return l;
}
// mostly the labels of something that is there
KeyLabels labels_in(pbt::Case &c, const T &t, size_t max) {
  if (c.below(4) == 0) return labels(c, max);
  KeyLabels l;
  const T *x = &t;
  while (x->k == T::Map && !x->map.empty() && l.size() < max &&
         (l.empty() || c.below(5))) {
    const auto &e = x->map[c.below(x->map.size())];
    l.push_back(e.first);
    x = &e.second;
  }
  if (l.empty()) return labels(c, max);
  return l;
}
std::string scalar(pbt::Case &c) {
  return c.pick(std::vector<std::string>{
      "1", "0", "-7", "42", "1000000", "1.5", "-0.25", "1e3", "true", "false",
      "True", "NO", "foo", "Foo bar", "2212", "a-b_c"});
}
T tree(pbt::Case &c, int depth) {
  T t;
  switch (c.below(depth > 0 ? 8 : 4)) {
    case 0:
    case 1:
      t.k = T::Scalar;
      t.s = scalar(c);
      break;
    case 2:
      if (c.flip()) break;
      [[fallthrough]];
    case 3:
      t.k = T::Seq;
      for (size_t n = c.below(4); n; n--) t.seq.push_back(scalar(c));
      break;
    default:
      t.k = T::Map;
      for (const char *l : kLabels)
        if (c.below(5) < 2) t.map.emplace_back(l, tree(c, depth - 1));
  }
  return t;
}
T root(pbt::Case &c) {
  T t;
  t.k = T::Map;
  for (const char *l : kLabels)
    if (c.below(5) < 3) t.map.emplace_back(l, tree(c, 2));
  if (t.map.size() > 1 && c.below(6) == 5) t.map[1].second = t.map[0].second;
  if (c.below(30) == 29) t.map.emplace_back("", tree(c, 0));
  return t;
}
std::string quoted(pbt::Case &c, const std::string &s) {
  return c.below(6) == 0 ? "\"" + s + "\"" : s;
}
std::string flow(pbt::Case &c, const T &t) {
  std::string r;
  switch (t.k) {
    case T::Null:
      return c.flip() ? "~" : "null";
    case T::Scalar:
      return quoted(c, t.s);
    case T::Seq:
      for (const auto &e : t.seq) r += (r.empty() ? "" : ", ") + quoted(c, e);
      return "[" + r + "]";
    case T::Map:
      for (const auto &e : t.map)
        r += (r.empty() ? "" : ", ") + (e.first.empty() ? "''" : e.first) +
             ": " + flow(c, e.second);
      return "{" + r + "}";
  }
  return r;
}
std::string block(pbt::Case &c, const T &t, const std::string &indent) {
  std::string r;
  for (const auto &e : t.map) {
    r += indent + (e.first.empty() ? "''" : e.first) + ":";
    const T &v = e.second;
    if (v.k == T::Map && !v.map.empty() && c.below(4)) {
      r += "\n" + block(c, v, indent + (c.flip() ? "  " : "    "));
    } else if (v.k == T::Seq && !v.seq.empty() && c.flip()) {
      r += "\n";
      for (const auto &x : v.seq) r += indent + "  - " + quoted(c, x) + "\n";
    } else if (v.k == T::Null && c.flip()) {
      r += "\n";
    } else {
      r += " " + flow(c, v) + (c.below(8) ? "\n" : "  # comment\n");
    }
  }
  return r;
}
std::string yaml(pbt::Case &c, const T &t) {
  if (t.map.empty()) return c.flip() ? "{}" : "";
  if (t.map.size() > 1 && t.map[0].second.k != T::Null &&
      same(t.map[0].second, t.map[1].second) && c.below(4)) {
    // the second one as an alias
    T rest = t;
    rest.map.erase(rest.map.begin(), rest.map.begin() + 2);
    const std::string r = flow(c, rest);
    c.label("alias");
    return "{" + t.map[0].first + ": &x " + flow(c, t.map[0].second) + ", " +
           t.map[1].first + ": *x" + (rest.map.empty() ? "" : ", ") +
           r.substr(1);
  }
  return c.flip() ? flow(c, t) : block(c, t, "");
}

// ------------------------------------------------------------- conversions
bool is_int(const std::string &s, int64_t *v) {
  char *e;
  if (s.empty() || s.find_first_not_of("-0123456789") != std::string::npos)
    return false;
  *v = std::strtoll(s.c_str(), &e, 10);
  return !*e;
}
bool conv(const std::string &s, int *v) {
  int64_t w;
  if (!is_int(s, &w)) return false;
  *v = static_cast<int>(w);
  return true;
}
bool conv(const std::string &s, double *v) {
  char *e;
  *v = std::strtod(s.c_str(), &e);
  return !*e;
}
bool conv(const std::string &s, bool *v) {
  static const std::set<std::string> yes = {"true", "True"},
                                     no = {"false", "NO"};
  *v = yes.count(s);
  return *v || no.count(s);
}
bool conv(const std::string &s, std::string *v) {
  *v = s;
  return true;
}
template <typename U>
bool conv(const T &t, U *v) {
  // the YAML library's word for it
  if (std::is_same_v<U, std::string> && t.k == T::Null) return conv("null", v);
  return t.k == T::Scalar && conv(t.s, v);
}
template <typename U>
bool conv(const T &t, std::vector<U> *v) {
  if (t.k != T::Seq) return false;
  for (const auto &e : t.seq) {
    U u;
    if (!conv(e, &u)) return false;
    v->push_back(u);
  }
  return true;
}
template <typename U, size_t N>
bool conv(const T &t, std::array<U, N> *v) {
  std::vector<U> w;
  if (!conv(t, &w) || w.size() != N) return false;
  std::copy(w.begin(), w.end(), v->begin());
  return true;
}
template <typename U>
bool conv(const T &t, std::map<std::string, U> *v) {
  if (t.k != T::Map) return false;
  for (const auto &e : t.map) {
    U u;
    if (!conv(e.second, &u)) return false;
    (*v)[e.first] = u;
  }
  return true;
}
template <typename U>
struct Make;
template <>
struct Make<int> {
  static int get(pbt::Case &c) { return static_cast<int>(c.range(-9, 9)); }
};
template <>
struct Make<double> {
  static double get(pbt::Case &c) {
    return static_cast<double>(c.range(-9, 9)) / 4.;
  }
};
template <>
struct Make<bool> {
  static bool get(pbt::Case &c) { return c.flip(); }
};
template <>
struct Make<std::string> {
  static std::string get(pbt::Case &c) { return scalar(c); }
};
template <typename U>
struct Make<std::vector<U>> {
  static std::vector<U> get(pbt::Case &c) {
    std::vector<U> v;
    for (size_t n = c.below(4); n; n--) v.push_back(Make<U>::get(c));
    return v;
  }
};
template <typename U, size_t N>
struct Make<std::array<U, N>> {
  static std::array<U, N> get(pbt::Case &c) {
    std::array<U, N> v;
    for (auto &e : v) e = Make<U>::get(c);
    return v;
  }
};
template <typename U>
struct Make<std::map<std::string, U>> {
  static std::map<std::string, U> get(pbt::Case &c) {
    std::map<std::string, U> v;
    for (size_t n = c.below(3); n; n--) v[label(c)] = Make<U>::get(c);
    return v;
  }
};

// --------------------------------------------------------------- the checker
struct State {
  Configuration cfg;
  T model;
  std::set<KeyLabels> taken;
};
void compare(pbt::Case &c, const State &s, const char *after) {
  const T t = from_yaml(YAML::Load(s.cfg.to_string()));
  PBT_CHECK(
      c, same_root(t, s.model),
      "after " << after << ": " << show(t) << " instead of " << show(s.model));
  PBT_CHECK(c, s.cfg.is_empty() == s.model.empty(), "is_empty after " << after);
}
enum class Res { Value, Default, Mandatory, Twice, Section, Type, Invalid };
const char *kRes[] = {"value",   "default",    "missing", "twice",
                      "section", "wrong type", "invalid"};

template <typename U>
void access(pbt::Case &c, State &s) {
  const KeyLabels l = labels_in(c, s.model, 4);
  const int kind = static_cast<int>(c.below(3));  // mandatory, default, dep.
  // a validator that refuses one value
  const bool validated = c.below(4) == 0;
  T *node = find(&s.model, l);
  U there{};
  const bool map_type = std::is_same_v<U, std::map<std::string, int>> ||
                        std::is_same_v<U, std::map<std::string, std::string>>;
  const bool convertible = node && conv(*node, &there);
  const U refused = c.flip() ? there : Make<U>::get(c);
  U def = Make<U>::get(c);
  if (validated && def == refused) c.discard();
  typename Key<U>::validator_type ok = [refused](const U &x) {
    return !(x == refused);
  };
  auto make = [&]() -> Key<U> {
    if (!validated) {
      if (kind == 0) return Key<U>{l, {"1.0"}};
      if (kind == 1) return Key<U>{l, def, {"1.0"}};
      return Key<U>{l, DefaultType::Dependent, {"1.0"}};
    }
    if (kind == 0) return Key<U>{l, {"1.0"}, ok};
    if (kind == 1) return Key<U>{l, def, {"1.0"}, ok};
    return Key<U>{l, DefaultType::Dependent, {"1.0"}, ok};
  };
  const Key<U> key = make();
  const bool value = node && node->k != T::Null && node->k != T::Map;
  PBT_CHECK(c, s.cfg.has_key(key) == (node && node->k != T::Map), "has_key");
  PBT_CHECK(c, s.cfg.has_value(key) == value, "has_value");
  PBT_CHECK(c, s.cfg.has_section(l) == (node && node->k == T::Map),
            "has_section");
  const bool taking = c.flip(), with_default = kind == 2 && c.below(4) != 0;
  c.note() << (taking ? "take" : "read") << " {";
  for (const auto &x : l) c.note() << x << " ";
  c.note() << "} kind " << kind << " type " << typeid(U).name() << "; ";
  auto direct = [&]() {
    return !convertible                    ? Res::Type
           : validated && there == refused ? Res::Invalid
                                           : Res::Value;
  };
  Res expect;
  if (value || (!with_default && map_type && node && node->k == T::Map)) {
    expect = direct();
  } else if (with_default) {
    expect = Res::Default;
  } else if (node && node->k == T::Map) {
    expect = Res::Section;
  } else if (taking && s.taken.count(l)) {
    expect = Res::Twice;
  } else {
    expect = kind == 1 ? Res::Default : Res::Mandatory;
  }
  Res got;
  U v{};
  try {
    if (with_default)
      v = taking ? s.cfg.take(key, def) : s.cfg.read(key, def);
    else
      v = taking ? s.cfg.take(key) : s.cfg.read(key);
    got = expect == Res::Default ? Res::Default : Res::Value;
  } catch (Configuration::TakeSameKeyTwice &) {
    got = Res::Twice;
  } catch (Configuration::IncorrectTypeInAssignment &) {
    got = Res::Type;
  } catch (std::invalid_argument &e) {
    got = expect == Res::Mandatory ? Res::Mandatory : Res::Invalid;
  } catch (std::logic_error &) {
    got = Res::Section;
  }
  PBT_CHECK(c, got == expect,
            "outcome '" << kRes[static_cast<int>(got)] << "' instead of '"
                        << kRes[static_cast<int>(expect)] << "' in "
                        << show(s.model));
  if (got == Res::Value) PBT_CHECK(c, v == there, "wrong value");
  if (got == Res::Default) PBT_CHECK(c, v == def, "wrong default");
  c.label(std::string(taking ? "take: " : "read: ") +
          kRes[static_cast<int>(got)]);
  const bool reached =
      got == Res::Value || got == Res::Type || got == Res::Invalid;
  if (taking && reached) {
    T after = s.model;
    T *p = find(&after, KeyLabels(l.begin(), l.end() - 1));
    p->erase(l.back());
    prune(&after);
    if (got != Res::Value &&
        same_root(from_yaml(YAML::Load(s.cfg.to_string())), s.model))
      return;  // an erroneous value may stay
    s.model = after;
    s.taken.insert(l);
  }
  compare(c, s, taking ? "take" : "read");
  // no access leaves traces
  if (!taking && got == Res::Value)
    PBT_CHECK(c, s.cfg.read(key) == there, "reading twice");
}
void any_access(pbt::Case &c, State &s) {
  switch (c.below(13)) {
    case 0:
      return access<int>(c, s);
    case 1:
      return access<double>(c, s);
    case 2:
      return access<bool>(c, s);
    case 3:
    case 9:
    case 10:
      return access<std::string>(c, s);
    case 4:
      return access<std::vector<int>>(c, s);
    case 5:
    case 11:
      return access<std::vector<std::string>>(c, s);
    case 6:
      return access<std::array<double, 3>>(c, s);
    case 7:
      return access<std::map<std::string, int>>(c, s);
    default:
      return access<std::map<std::string, std::string>>(c, s);
  }
}
template <typename U>
void set(pbt::Case &c, State &s) {
  const KeyLabels l = labels_in(c, s.model, 4);
  // a path through a value is no path
  T *t = &s.model;
  for (size_t i = 0; i + 1 < l.size() && t; i++) {
    t = t->k == T::Map ? t->at(l[i]) : nullptr;
    if (t && (t->k == T::Scalar || t->k == T::Seq)) return;
  }
  const U v = Make<U>::get(c);
  const Key<U> key{l, {"1.0"}};
  c.note() << "set; ";
  s.cfg.set_value(key, v);
  PBT_CHECK(c, s.cfg.has_value(key), "no value after set_value");
  const U back = s.cfg.read(key);
  PBT_CHECK(c, back == v, "another value after set_value");
  const T all = from_yaml(YAML::Load(s.cfg.to_string()));
  const T *leaf = find(const_cast<T *>(&all), l);
  PBT_CHECK(c, leaf != nullptr, "value set not shown");
  T one = *leaf;
  for (size_t i = l.size(); i--;) {
    T m;
    m.k = T::Map;
    m.map.emplace_back(l[i], one);
    one = m;
  }
  // everything else stays
  T *old = find(&s.model, l);
  if (old) *old = T();
  merge(&s.model, one);
  c.label("set");
  compare(c, s, "set_value");
}
}  // namespace

PBT_PROP(history, 3000, 100000) {
  std::list<State> all;
  {
    T t;
    t.k = T::Map;
    const T read = root(c);
    merge(&t, read);
    const std::string text = yaml(c, read);
    c.note() << "start " << text << "\n";
    all.push_back(
        {Configuration(text.c_str(), Configuration::InitializeFromYAMLString),
         t,
         {}});
    compare(c, all.back(), "construction");
  }
  int taken = 0;
  const size_t n = c.below(25);
  for (size_t i = 0; i < n; i++) {
    auto it = all.begin();
    std::advance(it, static_cast<long>(c.below(all.size())));
    State &s = *it;
    switch (c.below(14)) {
      default: {
        const size_t before = s.taken.size();
        any_access(c, s);
        taken += s.taken.size() > before;
        break;
      }
      case 1:
        switch (c.below(6)) {
          case 0:
            set<int>(c, s);
            break;
          case 1:
            set<double>(c, s);
            break;
          case 2:
            set<bool>(c, s);
            break;
          case 3:
            set<std::string>(c, s);
            break;
          case 4:
            set<std::vector<int>>(c, s);
            break;
          default:
            set<std::vector<std::string>>(c, s);
        }
        break;
      case 2: {
        T t = root(c);
        const std::string text = yaml(c, t);
        c.note() << "merge " << text << "; ";
        s.cfg.merge_yaml(text);
        merge(&s.model, t);
        compare(c, s, "merge_yaml");
        c.label("merge");
        break;
      }
      case 3:
      case 4: {
        if (all.size() > 3) break;
        const KeyLabels l = labels_in(c, s.model, 2);
        const bool complete = c.flip(), allowed = c.flip();
        const auto get = allowed ? Configuration::GetEmpty::Yes
                                 : Configuration::GetEmpty::No;
        T *node = find(&s.model, l);
        const bool fails =
            node ? node->k != T::Map || node->map.empty() : !allowed;
        T sub;
        sub.k = T::Map;
        if (node) sub = *node;
        if (complete && !fails)
          for (size_t k = l.size(); k--;) {
            T m;
            m.k = T::Map;
            m.map.emplace_back(l[k], sub);
            sub = m;
          }
        c.note() << "extract {";
        for (const auto &x : l) c.note() << x << " ";
        c.note() << "}; ";
        bool failed = false;
        std::optional<Configuration> part;
        try {
          part.emplace(complete
                           ? s.cfg.extract_complete_sub_configuration(l, get)
                           : s.cfg.extract_sub_configuration(l, get));
        } catch (std::runtime_error &) {
          failed = true;
        }
        PBT_CHECK(
            c, failed == fails,
            (fails ? "extracted what is no section" : "section not extracted"));
        c.label(fails  ? "extract: refused"
                : node ? "extract"
                       : "extract: empty");
        if (!fails) {
          if (node) {
            T *p = find(&s.model, KeyLabels(l.begin(), l.end() - 1));
            p->erase(l.back());
            prune(&s.model);
          }
          all.push_back({std::move(*part), sub, {}});
          compare(c, all.back(), "extraction (the part)");
          part.reset();
        }
        compare(c, s, "extraction");
        break;
      }
      case 5: {
        const KeyLabels l = labels(c, 2);
        s.cfg.enclose_into_section(l);
        T t = s.model;
        if (t.empty()) t = T(), t.k = T::Map;
        for (size_t k = l.size(); k--;) {
          T m;
          m.k = T::Map;
          m.map.emplace_back(l[k], t);
          t = m;
        }
        s.model = t;
        s.taken.clear();
        c.label("enclose");
        compare(c, s, "enclose_into_section");
        // the labels of keys taken before are other ones now; do not look
        // whether they count as taken
        s.cfg = Configuration(s.cfg.to_string().c_str(),
                              Configuration::InitializeFromYAMLString);
        T fresh;
        fresh.k = T::Map;
        merge(&fresh, s.model);
        s.model = fresh;
        compare(c, s, "construction");
        break;
      }
      case 6: {
        const KeyLabels l = c.below(4) ? labels_in(c, s.model, 2) : KeyLabels{};
        T *node = find(&s.model, l);
        std::string keep = label(c);
        if (node && node->k == T::Map && !node->map.empty() && c.below(4))
          keep = node->map[c.below(node->map.size())].first;
        const bool ok = node && node->k == T::Map && node->at(keep);
        c.note() << "remove all but one; ";
        bool failed = false;
        try {
          s.cfg.remove_all_entries_in_section_but_one(keep, l);
        } catch (std::invalid_argument &) {
          failed = true;
        }
        PBT_CHECK(c, failed != ok, "remove_all_entries_in_section_but_one");
        if (ok) {
          const T only = *node->at(keep);
          node->map.clear();
          node->map.emplace_back(keep, only);
        }
        c.label(ok ? "keep one" : "keep one: refused");
        compare(c, s, "remove_all_entries_in_section_but_one");
        break;
      }
      case 7: {
        std::set<std::string> u, m;
        for (const auto &x : s.cfg.list_upmost_nodes())
          PBT_CHECK(c, u.insert(x).second, "a node listed twice");
        for (const auto &e : s.model.map) m.insert(e.first);
        PBT_CHECK(c, u == m, "list_upmost_nodes");
        c.label("list");
        break;
      }
      case 8:
        if (c.below(4)) {
          // moved elsewhere and back
          Configuration other(std::move(s.cfg));
          PBT_CHECK(c, s.cfg.is_empty(), "a moved-from configuration has keys");
          s.cfg = std::move(other);
          PBT_CHECK(c, other.is_empty(), "a moved-from configuration has keys");
          compare(c, s, "moving");
          c.label("moved");
        } else {
          s.cfg.clear();
          s.model = T();
          compare(c, s, "clear");
          c.label("cleared");
        }
        break;
    }
    for (const State &o : all) compare(c, o, "an operation on another one");
  }
  // destruction complains about unused keys, and only then
  for (State &s : all) {
    auto *p = new Configuration(std::move(s.cfg));
    const std::string text = p->to_string();
    bool complained = false;
    try {
      p->~Configuration();
    } catch (std::logic_error &e) {
      complained = true;
      PBT_CHECK(c, std::string(e.what()).find(text) != std::string::npos,
                "the complaint does not name the unused keys");
    }
    ::operator delete(static_cast<void *>(p));
    PBT_CHECK(c, complained == !s.model.empty(),
              (complained ? "complaint without unused keys"
                          : "unused keys went unnoticed"));
    if (complained) c.label("unused keys");
  }
  c.nontrivial(taken > 1 && all.size() > 1);
}

namespace {
template <typename U>
using Names = std::vector<std::pair<std::string, U>>;
template <typename U>
void one_of_names(pbt::Case &c, const Names<U> &names, const char *what) {
  const Key<U> key{{"Section", "Key"}, {"1.0"}};
  const auto &e = names[c.below(names.size())];
  std::string text = e.first;
  const auto change = c.below(4);
  if (change == 1) {
    const size_t i = c.below(text.size());
    text[i] = static_cast<char>(std::isupper(text[i]) ? std::tolower(text[i])
                                                      : std::toupper(text[i]));
  } else if (change == 2) {
    text += c.flip() ? "x" : " x";
  } else if (change == 3) {
    text = text.substr(0, c.below(text.size()));
  }
  c.note() << what << " '" << text << "'";
  auto it = std::find_if(names.begin(), names.end(),
                         [&](const auto &x) { return x.first == text; });
  const std::string y = "Section: {Key: \"" + text + "\"}";
  Configuration cfg(y.c_str(), Configuration::InitializeFromYAMLString);
  std::optional<U> got;
  try {
    got = cfg.take(key);
  } catch (Configuration::IncorrectTypeInAssignment &) {
  }
  cfg.clear();
  PBT_CHECK(c, got.has_value() == (it != names.end()),
            (got ? "an unknown word was accepted" : "a known word refused"));
  if (!got) {
    c.label("refused");
    return;
  }
  PBT_CHECK(c, *got == it->second, "another value");
  Configuration w("{}", Configuration::InitializeFromYAMLString);
  w.set_value(key, *got);
  PBT_CHECK(c, w.take(key) == it->second, "value set is not the value read");
  c.label(what);
  c.nontrivial();
}
template <typename B>
void set_of_names(pbt::Case &c, const std::vector<std::string> &names,
                  const std::vector<size_t> &bits, const char *what) {
  const Key<B> key{{"Section", "Key"}, {"1.0"}};
  B expect;
  std::string list;
  bool all = false, wrong = false;
  for (size_t n = c.below(6); n; n--) {
    std::string w;
    const auto k = c.below(14);
    if (k == 13) {
      w = "nonsense";
      // nothing is read after "All"
      if (!all) wrong = true;
    } else if (k == 12) {
      w = "All";
      all = true;
      if (!wrong) expect.set();
    } else {
      const size_t i = c.below(names.size());
      w = names[i];
      expect.set(bits[i]);
    }
    list += (list.empty() ? "" : ", ") + w;
  }
  c.note() << what << " [" << list << "]";
  const std::string y = "Section: {Key: [" + list + "]}";
  Configuration cfg(y.c_str(), Configuration::InitializeFromYAMLString);
  std::optional<B> got;
  try {
    got = cfg.take(key);
  } catch (Configuration::IncorrectTypeInAssignment &) {
  }
  cfg.clear();
  PBT_CHECK(c, got.has_value() == !wrong, "acceptance of the list");
  if (!got) {
    c.label("refused");
    return;
  }
  PBT_CHECK(c, *got == expect, "another set: " << *got << " for " << expect);
  Configuration w("{}", Configuration::InitializeFromYAMLString);
  w.set_value(key, *got);
  const B again = w.take(key);
  PBT_CHECK(c, again == *got,
            "set written and read: " << again << " for " << *got);
  c.label(what);
  c.nontrivial(got->count() > 1);
}
}  // namespace

// words for enumerations, sets of words
PBT_PROP(words, 4000, 100000) {
  switch (c.below(24)) {
    case 0:
      return one_of_names<CalculationFrame>(
          c,
          {{"center of velocity", CalculationFrame::CenterOfVelocity},
           {"center of mass", CalculationFrame::CenterOfMass},
           {"fixed target", CalculationFrame::FixedTarget}},
          "frame");
    case 1:
      return one_of_names<FermiMotion>(c,
                                       {{"off", FermiMotion::Off},
                                        {"on", FermiMotion::On},
                                        {"frozen", FermiMotion::Frozen}},
                                       "fermi motion");
    case 2:
      return one_of_names<DensityType>(
          c,
          {{"hadron", DensityType::Hadron},
           {"baryon", DensityType::Baryon},
           {"baryonic isospin", DensityType::BaryonicIsospin},
           {"pion", DensityType::Pion},
           {"total isospin", DensityType::Isospin3_tot},
           {"none", DensityType::None}},
          "density type");
    case 3:
      return one_of_names<ExpansionMode>(
          c,
          {{"NoExpansion", ExpansionMode::NoExpansion},
           {"MasslessFRW", ExpansionMode::MasslessFRW},
           {"MassiveFRW", ExpansionMode::MassiveFRW},
           {"Exponential", ExpansionMode::Exponential}},
          "expansion");
    case 4:
      return one_of_names<DerivativesMode>(
          c,
          {{"Covariant Gaussian", DerivativesMode::CovariantGaussian},
           {"Finite difference", DerivativesMode::FiniteDifference},
           {"Off", DerivativesMode::Off}},
          "derivatives");
    case 5:
      return one_of_names<FieldDerivativesMode>(
          c,
          {{"Chain Rule", FieldDerivativesMode::ChainRule},
           {"Direct", FieldDerivativesMode::Direct}},
          "field derivatives");
    case 6:
      return one_of_names<SmearingMode>(
          c,
          {{"Covariant Gaussian", SmearingMode::CovariantGaussian},
           {"Discrete", SmearingMode::Discrete},
           {"Triangular", SmearingMode::Triangular}},
          "smearing");
    case 7:
      return one_of_names<TimeStepMode>(
          c, {{"None", TimeStepMode::None}, {"Fixed", TimeStepMode::Fixed}},
          "time steps");
    case 8:
      return one_of_names<BoxInitialCondition>(
          c,
          {{"thermal momenta", BoxInitialCondition::ThermalMomentaBoltzmann},
           {"thermal momenta quantum",
            BoxInitialCondition::ThermalMomentaQuantum},
           {"peaked momenta", BoxInitialCondition::PeakedMomenta}},
          "box");
    case 9:
      return one_of_names<SphereInitialCondition>(
          c,
          {{"thermal momenta", SphereInitialCondition::ThermalMomentaBoltzmann},
           {"thermal momenta quantum",
            SphereInitialCondition::ThermalMomentaQuantum},
           {"IC_ES", SphereInitialCondition::IC_ES},
           {"IC_1M", SphereInitialCondition::IC_1M},
           {"IC_2M", SphereInitialCondition::IC_2M},
           {"IC_Massive", SphereInitialCondition::IC_Massive}},
          "sphere");
    case 10:
      return one_of_names<NNbarTreatment>(
          c,
          {{"no annihilation", NNbarTreatment::NoAnnihilation},
           {"resonances", NNbarTreatment::Resonances},
           {"two to five", NNbarTreatment::TwoToFive},
           {"strings", NNbarTreatment::Strings}},
          "annihilation");
    case 11:
      return one_of_names<Sampling>(c,
                                    {{"quadratic", Sampling::Quadratic},
                                     {"custom", Sampling::Custom},
                                     {"uniform", Sampling::Uniform}},
                                    "impact");
    case 12:
      return one_of_names<ThermalizationAlgorithm>(
          c,
          {{"mode sampling", ThermalizationAlgorithm::ModeSampling},
           {"biased BF", ThermalizationAlgorithm::BiasedBF},
           {"unbiased BF", ThermalizationAlgorithm::UnbiasedBF}},
          "thermalization");
    case 13:
      return one_of_names<CollisionCriterion>(
          c,
          {{"Geometric", CollisionCriterion::Geometric},
           {"Stochastic", CollisionCriterion::Stochastic},
           {"Covariant", CollisionCriterion::Covariant}},
          "criterion");
    case 14:
      return one_of_names<SpinInteractionType>(
          c,
          {{"On", SpinInteractionType::On}, {"Off", SpinInteractionType::Off}},
          "spin");
    case 15:
      return one_of_names<TotalCrossSectionStrategy>(
          c,
          {{"BottomUp", TotalCrossSectionStrategy::BottomUp},
           {"TopDown", TotalCrossSectionStrategy::TopDown},
           {"TopDownMeasured", TotalCrossSectionStrategy::TopDownMeasured}},
          "strategy");
    case 16:
      return one_of_names<PseudoResonance>(
          c,
          {{"None", PseudoResonance::None},
           {"Largest", PseudoResonance::Largest},
           {"Closest", PseudoResonance::Closest},
           {"LargestFromUnstable", PseudoResonance::LargestFromUnstable},
           {"ClosestFromUnstable", PseudoResonance::ClosestFromUnstable}},
          "pseudoresonance");
    case 17:
      return one_of_names<FluidizationType>(
          c,
          {{"Constant_Tau", FluidizationType::ConstantTau},
           {"Dynamic", FluidizationType::Dynamic}},
          "fluidization");
    case 18:
      return one_of_names<OutputOnlyFinal>(
          c,
          {{"Yes", OutputOnlyFinal::Yes},
           {"No", OutputOnlyFinal::No},
           {"IfNotEmpty", OutputOnlyFinal::IfNotEmpty}},
          "only final");
    case 19: {
      const Names<einhard::LogLevel> names = {
          {"ALL", einhard::ALL},     {"TRACE", einhard::TRACE},
          {"DEBUG", einhard::DEBUG}, {"INFO", einhard::INFO},
          {"WARN", einhard::WARN},   {"ERROR", einhard::ERROR},
          {"FATAL", einhard::FATAL}, {"OFF", einhard::OFF}};
      const auto &e = names[c.below(names.size())];
      const Key<einhard::LogLevel> key{{"Section", "Key"}, {"1.0"}};
      const std::string y = "Section: {Key: " + e.first + "}";
      Configuration cfg(y.c_str(), Configuration::InitializeFromYAMLString);
      PBT_CHECK(c, cfg.take(key) == e.second, "log level " << e.first);
      cfg.set_value(key, e.second);
      PBT_CHECK(c, cfg.take(key) == e.second, "written level " << e.first);
      c.label("log level");
      c.nontrivial();
      return;
    }
    case 20:
      return set_of_names<ReactionsBitSet>(
          c,
          {"Elastic", "NN_to_NR", "NN_to_DR", "KN_to_KN", "KN_to_KDelta",
           "Strangeness_exchange", "NNbar", "PiDeuteron_to_NN",
           "PiDeuteron_to_pidprime", "NDeuteron_to_Ndprime"},
          {IncludedReactions::Elastic, IncludedReactions::NN_to_NR,
           IncludedReactions::NN_to_DR, IncludedReactions::KN_to_KN,
           IncludedReactions::KN_to_KDelta,
           IncludedReactions::Strangeness_exchange, IncludedReactions::NNbar,
           IncludedReactions::PiDeuteron_to_NN,
           IncludedReactions::PiDeuteron_to_pidprime,
           IncludedReactions::NDeuteron_to_Ndprime},
          "reactions");
    case 21:
      return set_of_names<MultiParticleReactionsBitSet>(
          c, {"Meson_3to1", "Deuteron_3to2", "NNbar_5to2", "A3_Nuclei_4to2"},
          {IncludedMultiParticleReactions::Meson_3to1,
           IncludedMultiParticleReactions::Deuteron_3to2,
           IncludedMultiParticleReactions::NNbar_5to2,
           IncludedMultiParticleReactions::A3_Nuclei_4to2},
          "multi-particle reactions");
    case 22:
      return set_of_names<FluidizableProcessesBitSet>(
          c, {"Elastic", "Decay", "Inelastic", "SoftString", "HardString"},
          {IncludedFluidizableProcesses::From_Elastic,
           IncludedFluidizableProcesses::From_Decay,
           IncludedFluidizableProcesses::From_Inelastic,
           IncludedFluidizableProcesses::From_SoftString,
           IncludedFluidizableProcesses::From_HardString},
          "fluidizable processes");
    default: {
      const Names<ThermodynamicQuantity> names = {
          {"rho_eckart", ThermodynamicQuantity::EckartDensity},
          {"tmn", ThermodynamicQuantity::Tmn},
          {"tmn_landau", ThermodynamicQuantity::TmnLandau},
          {"landau_velocity", ThermodynamicQuantity::LandauVelocity},
          {"j_QBS", ThermodynamicQuantity::j_QBS}};
      const Key<std::set<ThermodynamicQuantity>> key{{"Key"}, {"1.0"}};
      std::set<ThermodynamicQuantity> expect;
      std::string list;
      bool wrong = false;
      for (size_t n = c.below(6); n; n--) {
        std::string w = "Tmn";
        if (c.below(12) != 11) {
          const auto &e = names[c.below(names.size())];
          w = e.first;
          expect.insert(e.second);
        } else {
          wrong = true;
        }
        list += (list.empty() ? "" : ", ") + w;
      }
      c.note() << "quantities [" << list << "]";
      const std::string y = "{Key: [" + list + "]}";
      Configuration cfg(y.c_str(), Configuration::InitializeFromYAMLString);
      std::optional<std::set<ThermodynamicQuantity>> got;
      try {
        got = cfg.take(key);
      } catch (Configuration::IncorrectTypeInAssignment &) {
      }
      cfg.clear();
      PBT_CHECK(c, got.has_value() == !wrong, "acceptance of the list");
      if (got) PBT_CHECK(c, *got == expect, "another set");
      c.label(got ? "quantities" : "refused");
      c.nontrivial(expect.size() > 1);
    }
  }
}

namespace {
struct Known {
  KeyLabels labels;
  bool allowed, deprecated, map;
};
template <typename U>
struct IsMap : std::false_type {};
template <typename K, typename V>
struct IsMap<std::map<K, V>> : std::true_type {};
const std::vector<Known> &known() {
  static const std::vector<Known> k = [] {
    std::vector<Known> r;
    for (const auto &v : InputKeys::list)
      std::visit(
          [&r](auto &&x) {
            using U = typename std::decay_t<decltype(x.get())>::type;
            r.push_back({x.get().labels(), x.get().is_allowed(),
                         x.get().is_deprecated(), IsMap<U>::value});
          },
          v);
    return r;
  }();
  return k;
}
}  // namespace

// validation against the list of all input keys
PBT_PROP(validation, 3000, 100000) {
  T t;
  t.k = T::Map;
  T leaf;
  leaf.k = T::Scalar;
  leaf.s = "1";
  for (size_t n = c.count(0, 5); n; n--) {
    KeyLabels l = known()[c.below(known().size())].labels;
    switch (c.below(12)) {
      case 0:
        l[c.below(l.size())] += "x";
        break;
      case 1:
        l.push_back(label(c));
        break;
      case 2:
        if (l.size() > 1) l.pop_back();
        break;
      case 3:
        l.insert(l.begin() + static_cast<long>(c.below(l.size() + 1)),
                 label(c));
        break;
      case 4:
        if (l.size() > 1) l.erase(l.begin());
        break;
      default:
        break;
    }
    T m = leaf;
    if (c.below(8) == 0) m = T();
    if (c.below(8) == 0) m.k = T::Seq, m.seq = {"1", "2"};
    for (const Known &k : known())
      if (k.labels == l && k.map && c.below(5)) {
        m = T();
        m.k = T::Map;
        for (size_t i = c.below(4); i; i--)
          m.map.emplace_back(std::to_string(2212 + i), leaf);
      }
    for (size_t i = l.size(); i--;) {
      T x;
      x.k = T::Map;
      x.map.emplace_back(l[i], m);
      m = x;
    }
    merge(&t, m);
  }
  // empty sections do not get into the configuration
  T fresh;
  fresh.k = T::Map;
  merge(&fresh, t);
  t = fresh;
  // oracle: all paths to leaves
  std::vector<Configuration::Is> found;
  std::function<void(const T &, KeyLabels)> walk = [&](const T &x,
                                                       KeyLabels l) {
    const Known *hit = nullptr;
    for (const Known &k : known())
      if (k.labels == l) hit = &k;
    if (x.k == T::Map && !(hit && hit->map)) {
      for (const auto &e : x.map) {
        KeyLabels m = l;
        m.push_back(e.first);
        walk(e.second, m);
      }
      return;
    }
    // an empty map is no key at all
    if (x.k == T::Map && x.map.empty()) return;
    found.push_back(!hit || !hit->allowed ? Configuration::Is::Invalid
                    : hit->deprecated     ? Configuration::Is::Deprecated
                                          : Configuration::Is::Valid);
  };
  walk(t, {});
  auto expect = Configuration::Is::Valid;
  for (auto s : found) {
    if (s == Configuration::Is::Invalid) expect = s;
    if (s == Configuration::Is::Deprecated &&
        expect == Configuration::Is::Valid)
      expect = s;
  }
  const std::string text = yaml(c, t);
  c.note() << text;
  Configuration cfg(text.c_str(), Configuration::InitializeFromYAMLString);
  const auto full = cfg.validate(), first = cfg.validate(false);
  const T after = from_yaml(YAML::Load(cfg.to_string()));
  cfg.clear();
  PBT_CHECK(c, full == expect,
            "validation gave " << static_cast<int>(full) << " instead of "
                               << static_cast<int>(expect));
  PBT_CHECK(c,
            std::count(found.begin(), found.end(), first) ||
                (found.empty() && first == Configuration::Is::Valid),
            "quick validation gives a state no key has");
  PBT_CHECK(c,
            (first == Configuration::Is::Valid) ==
                (expect == Configuration::Is::Valid),
            "quick and full validation contradict each other");
  PBT_CHECK(c, same_root(after, t), "validation changed the configuration");
  c.label(expect == Configuration::Is::Valid     ? "valid"
          : expect == Configuration::Is::Invalid ? "invalid"
                                                 : "deprecated");
  c.nontrivial(found.size() > 1);
}

// every input key: its default is what a missing key gives, what can be
// written, and what is read back
PBT_PROP(input_keys, 3000, 30000) {
  const auto &v = InputKeys::list[c.below(InputKeys::list.size())];
  std::visit(
      [&c](auto &&ref) {
        const auto &key = ref.get();
        using U = typename std::decay_t<decltype(key)>::type;
        const std::string name(key);
        c.note() << name;
        Configuration cfg("{}", Configuration::InitializeFromYAMLString);
        if constexpr (std::is_same_v<U, RestFrameDensityDerivativesMode>) {
          c.discard();  // a removed key of a type that is not read any more
        } else {
          U def;
          try {
            def = key.default_value();
          } catch (std::bad_optional_access &) {
            bool threw = false;
            try {
              cfg.take(key);
            } catch (std::invalid_argument &) {
              threw = true;
            }
            PBT_CHECK(c, threw,
                      "a missing key without default was given: " << name);
            PBT_CHECK(c, cfg.is_empty(), "taking left something: " << name);
            c.label(key.has_dependent_default() ? "dependent" : "mandatory");
            return;
          }
          PBT_CHECK(c, key.validate(def), "default is invalid: " << name);
          PBT_CHECK(c, cfg.take(key) == def, "default not given: " << name);
          PBT_CHECK(c, cfg.read(key) == def, "default not given: " << name);
          if constexpr (std::is_same_v<U, double> || std::is_same_v<U, int> ||
                        std::is_same_v<U, int64_t> ||
                        std::is_same_v<U, std::string> ||
                        std::is_same_v<U, std::vector<double>> ||
                        std::is_same_v<U, ReactionsBitSet> ||
                        std::is_same_v<U, MultiParticleReactionsBitSet> ||
                        std::is_same_v<U, FluidizableProcessesBitSet> ||
                        std::is_enum_v<U>) {
            cfg.set_value(key, def);
            c.label("written");
            c.nontrivial();
            PBT_CHECK(c, cfg.has_key(key), "value not set: " << name);
            // an empty text stands for no value
            if (!std::is_same_v<U, std::string>)
              PBT_CHECK(c, cfg.take(key) == def,
                        "default written is not the value read: " << name);
            cfg.clear();
          }
          c.label("default");
        }
      },
      v);
}

// files
PBT_PROP(files, 400, 10000) {
  const std::string dir = "/tmp/verif-p21-" + std::to_string(getpid());
  std::filesystem::create_directories(dir);
  struct Clean {
    std::string d;
    ~Clean() { std::filesystem::remove_all(d); }
  } clean{dir};
  const T t = root(c);
  std::string text = yaml(c, t);
  const auto kind = c.below(6);
  std::string name = c.flip() ? "config.yaml" : "other.yaml";
  if (kind == 1) {
    // Windows line endings
    if (text.find('\n') == std::string::npos) text += "\n";
    std::string w;
    for (char x : text)
      w += x == '\n' ? std::string("\r\n") : std::string(1, x);
    text = w;
  } else if (kind == 2) {
    text = "A:\n foo: 1\n  test: 1\n" + text;
  }
  std::ofstream(dir + "/" + name) << text;
  c.note() << text;
  std::string outcome = "read";
  T got;
  try {
    Configuration cfg =
        name == "config.yaml" && c.flip()
            ? Configuration(dir)
            : Configuration(dir, kind == 3 ? "missing.yaml" : name);
    got = from_yaml(YAML::Load(cfg.to_string()));
    cfg.clear();
  } catch (Configuration::FileDoesNotExist &) {
    outcome = "missing";
  } catch (Configuration::ParseError &) {
    outcome = "syntax";
  } catch (std::runtime_error &) {
    outcome = "refused";
  }
  const bool miss = kind == 3 && outcome == "missing";
  const std::string expect = kind == 1   ? "refused"
                             : kind == 2 ? "syntax"
                             : miss      ? "missing"
                                         : "read";
  PBT_CHECK(c, outcome == expect, outcome << " instead of " << expect);
  if (outcome == "read")
    PBT_CHECK(c, same_root(got, t), show(got) << " instead of " << show(t));
  c.label(outcome);
  c.nontrivial(outcome == "read" && t.map.size() > 1);
}

void pbt::setup() { kit::quiet(); }
void pbt::reset_case(uint64_t) {}
PBT_MAIN

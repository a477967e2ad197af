// Choice-sequence based property testing engine. See ../DESIGN.md.
#pragma once

#include <cmath>
#include <cstdint>
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace eng {

/// Thrown when an oracle rejects what the code under test did.
struct Fail
{
  std::string tag;  // names the oracle; shrinking keeps it fixed
  std::string msg;
};

/// Thrown when a generated case is outside the domain of the property.
struct Discard
{
  std::string why;
};

/// Source of all randomness of a case: a sequence of bounded choices.
class Src
{
public:
  /// fresh random case
  explicit Src(uint64_t seed) : rng_(seed ^ 0x9e3779b97f4a7c15ull), random_(true) {}
  /// replay of a recorded case; choices past the end are 0
  explicit Src(std::vector<uint64_t> forced) : forced_(std::move(forced)), random_(false) {}

  /// uniform choice in [0, n)
  uint64_t draw(uint64_t n)
  {
    uint64_t v = 0;
    if (n > 1) {
      if (random_) {
        v = next() % n;
      } else if (pos_ < forced_.size()) {
        v = forced_[pos_];
        if (v >= n) v = n - 1;
      }
    }
    ++pos_;
    record(v);
    return v;
  }

  /// integer in [lo, hi], shrinks to lo
  int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo) + 1)); }
  /// true with probability num/den, shrinks to false
  bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
  bool coin() { return draw(2) == 1; }

  /// index chosen by weight, shrinks to 0
  std::size_t weighted(std::initializer_list<unsigned> w)
  {
    uint64_t tot = 0;
    for (auto x : w) tot += x;
    uint64_t v    = draw(tot);
    std::size_t i = 0;
    for (auto x : w) {
      if (v < x) return i;
      v -= x;
      ++i;
    }
    return 0;
  }

  template<typename T>
  T pick(std::initializer_list<T> l)
  {
    return *(l.begin() + draw(l.size()));
  }

  /// small integer in [-k, k], shrinks to 0, then small magnitude
  int64_t small(int64_t k)
  {
    const uint64_t v = draw(2 * static_cast<uint64_t>(k) + 1);
    return (v & 1) ? static_cast<int64_t>((v + 1) / 2) : -static_cast<int64_t>(v / 2);
  }

  /// uniform real in [lo, hi] on a 2^20 grid, shrinks to lo
  double unif(double lo, double hi)
  {
    return lo + (hi - lo) * (static_cast<double>(draw((1u << 20) + 1)) / static_cast<double>(1u << 20));
  }
  /// real in [-s, s] with a mix of round and generic values, shrinks to 0
  double real(double s = 1)
  {
    switch (weighted({2, 3, 5})) {
    case 0: return s * static_cast<double>(small(2)) / 2.;
    case 1: return s * static_cast<double>(small(16)) / 16.;
    default: {
      const double v = static_cast<double>(draw(2u << 20)) / static_cast<double>(1u << 20);
      return v < 1 ? s * v : -s * (v - 1);
    }
    }
  }
  /// positive real, log-uniform in [lo, hi], shrinks to lo
  double logunif(double lo, double hi) { return lo * std::exp(unif(0, 1) * std::log(hi / lo)); }

  // ---- bookkeeping -------------------------------------------------------------
  /// count this case in a class
  void cls(const std::string & c) { ++classes[c]; }
  /// this case is non-trivial by the rule of the property
  void nontrivial() { is_nontrivial = true; }
  /// part of a human readable description of the case
  template<typename T>
  Src & note(const std::string & k, const T & v)
  {
    if (want_notes || notes.size() < 400) {
      std::ostringstream ss;
      ss.precision(17);
      ss << k << "=" << v << "; ";
      notes += ss.str();
      if (note_shm) {
        const auto n = std::min<std::size_t>(notes.size(), kNoteCap - 1);
        std::memcpy(note_shm, notes.data(), n);
        note_shm[n] = 0;
      }
    }
    return *this;
  }

  [[noreturn]] void fail(const std::string & tag, const std::string & msg) const { throw Fail{tag, msg}; }
  void require(bool ok, const std::string & tag, const std::string & msg) const
  {
    if (!ok) throw Fail{tag, msg};
  }
  template<typename F>
  void require(bool ok, const std::string & tag, const F & msg) const requires std::is_invocable_v<F>
  {
    if (!ok) throw Fail{tag, msg()};
  }
  [[noreturn]] void discard(const std::string & why) const { throw Discard{why}; }

  std::map<std::string, uint64_t> classes;
  std::string notes;
  bool is_nontrivial = false;
  bool want_notes    = false;
  std::vector<uint64_t> recorded;

  static inline uint64_t * shm      = nullptr;  // [0] = count, then choices
  static constexpr std::size_t kCap = 1u << 20;
  static inline char * note_shm     = nullptr;
  static constexpr std::size_t kNoteCap = 1u << 17;

private:
  void record(uint64_t v)
  {
    recorded.push_back(v);
    if (recorded.size() > kCap) throw Discard{"too many choices"};
    if (shm) {
      shm[recorded.size()] = v;
      shm[0]               = recorded.size();
    }
  }
  uint64_t next()
  {
    // splitmix64
    uint64_t z = (rng_ += 0x9e3779b97f4a7c15ull);
    z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z          = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint64_t rng_ = 0;
  std::vector<uint64_t> forced_;
  bool random_;
  std::size_t pos_ = 0;
};

using PropFn = std::function<void(Src &)>;

struct Prop
{
  std::string name;
  unsigned weight;  // relative share of the cases; 0: fixed example, run exactly once
  PropFn fn;
};

/// Registry of the (sub-)properties linked into a check.
std::vector<Prop> & props();

struct Reg
{
  Reg(const char * name, unsigned weight, PropFn fn) { props().push_back({name, weight, std::move(fn)}); }
};

/// Static description of a check, defined once per check.
struct CheckInfo
{
  const char * id;
  const char * rule;
  uint64_t quick_cases;
  uint64_t thorough_cases;
  std::vector<std::string> assumptions;
};
extern const CheckInfo check_info;

#define PROP_CAT2(a, b) a##b
#define PROP_CAT(a, b) PROP_CAT2(a, b)
/// PROP(name, weight) { body using Src & s }
#define PROP(NAME, WEIGHT)                                                                         \
  static void PROP_CAT(prop_, NAME)(eng::Src &);                                                   \
  static const eng::Reg PROP_CAT(reg_, NAME)(#NAME, WEIGHT, PROP_CAT(prop_, NAME));                \
  static void PROP_CAT(prop_, NAME)([[maybe_unused]] eng::Src & s)

template<typename... T>
std::string cat(const T &... t)
{
  std::ostringstream ss;
  ss.precision(17);
  (ss << ... << t);
  return ss.str();
}

}  // namespace eng

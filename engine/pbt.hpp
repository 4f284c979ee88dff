// Small property-based-testing engine: every random decision of a property is
// one integer drawn from a Src ("choice sequence").  The same property function
// is driven by (1) a seeded PRNG, (2) a recorded choice list (replay/shrink) and
// (3) the bytes of a libFuzzer input.
#pragma once
#include <cinttypes>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vp {

// thrown by a property when its oracle disagrees with the code
struct Failure : std::exception {
  std::string msg;
  explicit Failure(std::string m) : msg(std::move(m)) {}
  const char *what() const noexcept override { return msg.c_str(); }
};
// thrown when a choice sequence does not describe a usable case
struct Discard {};

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}

class Src {
public:
  enum Mode { RANDOM, REPLAY, BYTES };
  explicit Src(uint64_t seed) : mode_(RANDOM), s_(mix(seed)) {}
  explicit Src(std::vector<uint64_t> choices)
      : mode_(REPLAY), in_(std::move(choices)) {}
  Src(const uint8_t *d, size_t n) : mode_(BYTES), d_(d), n_(n) {}

  // uniform in [0, bound]; shrinks towards 0
  uint64_t draw(uint64_t bound) {
    uint64_t v = 0;
    if (rec.size() >= kMaxChoices)
      throw Discard();
    if (bound == 0)
      return 0;
    switch (mode_) {
    case RANDOM:
      v = bound == UINT64_MAX ? next() : next() % (bound + 1);
      break;
    case REPLAY:
      v = pos_ < in_.size() ? in_[pos_++] : 0;
      if (v > bound)
        v = bound;
      break;
    case BYTES: {
      int nb = bound < 256 ? 1 : bound < 65536 ? 2 : bound <= 0xffffffffULL ? 4 : 8;
      for (int i = 0; i < nb; i++) {
        v = (v << 8) | (pos_ < n_ ? d_[pos_] : 0);
        if (pos_ < n_)
          pos_++;
      }
      if (bound != UINT64_MAX)
        v %= bound + 1;
      break;
    }
    }
    rec.push_back(v);
    if (mirror) { // survives a crash of this process
      mirror[rec.size()] = v;
      mirror[0] = rec.size();
    }
    return v;
  }
  bool exhausted() const {
    return mode_ == BYTES ? pos_ >= n_ : mode_ == REPLAY ? pos_ >= in_.size() : false;
  }
  std::vector<uint64_t> rec;
  uint64_t *mirror = nullptr;
  static constexpr size_t kMaxChoices = 400000;

private:
  uint64_t next() {
    s_ += 0x9e3779b97f4a7c15ULL;
    uint64_t x = s_;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
  }
  Mode mode_;
  uint64_t s_ = 0;
  std::vector<uint64_t> in_;
  size_t pos_ = 0;
  const uint8_t *d_ = nullptr;
  size_t n_ = 0;
};

class Case {
public:
  Case(Src &s, bool verbose) : src(s), verbose(verbose) {}
  Src &src;
  bool verbose;
  bool nontrivial = false;
  std::map<std::string, uint64_t> labels;
  std::ostringstream desc;

  // ---- draws -------------------------------------------------------------
  uint64_t below(uint64_t n) { return n <= 1 ? 0 : src.draw(n - 1); }
  int range(int lo, int hi) { return lo + (int)src.draw((uint64_t)(hi - lo)); }
  // true with probability pct/100; shrinks to false
  bool chance(int pct) { return src.draw(99) >= (uint64_t)(100 - pct); }
  bool one_in(int n) { return src.draw((uint64_t)n - 1) == (uint64_t)n - 1; }
  // weighted index; shrinks to the first
  size_t weighted(std::initializer_list<int> w) {
    int t = 0;
    for (int x : w)
      t += x;
    int v = (int)src.draw(t - 1);
    size_t i = 0;
    for (int x : w) {
      if (v < x)
        return i;
      v -= x;
      i++;
    }
    return 0;
  }
  template <class T> const T &pick(const std::vector<T> &v) {
    return v[below(v.size())];
  }
  double unit() { return (double)src.draw((1ULL << 53) - 1) / (double)(1ULL << 53); }
  // real number in [-mag, mag]; many shapes; shrinks to 0
  double real(double mag) {
    switch (weighted({14, 20, 6, 60})) {
    case 0:
      return 0.0;
    case 1: { // short decimals
      int k = range(0, 40);
      double v = (k + 1) / 2 * 0.1 * (k % 2 ? 1 : -1);
      return std::fmax(-mag, std::fmin(mag, v));
    }
    case 2: { // small magnitudes
      double e = std::pow(10.0, -(double)range(1, chance(70) ? 6 : 14));
      return (chance(50) ? -e : e) * mag * unit();
    }
    default: {
      double u = unit();
      return (chance(50) ? -u : u) * mag;
    }
    }
  }
  // an angle; special values and full turns included
  double angle() {
    static const double P = 3.14159265358979323846;
    switch (weighted({12, 20, 51, 7, 3, 7})) {
    case 0:
      return 0.0;
    case 1: {
      int k = range(0, 16);
      return ((k + 1) / 2) * (P / 4) * (k % 2 ? 1 : -1);
    }
    case 2:
      return (chance(50) ? -1 : 1) * unit() * P;
    case 3:
      return (chance(50) ? -1 : 1) * unit() * 4 * P;
    case 5: { // close to a special value
      int k = chance(50) ? 0 : range(0, 16);
      double e = std::pow(10.0, -(double)range(1, chance(70) ? 7 : 14)) * (1 + 9 * unit());
      return ((k + 1) / 2) * (P / 4) * (k % 2 ? 1 : -1) + (chance(50) ? -e : e);
    }
    default:
      return (chance(50) ? -1 : 1) * unit() * 300;
    }
  }
  // list length: geometric-ish via size classes; shrinks to lo
  int size(int lo, int hi) { return range(lo, hi); }
  template <class T> void shuffle(std::vector<T> &v) {
    for (size_t i = v.size(); i > 1; i--)
      std::swap(v[i - 1], v[i - 1 - below(i)]);
  }

  // ---- bookkeeping ---------------------------------------------------------
  void label(const std::string &l) { labels[l]++; }
  template <class... A> void note(const A &... a) {
    if (!verbose)
      return;
    int dummy[] = {0, ((void)(desc << a), 0)...};
    (void)dummy;
    desc << "\n";
  }
  [[noreturn]] void fail(const std::string &m) { throw Failure(m); }
  void check(bool ok, const std::string &m) {
    if (!ok)
      fail(m);
  }
  void near(double a, double b, double tol, const char *what) {
    if (!(std::fabs(a - b) <= tol)) {
      char buf[256];
      snprintf(buf, sizeof buf, "%s: got %.17g, expected %.17g (tol %.3g)", what, a, b, tol);
      fail(buf);
    }
  }
};

struct Prop {
  const char *id;
  const char *rule;            // how cases are made, what makes one non-trivial
  void (*fn)(Case &);
  uint64_t quick_cases;
  uint64_t thorough_cases;
  double cpu_limit_s;          // per case; a case normally takes milliseconds
  // optional: how raw fuzzer bytes become choices (default: byte-wise draws)
  std::vector<uint64_t> (*from_bytes)(const uint8_t *, size_t);
};

const Prop &the_prop(); // defined by each property file

} // namespace vp

#define VP_PROP(ID, RULE, FN, QUICK, THOROUGH, CPU) VP_PROP_B(ID, RULE, FN, QUICK, THOROUGH, CPU, nullptr)
#define VP_PROP_B(ID, RULE, FN, QUICK, THOROUGH, CPU, FB)                          \
  namespace vp {                                                               \
  const Prop &the_prop() {                                                     \
    static const Prop p{ID, RULE, FN, QUICK, THOROUGH, CPU, FB};                   \
    return p;                                                                  \
  }                                                                            \
  }

// A small property-based testing engine.
//
// A case is a tape: the sequence of choices its generator drew. Random search records tapes,
// shrinking edits them, a replay file is one of them. Every random choice of a case is on its tape
// (the seeds given to the code under test too), so that a case is a pure function of the tape and
// the code. Cases run in forked workers: a crash, a sanitizer report or a case that does not end is
// a failure of that case like any other.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt
{
struct Failure : public std::runtime_error { using std::runtime_error::runtime_error; };
struct Discard {};

struct TapeBuffer
{
  static constexpr size_t capacity = 1 << 21;
  volatile size_t count;
  uint64_t value[capacity];
};

class Case
{
public:
  // Random: draw from a generator seeded with `seed`. Replay: read `given`, then zeros.
  Case(TapeBuffer * record, uint64_t seed) : rec_(record), state_(seed) { rec_->count = 0; }
  Case(TapeBuffer * record, const std::vector<uint64_t> & given)
  : rec_(record), given_(&given) { rec_->count = 0; }

  // ---- choices; a choice of 0 is the simplest
  uint64_t below(uint64_t bound);                          // [0, bound)
  int64_t range(int64_t lo, int64_t hi)                    // [lo, hi], simplest lo
  {
    return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo) + 1));
  }
  bool rare(unsigned one_in) { return below(one_in) == one_in - 1; }       // simplest false
  bool chance(unsigned percent) { return below(100) >= 100 - percent; }   // simplest false
  double unit() { return below(1ull << 53) * 0x1p-53; }                    // [0, 1)
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  // A number in [-m, m]: zero, a round value, or any value
  double coord(double m);
  double angle();                 // any heading: special values, (-pi, pi], beyond +-pi
  double heading();               // [-pi, pi)
  // Sizes: mostly small, sometimes up to max
  size_t size(size_t max);
  uint64_t seed() { return below(~0ull); }
  template <typename T> const T & pick(const std::vector<T> & v) { return v[below(v.size())]; }
  // Indices by weight
  size_t weighted(std::initializer_list<unsigned> w);

  // ---- what the case was
  void label(const std::string & l) { ++labels_[l]; }
  void nontrivial() { nontrivial_ = true; }
  std::ostringstream note;        // the case, written out
  bool is_nontrivial() const { return nontrivial_; }
  const std::map<std::string, unsigned> & labels() const { return labels_; }
  size_t draws() const { return rec_->count; }
  uint64_t hash() const;
  std::vector<uint64_t> tape() const { return std::vector<uint64_t>(rec_->value, rec_->value + rec_->count); }

private:
  uint64_t next();
  TapeBuffer * rec_;
  uint64_t state_ = 0;
  const std::vector<uint64_t> * given_ = nullptr;
  std::map<std::string, unsigned> labels_;
  bool nontrivial_ = false;
};

struct Test
{
  std::string property, name, rule;
  long quick, thorough;           // cases
  void (*run)(Case &);
};
std::vector<Test> & tests();
struct Register
{
  Register(const char * p, const char * n, long q, long t, const char * rule, void (*f)(Case &))
  {
    tests().push_back({p, n, rule, q, t, f});
  }
};

inline std::string str(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }
inline std::string shortstr(double v) { char b[40]; snprintf(b, sizeof b, "%.6g", v); return b; }
[[noreturn]] inline void fail(const std::string & m) { throw Failure(m); }
// |a - b| <= tol, and both finite
inline bool near(double a, double b, double tol) { return std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= tol; }
}  // namespace pbt

// PBT_TEST(property, name, quick cases, thorough cases, non-triviality rule) { body using `c` }
#define PBT_TEST(prop, name, quick, thorough, rule) \
  static void test_##prop##_##name(pbt::Case & c); \
  static pbt::Register reg_##prop##_##name(#prop, #name, quick, thorough, rule, &test_##prop##_##name); \
  static void test_##prop##_##name([[maybe_unused]] pbt::Case & c)

// glog, which the solver's header brings along, has its own
#undef CHECK
#undef CHECK_NEAR
#define CHECK(cond, ...) \
  do { if (!(cond)) { std::ostringstream pbt_ss; pbt_ss.precision(17); \
      pbt_ss __VA_OPT__(<<) __VA_ARGS__; pbt::fail(pbt_ss.str() + "  [" #cond "]"); } } while (0)
#define CHECK_NEAR(a, b, tol, ...) \
  do { double pbt_a = (a), pbt_b = (b), pbt_t = (tol); \
    if (!pbt::near(pbt_a, pbt_b, pbt_t)) { std::ostringstream pbt_ss; pbt_ss.precision(17); \
      pbt_ss __VA_OPT__(<<) __VA_ARGS__; \
      pbt::fail(pbt_ss.str() + "  [" #a " = " + pbt::str(pbt_a) + ", " #b " = " + pbt::str(pbt_b) + \
                ", tolerance " + pbt::str(pbt_t) + "]"); } } while (0)

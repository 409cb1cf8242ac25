// A small property-based testing engine: choice-tape generators, crash isolation,
// integrated shrinking, replay files and evidence.
//
// A check ("sub") is a function of a choice source. Every random decision is a draw
// from the source, which records it on a tape. A failing tape is shrunk (blocks
// deleted, values minimised) while the failure persists, and saved as the replay file.
// Cases run in forked workers, so an assertion exit, a crash, a sanitizer report or a
// hang of the code under test is observed as the failure of one case.
#pragma once

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt
{

struct Fail {
  std::string msg;
};
struct Discard {
};

class Src
{
public:
  // Uniform in [0, n). 0 is the simplest choice.
  auto
  below(uint64_t n) -> uint64_t;

  auto
  range(int64_t lo, int64_t hi) -> int64_t // inclusive, shrinks to lo
  {
    return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo) + 1));
  }
  auto
  irange(int lo, int hi) -> int
  {
    return static_cast<int>(range(lo, hi));
  }
  // Skewed to small values: half of the draws are in the lower quarter.
  auto
  size(int lo, int hi) -> int
  {
    int const span = hi - lo;
    if (span <= 0) {
      return lo;
    }
    if (below(2) == 0) {
      return lo + static_cast<int>(below(static_cast<uint64_t>(span / 4 + 1)));
    }
    return lo + static_cast<int>(below(static_cast<uint64_t>(span) + 1));
  }
  auto
  coin() -> bool
  {
    return below(2) == 1;
  }
  auto
  oneIn(uint64_t n) -> bool // true once in n; shrinks to false
  {
    return below(n) == n - 1;
  }
  auto
  bits() -> uint64_t
  {
    return below(0);
  }
  // Fine uniform in [0, 1)
  auto
  unit() -> double
  {
    return static_cast<double>(below(uint64_t(1) << 53)) * 0x1p-53;
  }
  // Mixture: coarse fractions of the interval (shrinks to those) and fine uniform.
  auto
  real(double lo, double hi) -> double
  {
    if (below(4) == 0) {
      return lo + (hi - lo) * static_cast<double>(below(17)) / 16;
    }
    return lo + (hi - lo) * unit();
  }
  // Fine uniform only
  auto
  fine(double lo, double hi) -> double
  {
    return lo + (hi - lo) * unit();
  }
  // Log-uniform magnitude in [10^lo, 10^hi]
  auto
  mag(double lo, double hi) -> double
  {
    return std::pow(10.0, real(lo, hi));
  }
  auto
  sign() -> double
  {
    return coin() ? -1.0 : 1.0;
  }
  template <class T>
  auto
  pick(std::vector<T> const & v) -> T
  {
    return v[below(v.size())];
  }
  // A random permutation of 0..n-1; shrinks to the identity.
  auto
  perm(int n) -> std::vector<int>
  {
    std::vector<int> p(static_cast<size_t>(n));
    for (int i = 0; i < n; ++i) {
      p[static_cast<size_t>(i)] = i;
    }
    for (int i = 0; i + 1 < n; ++i) {
      auto const j = static_cast<size_t>(i) + below(static_cast<uint64_t>(n - i));
      std::swap(p[static_cast<size_t>(i)], p[j]);
    }
    return p;
  }

  // engine side
  uint64_t * tape = nullptr;
  size_t cap = 0;
  size_t len = 0;      // draws made
  size_t given = 0;    // length of the tape being replayed
  bool replay = false; // replaying `given` values; further draws are 0
  std::mt19937_64 * rng = nullptr;
  uint64_t volatile * shared_len = nullptr;
};

class Case
{
public:
  std::ostringstream desc; // human readable case
  std::string scratch;     // scratch directory of this worker (created on request)
  bool is_nontrivial = false;
  bool replaying = false;
  std::vector<std::string> labels;
  std::vector<std::string> knowns;
  uint64_t extra_evals = 0;

  void
  nontrivial(bool b = true)
  {
    is_nontrivial = is_nontrivial || b;
  }
  void
  label(std::string const & l)
  {
    labels.push_back(l);
  }
  // Record an occurrence of a listed known finding; unlisted keys are failures.
  void
  known(std::string const & key, std::string const & msg);
  // Scratch directory private to this worker
  auto
  dir() -> std::string const &;
};

[[noreturn]] inline void
fail(std::string const & m)
{
  throw Fail{m};
}

inline void
discardUnless(bool b)
{
  if (!b) {
    throw Discard{};
  }
}

using Body = std::function<void(Src &, Case &)>;

struct Sub {
  std::string name;
  int quick_n;
  int thorough_n;
  std::string rule;
  Body body;
  double hang_s;
};

auto
subs() -> std::vector<Sub> &;

struct Reg {
  Reg(char const * name, int quick_n, int thorough_n, char const * rule, Body body,
      double hang_s = 90)
  {
    subs().push_back({name, quick_n, thorough_n, rule, std::move(body), hang_s});
  }
};

struct Options {
  bool leak_check = false;
  double quick_cap_s = 100;
  double thorough_cap_s = 700;
  std::function<void()> worker_init; // run once in each worker
  std::vector<std::string> assumptions;
  int max_workers = 0;
};

auto
run(char const * property, char const * rule, Options const & opt, int argc, char ** argv)
    -> int;

template <class... A>
auto
cat(A const &... a) -> std::string
{
  std::ostringstream os;
  os.precision(17);
  ((os << a), ...);
  return os.str();
}

template <class V>
auto
show(V const & v) -> std::string
{
  std::ostringstream os;
  os.precision(17);
  os << '[';
  bool first = true;
  for (auto const & x : v) {
    if (!first) {
      os << ", ";
    }
    first = false;
    os << +x;
  }
  os << ']';
  return os.str();
}

// |a - b| <= abs_tol + rel * max(|a|, |b|); NaN never equal
inline auto
near(double a, double b, double rel, double abs_tol = 0) -> bool
{
  if (!std::isfinite(a) || !std::isfinite(b)) {
    return a == b;
  }
  double const m = std::max(std::fabs(a), std::fabs(b));
  return std::fabs(a - b) <= abs_tol + rel * m;
}

} // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b)  PBT_CAT2(a, b)

// Define a check: PBT_SUB(name, quick_n, thorough_n, rule) { body using s, c }
#define PBT_SUB(name, quick_n, thorough_n, rule)                                         \
  static void PBT_CAT(pbt_body_, name)(pbt::Src & s, pbt::Case & c);                     \
  static pbt::Reg const PBT_CAT(pbt_reg_, name)(#name, quick_n, thorough_n, rule,        \
                                                PBT_CAT(pbt_body_, name));               \
  static void PBT_CAT(pbt_body_, name)([[maybe_unused]] pbt::Src & s,                    \
                                       [[maybe_unused]] pbt::Case & c)

#define REQUIRE(cond, ...)                                                               \
  do {                                                                                   \
    if (!(cond)) {                                                                       \
      pbt::fail(pbt::cat(#cond, " | ", ##__VA_ARGS__));                                  \
    }                                                                                    \
  } while (false)

// C05: sorting, permutation, range and statistics helpers agree with their definitions.
// Oracle: the C++ standard library, and the defining sums in extended precision.
#include "pbt.hpp"

#include <um2/common/branchless_sort.hpp>
#include <um2/common/insertion_sort.hpp>
#include <um2/common/permutation.hpp>
#include <um2/math/stats.hpp>
#include <um2/stdlib/algorithm/clamp.hpp>
#include <um2/stdlib/algorithm/copy.hpp>
#include <um2/stdlib/algorithm/equal.hpp>
#include <um2/stdlib/algorithm/fill.hpp>
#include <um2/stdlib/algorithm/is_sorted.hpp>
#include <um2/stdlib/algorithm/lexicographical_compare.hpp>
#include <um2/stdlib/algorithm/max.hpp>
#include <um2/stdlib/algorithm/max_element.hpp>
#include <um2/stdlib/algorithm/min.hpp>
#include <um2/stdlib/numeric/iota.hpp>
#include <um2/stdlib/string.hpp>

#include <algorithm>
#include <limits>
#include <memory>
#include <numeric>
#include <string>
#include <type_traits>

namespace
{

template <class T>
auto
genArray(pbt::Src & s, int n) -> std::vector<T>
{
  std::vector<T> v(static_cast<size_t>(n));
  auto const mode = s.below(5);
  double const scale = std::is_same_v<T, float> ? s.mag(-10, 10) : s.mag(-60, 60);
  for (auto & x : v) {
    if (mode == 0) {
      x = static_cast<T>(s.below(4)); // many duplicates
    } else if constexpr (std::is_floating_point_v<T>) {
      x = static_cast<T>(mode == 1 ? scale * s.sign() * s.unit()
                                   : static_cast<double>(s.irange(-50, 50)) / 4);
    } else {
      x = static_cast<T>(mode == 1 ? s.bits() : static_cast<uint64_t>(s.irange(-50, 50)));
    }
  }
  if (mode == 3) {
    std::sort(v.begin(), v.end());
  } else if (mode == 4) {
    std::sort(v.begin(), v.end(), std::greater<>());
  }
  return v;
}

// Exactly sized heap copy: any access beyond it is a sanitizer report.
template <class T>
struct Exact {
  std::unique_ptr<T[]> p;
  size_t n;
  explicit Exact(std::vector<T> const & v) : p(new T[v.size()]), n(v.size())
  {
    std::copy(v.begin(), v.end(), p.get());
  }
  auto
  vec() const -> std::vector<T>
  {
    return {p.get(), p.get() + n};
  }
};

template <class T>
void
sorts(pbt::Src & s, pbt::Case & c)
{
  {
    auto const v = genArray<T>(s, 4);
    c.desc << pbt::show(v) << " ";
    auto w3 = v;
    um2::sort3(&w3[0], &w3[1], &w3[2]);
    auto e3 = v;
    std::sort(e3.begin(), e3.begin() + 3);
    REQUIRE(w3 == e3, "3-sort of ", pbt::show(v), " gave ", pbt::show(w3));
    auto w4 = v;
    um2::sort4(&w4[0], &w4[1], &w4[2], &w4[3]);
    auto e4 = v;
    std::sort(e4.begin(), e4.end());
    REQUIRE(w4 == e4, "4-sort of ", pbt::show(v), " gave ", pbt::show(w4));
  }
  int const n = s.oneIn(150) ? s.irange(61, 2500) : s.size(0, 60);
  auto const v = genArray<T>(s, n);
  c.desc << pbt::show(v);
  c.nontrivial(n >= 3 && !std::is_sorted(v.begin(), v.end()));
  Exact<T> x(v);
  um2::insertionSort(x.p.get(), x.p.get() + n);
  auto e = v;
  std::sort(e.begin(), e.end());
  REQUIRE(x.vec() == e, "insertion sort gave ", pbt::show(x.vec()));
  REQUIRE(um2::is_sorted(v.data(), v.data() + n) == std::is_sorted(v.begin(), v.end()),
          "is_sorted");
  REQUIRE(um2::is_sorted(e.data(), e.data() + n), "is_sorted of a sorted array");
  // sorting permutation
  Exact<Int> perm(std::vector<Int>(static_cast<size_t>(n), -5));
  um2::sortPermutation(v.data(), v.data() + n, perm.p.get());
  std::vector<bool> seen(static_cast<size_t>(n), false);
  for (int i = 0; i < n; ++i) {
    Int const k = perm.p[static_cast<size_t>(i)];
    REQUIRE(k >= 0 && k < n && !seen[static_cast<size_t>(k)], "not a permutation: ",
            pbt::show(perm.vec()));
    seen[static_cast<size_t>(k)] = true;
    REQUIRE(v[static_cast<size_t>(k)] == e[static_cast<size_t>(i)],
            "permutation does not sort, position ", i);
  }
  Exact<T> y(v);
  um2::applyPermutation(y.p.get(), y.p.get() + n, perm.p.get());
  REQUIRE(y.vec() == e, "applying the sorting permutation gave ", pbt::show(y.vec()));
}

PBT_SUB(permutations, 60000, 1000000, "a permutation of at least 3 that is not the identity")
{
  int const n = s.oneIn(150) ? s.irange(61, 2500) : s.size(0, 60);
  auto const p = s.perm(n);
  std::vector<Int> const perm(p.begin(), p.end());
  c.desc << pbt::show(perm);
  std::vector<Int> id(perm.size());
  std::iota(id.begin(), id.end(), 0);
  c.nontrivial(n >= 3 && perm != id);
  Exact<Int> ep(perm);
  // gather: result[i] = value[perm[i]]
  std::vector<double> val(perm.size());
  for (auto & v : val) {
    v = s.real(0, 1);
  }
  std::vector<double> want(perm.size());
  for (size_t i = 0; i < perm.size(); ++i) {
    want[i] = val[static_cast<size_t>(perm[i])];
  }
  Exact<double> a(val);
  um2::applyPermutation(a.p.get(), a.p.get() + n, ep.p.get());
  REQUIRE(a.vec() == want, "applied permutation gave ", pbt::show(a.vec()), " expected ",
          pbt::show(want));
  REQUIRE(ep.vec() == perm, "the permutation itself changed");
  Exact<Int> inv(std::vector<Int>(perm.size(), -3));
  um2::invertPermutation(ep.p.get(), ep.p.get() + n, inv.p.get());
  for (size_t i = 0; i < perm.size(); ++i) {
    REQUIRE(inv.p[static_cast<size_t>(perm[i])] == static_cast<Int>(i),
            "inverse is wrong at ", i, ": ", pbt::show(inv.vec()));
  }
  um2::applyPermutation(a.p.get(), a.p.get() + n, inv.p.get());
  REQUIRE(a.vec() == val, "applying the inverse does not restore the input");
  Exact<Int> io(std::vector<Int>(perm.size(), -3));
  Int const start = s.irange(-5, 5);
  um2::iota(io.p.get(), io.p.get() + n, start);
  for (int i = 0; i < n; ++i) {
    REQUIRE(io.p[static_cast<size_t>(i)] == start + i, "iota at ", i);
  }
}

template <class T>
void
ranges(pbt::Src & s, pbt::Case & c)
{
  auto const a = genArray<T>(s, s.oneIn(200) ? s.irange(41, 2500) : s.size(0, 40));
  auto b = s.coin() ? a : genArray<T>(s, s.oneIn(200) ? s.irange(41, 2500) : s.size(0, 40));
  if (!b.empty() && s.coin()) {
    b[s.below(b.size())] = static_cast<T>(s.below(3));
  }
  if (s.oneIn(3)) {
    b.resize(s.below(b.size() + 1));
  }
  c.desc << pbt::show(a) << pbt::show(b);
  c.nontrivial(a.size() >= 2 && b.size() >= 2);
  Exact<T> ea(a);
  Exact<T> eb(b);
  T const * const pa = ea.p.get();
  T const * const pb = eb.p.get();
  REQUIRE(um2::lexicographical_compare(pa, pa + a.size(), pb, pb + b.size()) ==
              std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()),
          "lexicographical order");
  REQUIRE(um2::lexicographical_compare(pb, pb + b.size(), pa, pa + a.size()) ==
              std::lexicographical_compare(b.begin(), b.end(), a.begin(), a.end()),
          "lexicographical order");
  auto const m = std::min(a.size(), b.size());
  REQUIRE(um2::equal(pa, pa + m, pb) == std::equal(a.begin(), a.begin() + m, b.begin()),
          "equal");
  REQUIRE(um2::max_element(pa, pa + a.size()) - pa ==
              std::max_element(a.begin(), a.end()) - a.begin(),
          "max_element");
  if (m > 0) {
    T const x = a[s.below(a.size())];
    T const y = b[s.below(b.size())];
    REQUIRE(um2::min(x, y) == std::min(x, y) && um2::max(x, y) == std::max(x, y),
            "min/max");
    T const z = a[s.below(a.size())];
    T const lo = std::min(x, y);
    T const hi = std::max(x, y);
    REQUIRE(um2::clamp(z, lo, hi) == std::clamp(z, lo, hi), "clamp of ", z, " to ", lo,
            ",", hi);
  }
  // fill a sub-range
  {
    Exact<T> f(a);
    auto const i0 = s.below(a.size() + 1);
    auto const i1 = i0 + s.below(a.size() - i0 + 1);
    um2::fill(f.p.get() + i0, f.p.get() + i1, T(7));
    auto w = a;
    std::fill(w.begin() + static_cast<int64_t>(i0), w.begin() + static_cast<int64_t>(i1), T(7));
    REQUIRE(f.vec() == w, "fill [", i0, ",", i1, ")");
  }
  // copy between disjoint parts of one array, in either direction, including adjacent
  {
    Exact<T> f(a);
    auto const len = s.below(a.size() / 2 + 1);
    auto const lo = s.below(a.size() - 2 * len + 1);
    auto const hi = lo + len + s.below(a.size() - 2 * len - lo + 1);
    bool const up = s.coin();
    auto const from = up ? lo : hi;
    auto const to = up ? hi : lo;
    c.desc << " copy " << len << " from " << from << " to " << to;
    auto const r = um2::copy(f.p.get() + from, f.p.get() + from + len, f.p.get() + to);
    REQUIRE(r == f.p.get() + to + len, "copy returned the wrong end");
    auto w = a;
    for (size_t i = 0; i < len; ++i) {
      w[to + i] = a[from + i];
    }
    REQUIRE(f.vec() == w, "copy");
  }
}

template <class T>
void
statistics(pbt::Src & s, pbt::Case & c)
{
  int const n = s.oneIn(6) ? s.irange(120, 1100) : s.size(1, 50);
  std::vector<T> v(static_cast<size_t>(n));
  double const off = s.below(3) == 0 ? 0.0 : s.sign() * s.mag(-3, 4);
  double const spread = s.mag(-3, 4);
  bool const constant = s.oneIn(10);
  double const k = s.real(-1, 1);
  bool const lattice = s.oneIn(4);
  for (auto & x : v) {
    x = static_cast<T>(off + spread * (constant  ? k
                                       : lattice ? static_cast<double>(s.irange(-2, 2))
                                                 : s.fine(-1, 1)));
  }
  c.desc << "n=" << n << " offset=" << off << " spread=" << spread << " first=" << v[0];
  c.nontrivial(n >= 3 && !constant);
  long double sum = 0;
  long double sabs = 0;
  for (T const x : v) {
    sum += x;
    sabs += std::abs(x);
  }
  auto const eps = static_cast<long double>(std::numeric_limits<T>::epsilon());
  Exact<T> e(v);
  T const * const b = e.p.get();
  auto const got = static_cast<long double>(um2::sum(b, b + n));
  REQUIRE(std::abs(got - sum) <= n * eps * sabs, "sum ", double(got), " expected ",
          double(sum));
  long double const mean = sum / n;
  auto const gm = static_cast<long double>(um2::mean(b, b + n));
  REQUIRE(std::abs(gm - mean) <= (n + 2) * eps * sabs / n, "mean ", double(gm),
          " expected ", double(mean));
  if (n > 1) {
    long double m2 = 0;
    long double amax = 0;
    for (T const x : v) {
      m2 += (x - mean) * (x - mean);
      amax = std::max(amax, std::abs(static_cast<long double>(x)));
    }
    long double const var = m2 / (n - 1);
    long double const kappa = var > 0 ? std::sqrt(1 + mean * mean / var) : 1;
    long double const small = 16 * n * eps * amax;
    long double const tol = 16 * n * eps * kappa * var + small * small;
    auto const gv = static_cast<long double>(um2::variance(b, b + n));
    REQUIRE(std::abs(gv - var) <= tol, "variance ", double(gv), " expected ", double(var),
            " tolerance ", double(tol));
    auto const gs = static_cast<long double>(um2::stdDev(b, b + n));
    REQUIRE(std::abs(gs - std::sqrt(gv)) <= 4 * eps * gs, "standard deviation ",
            double(gs), " expected ", double(std::sqrt(gv)));
    REQUIRE(gs >= 0, "negative standard deviation");
  }
  std::sort(v.begin(), v.end());
  Exact<T> se(v);
  auto const gmed = static_cast<long double>(um2::median(se.p.get(), se.p.get() + n));
  auto const h = static_cast<size_t>(n / 2);
  long double const med =
      n % 2 == 1 ? v[h] : (static_cast<long double>(v[h]) + v[h - 1]) / 2;
  REQUIRE(std::abs(gmed - med) <= 2 * eps * (std::abs(v[h]) + std::abs(n > 1 ? v[h - 1] : v[h])),
          "median ", double(gmed), " expected ", double(med));
  // whole numbers add exactly
  std::vector<Int> w(static_cast<size_t>(n));
  int64_t ws = 0;
  for (auto & x : w) {
    x = s.irange(-1000, 1000);
    ws += x;
  }
  Exact<Int> ew(w);
  REQUIRE(um2::sum(ew.p.get(), ew.p.get() + n) == ws, "whole number sum");
}

pbt::Reg const r1("sorts", 120000, 1000000, "array of at least 3, not already sorted",
                  [](pbt::Src & s, pbt::Case & c) {
                    switch (s.below(5)) {
                    case 0:
                      return sorts<int32_t>(s, c);
                    case 1:
                      return sorts<double>(s, c);
                    case 2:
                      return sorts<float>(s, c);
                    case 3:
                      return sorts<uint64_t>(s, c);
                    default:
                      return sorts<int8_t>(s, c);
                    }
                  });
pbt::Reg const r2("ranges", 120000, 1000000, "both arrays have at least 2 elements",
                  [](pbt::Src & s, pbt::Case & c) {
                    switch (s.below(3)) {
                    case 0:
                      return ranges<int32_t>(s, c);
                    case 1:
                      return ranges<double>(s, c);
                    default:
                      return ranges<int8_t>(s, c);
                    }
                  });
pbt::Reg const r3("statistics", 80000, 600000, "at least 3 values, not all equal",
                  [](pbt::Src & s, pbt::Case & c) {
                    if (s.coin()) {
                      return statistics<float>(s, c);
                    }
                    return statistics<double>(s, c);
                  });

} // namespace

auto
main(int argc, char ** argv) -> int
{
  pbt::Options o;
  o.assumptions = {
      "median is given sorted data, variance at least two values (documented)",
      "sum and mean are allowed the error of any summation order, n*eps*sum|x|; variance "
      "the error of a stable one-pass or two-pass algorithm, 16*n*eps*condition"};
  return pbt::run("C05", "random arrays with duplicates, sorted and reversed runs, extreme "
                         "magnitudes and every small length",
                  o, argc, argv);
}

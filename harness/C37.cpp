// C37: the library's own standard building blocks.
// Oracle: the C++ standard library on the same arguments; elementary functions in long
// double, with the result allowed a few units in its last place; colours from the SVG table.
#include "pbt.hpp"

#include <um2/common/cast_if_not.hpp>
#include <um2/common/color.hpp>
#include <um2/stdlib/algorithm/clamp.hpp>
#include <um2/stdlib/algorithm/copy.hpp>
#include <um2/stdlib/algorithm/equal.hpp>
#include <um2/stdlib/algorithm/fill.hpp>
#include <um2/stdlib/algorithm/is_sorted.hpp>
#include <um2/stdlib/algorithm/lexicographical_compare.hpp>
#include <um2/stdlib/algorithm/max.hpp>
#include <um2/stdlib/algorithm/max_element.hpp>
#include <um2/stdlib/algorithm/min.hpp>
#include <um2/stdlib/cstring/memcmp.hpp>
#include <um2/stdlib/cstring/strlen.hpp>
#include <um2/stdlib/math/abs.hpp>
#include <um2/stdlib/math/copysign.hpp>
#include <um2/stdlib/math/exponential_functions.hpp>
#include <um2/stdlib/math/fma.hpp>
#include <um2/stdlib/math/hyperbolic_functions.hpp>
#include <um2/stdlib/math/inverse_hyperbolic_functions.hpp>
#include <um2/stdlib/math/inverse_trigonometric_functions.hpp>
#include <um2/stdlib/math/logarithms.hpp>
#include <um2/stdlib/math/roots.hpp>
#include <um2/stdlib/math/rounding_functions.hpp>
#include <um2/stdlib/math/trigonometric_functions.hpp>
#include <um2/stdlib/memory/addressof.hpp>
#include <um2/stdlib/memory/construct_at.hpp>
#include <um2/stdlib/numbers.hpp>
#include <um2/stdlib/numeric/iota.hpp>
#include <um2/stdlib/utility/is_pointer_in_range.hpp>
#include <um2/stdlib/utility/pair.hpp>
#include <um2/stdlib/utility/swap.hpp>

#include <algorithm>
#include <limits>
#include <list>
#include <memory>
#include <numbers>
#include <utility>

namespace
{

using L = long double;

template <class T>
auto
ulp(T x) -> T
{
  T const a = std::fabs(x);
  T const up = std::nextafter(a, std::numeric_limits<T>::infinity()) - a;
  return std::isfinite(up) ? up : a - std::nextafter(a, T(0));
}

// A few units in the last place of the exact value
template <class T>
auto
close(T got, L want, int units = 4) -> bool
{
  if (std::isnan(want)) {
    return std::isnan(got);
  }
  T const w = static_cast<T>(want);
  if (std::isinf(w)) {
    return got == w || (std::fabs(got) >= std::numeric_limits<T>::max() * T(0.999) && (got > 0) == (w > 0));
  }
  return std::fabs(static_cast<L>(got) - want) <= static_cast<L>(units) * static_cast<L>(ulp(w));
}

template <class T>
auto
genReal(pbt::Src & s) -> T
{
  switch (s.below(6)) {
  case 0:
    return static_cast<T>(s.irange(-12, 12));
  case 1:
    return static_cast<T>(s.irange(-40, 40)) / 2;
  case 2:
    return static_cast<T>(s.sign() * s.mag(-12, 12));
  case 3: {
    // next to a whole number or to zero
    T const v = static_cast<T>(s.irange(-1000, 1000));
    return std::nextafter(v, static_cast<T>(s.coin() ? -1e30 : 1e30));
  }
  case 4:
    return static_cast<T>(s.sign() * s.mag(-30, 30));
  default:
    return static_cast<T>(s.real(-10, 10));
  }
}

template <class T>
void
elementary(pbt::Src & s, pbt::Case & c)
{
  T const x = genReal<T>(s);
  T const y = genReal<T>(s);
  T const z = genReal<T>(s);
  // a value in [-1, 1] for the inverse functions
  T const u = static_cast<T>(s.oneIn(8) ? s.sign() * (1 - s.mag(-9, -1)) : s.real(-1, 1));
  T const p = std::fabs(x);
  c.desc.precision(std::numeric_limits<T>::max_digits10);
  c.desc << (sizeof(T) == 4 ? "float" : "double") << " x=" << x << " y=" << y << " z=" << z
         << " u=" << u;
  c.nontrivial(x != 0 && u != 0);
  auto const lx = static_cast<L>(x);
  auto const lu = static_cast<L>(u);
  REQUIRE(um2::floor(x) == std::floor(x), "floor ", um2::floor(x));
  REQUIRE(um2::ceil(x) == std::ceil(x), "ceil ", um2::ceil(x));
  REQUIRE(um2::abs(x) == std::fabs(x), "absolute value ", um2::abs(x));
  REQUIRE(um2::sqrt(p) == std::sqrt(p) || close(um2::sqrt(p), std::sqrt(std::fabs(lx)), 1), "square root ",
          um2::sqrt(p));
  REQUIRE(close(um2::cbrt(x), std::cbrt(lx)), "cube root ", um2::cbrt(x));
  REQUIRE(close(um2::exp(x), std::exp(lx)), "exponential ", um2::exp(x));
  if (p > 0) {
    REQUIRE(close(um2::log(p), std::log(std::fabs(lx))), "logarithm ", um2::log(p));
  }
  REQUIRE(close(um2::sin(x), std::sin(lx)), "sine ", um2::sin(x));
  REQUIRE(close(um2::cos(x), std::cos(lx)), "cosine ", um2::cos(x));
  REQUIRE(close(um2::tanh(x), std::tanh(lx)), "hyperbolic tangent ", um2::tanh(x));
  REQUIRE(close(um2::atan(x), std::atan(lx)), "inverse tangent ", um2::atan(x));
  REQUIRE(close(um2::asin(u), std::asin(lu)), "inverse sine ", um2::asin(u));
  REQUIRE(close(um2::acos(u), std::acos(lu)), "inverse cosine ", um2::acos(u));
  if (std::fabs(u) < 1) {
    REQUIRE(close(um2::atanh(u), std::atanh(lu)), "inverse hyperbolic tangent ", um2::atanh(u));
  }
  T const f = um2::fma(x, y, z);
  REQUIRE(f == std::fma(x, y, z) || (std::isnan(f) && std::isnan(std::fma(x, y, z))), "multiply-add ", f);
  T const cs = um2::copysign(x, y);
  REQUIRE(cs == std::copysign(x, y), "copied sign ", cs);
  // complex modulus, away from overflow
  T const re = static_cast<T>(s.sign() * s.mag(-9, 9));
  T const im = static_cast<T>(s.sign() * s.mag(-9, 9));
  L const mod = std::hypot(static_cast<L>(re), static_cast<L>(im));
  REQUIRE(close(um2::abs(Complex<T>(re, im)), mod), "modulus of (", re, ", ", im, ") is ",
          um2::abs(Complex<T>(re, im)));
  REQUIRE(um2::pi<T> == std::numbers::pi_v<T> && um2::e<T> == std::numbers::e_v<T> &&
              um2::pi_2<T> == std::numbers::pi_v<T> / 2 && um2::pi_4<T> == std::numbers::pi_v<T> / 4,
          "constants");
  REQUIRE(castIfNot<double>(x) == static_cast<double>(x) && castIfNot<float>(x) == static_cast<float>(x), "cast");
}

template <class T>
void
ordering(pbt::Src & s, pbt::Case & c)
{
  // few distinct values, so that ties are common
  int const most = s.pick<int>({1, 3, 50});
  auto val = [&]() { return static_cast<T>(s.irange(std::is_signed_v<T> ? -most : 0, most)); };
  T const a = val();
  T const b = val();
  T const v = val();
  c.desc << "a=" << +a << " b=" << +b << " v=" << +v;
  REQUIRE(um2::min(a, b) == std::min(a, b), "minimum");
  REQUIRE(um2::max(a, b) == std::max(a, b), "maximum");
  T const lo = std::min(a, b);
  T const hi = std::max(a, b);
  REQUIRE(um2::clamp(v, lo, hi) == std::clamp(v, lo, hi), "clamp gives ", +um2::clamp(v, lo, hi));
  if constexpr (std::is_signed_v<T>) {
    REQUIRE(um2::abs(v) == (v < 0 ? -v : v), "absolute value");
  }

  int const n = s.oneIn(50) ? s.size(50, 2000) : s.size(0, 24);
  std::vector<T> x(static_cast<size_t>(n));
  for (auto & e : x) {
    e = val();
  }
  if (s.oneIn(2)) {
    std::sort(x.begin(), x.end());
    if (n > 1 && s.coin()) {
      std::swap(x[s.below(static_cast<uint64_t>(n))], x[s.below(static_cast<uint64_t>(n))]);
    }
  }
  std::vector<T> y = x;
  int const m = s.irange(0, n);
  if (s.coin()) {
    y.resize(static_cast<size_t>(m));
  }
  if (!y.empty() && s.coin()) {
    y[s.below(y.size())] = val();
  }
  if (s.oneIn(4)) {
    y.push_back(val());
  }
  c.desc << " x=" << pbt::show(x) << " y=" << pbt::show(y);
  c.nontrivial(n >= 2);
  REQUIRE(um2::is_sorted(x.begin(), x.end()) == std::is_sorted(x.begin(), x.end()), "is_sorted");
  REQUIRE(um2::max_element(x.begin(), x.end()) == std::max_element(x.begin(), x.end()),
          "the first of the largest elements is at ", um2::max_element(x.begin(), x.end()) - x.begin());
  REQUIRE(um2::max_element(x.data(), x.data() + x.size()) == std::max_element(x.data(), x.data() + x.size()),
          "max_element of pointers");
  REQUIRE(um2::lexicographical_compare(x.begin(), x.end(), y.begin(), y.end()) ==
              std::lexicographical_compare(x.begin(), x.end(), y.begin(), y.end()),
          "lexicographical order");
  REQUIRE(um2::lexicographical_compare(y.begin(), y.end(), x.begin(), x.end()) ==
              std::lexicographical_compare(y.begin(), y.end(), x.begin(), x.end()),
          "lexicographical order, exchanged");
  auto const k = static_cast<std::ptrdiff_t>(std::min(x.size(), y.size()));
  REQUIRE(um2::equal(x.begin(), x.begin() + k, y.begin()) == std::equal(x.begin(), x.begin() + k, y.begin()),
          "equality of ranges");
  std::list<T> const lx(x.begin(), x.end());
  REQUIRE(um2::is_sorted(lx.begin(), lx.end()) == std::is_sorted(lx.begin(), lx.end()), "is_sorted of a list");
  auto const sgn = [](int i) { return (i > 0) - (i < 0); };
  int want = 0;
  for (std::ptrdiff_t i = 0; i < k && want == 0; ++i) {
    want = (x[static_cast<size_t>(i)] > y[static_cast<size_t>(i)]) - (x[static_cast<size_t>(i)] < y[static_cast<size_t>(i)]);
  }
  REQUIRE(sgn(um2::memcmp(x.data(), y.data(), static_cast<uint64_t>(k))) == want, "memcmp");

  // copy, fill, iota and swap touch exactly their ranges
  size_t const nx = x.size();
  T const mark = static_cast<T>(most + 7);
  std::vector<T> out(nx + 2, mark);
  auto * const end = um2::copy(x.data(), x.data() + nx, out.data() + 1);
  REQUIRE(end == out.data() + 1 + nx, "end of the copy");
  REQUIRE(std::equal(x.begin(), x.end(), out.begin() + 1) && out.front() == mark && out.back() == mark, "copy");
  std::vector<double> wide(nx + 2, -99.5);
  auto * const wend = um2::copy(x.data(), x.data() + nx, wide.data() + 1);
  REQUIRE(wend == wide.data() + 1 + nx && std::equal(x.begin(), x.end(), wide.begin() + 1) &&
              wide.front() == -99.5 && wide.back() == -99.5,
          "copy to another type");
  auto const f0 = static_cast<std::ptrdiff_t>(nx == 0 ? 0 : s.below(nx));
  auto const f1 = f0 + static_cast<std::ptrdiff_t>(s.below(nx - static_cast<size_t>(f0) + 1));
  std::vector<T> z = x;
  std::vector<T> zz = x;
  um2::fill(z.begin() + f0, z.begin() + f1, mark);
  std::fill(zz.begin() + f0, zz.begin() + f1, mark);
  REQUIRE(z == zz, "fill");
  std::vector<int> io(nx + 1, -1);
  um2::iota(io.data() + f0, io.data() + f1, static_cast<int>(a));
  for (std::ptrdiff_t i = 0; i <= static_cast<std::ptrdiff_t>(nx); ++i) {
    REQUIRE(io[static_cast<size_t>(i)] == (i >= f0 && i < f1 ? static_cast<int>(a) + static_cast<int>(i - f0) : -1),
            "iota at ", i);
  }
  T p = a;
  T q = b;
  um2::swap(p, q);
  REQUIRE(p == b && q == a, "swap");
  T pa[3] = {a, b, v};
  T qa[3] = {v, a, mark};
  um2::swap(pa, qa);
  REQUIRE(pa[0] == v && pa[1] == a && pa[2] == mark && qa[0] == a && qa[1] == b && qa[2] == v, "swap of arrays");
  for (std::ptrdiff_t i = 0; i <= static_cast<std::ptrdiff_t>(nx); ++i) {
    REQUIRE(um2::is_pointer_in_range(x.data() + f0, x.data() + f1, x.data() + i) == (i >= f0 && i < f1),
            "position ", i, " in [", f0, ", ", f1, ")");
  }
  REQUIRE(um2::addressof(p) == &p, "address");

  // pairs are ordered as std::pair
  um2::Pair<T, int> const u1(a, static_cast<int>(s.irange(-1, 1)));
  um2::Pair<T, int> const u2(b, static_cast<int>(s.irange(-1, 1)));
  std::pair<T, int> const s1(u1.first, u1.second);
  std::pair<T, int> const s2(u2.first, u2.second);
  REQUIRE(u1.first == a && u2.first == b, "members of a pair");
  REQUIRE((u1 == u2) == (s1 == s2) && (u1 != u2) == (s1 != s2) && (u1 < u2) == (s1 < s2) &&
              (u1 > u2) == (s1 > s2) && (u1 <= u2) == (s1 <= s2) && (u1 >= u2) == (s1 >= s2),
          "order of pairs (", +s1.first, ", ", s1.second, ") and (", +s2.first, ", ", s2.second, ")");
}

struct Counted {
  static int live;
  int v;
  explicit Counted(int i)
      : v(i)
  {
    ++live;
  }
  Counted(Counted const &) = delete;
  auto
  operator=(Counted const &) -> Counted & = delete;
  ~Counted() { --live; }
};
int Counted::live = 0;

void
objects(pbt::Src & s, pbt::Case & c)
{
  int const n = s.size(0, 30);
  c.desc << n << " objects";
  c.nontrivial(n >= 1);
  auto const before = Counted::live;
  std::allocator<Counted> al;
  auto const cap = static_cast<size_t>(n) + 1;
  Counted * const p = al.allocate(cap);
  for (int i = 0; i < n; ++i) {
    auto * const q = um2::construct_at(p + i, 3 * i);
    REQUIRE(q == p + i && q->v == 3 * i, "construction of object ", i);
  }
  REQUIRE(Counted::live == before + n, "objects alive after construction");
  int const k = s.irange(0, n);
  REQUIRE(um2::destroy(p, p + k) == p + k, "end of the destroyed range");
  REQUIRE(Counted::live == before + n - k, "objects alive after destroying ", k);
  for (int i = k; i < n; ++i) {
    REQUIRE(p[i].v == 3 * i, "object ", i, " changed");
    um2::destroy_at(p + i);
  }
  REQUIRE(Counted::live == before, "objects alive at the end");
  al.deallocate(p, cap);

  std::string t;
  int const len = s.oneIn(20) ? s.size(20, 5000) : s.size(0, 20);
  for (int i = 0; i < len; ++i) {
    t.push_back(static_cast<char>(1 + s.below(255)));
  }
  REQUIRE(um2::strlen(t.c_str()) == t.size(), "strlen of a string of ", t.size());
  if (len > 0) {
    auto const cut = static_cast<size_t>(s.below(static_cast<uint64_t>(len)));
    t[cut] = '\0';
    REQUIRE(um2::strlen(t.c_str()) == cut, "strlen of a string ending at ", cut);
  }
}

struct Named {
  char const * name;
  um2::Color col;
  int r, g, b;
};
Named const NAMED[] = {
    {"aliceblue", um2::aliceblue, 240, 248, 255}, {"antiquewhite", um2::antiquewhite, 250, 235, 215},
    {"aqua", um2::aqua, 0, 255, 255}, {"aquamarine", um2::aquamarine, 127, 255, 212},
    {"azure", um2::azure, 240, 255, 255}, {"beige", um2::beige, 245, 245, 220},
    {"bisque", um2::bisque, 255, 228, 196}, {"black", um2::black, 0, 0, 0},
    {"blanchedalmond", um2::blanchedalmond, 255, 235, 205}, {"blue", um2::blue, 0, 0, 255},
    {"blueviolet", um2::blueviolet, 138, 43, 226}, {"brown", um2::brown, 165, 42, 42},
    {"burlywood", um2::burlywood, 222, 184, 135}, {"cadetblue", um2::cadetblue, 95, 158, 160},
    {"chartreuse", um2::chartreuse, 127, 255, 0}, {"chocolate", um2::chocolate, 210, 105, 30},
    {"coral", um2::coral, 255, 127, 80}, {"cornflowerblue", um2::cornflowerblue, 100, 149, 237},
    {"cornsilk", um2::cornsilk, 255, 248, 220}, {"crimson", um2::crimson, 220, 20, 60},
    {"cyan", um2::cyan, 0, 255, 255}, {"darkblue", um2::darkblue, 0, 0, 139},
    {"darkcyan", um2::darkcyan, 0, 139, 139}, {"darkgoldenrod", um2::darkgoldenrod, 184, 134, 11},
    {"darkgray", um2::darkgray, 169, 169, 169}, {"darkgreen", um2::darkgreen, 0, 100, 0},
    {"darkgrey", um2::darkgrey, 169, 169, 169}, {"darkkhaki", um2::darkkhaki, 189, 183, 107},
    {"darkmagenta", um2::darkmagenta, 139, 0, 139}, {"darkolivegreen", um2::darkolivegreen, 85, 107, 47},
    {"darkorange", um2::darkorange, 255, 140, 0}, {"darkorchid", um2::darkorchid, 153, 50, 204},
    {"darkred", um2::darkred, 139, 0, 0}, {"darksalmon", um2::darksalmon, 233, 150, 122},
    {"darkseagreen", um2::darkseagreen, 143, 188, 143}, {"darkslateblue", um2::darkslateblue, 72, 61, 139},
    {"darkslategray", um2::darkslategray, 47, 79, 79}, {"darkslategrey", um2::darkslategrey, 47, 79, 79},
    {"darkturquoise", um2::darkturquoise, 0, 206, 209}, {"darkviolet", um2::darkviolet, 148, 0, 211},
    {"deeppink", um2::deeppink, 255, 20, 147}, {"deepskyblue", um2::deepskyblue, 0, 191, 255},
    {"dimgray", um2::dimgray, 105, 105, 105}, {"dimgrey", um2::dimgrey, 105, 105, 105},
    {"dodgerblue", um2::dodgerblue, 30, 144, 255}, {"firebrick", um2::firebrick, 178, 34, 34},
    {"floralwhite", um2::floralwhite, 255, 250, 240}, {"forestgreen", um2::forestgreen, 34, 139, 34},
    {"fuchsia", um2::fuchsia, 255, 0, 255}, {"gainsboro", um2::gainsboro, 220, 220, 220},
    {"ghostwhite", um2::ghostwhite, 248, 248, 255}, {"gold", um2::gold, 255, 215, 0},
    {"goldenrod", um2::goldenrod, 218, 165, 32}, {"gray", um2::gray, 128, 128, 128},
    {"green", um2::green, 0, 128, 0}, {"greenyellow", um2::greenyellow, 173, 255, 47},
    {"grey", um2::grey, 128, 128, 128}, {"honeydew", um2::honeydew, 240, 255, 240},
    {"hotpink", um2::hotpink, 255, 105, 180}, {"indianred", um2::indianred, 205, 92, 92},
    {"indigo", um2::indigo, 75, 0, 130}, {"ivory", um2::ivory, 255, 255, 240},
    {"khaki", um2::khaki, 240, 230, 140}, {"lavender", um2::lavender, 230, 230, 250},
    {"lavenderblush", um2::lavenderblush, 255, 240, 245}, {"lawngreen", um2::lawngreen, 124, 252, 0},
    {"lemonchiffon", um2::lemonchiffon, 255, 250, 205}, {"lightblue", um2::lightblue, 173, 216, 230},
    {"lightcoral", um2::lightcoral, 240, 128, 128}, {"lightcyan", um2::lightcyan, 224, 255, 255},
    {"lightgoldenrodyellow", um2::lightgoldenrodyellow, 250, 250, 210},
    {"lightgray", um2::lightgray, 211, 211, 211}, {"lightgreen", um2::lightgreen, 144, 238, 144},
    {"lightgrey", um2::lightgrey, 211, 211, 211}, {"lightpink", um2::lightpink, 255, 182, 193},
    {"lightsalmon", um2::lightsalmon, 255, 160, 122}, {"lightseagreen", um2::lightseagreen, 32, 178, 170},
    {"lightskyblue", um2::lightskyblue, 135, 206, 250},
    {"lightslateblue", um2::lightslateblue, 132, 112, 255},
    {"lightslategray", um2::lightslategray, 119, 136, 153},
    {"lightslategrey", um2::lightslategrey, 119, 136, 153},
    {"lightsteelblue", um2::lightsteelblue, 176, 196, 222}, {"lightyellow", um2::lightyellow, 255, 255, 224},
    {"lime", um2::lime, 0, 255, 0}, {"limegreen", um2::limegreen, 50, 205, 50},
    {"linen", um2::linen, 250, 240, 230}, {"magenta", um2::magenta, 255, 0, 255},
    {"maroon", um2::maroon, 128, 0, 0}, {"mediumaquamarine", um2::mediumaquamarine, 102, 205, 170},
    {"mediumblue", um2::mediumblue, 0, 0, 205}, {"mediumorchid", um2::mediumorchid, 186, 85, 211},
    {"mediumpurple", um2::mediumpurple, 147, 112, 219}, {"mediumseagreen", um2::mediumseagreen, 60, 179, 113},
    {"mediumslateblue", um2::mediumslateblue, 123, 104, 238},
    {"mediumspringgreen", um2::mediumspringgreen, 0, 250, 154},
    {"mediumturquoise", um2::mediumturquoise, 72, 209, 204},
    {"mediumvioletred", um2::mediumvioletred, 199, 21, 133}, {"midnightblue", um2::midnightblue, 25, 25, 112},
    {"mintcream", um2::mintcream, 245, 255, 250}, {"mistyrose", um2::mistyrose, 255, 228, 225},
    {"moccasin", um2::moccasin, 255, 228, 181}, {"navajowhite", um2::navajowhite, 255, 222, 173},
    {"navy", um2::navy, 0, 0, 128}, {"oldlace", um2::oldlace, 253, 245, 230},
    {"olive", um2::olive, 128, 128, 0}, {"olivedrab", um2::olivedrab, 107, 142, 35},
    {"orange", um2::orange, 255, 165, 0}, {"orangered", um2::orangered, 255, 69, 0},
    {"orchid", um2::orchid, 218, 112, 214}, {"palegoldenrod", um2::palegoldenrod, 238, 232, 170},
    {"palegreen", um2::palegreen, 152, 251, 152}, {"paleturquoise", um2::paleturquoise, 175, 238, 238},
    {"palevioletred", um2::palevioletred, 219, 112, 147}, {"papayawhip", um2::papayawhip, 255, 239, 213},
    {"peachpuff", um2::peachpuff, 255, 218, 185}, {"peru", um2::peru, 205, 133, 63},
    {"pink", um2::pink, 255, 192, 203}, {"plum", um2::plum, 221, 160, 221},
    {"powderblue", um2::powderblue, 176, 224, 230}, {"purple", um2::purple, 128, 0, 128},
    {"red", um2::red, 255, 0, 0}, {"rosybrown", um2::rosybrown, 188, 143, 143},
    {"royalblue", um2::royalblue, 65, 105, 225}, {"saddlebrown", um2::saddlebrown, 139, 69, 19},
    {"salmon", um2::salmon, 250, 128, 114}, {"sandybrown", um2::sandybrown, 244, 164, 96},
    {"seagreen", um2::seagreen, 46, 139, 87}, {"seashell", um2::seashell, 255, 245, 238},
    {"sienna", um2::sienna, 160, 82, 45}, {"silver", um2::silver, 192, 192, 192},
    {"skyblue", um2::skyblue, 135, 206, 235}, {"slateblue", um2::slateblue, 106, 90, 205},
    {"slategray", um2::slategray, 112, 128, 144}, {"slategrey", um2::slategrey, 112, 128, 144},
    {"snow", um2::snow, 255, 250, 250}, {"springgreen", um2::springgreen, 0, 255, 127},
    {"steelblue", um2::steelblue, 70, 130, 180}, {"tan", um2::tan, 210, 180, 140},
    {"teal", um2::teal, 0, 128, 128}, {"thistle", um2::thistle, 216, 191, 216},
    {"tomato", um2::tomato, 255, 99, 71}, {"turquoise", um2::turquoise, 64, 224, 208},
    {"violet", um2::violet, 238, 130, 238}, {"wheat", um2::wheat, 245, 222, 179},
    {"white", um2::white, 255, 255, 255}, {"whitesmoke", um2::whitesmoke, 245, 245, 245},
    {"yellow", um2::yellow, 255, 255, 0}, {"yellowgreen", um2::yellowgreen, 154, 205, 50},
};

auto
is(um2::Color const & k, int r, int g, int b, int a) -> bool
{
  return k.r() == r && k.g() == g && k.b() == b && k.a() == a;
}

void
colors(pbt::Src & s, pbt::Case & c)
{
  int v[4];
  int w[4];
  for (int i = 0; i < 4; ++i) {
    v[i] = s.irange(0, 255);
    w[i] = s.oneIn(2) ? s.irange(0, 255) : v[i];
  }
  c.desc << "components " << v[0] << " " << v[1] << " " << v[2] << " " << v[3] << " and " << w[0] << " " << w[1]
         << " " << w[2] << " " << w[3];
  c.nontrivial(v[0] != v[1]);
  um2::Color const a(v[0], v[1], v[2], v[3]);
  um2::Color const b(w[0], w[1], w[2], w[3]);
  REQUIRE(is(a, v[0], v[1], v[2], v[3]), "components of a colour");
  REQUIRE(is(um2::Color(v[0], v[1], v[2]), v[0], v[1], v[2], 255), "opaque by default");
  REQUIRE(is(um2::Color(static_cast<uint8_t>(v[0]), static_cast<uint8_t>(v[1]), static_cast<uint8_t>(v[2]),
                        static_cast<uint8_t>(v[3])),
             v[0], v[1], v[2], v[3]),
          "colour from bytes");
  bool const same = v[0] == w[0] && v[1] == w[1] && v[2] == w[2] && v[3] == w[3];
  REQUIRE((a == b) == same && (a != b) == !same, "comparison of colours");
  double f[4];
  for (auto & e : f) {
    e = s.real(0, 1);
  }
  c.desc << " fractions " << f[0] << " " << f[1] << " " << f[2] << " " << f[3];
  auto near = [](int got, double x) { return std::fabs(got - 255 * x) <= 1.0001; };
  um2::Color const d(f[0], f[1], f[2], f[3]);
  REQUIRE(near(d.r(), f[0]) && near(d.g(), f[1]) && near(d.b(), f[2]) && near(d.a(), f[3]),
          "colour from fractions: ", +d.r(), " ", +d.g(), " ", +d.b(), " ", +d.a());
  um2::Color const e(static_cast<float>(f[0]), static_cast<float>(f[1]), static_cast<float>(f[2]));
  REQUIRE(near(e.r(), f[0]) && near(e.g(), f[1]) && near(e.b(), f[2]) && e.a() == 255,
          "opaque colour from fractions");
  REQUIRE(is(um2::Color(), 0, 0, 0, 255), "default colour");
  auto const & k = NAMED[s.below(sizeof(NAMED) / sizeof(NAMED[0]))];
  REQUIRE(is(k.col, k.r, k.g, k.b, 255), "the colour ", k.name, " is ", +k.col.r(), " ", +k.col.g(), " ", +k.col.b());
}

pbt::Reg const r1("elementary_functions", 300000, 6000000, "neither argument is zero",
                  [](pbt::Src & s, pbt::Case & c) {
                    s.oneIn(3) ? elementary<float>(s, c) : elementary<double>(s, c);
                  });
pbt::Reg const r2("ranges_and_order", 60000, 1500000, "at least two elements", [](pbt::Src & s, pbt::Case & c) {
  switch (s.below(4)) {
  case 0:
    return ordering<int>(s, c);
  case 1:
    return ordering<double>(s, c);
  case 2:
    return ordering<uint8_t>(s, c);
  default:
    return ordering<int64_t>(s, c);
  }
});
pbt::Reg const r3("objects_and_text", 60000, 1000000, "at least one object", objects);
pbt::Reg const r4("colors", 60000, 1000000, "red and green differ", colors);

} // namespace

auto
main(int argc, char ** argv) -> int
{
  pbt::Options o;
  o.leak_check = true;
  o.assumptions = {"finite arguments inside the domain of each function"};
  return pbt::run("C37", "random numbers, ranges, objects and colours", o, argc, argv);
}

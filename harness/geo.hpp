// Extended-precision planar geometry used by the oracles, and generators of edges.
#pragma once

#include "pbt.hpp"

#include <um2/geometry/line_segment.hpp>
#include <um2/geometry/quadratic_segment.hpp>

#include <algorithm>
#include <array>
#include <cmath>
#include <limits>
#include <vector>

namespace geo
{

using L = long double;

struct P {
  L x = 0;
  L y = 0;
};
inline auto
operator+(P a, P b) -> P
{
  return {a.x + b.x, a.y + b.y};
}
inline auto
operator-(P a, P b) -> P
{
  return {a.x - b.x, a.y - b.y};
}
inline auto
operator*(L f, P a) -> P
{
  return {f * a.x, f * a.y};
}
inline auto
cross(P a, P b) -> L
{
  return a.x * b.y - a.y * b.x;
}
inline auto
dot(P a, P b) -> L
{
  return a.x * b.x + a.y * b.y;
}
inline auto
norm(P a) -> L
{
  return std::hypot(a.x, a.y);
}
inline auto
dist(P a, P b) -> L
{
  return norm(a - b);
}

template <class T>
auto
wide(um2::Point2<T> const & p) -> P
{
  return {L(p[0]), L(p[1])};
}
template <class T>
auto
narrow(P p) -> um2::Point2<T>
{
  return um2::Point2<T>(static_cast<T>(p.x), static_cast<T>(p.y));
}

inline auto
str(P p) -> std::string
{
  std::ostringstream os;
  os.precision(17);
  os << "(" << double(p.x) << ", " << double(p.y) << ")";
  return os.str();
}

// A (possibly curved) edge: C + r B + r^2 A
struct Curve {
  P c, b, a;
  P v0, v1;

  [[nodiscard]] auto
  at(L r) const -> P
  {
    return c + r * (b + r * a);
  }
  [[nodiscard]] auto
  der(L r) const -> P
  {
    return b + (2 * r) * a;
  }
};

template <class T>
auto
curve(um2::LineSegment2<T> const & l) -> Curve
{
  P const p0 = wide<T>(l[0]);
  P const p1 = wide<T>(l[1]);
  return {p0, p1 - p0, {0, 0}, p0, p1};
}
template <class T>
auto
curve(um2::QuadraticSegment2<T> const & q) -> Curve
{
  P const p0 = wide<T>(q[0]);
  P const p1 = wide<T>(q[1]);
  P const p2 = wide<T>(q[2]);
  P const v02 = p2 - p0;
  P const v12 = p2 - p1;
  return {p0, 3 * v02 + v12, -2 * (v02 + v12), p0, p1};
}

// 10-point Gauss-Legendre over `n` pieces of [0, 1]
template <class F>
auto
integrate(F const & f, int n = 16) -> decltype(f(L(0)))
{
  static L const x[5] = {0.1488743389816312108848260L, 0.4333953941292471907992659L,
                         0.6794095682990244062343274L, 0.8650633666889845107320967L,
                         0.9739065285171717200779640L};
  static L const w[5] = {0.2955242247147528701738930L, 0.2692667193099963550912269L,
                         0.2190863625159820439955349L, 0.1494513491505805931457763L,
                         0.0666713443086881375935688L};
  decltype(f(L(0))) sum{};
  for (int k = 0; k < n; ++k) {
    L const h = L(1) / n / 2;
    L const m = (k + L(0.5)) / n;
    for (int i = 0; i < 5; ++i) {
      sum = sum + (w[i] * h) * f(m - h * x[i]) + (w[i] * h) * f(m + h * x[i]);
    }
  }
  return sum;
}

inline auto
length(Curve const & q) -> L
{
  return integrate([&](L r) { return norm(q.der(r)); }, 64);
}

// Distance from p to the curve and where it is attained.
inline auto
nearest(Curve const & q, P p, L * where = nullptr) -> L
{
  // The distance has at most two local minima: refine each bracketed one.
  int const n = 128;
  L best = 1e300L;
  L rb = 0;
  std::array<L, n + 1> ds;
  for (int i = 0; i <= n; ++i) {
    ds[static_cast<size_t>(i)] = dist(q.at(L(i) / n), p);
  }
  for (int i = 0; i <= n; ++i) {
    L const di = ds[static_cast<size_t>(i)];
    if (di < best) {
      best = di;
      rb = L(i) / n;
    }
    if ((i > 0 && ds[static_cast<size_t>(i - 1)] < di) ||
        (i < n && ds[static_cast<size_t>(i + 1)] < di)) {
      continue;
    }
    L lo = std::max(L(0), L(i - 1) / n);
    L hi = std::min(L(1), L(i + 1) / n);
    for (int k = 0; k < 90; ++k) {
      L const m1 = lo + (hi - lo) * L(0.382);
      L const m2 = lo + (hi - lo) * L(0.618);
      if (dist(q.at(m1), p) < dist(q.at(m2), p)) {
        hi = m2;
      } else {
        lo = m1;
      }
    }
    L const d = dist(q.at((lo + hi) / 2), p);
    if (d < best) {
      best = d;
      rb = (lo + hi) / 2;
    }
  }
  if (where != nullptr) {
    *where = rb;
  }
  return best;
}

// Signed distance to the line through a and b, positive to the left
inline auto
lineSide(P a, P b, P p) -> L
{
  return cross(b - a, p - a) / dist(a, b);
}

// Crossings of the line o + t d (any t) with the curve.
struct Cross {
  L s;      // curve parameter
  L t;      // along the line
  L sine;   // of the angle between line and curve
};
struct Crossings {
  std::vector<Cross> certain;
  bool ambiguous = false; // some crossing is too close to an end or to tangency
};

inline auto
crossings(Curve const & q, P o, P d, L tol) -> Crossings
{
  Crossings out;
  L const a = cross(q.a, d);
  L const b = cross(q.b, d);
  L const c = cross(q.c - o, d);
  std::vector<L> ss;
  // The line's signed distance from the curve is a s^2 + b s + c (|d| = 1).
  // Its extremum within [0, 1] being within tol means near tangency.
  if (a != 0) {
    L const se = -b / (2 * a);
    if (se > -L(0.01) && se < L(1.01)) {
      L const v = c - b * b / (4 * a);
      if (std::fabs(v) < tol) {
        out.ambiguous = true;
      }
    }
  } else if (b == 0 && std::fabs(c) < tol) {
    out.ambiguous = true;
  }
  L const disc = b * b - 4 * a * c;
  if (a == 0 || std::fabs(a) * 1e-15L > std::fabs(b)) {
    if (b != 0) {
      ss.push_back(-c / b);
    }
  }
  if (a != 0) {
    ss.clear();
    if (disc >= 0) {
      L const w = -(b + (b < 0 ? -std::sqrt(disc) : std::sqrt(disc))) / 2;
      if (w != 0) {
        ss.push_back(w / a);
        ss.push_back(c / w);
      } else {
        ss.push_back(0);
        ss.push_back(0);
      }
    }
  }
  // line passing within tol of an end
  for (L const r : {L(0), L(1)}) {
    if (std::fabs(cross(q.at(r) - o, d)) < tol) {
      out.ambiguous = true;
    }
  }
  for (L const s : ss) {
    if (s >= 0 && s <= 1) {
      P const p = q.at(s);
      P const der = q.der(s);
      L const n = norm(der);
      L const sine = n > 0 ? cross(der, d) / n : 0;
      out.certain.push_back({s, dot(p - o, d), sine});
    }
  }
  std::sort(out.certain.begin(), out.certain.end(),
            [](Cross const & x, Cross const & y) { return x.t < y.t; });
  return out;
}

// ---------------------------------------------------------------- generators

struct Frame {
  double scale = 1;
  double angle = 0;
  P origin;
  bool plain = true;

  [[nodiscard]] auto
  map(P p) const -> P
  {
    if (plain) {
      return {origin.x + L(scale) * p.x, origin.y + L(scale) * p.y};
    }
    L const ca = std::cos(L(angle));
    L const sa = std::sin(L(angle));
    return {origin.x + L(scale) * (ca * p.x - sa * p.y),
            origin.y + L(scale) * (sa * p.x + ca * p.y)};
  }
};

// A similarity placing unit-size shapes somewhere in the plane.
inline auto
genFrame(pbt::Src & s) -> Frame
{
  Frame f;
  switch (s.below(3)) {
  case 0:
    break; // unit shape at the origin
  case 1:
    f.angle = s.real(0, 6.283185307179586);
    f.plain = false;
    f.origin = {L(s.real(-2, 2)), L(s.real(-2, 2))};
    break;
  default:
    f.scale = s.mag(-1.5, 1.5);
    f.angle = s.fine(0, 6.283185307179586);
    f.plain = false;
    f.origin = {L(s.real(-10, 10)), L(s.real(-10, 10))};
    break;
  }
  return f;
}

enum class Bend { straight, nearly, mild, strong };

// A quadratic edge of unit chord in the frame.
template <class T>
auto
genQuadratic(pbt::Src & s, Frame const & f, Bend * bend = nullptr)
    -> um2::QuadraticSegment2<T>
{
  auto const k = s.below(8);
  Bend const b = k < 1 ? Bend::straight : k < 2 ? Bend::nearly : k < 6 ? Bend::mild : Bend::strong;
  if (bend != nullptr) {
    *bend = b;
  }
  // position of the middle node along the chord
  double m = 0.5;
  if (!s.oneIn(3)) {
    m = s.oneIn(3) ? 0.5 + s.sign() * s.mag(-9, -1.5) : s.real(0.3, 0.7);
  }
  double h = 0;
  switch (b) {
  case Bend::straight:
    break;
  case Bend::nearly:
    h = s.sign() * s.mag(-10, -3);
    break;
  case Bend::mild:
    h = s.sign() * s.real(0.01, 0.35);
    break;
  case Bend::strong:
    h = s.sign() * s.real(0.2, 1.5);
    m = s.real(-0.2, 1.2);
    break;
  }
  return {narrow<T>(f.map({0, 0})), narrow<T>(f.map({1, 0})), narrow<T>(f.map({L(m), L(h)}))};
}

template <class T>
auto
genLine(pbt::Src & s, Frame const & f) -> um2::LineSegment2<T>
{
  double const y = s.oneIn(2) ? 0 : s.real(-1, 1);
  return {narrow<T>(f.map({0, 0})), narrow<T>(f.map({1, L(y)}))};
}

template <class T>
auto
str(um2::LineSegment2<T> const & l) -> std::string
{
  return str(wide<T>(l[0])) + "-" + str(wide<T>(l[1]));
}
template <class T>
auto
str(um2::QuadraticSegment2<T> const & q) -> std::string
{
  return str(wide<T>(q[0])) + "-" + str(wide<T>(q[1])) + " via " + str(wide<T>(q[2]));
}

} // namespace geo

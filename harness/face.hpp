// Faces for the geometry and mesh checks: generators and extended-precision regions.
#pragma once

#include "geo.hpp"

#include <um2/geometry/quadratic_quadrilateral.hpp>
#include <um2/geometry/quadratic_triangle.hpp>
#include <um2/geometry/quadrilateral.hpp>
#include <um2/geometry/triangle.hpp>

namespace geo
{

// The closed boundary of a face, as curves in order.
struct Region {
  std::vector<Curve> edges;

  [[nodiscard]] auto
  area() const -> L
  {
    L sum = 0;
    P const o = edges[0].v0;
    for (auto const & e : edges) {
      sum += integrate([&](L r) { return cross(e.at(r) - o, e.der(r)) / 2; }, 1);
    }
    return sum;
  }
  [[nodiscard]] auto
  centroid() const -> P
  {
    L const a = area();
    P const o = edges[0].v0;
    P m;
    for (auto const & e : edges) {
      m = m + integrate(
                  [&](L r) {
                    P const p = e.at(r) - o;
                    P const d = e.der(r);
                    return P{p.x * p.x * d.y / 2, -p.y * p.y * d.x / 2};
                  },
                  1);
    }
    return o + (1 / a) * m;
  }
  [[nodiscard]] auto
  perimeter() const -> L
  {
    L sum = 0;
    for (auto const & e : edges) {
      sum += length(e);
    }
    return sum;
  }
  [[nodiscard]] auto
  distance(P p) const -> L
  {
    L d = 1e300L;
    for (auto const & e : edges) {
      d = std::min(d, nearest(e, p));
    }
    return d;
  }
  [[nodiscard]] auto
  diameter() const -> L
  {
    L d = 0;
    for (auto const & e : edges) {
      for (auto const & f : edges) {
        d = std::max(d, dist(e.v0, f.v0));
        d = std::max(d, dist(e.at(0.5L), f.at(0.5L)));
      }
    }
    return d;
  }
  // Crossing parity; the caller keeps clear of the boundary.
  [[nodiscard]] auto
  contains(P p) const -> bool
  {
    L const tol = 1e-12L * (diameter() + norm(p));
    for (int attempt = 0; attempt < 40; ++attempt) {
      L const a = L(0.37) + L(1.7) * attempt;
      P const d{std::cos(a), std::sin(a)};
      bool ambiguous = false;
      int n = 0;
      for (auto const & e : edges) {
        auto const x = crossings(e, p, d, tol);
        ambiguous = ambiguous || x.ambiguous;
        for (auto const & k : x.certain) {
          n += k.t > 0 ? 1 : 0;
        }
      }
      if (!ambiguous) {
        return n % 2 == 1;
      }
    }
    pbt::discardUnless(false);
    return false;
  }
  void
  box(L lo[2], L hi[2]) const
  {
    lo[0] = lo[1] = 1e300L;
    hi[0] = hi[1] = -1e300L;
    for (auto const & q : edges) {
      L const aa[2] = {q.a.x, q.a.y};
      L const bb[2] = {q.b.x, q.b.y};
      for (int i = 0; i < 2; ++i) {
        auto add = [&](P p) {
          L const v = i == 0 ? p.x : p.y;
          lo[i] = std::min(lo[i], v);
          hi[i] = std::max(hi[i], v);
        };
        add(q.v0);
        add(q.v1);
        if (aa[i] != 0) {
          L const r = -bb[i] / (2 * aa[i]);
          if (r > 0 && r < 1) {
            add(q.at(r));
          }
        }
      }
    }
  }
};

// Build the region from corner points and (for quadratic faces) middle points.
inline auto
region(std::vector<P> const & v, bool quadratic) -> Region
{
  Region r;
  size_t const m = quadratic ? v.size() / 2 : v.size();
  for (size_t i = 0; i < m; ++i) {
    P const a = v[i];
    P const b = v[(i + 1) % m];
    if (quadratic) {
      P const c = v[m + i];
      P const v02 = c - a;
      P const v12 = c - b;
      r.edges.push_back({a, 3 * v02 + v12, -2 * (v02 + v12), a, b});
    } else {
      r.edges.push_back({a, b - a, {0, 0}, a, b});
    }
  }
  return r;
}

template <class F>
auto
points(F const & f) -> std::vector<P>
{
  std::vector<P> v;
  for (Int i = 0; i < F::N; ++i) {
    v.push_back({L(f[i][0]), L(f[i][1])});
  }
  return v;
}

template <class F>
auto
region(F const & f) -> Region
{
  return region(points(f), F::N >= 6);
}

// Shape functions
template <class F>
auto
mapAt(F const & f, L r, L s, P * dr = nullptr, P * ds = nullptr) -> P
{
  auto const v = points(f);
  std::vector<L> w, wr, ws;
  if constexpr (F::N == 3) {
    w = {1 - r - s, r, s};
    wr = {-1, 1, 0};
    ws = {-1, 0, 1};
  } else if constexpr (F::N == 4) {
    w = {(1 - r) * (1 - s), r * (1 - s), r * s, (1 - r) * s};
    wr = {-(1 - s), 1 - s, s, -s};
    ws = {-(1 - r), -r, r, 1 - r};
  } else if constexpr (F::N == 6) {
    L const t = 1 - r - s;
    w = {t * (2 * t - 1), r * (2 * r - 1), s * (2 * s - 1), 4 * r * t, 4 * r * s, 4 * s * t};
    wr = {1 - 4 * t, 4 * r - 1, 0, 4 * t - 4 * r, 4 * s, -4 * s};
    ws = {1 - 4 * t, 0, 4 * s - 1, -4 * r, 4 * r, 4 * t - 4 * s};
  } else {
    // serendipity element on [0, 1]^2
    w = {(1 - r) * (1 - s) * (1 - 2 * r - 2 * s), r * (1 - s) * (2 * r - 2 * s - 1),
         r * s * (2 * r + 2 * s - 3),             (1 - r) * s * (2 * s - 2 * r - 1),
         4 * r * (1 - r) * (1 - s),               4 * r * s * (1 - s),
         4 * r * (1 - r) * s,                     4 * (1 - r) * s * (1 - s)};
    wr = {(1 - s) * (4 * r + 2 * s - 3),
          (1 - s) * (4 * r - 2 * s - 1),
          s * (4 * r + 2 * s - 3),
          s * (4 * r - 2 * s - 1),
          4 * (1 - 2 * r) * (1 - s),
          4 * s * (1 - s),
          4 * (1 - 2 * r) * s,
          -4 * s * (1 - s)};
    ws = {(1 - r) * (4 * s + 2 * r - 3),
          r * (4 * s - 2 * r - 1),
          r * (4 * s + 2 * r - 3),
          (1 - r) * (4 * s - 2 * r - 1),
          -4 * r * (1 - r),
          4 * r * (1 - 2 * s),
          4 * r * (1 - r),
          4 * (1 - r) * (1 - 2 * s)};
  }
  P out, a, b;
  for (size_t i = 0; i < v.size(); ++i) {
    out = out + w[i] * v[i];
    a = a + wr[i] * v[i];
    b = b + ws[i] * v[i];
  }
  if (dr != nullptr) {
    *dr = a;
  }
  if (ds != nullptr) {
    *ds = b;
  }
  return out;
}

// Corners of a convex polygon with `m` corners, counter-clockwise, of about unit size.
inline auto
genConvex(pbt::Src & s, int m) -> std::vector<P>
{
  std::vector<P> v;
  if (m == 4 && s.oneIn(4)) {
    double const w = s.real(0.1, 2);
    v = {{0, 0}, {1, 0}, {1, L(w)}, {0, L(w)}};
  } else if (m == 3 && s.oneIn(5)) {
    v = {{0, 0}, {1, 0}, {0, L(s.real(0.1, 2))}};
  } else {
    // angles around a circle (or an ellipse), well separated
    L ang = L(s.real(0, 6.28));
    std::vector<L> gap;
    L sum = 0;
    for (int i = 0; i < m; ++i) {
      gap.push_back(L(s.real(0.2, 1)));
      sum += gap.back();
    }
    double const squash = s.oneIn(3) ? s.real(0.05, 1) : 1.0;
    for (int i = 0; i < m; ++i) {
      v.push_back({std::cos(ang) / 2, L(squash) * std::sin(ang) / 2});
      ang += gap[static_cast<size_t>(i)] / sum * L(6.283185307179586476L);
    }
  }
  // start anywhere
  auto const k = s.below(static_cast<uint64_t>(m));
  std::rotate(v.begin(), v.begin() + static_cast<long>(k), v.end());
  return v;
}

template <class F>
auto
fromPoints(std::vector<P> const & v) -> F
{
  F f;
  for (Int i = 0; i < F::N; ++i) {
    f[i] = typename F::Vertex(static_cast<double>(v[static_cast<size_t>(i)].x),
                              static_cast<double>(v[static_cast<size_t>(i)].y));
  }
  return f;
}

// Curved edges stay on the inner side of the other edges' chord lines and the reference map is
// invertible.
template <class F>
auto
validFace(F const & g) -> bool
{
  constexpr bool quadratic = F::N >= 6;
  constexpr size_t m = quadratic ? F::N / 2 : F::N;
  Region const rg = region(g);
  L const diam = rg.diameter();
  for (size_t i = 0; i < m; ++i) {
    auto const & e = rg.edges[i];
    P const ctl = quadratic ? 2 * e.at(0.5L) - 0.5L * (e.v0 + e.v1) : 0.5L * (e.v0 + e.v1);
    for (size_t j = 0; j < m; ++j) {
      auto const & g2 = rg.edges[j];
      if (j != i && lineSide(g2.v0, g2.v1, ctl) < 1e-3L * diam) {
        return false;
      }
    }
  }
  for (int i = 0; i <= 8; ++i) {
    for (int j = 0; j <= (F::N % 3 == 0 ? 8 - i : 8); ++j) {
      P a, b;
      mapAt(g, L(i) / 8, L(j) / 8, &a, &b);
      if (cross(a, b) < 2e-2L * norm(a) * norm(b)) {
        return false;
      }
    }
  }
  return true;
}

// A valid counter-clockwise face in the frame.
template <class F>
auto
genFace(pbt::Src & s, pbt::Case & c, Frame const & fr, double bulge = 0.3) -> F
{
  constexpr bool quadratic = F::N >= 6;
  constexpr int m = quadratic ? F::N / 2 : F::N;
  auto v = genConvex(s, m);
  int curved = 0;
  if constexpr (quadratic) {
    for (int i = 0; i < m; ++i) {
      P const a = v[static_cast<size_t>(i)];
      P const b = v[static_cast<size_t>((i + 1) % m)];
      P const d = b - a;
      P const n{-d.y, d.x};
      double h = 0;
      double t = 0.5;
      if (!s.oneIn(3)) {
        h = s.sign() * (s.oneIn(4) ? s.mag(-9, -1) : s.real(0.01, bulge));
        ++curved;
      }
      if (!s.oneIn(2)) {
        t = s.real(0.35, 0.65);
      }
      v.push_back(a + L(t) * d + L(h) * n);
    }
  }
  for (auto & p : v) {
    p = fr.map(p);
  }
  F const f = fromPoints<F>(v);
  if constexpr (quadratic) {
    // shrink the bulges until the face is valid
    auto w = points(f);
    for (int attempt = 0;; ++attempt) {
      F const g = fromPoints<F>(w);
      bool const ok = validFace(g);
      if (ok) {
        c.label(curved > 0 ? "curved" : "straight-sided");
        return g;
      }
      pbt::discardUnless(attempt < 12);
      for (int i = 0; i < m; ++i) {
        P const mid = 0.5L * (w[static_cast<size_t>(i)] + w[static_cast<size_t>((i + 1) % m)]);
        auto & q = w[static_cast<size_t>(m + i)];
        q = mid + 0.5L * (q - mid);
      }
    }
  }
  return f;
}

template <class F>
auto
describe(F const & f) -> std::string
{
  std::string o = F::N == 3 ? "tri" : F::N == 4 ? "quad" : F::N == 6 ? "tri6" : "quad8";
  for (auto const & p : points(f)) {
    o += " " + str(p);
  }
  return o;
}

} // namespace geo

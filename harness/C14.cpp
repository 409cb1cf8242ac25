// C14: point-in-face, orientation, reversal, reference map and face-ray queries.
// Oracle: crossing parity and crossings of the exact boundary in extended precision.
#include "face.hpp"

namespace
{

using namespace geo;

template <class F>
auto
genPoint(pbt::Src & s, F const & f, Region const & r) -> P
{
  L const d = r.diameter();
  switch (s.below(6)) {
  case 0: {
    L u = s.unit();
    L v = s.unit();
    if (F::N % 3 == 0 && u + v > 1) {
      u = 1 - u;
      v = 1 - v;
    }
    return mapAt(f, u, v);
  }
  case 1:
  case 2: { // close to an edge
    auto const & e = r.edges[s.below(r.edges.size())];
    L const t = s.oneIn(5) ? L(s.irange(0, 2)) / 2 : L(s.real(0, 1));
    P const der = e.der(t);
    L const n = norm(der);
    L const off = s.sign() * s.mag(-6, -0.3);
    return e.at(t) + (off * d / n) * P{-der.y, der.x};
  }
  case 3: { // close to a corner
    auto const & e = r.edges[s.below(r.edges.size())];
    L const a = s.fine(0, 6.283185307179586);
    return e.v0 + (L(s.mag(-5, -0.5)) * d) * P{std::cos(a), std::sin(a)};
  }
  case 4: { // on the continuation of a chord
    auto const & e = r.edges[s.below(r.edges.size())];
    return e.v0 + L(s.real(-2, 3)) * (e.v1 - e.v0) +
           (s.sign() * s.mag(-4, -1) * d) * P{1, 0.3L};
  }
  default: { // around
    P const c = r.centroid();
    L const a = s.fine(0, 6.283185307179586);
    return c + (L(s.real(0, 1.5)) * d) * P{std::cos(a), std::sin(a)};
  }
  }
}

template <class F>
void
inside(pbt::Src & s, pbt::Case & c)
{
  Frame const fr = genFrame(s);
  F const f = genFace<F>(s, c, fr);
  c.desc << describe(f);
  Region const r = region(f);
  L const d = r.diameter();
  L const tol = 1.1e-7L * (F::N >= 6) + 1e-12L * (d + norm(r.edges[0].v0)) * 10;
  int in = 0;
  int out = 0;
  for (int k = 0; k < 6; ++k) {
    auto const p = narrow<double>(genPoint(s, f, r));
    P const w = wide<double>(p);
    bool const got = f.contains(p);
    if (r.distance(w) <= tol) {
      c.label("point within tolerance of an edge");
      continue;
    }
    bool const want = r.contains(w);
    (want ? in : out) += 1;
    REQUIRE(got == want, "contains", str(w), " is ", got, "; distance to the boundary is ",
            double(r.distance(w)));
  }
  // corners and edge nodes never abort the query
  for (Int i = 0; i < F::N; ++i) {
    (void)f.contains(f[i]);
  }
  c.nontrivial(in > 0 && out > 0);
}

template <class F>
void
reference(pbt::Src & s, pbt::Case & c)
{
  Frame const fr = genFrame(s);
  F const f = genFace<F>(s, c, fr);
  constexpr Int m = F::N >= 6 ? F::N / 2 : F::N;
  c.desc << describe(f);
  c.nontrivial(true);
  Region const r = region(f);
  L const size = r.diameter() + norm(r.edges[0].v0);
  L const tol = 1e-13L * size * 4;
  for (int k = 0; k < 8; ++k) {
    double u = s.oneIn(4) ? 0.5 * double(s.irange(0, 2)) : s.unit();
    double v = s.oneIn(4) ? 0.5 * double(s.irange(0, 2)) : s.unit();
    if (F::N % 3 == 0 && u + v > 1) {
      u = 1 - u;
      v = 1 - v;
    }
    P a;
    P b;
    P const e = mapAt(f, L(u), L(v), &a, &b);
    auto const g = f(u, v);
    REQUIRE(dist({g[0], g[1]}, e) <= tol, "F(", u, ", ", v, ") = ", str({g[0], g[1]}),
            " expected ", str(e));
    auto const j = f.jacobian(u, v);
    REQUIRE(dist({j(0, 0), j(1, 0)}, a) <= 10 * tol, "dF/dr(", u, ", ", v, ") = ",
            str({j(0, 0), j(1, 0)}), " expected ", str(a));
    REQUIRE(dist({j(0, 1), j(1, 1)}, b) <= 10 * tol, "dF/ds(", u, ", ", v, ") = ",
            str({j(0, 1), j(1, 1)}), " expected ", str(b));
    if (u > 1e-3 && v > 1e-3 && u < 0.999 && v < 0.999 && (F::N % 3 != 0 || u + v < 0.999)) {
      // the point map of a valid face stays in the face
      if (r.distance(e) > 1e-6L * (1 + size)) {
        REQUIRE(f.contains(narrow<double>(e)), "F(", u, ", ", v, ") = ", str(e),
                " is not contained");
      }
    }
  }
  // edges run corner to corner through the middle nodes, in order
  for (Int i = 0; i < m; ++i) {
    auto const e = f.getEdge(i);
    Int const j = (i + 1) % m;
    REQUIRE(e[0][0] == f[i][0] && e[0][1] == f[i][1] && e[1][0] == f[j][0] &&
                e[1][1] == f[j][1],
            "edge ", i);
    if constexpr (F::N >= 6) {
      REQUIRE(e[2][0] == f[m + i][0] && e[2][1] == f[m + i][1], "middle node of edge ", i);
    }
  }
}

// Edges as unordered geometry, for comparing regions
template <class F>
auto
edgeSet(F const & f) -> std::vector<std::array<double, 6>>
{
  constexpr Int m = F::N >= 6 ? F::N / 2 : F::N;
  std::vector<std::array<double, 6>> out;
  for (Int i = 0; i < m; ++i) {
    auto const e = f.getEdge(i);
    std::array<double, 6> k{};
    bool const swap = std::make_pair(e[1][0], e[1][1]) < std::make_pair(e[0][0], e[0][1]);
    k = {e[swap][0], e[swap][1], e[!swap][0], e[!swap][1], 0, 0};
    if constexpr (F::N >= 6) {
      k[4] = e[2][0];
      k[5] = e[2][1];
    }
    out.push_back(k);
  }
  std::sort(out.begin(), out.end());
  return out;
}

template <class F>
void
orientation(pbt::Src & s, pbt::Case & c)
{
  Frame const fr = genFrame(s);
  F const f = genFace<F>(s, c, fr);
  constexpr Int m = F::N >= 6 ? F::N / 2 : F::N;
  c.desc << describe(f);
  c.nontrivial(true);
  REQUIRE(f.isCCW(), "a counter-clockwise face is reported clockwise");
  F g = f;
  g.flip();
  REQUIRE(!g.isCCW(), "the flipped face is reported counter-clockwise");
  REQUIRE(edgeSet(g) == edgeSet(f), "the flipped face has other edges: ", describe(g));
  REQUIRE(region(g).area() < 0, "the flipped face does not run clockwise");
  F h = g;
  h.flip();
  REQUIRE(h.isCCW(), "flipping twice");
  REQUIRE(edgeSet(h) == edgeSet(f), "flipping twice changes the edges: ", describe(h));
  // any renumbering of a clockwise face stays clockwise
  F q;
  Int const k = static_cast<Int>(s.below(static_cast<uint64_t>(m)));
  for (Int i = 0; i < F::N; ++i) {
    q[i] = i < m ? g[(i + k) % m] : g[m + (i - m + k) % m];
  }
  REQUIRE(!q.isCCW(), "renumbered clockwise face is reported counter-clockwise");
  if constexpr (F::N == 4) {
    REQUIRE(f.isConvex() && f.isApproxConvex(), "a convex face is reported concave");
    // push one corner well inside the triangle of the others
    auto v = points(f);
    auto const i = s.below(4);
    P const o = v[(i + 2) % 4];
    P const mid = 0.5L * (v[(i + 1) % 4] + v[(i + 3) % 4]);
    v[i] = mid + L(s.real(0.05, 0.8)) * (o - mid);
    F const w = fromPoints<F>(v);
    L const e = -lineSide(v[(i + 3) % 4], v[i], v[(i + 1) % 4]);
    if (e * dist(v[(i + 3) % 4], v[i]) > 1e-5L) {
      REQUIRE(!w.isConvex() && !w.isApproxConvex(), "a concave face is reported convex: ",
              describe(w));
    }
  }
}

template <class F>
void
rays(pbt::Src & s, pbt::Case & c)
{
  Frame const fr = genFrame(s);
  F const f = genFace<F>(s, c, fr);
  Region const r = region(f);
  L const diam = r.diameter();
  P const target = genPoint(s, f, r);
  L const a = s.oneIn(4) ? L(s.irange(0, 7)) * L(0.78539816339744830961L) : L(s.fine(0, 6.283185307));
  P const d{std::cos(a), std::sin(a)};
  P const o = target - (L(s.oneIn(4) ? 0.0 : s.real(-1, 3)) * diam) * d;
  um2::Ray2<double> const ray(narrow<double>(o), narrow<double>(d));
  c.desc << describe(f) << " ray " << str(wide<double>(ray.origin())) << " dir "
         << str(wide<double>(ray.direction()));
  P const ow = wide<double>(ray.origin());
  P dw = wide<double>(ray.direction());
  dw = (1 / norm(dw)) * dw;
  double buf[16];
  std::fill(std::begin(buf), std::end(buf), -7.0);
  Int const n = f.intersect(ray, buf);
  REQUIRE(n >= 0 && n <= 8, "number of crossings ", n);
  L const size = diam + norm(ow) + dist(ow, r.edges[0].v0) + norm(r.edges[0].v0);
  L const tol = 1e-13L * size;
  std::vector<L> want;
  bool ambiguous = false;
  L worst = 1;
  for (auto const & e : r.edges) {
    auto const x = crossings(e, ow, dw, tol);
    ambiguous = ambiguous || x.ambiguous;
    for (auto const & k : x.certain) {
      if (std::fabs(k.t) < 10 * tol / std::max(std::fabs(k.sine), 1e-9L) ||
          std::fabs(k.sine) < 1e-5L) {
        ambiguous = true;
      }
      worst = std::min(worst, std::fabs(k.sine));
      if (k.t > 0) {
        want.push_back(k.t);
      }
    }
  }
  std::vector<L> got(buf, buf + n);
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  for (auto const g : got) {
    L const off = r.distance(ow + g * dw);
    REQUIRE(off <= 1e-9L * diam + 10 * tol, "reported crossing ", double(g), " is ", double(off),
            " away from the boundary");
  }
  if (ambiguous) {
    c.label("within tolerance of a corner, tangency or the origin");
    return;
  }
  c.nontrivial(!want.empty());
  c.label(want.empty() ? "no crossing" : want.size() % 2 == 0 ? "even crossings" : "odd crossings");
  REQUIRE(got.size() == want.size(), "expected ", want.size(), " crossings, got ", got.size());
  for (size_t i = 0; i < got.size(); ++i) {
    REQUIRE(std::fabs(got[i] - want[i]) <= (1e-9L * diam + 10 * tol) / worst, "crossing ", i,
            " at ", double(got[i]), " expected ", double(want[i]));
  }
}

using T3 = um2::Triangle2<double>;
using Q4 = um2::Quadrilateral2<double>;
using T6 = um2::QuadraticTriangle2<double>;
using Q8 = um2::QuadraticQuadrilateral2<double>;

#define FOUR(name, fn, q, t, rule)                                                       \
  pbt::Reg const name##3(#name "_tri", q, t, rule, fn<T3>);                              \
  pbt::Reg const name##4(#name "_quad", q, t, rule, fn<Q4>);                             \
  pbt::Reg const name##6(#name "_tri6", q, t, rule, fn<T6>);                             \
  pbt::Reg const name##8(#name "_quad8", q, t, rule, fn<Q8>)

FOUR(contains, inside, 12000, 300000, "points inside and outside were both classified");
FOUR(reference, reference, 6000, 150000, "every case");
FOUR(orientation, orientation, 8000, 200000, "every case");
FOUR(rays, rays, 15000, 400000, "the ray certainly crosses the boundary");

} // namespace

auto
main(int argc, char ** argv) -> int
{
  pbt::Options o;
  o.assumptions = {"corner polygons are convex and counter-clockwise where the query requires it",
                   "curved edges stay on the inner side of the other edges' chord lines and the "
                   "reference map is invertible"};
  return pbt::run("C14", "random valid faces with points and rays around them", o, argc, argv);
}

// C13: area, centroid, perimeter, mean chord length and box of faces.
// Oracle: boundary integrals of the region in extended precision.
#include "face.hpp"

namespace
{

using namespace geo;

template <class F>
void
measure(pbt::Case & c, F const & f, char const * what)
{
  Region const r = region(f);
  L const d = r.diameter();
  L const size = d + norm(r.edges[0].v0);
  L const eps = std::numeric_limits<double>::epsilon();
  L const area = r.area();
  L const per = r.perimeter();
  // lengths of nearly straight curved edges are only accurate to the straightness tolerance
  L const rel = F::N >= 6 ? 2e-7L : 1e-12L;
  L const tol = 100 * eps * size;
  double const ga = f.area();
  REQUIRE(std::fabs(L(ga) - area) <= tol * d * 4, what, ": area ", ga, " expected ", double(area));
  P const cen = r.centroid();
  auto const gc = f.centroid();
  L const flat = d * d / area;
  REQUIRE(dist({gc[0], gc[1]}, cen) <= tol * 10 * flat, what, ": centroid ",
          str({gc[0], gc[1]}), " expected ", str(cen));
  double const gp = f.perimeter();
  REQUIRE(std::fabs(L(gp) - per) <= rel * per + tol * 10, what, ": perimeter ", gp, " expected ",
          double(per));
  double const gm = f.meanChordLength();
  L const mcl = L(3.14159265358979323846L) * area / per;
  REQUIRE(std::fabs(L(gm) - mcl) <= (rel + tol * 40 * d / area + tol * 10 / per) * mcl, what,
          ": mean chord length ", gm, " expected ", double(mcl));
  L lo[2];
  L hi[2];
  r.box(lo, hi);
  auto const bb = f.boundingBox();
  L const btol = tol + (F::N >= 6 ? L(1.1e-7) : L(0));
  for (Int i = 0; i < 2; ++i) {
    REQUIRE(std::fabs(L(bb.minima(i)) - lo[i]) <= btol &&
                std::fabs(L(bb.maxima(i)) - hi[i]) <= btol,
            what, ": box along ", i, " [", bb.minima(i), ", ", bb.maxima(i), "] expected [",
            double(lo[i]), ", ", double(hi[i]), "]");
  }
  (void)c;
}

// the same face numbered from another corner
template <class F>
auto
renumber(F const & f, int k) -> F
{
  constexpr Int m = F::N >= 6 ? F::N / 2 : F::N;
  F g;
  for (Int i = 0; i < F::N; ++i) {
    g[i] = i < m ? f[(i + k) % m] : f[m + (i - m + k) % m];
  }
  return g;
}

template <class F>
void
plane(pbt::Src & s, pbt::Case & c)
{
  Frame const fr = genFrame(s);
  F const f = genFace<F>(s, c, fr, 0.5);
  c.desc << describe(f);
  constexpr Int m = F::N >= 6 ? F::N / 2 : F::N;
  bool curved = false;
  if constexpr (F::N >= 6) {
    for (Int i = 0; i < m; ++i) {
      curved = curved || !um2::isStraight(f.getEdge(i));
    }
    c.nontrivial(curved);
  } else {
    c.nontrivial(!fr.plain);
  }
  measure(c, f, "face");
  measure(c, renumber(f, 1 + static_cast<int>(s.below(static_cast<uint64_t>(m - 1)))),
          "renumbered face");
  if constexpr (F::N >= 6) {
    auto const lin = f.linearPolygon();
    for (Int i = 0; i < m; ++i) {
      REQUIRE(lin[i][0] == f[i][0] && lin[i][1] == f[i][1], "linear polygon corner ", i);
    }
    measure(c, lin, "linear polygon");
    if (!curved) {
      L const d = region(f).diameter();
      REQUIRE(std::fabs(f.area() - lin.area()) <= 1e-6 * double(d),
              "straight-sided area ", f.area(), " but linear area ", lin.area());
    }
  }
}

pbt::Reg const r1("triangles", 40000, 1000000, "the face is moved, turned or scaled",
                  plane<um2::Triangle2<double>>);
pbt::Reg const r2("quadrilaterals", 40000, 1000000, "the face is moved, turned or scaled",
                  plane<um2::Quadrilateral2<double>>);
pbt::Reg const r3("quadratic_triangles", 12000, 300000, "some edge is curved",
                  plane<um2::QuadraticTriangle2<double>>);
pbt::Reg const r4("quadratic_quadrilaterals", 12000, 300000, "some edge is curved",
                  plane<um2::QuadraticQuadrilateral2<double>>);

// Faces placed on a plane in space
template <Int N>
void
space(pbt::Src & s, pbt::Case & c)
{
  using F = um2::LinearPolygon<N, 3, double>;
  auto const v = genConvex(s, N);
  double const scale = s.mag(-2, 2);
  // an orthonormal frame
  L const a = s.fine(0, 6.28);
  L const b = s.fine(0, 3.14);
  L const ex[3] = {std::cos(a) * std::cos(b), std::sin(a) * std::cos(b), -std::sin(b)};
  L const ey[3] = {-std::sin(a), std::cos(a), 0};
  L const o[3] = {L(s.real(-5, 5)), L(s.real(-5, 5)), L(s.real(-5, 5))};
  F f;
  L lo[3] = {1e300L, 1e300L, 1e300L};
  L hi[3] = {-1e300L, -1e300L, -1e300L};
  for (Int i = 0; i < N; ++i) {
    for (Int k = 0; k < 3; ++k) {
      auto const & p = v[static_cast<size_t>(i)];
      f[i][k] = static_cast<double>(o[k] + L(scale) * (p.x * ex[k] + p.y * ey[k]));
      lo[k] = std::min(lo[k], L(f[i][k]));
      hi[k] = std::max(hi[k], L(f[i][k]));
      c.desc << f[i][k] << " ";
    }
  }
  c.nontrivial(true);
  Region const r = region(v, false);
  L const tol = 1e-13L * (scale + 10);
  REQUIRE(std::fabs(L(f.perimeter()) - scale * r.perimeter()) <= tol, "perimeter ", f.perimeter());
  auto const bb = f.boundingBox();
  for (Int k = 0; k < 3; ++k) {
    REQUIRE(L(bb.minima(k)) == lo[k] && L(bb.maxima(k)) == hi[k], "box along ", k);
  }
  if constexpr (N == 3) {
    REQUIRE(std::fabs(L(f.area()) - scale * scale * r.area()) <= tol * scale * 4, "area ",
            f.area());
    P const cen = r.centroid();
    auto const g = f.centroid();
    for (Int k = 0; k < 3; ++k) {
      L const e = o[k] + scale * (cen.x * ex[k] + cen.y * ey[k]);
      REQUIRE(std::fabs(L(g[k]) - e) <= tol, "centroid[", k, "] ", g[k], " ", double(e));
    }
  }
}
pbt::Reg const r5("triangles_in_space", 20000, 400000, "every case", space<3>);
pbt::Reg const r6("quadrilaterals_in_space", 20000, 400000, "every case", space<4>);

} // namespace

auto
main(int argc, char ** argv) -> int
{
  pbt::Options o;
  o.assumptions = {"corner polygons are convex, as the library requires",
                   "curved edges within 1e-7 of their chord count as straight"};
  return pbt::run("C13", "random valid faces of every shape", o, argc, argv);
}

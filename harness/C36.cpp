// C36: crossings of curved edges, and faces that cross themselves.
// Oracle: crossings of finely sampled edges, refined by Newton iteration; unclear cases are discarded.
#include "mesh.hpp"
#include "reactor.hpp"

#include <um2/common/logger.hpp>

namespace
{

using namespace geo;

using Edge = um2::QuadraticSegment2<double>;
using Point = um2::Point2<double>;

struct Meeting {
  Point p;
  bool shared = false; // at the common end
};

auto
cross(Point const & u, Point const & v) -> double
{
  return u[0] * v[1] - u[1] * v[0];
}

auto
at(Edge const & e, double t) -> Point
{
  return (2 * t - 1) * (t - 1) * e[0] + t * (2 * t - 1) * e[1] + 4 * t * (1 - t) * e[2];
}

auto
slope(Edge const & e, double t) -> Point
{
  return (4 * t - 3) * e[0] + (4 * t - 1) * e[1] + (4 - 8 * t) * e[2];
}

constexpr int M = 160;

// All crossings; false when some of them, or a near miss, is not clear-cut.
// With `shared`, b begins where a ends.
auto
meetings(Edge const & a, Edge const & b, bool shared, double size, std::vector<Meeting> & out) -> bool
{
  out.clear();
  std::array<Point, M + 1> x;
  std::array<Point, M + 1> y;
  for (int i = 0; i <= M; ++i) {
    x[static_cast<size_t>(i)] = at(a, i / double(M));
    y[static_cast<size_t>(i)] = at(b, i / double(M));
  }
  for (size_t i = 0; i < M; ++i) {
    for (size_t j = 0; j < M; ++j) {
      if (shared && i >= M - 2 && j <= 1) {
        continue;
      }
      Point const u = x[i + 1] - x[i];
      Point const v = y[j + 1] - y[j];
      Point const w = y[j] - x[i];
      double const d = cross(u, v);
      double const t = cross(w, v) / d;
      double const q = cross(w, u) / d;
      if (!(t >= 0 && t < 1 && q >= 0 && q < 1)) {
        continue;
      }
      double r = (static_cast<double>(i) + t) / M;
      double s = (static_cast<double>(j) + q) / M;
      for (int k = 0; k < 8; ++k) {
        Point const f = at(a, r) - at(b, s);
        Point const da = slope(a, r);
        Point const db = slope(b, s);
        double const det = -cross(da, db);
        r -= (-f[0] * db[1] + f[1] * db[0]) / det;
        s -= (da[0] * f[1] - da[1] * f[0]) / det;
      }
      if (!((at(a, r) - at(b, s)).norm() < 1e-9 * size) || r < 0.03 || r > 0.97 || s < 0.03 || s > 0.97) {
        return false;
      }
      Point const da = slope(a, r);
      Point const db = slope(b, s);
      if (std::fabs(cross(da, db)) < 0.2 * da.norm() * db.norm()) {
        return false;
      }
      out.push_back({at(a, r)});
    }
  }
  if (shared) {
    Point const da = slope(a, 1);
    Point const db = slope(b, 0);
    if (std::fabs(cross(da, db)) < 0.2 * da.norm() * db.norm() && da.dot(db) < 0) {
      return false;
    }
    out.push_back({a[1], true});
  }
  for (size_t i = 0; i < out.size(); ++i) {
    for (size_t j = 0; j < i; ++j) {
      if ((out[i].p - out[j].p).norm() < 0.08 * size) {
        return false;
      }
    }
  }
  // ends that barely touch or barely miss the other edge
  for (size_t i = 0; i <= M; ++i) {
    double const touch = 0.01 * size;
    if ((x[0] - y[i]).norm() < touch || (x[i] - y[M]).norm() < touch ||
        (!shared && ((x[M] - y[i]).norm() < touch || (x[i] - y[0]).norm() < touch))) {
      return false;
    }
  }
  double const near = 0.02 * size;
  for (size_t i = 0; i <= M; i += 2) {
    for (size_t j = 0; j <= M; j += 2) {
      if ((x[i] - y[j]).squaredNorm() < near * near) {
        bool explained = false;
        for (auto const & m : out) {
          explained = explained || (x[i] - m.p).norm() < 10 * near;
        }
        if (!explained) {
          return false;
        }
      }
    }
  }
  return true;
}

auto
str(Point const & p) -> std::string
{
  return pbt::cat("(", p[0], ",", p[1], ")");
}

auto
genMiddle(pbt::Src & s, Point const & a, Point const & b, double bend) -> Point
{
  double const f = s.oneIn(3) ? 0 : s.real(-bend, bend);
  double const e = s.coin() ? 0 : s.real(-0.1, 0.1);
  Point const d = b - a;
  return Point((a[0] + b[0]) / 2 - f * d[1] + e * d[0], (a[1] + b[1]) / 2 + f * d[0] + e * d[1]);
}

PBT_SUB(edges, 9000, 200000, "two edges that cross apart from a common end")
{
  double const size = s.mag(-1.5, 1.5);
  Point const origin(s.oneIn(3) ? 0 : size * s.real(-20, 20), s.oneIn(3) ? 0 : size * s.real(-20, 20));
  auto point = [&]() { return origin + Point(s.real(0, size), s.real(0, size)); };
  bool const shared = s.coin();
  Point const p0 = point();
  Point const p1 = point();
  Point p2 = point();
  Point const p3 = point();
  if (shared) {
    p2 = p1;
  }
  Edge const a(p0, p1, genMiddle(s, p0, p1, 0.5));
  Edge const b(p2, p3, genMiddle(s, p2, p3, 0.5));
  c.desc << str(a[0]) << str(a[1]) << str(a[2]) << " and " << str(b[0]) << str(b[1]) << str(b[2]) << ", size " << size;
  // lengths not too different from the size
  pbt::discardUnless((p1 - p0).norm() > 0.1 * size && (p3 - p2).norm() > 0.1 * size);
  std::vector<Meeting> want;
  pbt::discardUnless(meetings(a, b, shared, size, want));
  pbt::discardUnless(want.size() <= 2);
  if (shared) { // not where one edge goes on into the other
    Point const da = slope(a, 1);
    Point const db = slope(b, 0);
    pbt::discardUnless(std::fabs(cross(da, db)) > 0.2 * da.norm() * db.norm());
  }
  Edge const ra(a[1], a[0], a[2]);
  Edge const rb(b[1], b[0], b[2]);
  auto expect = [&](Edge const & q1, Edge const & q2, char const * what) {
    Point buf[16];
    Int const n = q1.intersect(q2, buf);
    REQUIRE(n == static_cast<Int>(want.size()), what, ": ", n, " meeting points, expected ", want.size());
    for (auto const & w : want) {
      double best = 1e300;
      for (Int i = 0; i < n; ++i) {
        best = std::min(best, (buf[i] - w.p).norm());
      }
      REQUIRE(best <= 1e-4 * size, what, ": no meeting point at ", str(w.p), ", the nearest is ", best, " away");
    }
    REQUIRE(q1.intersects(q2) == !want.empty(), what, ": intersects says ", !want.empty() ? "no" : "yes");
  };
  expect(a, b, "as given");
  expect(b, a, "exchanged");
  expect(ra, b, "first reversed");
  expect(a, rb, "second reversed");
  c.label(pbt::cat(want.size(), shared ? " meetings with a common end" : " meetings"));
  c.nontrivial(want.size() > (shared ? 1U : 0U));
}

// The pairs of edges that cross, as (i, j) with i before j; nothing when unclear
template <class F>
auto
crossingPairs(F const & f, double size, bool & clear) -> std::vector<std::pair<int, int>>
{
  constexpr int m = std::is_same_v<F, um2::QuadraticTriangle<2, double>> ? 3 : 4;
  std::vector<std::pair<int, int>> out;
  std::vector<Meeting> got;
  clear = true;
  for (int i = 0; i < m && clear; ++i) {
    clear = meetings(f.getEdge(i), f.getEdge((i + 1) % m), true, size, got) && got.size() <= 2;
    if (got.size() > 1) {
      out.push_back({i, (i + 1) % m});
    }
  }
  if (m == 4) {
    for (int i = 0; i < 2 && clear; ++i) {
      clear = meetings(f.getEdge(i), f.getEdge(i + 2), false, size, got) && got.size() <= 2;
      if (!got.empty()) {
        out.push_back({i, i + 2});
      }
    }
  }
  return out;
}

template <class F>
auto
genCrossed(pbt::Src & s, pbt::Case & c, double & size) -> F
{
  constexpr int m = std::is_same_v<F, um2::QuadraticTriangle<2, double>> ? 3 : 4;
  size = s.mag(-1.5, 1.5);
  Point const origin(s.oneIn(3) ? 0 : size * s.real(-20, 20), s.oneIn(3) ? 0 : size * s.real(-20, 20));
  auto v = genConvex(s, m);
  if (m == 4 && s.oneIn(6)) {
    std::swap(v[1], v[2]);
  }
  F f;
  for (int i = 0; i < m; ++i) {
    auto const & p = v[static_cast<size_t>(i)];
    f[i] = origin + size * Point(static_cast<double>(p.x), static_cast<double>(p.y));
  }
  int const one = s.irange(0, m - 1);
  bool const single = s.coin();
  for (int i = 0; i < m; ++i) {
    Point const a = f[i];
    Point const b = f[(i + 1) % m];
    f[m + i] = single && i != one ? 0.5 * (a + b) : genMiddle(s, a, b, 0.8);
  }
  c.desc << m << " corners, size " << size << ":";
  for (int i = 0; i < 2 * m; ++i) {
    c.desc << " " << str(f[i]);
  }
  return f;
}

template <class F>
void
crossedFace(pbt::Src & s, pbt::Case & c)
{
  double size = 1;
  auto const f = genCrossed<F>(s, c, size);
  constexpr int m = std::is_same_v<F, um2::QuadraticTriangle<2, double>> ? 3 : 4;
  bool clear = true;
  auto const pairs = crossingPairs(f, size, clear);
  pbt::discardUnless(clear);
  Point buf[4 * m];
  REQUIRE(f.hasSelfIntersection() == !pairs.empty(), "reports ", pairs.empty() ? "a" : "no", " self-intersection; ",
          pairs.size(), " pairs of edges cross");
  REQUIRE(f.hasSelfIntersection(buf) == !pairs.empty(), "reports ", pairs.empty() ? "a" : "no",
          " self-intersection when given a buffer");
  c.label(pairs.empty() ? "simple" : pbt::cat(pairs.size(), " pairs cross"));
  if (pairs.empty()) {
    return;
  }
  c.nontrivial();
  // repair moves one middle vertex so that one pair no longer crosses, or changes nothing
  F g = f;
  Int vid = -1;
  bool const fixed = um2::fixSelfIntersection(g, buf, vid);
  c.label(fixed ? "repaired" : "not repairable");
  for (int i = 0; i < 2 * m; ++i) {
    if (!fixed || i != vid) {
      REQUIRE(g[i][0] == f[i][0] && g[i][1] == f[i][1], "repair moved vertex ", i);
    }
  }
  if (!fixed) {
    return;
  }
  REQUIRE(vid >= m && vid < 2 * m, "repair moved vertex ", vid);
  REQUIRE((g[vid] - f[vid] - buf[0]).norm() <= 1e-12 * (size + f[vid].norm()), "repair moved the vertex by ",
          str(g[vid] - f[vid]), " and reports ", str(buf[0]));
  // the moved edge took part in a crossing, and of these one is gone
  auto const after = crossingPairs(g, size, clear);
  int const e = vid - m;
  bool concerned = false;
  bool gone = false;
  for (auto const & [i, j] : pairs) {
    if (i == e || j == e) {
      concerned = true;
      gone = gone || std::find(after.begin(), after.end(), std::make_pair(i, j)) == after.end();
    }
  }
  REQUIRE(concerned, "repair moved the middle of edge ", e, ", which crosses no other");
  if (clear) {
    REQUIRE(gone, "repair left every crossing of edge ", e);
  }
}

PBT_SUB(triangles, 6000, 120000, "faces that cross themselves")
{
  crossedFace<um2::QuadraticTriangle<2, double>>(s, c);
}

PBT_SUB(quadrilaterals, 5000, 100000, "faces that cross themselves")
{
  crossedFace<um2::QuadraticQuadrilateral<2, double>>(s, c);
}

// Meshes in which an edge has been bent through a neighbouring one
template <int N>
void
crossedMesh(pbt::Src & s, pbt::Case & c)
{
  auto m = genMesh<2, N>(s, c);
  constexpr int nc = N / 2;
  size_t k = s.below(m.f.size());
  int e = s.irange(0, nc - 1);
  auto users = [&]() {
    int n = 0;
    for (auto const & g : m.f) {
      n += std::count(g.begin(), g.end(), m.f[k][static_cast<size_t>(nc + e)]) > 0 ? 1 : 0;
    }
    return n;
  };
  for (int i = 0; i < 6 && users() == 1; ++i) { // rather inside
    k = s.below(m.f.size());
    e = s.irange(0, nc - 1);
  }
  auto const & f = m.f[k];
  auto const ia = static_cast<size_t>(f[static_cast<size_t>(e)]);
  auto const ib = static_cast<size_t>(f[static_cast<size_t>((e + 1) % nc)]);
  auto const im = static_cast<size_t>(f[static_cast<size_t>(nc + e)]);
  Point const d = m.v[ib] - m.v[ia];
  double const bend = s.real(0, 0.8);
  m.v[im] = 0.5 * (m.v[ia] + m.v[ib]) + bend * Point(-d[1], d[0]);
  int const uses = users();
  c.desc << "; edge " << e << " of face " << k << " bent by " << bend << (uses == 1 ? ", boundary" : "");
  auto fvm = toFVM(m);
  int crossed = 0;
  bool all_clear = true;
  auto count = [&](bool & clear) {
    int n = 0;
    for (Int i = 0; i < fvm.numFaces(); ++i) {
      auto const face = fvm.getFace(i);
      bool cl = true;
      double const size = std::max((face[0] - face[1]).norm(), (face[1] - face[2]).norm());
      n += crossingPairs(face, size, cl).empty() ? 0 : 1;
      clear = clear && cl;
    }
    return n;
  };
  crossed = count(all_clear);
  pbt::discardUnless(all_clear);
  // turning a face over is repaired first; keep to faces that are not
  for (Int i = 0; i < fvm.numFaces(); ++i) {
    pbt::discardUnless(fvm.getFace(i).isCCW());
  }
  auto const box = fvm.boundingBox();
  reactor::armLogger();
  fvm.validate();
  bool const refused = reactor::errorLogged();
  quietLogger();
  c.label(crossed == 0 ? "no face crosses itself" : refused ? "refused" : "repaired");
  c.nontrivial(crossed > 0);
  REQUIRE(fvm.numFaces() == static_cast<Int>(m.f.size()) && fvm.numVertices() == static_cast<Int>(m.v.size()), "size changed");
  for (Int i = 0; i < fvm.numFaces(); ++i) {
    for (Int j = 0; j < N; ++j) {
      REQUIRE(fvm.getFaceConn(i)[j] == m.f[static_cast<size_t>(i)][static_cast<size_t>(j)], "connectivity changed");
    }
    for (Int j = 0; j < nc; ++j) {
      auto const v = static_cast<size_t>(fvm.getFaceConn(i)[j]);
      auto const p = fvm.getVertex(static_cast<Int>(v));
      REQUIRE(p[0] == m.v[v][0] && p[1] == m.v[v][1], "corner ", v, " moved");
    }
  }
  if (crossed == 0) {
    REQUIRE(!refused, "a sound mesh was refused: ", um2::logger::buffer);
    for (size_t i = 0; i < m.v.size(); ++i) {
      auto const p = fvm.getVertex(static_cast<Int>(i));
      REQUIRE(p[0] == m.v[i][0] && p[1] == m.v[i][1], "vertex ", i, " of a sound mesh moved");
    }
    return;
  }
  if (refused) {
    return;
  }
  bool clear = true;
  int const left = count(clear);
  if (clear) {
    REQUIRE(left == 0, left, " faces of an accepted mesh cross themselves");
  }
  double const tol = 1e-6;
  for (int i = 0; i < 2; ++i) {
    REQUIRE(std::fabs(fvm.boundingBox().minima()[i] - box.minima()[i]) < tol &&
                std::fabs(fvm.boundingBox().maxima()[i] - box.maxima()[i]) < tol,
            "the extent of an accepted mesh changed");
  }
}

PBT_SUB(meshes, 3000, 50000, "meshes with faces that cross themselves")
{
  if (s.coin()) {
    crossedMesh<6>(s, c);
  } else {
    crossedMesh<8>(s, c);
  }
}

} // namespace

auto
main(int argc, char ** argv) -> int
{
  quietLogger();
  pbt::Options o;
  o.assumptions = {"crossings and common ends at angles below 0.2 rad, near ends, near each other, and near misses within 2% of the size are left out",
                   "edges meeting more than twice are left out, as documented"};
  return pbt::run("C36", "meeting points and repairs against crossings of sampled edges", o, argc, argv);
}

// One workload over the library, compiled in several configurations.
// Every call gives a list of (value, scale) pairs; scale 0 marks answers that must be equal.
#include <um2/common/settings.hpp>
#include <um2/geometry/axis_aligned_box.hpp>
#include <um2/geometry/morton_sort_points.hpp>
#include <um2/geometry/quadratic_quadrilateral.hpp>
#include <um2/geometry/quadratic_triangle.hpp>
#include <um2/geometry/quadrilateral.hpp>
#include <um2/geometry/triangle.hpp>
#include <um2/math/mat.hpp>
#include <um2/math/matrix.hpp>
#include <um2/math/morton.hpp>
#include <um2/mesh/face_vertex_mesh.hpp>
#include <um2/mesh/polytope_soup.hpp>
#include <um2/mesh/rectilinear_grid.hpp>
#include <um2/mesh/regular_grid.hpp>
#include <um2/mpact/model.hpp>
#include <um2/physics/cross_section.hpp>
#include <um2/stdlib/math/roots.hpp>

#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>

namespace
{

struct Work {
  uint64_t state;
  int size;
  double * out;
  int n = 0;
  int cap;

  auto
  next() -> uint64_t
  {
    state += 0x9E3779B97F4A7C15ULL;
    uint64_t z = state;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  auto
  below(uint64_t k) -> int
  {
    return static_cast<int>(next() % k);
  }
  // a value that every configuration can hold
  auto
  real(double lo, double hi) -> double
  {
    double const u = static_cast<double>(next() >> 11) / 9007199254740992.0;
    return static_cast<double>(static_cast<float>(std::round((lo + u * (hi - lo)) * 4096) / 4096));
  }
  void
  put(double v, double scale)
  {
    if (n + 2 <= cap) {
      out[n] = v;
      out[n + 1] = scale;
      n += 2;
    }
  }
  void
  exact(double v)
  {
    put(v, 0);
  }
};

auto
F(double v) -> Float
{
  return static_cast<Float>(v);
}

template <int D>
void
vec(Work & w)
{
  using V = um2::Vec<D, Float>;
  using I = um2::Vec<D, Int>;
  V a;
  V b;
  I p;
  I q;
  for (int i = 0; i < D; ++i) {
    a[i] = F(w.real(-8, 8));
    b[i] = F(w.real(0.25, 8) * (w.below(2) == 0 ? 1 : -1));
    p[i] = w.below(2001) - 1000;
    q[i] = w.below(1000) + 1;
  }
  auto const s = F(w.real(0.5, 4));
  auto all = [&](V const & v, double scale) {
    for (int i = 0; i < D; ++i) {
      w.put(static_cast<double>(v[i]), scale);
    }
  };
  all(a + b, 16);
  all(a - b, 16);
  all(a * b, 64);
  all(a / b, 32);
  all(a * s, 32);
  all(s * a, 32);
  all(a / s, 16);
  all(-a, 8);
  all(um2::min(a, b), 0);
  all(um2::max(a, b), 0);
  V c = a;
  c += b;
  c *= s;
  c -= a;
  c /= b;
  all(c, 500);
  w.put(static_cast<double>(a.dot(b)), 64 * D);
  w.put(static_cast<double>(a.squaredNorm()), 64 * D);
  w.put(static_cast<double>(b.norm()), 8 * D);
  all(b.normalized(), 1);
  w.exact(a.isApprox(b) ? 1 : 0);
  w.exact(a.isApprox(a) ? 1 : 0);
  I const r = p + q;
  I const t = p * q - r;
  for (int i = 0; i < D; ++i) {
    w.exact(r[i]);
    w.exact(t[i]);
    w.exact(um2::min(p, q)[i]);
  }
  w.exact(p.dot(q));
  w.exact(p == q ? 1 : 0);
  if constexpr (D == 2) {
    w.put(static_cast<double>(a.cross(b)), 128);
    um2::Mat<2, 2, Float> m;
    for (int i = 0; i < 4; ++i) {
      m(i / 2, i % 2) = F(w.real(-2, 2)) + (i % 3 == 0 ? F(6) : F(0));
    }
    all(m * a, 160);
    auto const inv = um2::inv(m);
    all(inv * a, 16);
  }
  if constexpr (D == 3) {
    all(a.cross(b), 128);
  }
}

void
codes(Work & w)
{
  for (int i = 0; i < 8; ++i) {
    auto const x = static_cast<uint32_t>(w.next());
    auto const y = static_cast<uint32_t>(w.next());
    auto const z = static_cast<uint32_t>(w.next());
    uint64_t const m = um2::mortonEncode(uint64_t{x}, uint64_t{y});
    w.exact(static_cast<double>(m >> 32));
    w.exact(static_cast<double>(m & 0xFFFFFFFFU));
    w.exact(um2::mortonEncode(x & 0xFFFFU, y & 0xFFFFU));
    w.exact(um2::mortonEncode(x & 0x3FFU, y & 0x3FFU, z & 0x3FFU));
    uint32_t a = 0;
    uint32_t b = 0;
    uint32_t c = 0;
    um2::mortonDecode(x, a, b);
    w.exact(a);
    w.exact(b);
    um2::mortonDecode(y & 0x3FFFFFFFU, a, b, c);
    w.exact(a);
    w.exact(b);
    w.exact(c);
  }
  if (sizeof(Float) == 8) { // the code depends on the precision
    um2::Vector<um2::Point2F> pts;
    for (int i = 0; i < 4 * w.size; ++i) {
      pts.emplace_back(um2::Point2F(F(w.real(0, 1)), F(w.real(0, 1))));
    }
    um2::mortonSort(pts.begin(), pts.end());
    for (auto const & p : pts) {
      w.exact(static_cast<double>(p[0]));
      w.exact(static_cast<double>(p[1]));
    }
  } else {
    for (int i = 0; i < 4 * w.size; ++i) {
      w.put(0, 1e300);
      w.put(0, 1e300);
    }
  }
}

template <class T>
void
matrices(Work & w)
{
  Int const m = 1 + w.below(static_cast<uint64_t>(w.size));
  Int const k = 1 + w.below(static_cast<uint64_t>(w.size));
  Int const n = 1 + w.below(static_cast<uint64_t>(w.size));
  um2::Matrix<T> a(m, k);
  um2::Matrix<T> b(k, n);
  um2::Vector<T> x(k);
  for (Int i = 0; i < m * k; ++i) {
    a(i % m, i / m) = static_cast<T>(w.real(-4, 4));
  }
  for (Int i = 0; i < k * n; ++i) {
    b(i % k, i / k) = static_cast<T>(w.real(-4, 4));
  }
  for (Int i = 0; i < k; ++i) {
    x[i] = static_cast<T>(w.real(-4, 4));
  }
  double const tol = sizeof(T) == 4 ? 1e8 : 1; // single precision products in every configuration
  auto const c = a * b;
  um2::Matrix<T> d(m, n); // holds something already
  for (Int i = 0; i < m * n; ++i) {
    d(i % m, i / m) = static_cast<T>(w.real(-4, 4));
  }
  um2::matmul(d, a, b);
  um2::Vector<T> const y = a * x;
  for (Int i = 0; i < m; ++i) {
    w.put(static_cast<double>(y[i]), 16 * k * tol);
    for (Int j = 0; j < n; ++j) {
      w.put(static_cast<double>(c(i, j)), 16 * k * tol);
      w.put(static_cast<double>(d(i, j)), 16 * k * tol);
    }
  }
}

// A mesh of one face type over [0, 4]^2, distorted
template <int PO, int N>
auto
mesh(Work & w) -> um2::PolytopeSoup
{
  um2::PolytopeSoup soup;
  int const nc = 1 + w.below(static_cast<uint64_t>(std::max(1, w.size / 2)));
  double const h = 4.0 / nc;
  std::vector<std::array<double, 2>> v;
  for (int j = 0; j <= nc; ++j) {
    for (int i = 0; i <= nc; ++i) {
      double x = i * h;
      double y = j * h;
      if (i > 0 && i < nc && j > 0 && j < nc) {
        x += h * w.real(-0.12, 0.12);
        y += h * w.real(-0.12, 0.12);
      }
      v.push_back({static_cast<float>(x), static_cast<float>(y)});
    }
  }
  for (auto const & p : v) {
    soup.addVertex(F(p[0]), F(p[1]));
  }
  std::vector<std::array<int, 3>> mids;
  auto mid = [&](int a, int b) {
    int const lo = std::min(a, b);
    int const hi = std::max(a, b);
    for (auto const & m : mids) {
      if (m[0] == lo && m[1] == hi) {
        return m[2];
      }
    }
    auto const & p = v[static_cast<size_t>(lo)];
    auto const & q = v[static_cast<size_t>(hi)];
    bool const edge = (p[0] == q[0] && (p[0] == 0 || p[0] == 4)) || (p[1] == q[1] && (p[1] == 0 || p[1] == 4));
    double const b0 = edge ? 0 : w.real(-0.05, 0.05);
    double const x = (p[0] + q[0]) / 2 - b0 * (q[1] - p[1]);
    double const y = (p[1] + q[1]) / 2 + b0 * (q[0] - p[0]);
    int const id = soup.addVertex(F(static_cast<float>(x)), F(static_cast<float>(y)));
    mids.push_back({lo, hi, id});
    return id;
  };
  auto add = [&](std::vector<int> c) {
    size_t const k = c.size();
    if (PO == 2) {
      for (size_t i = 0; i < k; ++i) {
        c.push_back(mid(c[i], c[(i + 1) % k]));
      }
    }
    um2::Vector<Int> conn;
    for (int const i : c) {
      conn.emplace_back(i);
    }
    auto const t = N == 3   ? um2::VTKElemType::Triangle
                   : N == 4 ? um2::VTKElemType::Quad
                   : N == 6 ? um2::VTKElemType::QuadraticTriangle
                            : um2::VTKElemType::QuadraticQuad;
    soup.addElement(t, conn);
  };
  for (int j = 0; j < nc; ++j) {
    for (int i = 0; i < nc; ++i) {
      int const a = j * (nc + 1) + i;
      int const b = a + 1;
      int const d = b + nc + 1;
      int const e = a + nc + 1;
      if (N == 4 || N == 8) {
        add({a, b, d, e});
      } else if (w.below(2) == 0) {
        add({a, b, d});
        add({a, d, e});
      } else {
        add({a, b, e});
        add({b, d, e});
      }
    }
  }
  return soup;
}

// Distance to the boundary of a face, by sampling its edges
template <int PO, int N>
auto
margin(um2::Polygon<PO, N, 2, Float> const & f, double x, double y) -> double
{
  double best = 1e30;
  for (Int k = 0; k < um2::polygonNumEdges<PO, N>(); ++k) {
    auto const e = f.getEdge(k);
    for (int i = 0; i <= 64; ++i) {
      auto const p = e(F(i / 64.0));
      best = std::min(best, std::hypot(static_cast<double>(p[0]) - x, static_cast<double>(p[1]) - y));
    }
  }
  return best;
}

template <int PO, int N>
void
faces(Work & w)
{
  um2::PolytopeSoup const soup = mesh<PO, N>(w);
  um2::FaceVertexMesh<PO, N> const m(soup);
  Int const nf = m.numFaces();
  auto const bb = m.boundingBox();
  for (int d = 0; d < 2; ++d) {
    w.put(static_cast<double>(bb.minima()[d]), 4);
    w.put(static_cast<double>(bb.maxima()[d]), 4);
  }
  for (Int i = 0; i < nf; ++i) {
    auto const f = m.getFace(i);
    w.put(static_cast<double>(f.area()), 16);
    auto const c = f.centroid();
    w.put(static_cast<double>(c[0]), 64);
    w.put(static_cast<double>(c[1]), 64);
    w.put(static_cast<double>(f.perimeter()), 160);
    w.put(static_cast<double>(f.meanChordLength()), 160);
    w.exact(f.isCCW() ? 1 : 0);
  }
  for (int i = 0; i < 12; ++i) {
    double const x = w.real(0.01, 3.99);
    double const y = w.real(0.01, 3.99);
    Int const k = m.faceContaining(um2::Point2F(F(x), F(y)));
    // faces are compared away from edges; the margin is sampled, so it is compared loosely too
    bool clear = k >= 0;
    for (Int j = 0; clear && j < nf; ++j) {
      clear = margin(m.getFace(j), x, y) > 0.1;
    }
    w.put(clear ? k : -1, clear ? 0 : 1e300);
  }
  // rays: length within each face
  for (int i = 0; i < 6; ++i) {
    double const x = w.real(0.1, 3.9);
    double const y = w.real(0.1, 3.9);
    double const t = w.real(0, 6.25);
    um2::Vec2F const dir(F(std::cos(t)), F(std::sin(t)));
    um2::Point2F const o(F(x) - 10 * dir[0], F(y) - 10 * dir[1]);
    um2::Ray2F const ray(o, dir.normalized());
    std::vector<Float> coords(static_cast<size_t>(8 * nf) + 8);
    std::vector<Int> off(static_cast<size_t>(nf) + 2);
    std::vector<Int> ids(static_cast<size_t>(nf) + 2);
    auto const hits = m.intersect(ray, coords.data(), off.data(), ids.data());
    double total = 0;
    std::vector<double> len(static_cast<size_t>(nf), 0);
    for (Int k = 0; k < hits[1]; ++k) {
      Int const b = off[static_cast<size_t>(k)];
      Int const e = off[static_cast<size_t>(k) + 1];
      std::sort(coords.begin() + b, coords.begin() + e);
      for (Int j = b; j + 1 < e; j += 2) {
        double const l = static_cast<double>(coords[static_cast<size_t>(j) + 1] - coords[static_cast<size_t>(j)]);
        len[static_cast<size_t>(ids[static_cast<size_t>(k)])] += l;
        total += l;
      }
    }
    double const sc = PO == 1 ? 4000 : 4e6; // grazing rays are ill-conditioned
    w.put(total, sc);
    for (double const l : len) {
      w.put(l, sc);
    }
  }
}

void
grids(Work & w)
{
  int const n[2] = {1 + w.below(9), 1 + w.below(9)};
  double const x0 = w.real(-4, 4);
  double const y0 = w.real(-4, 4);
  double const dx = w.real(0.25, 2);
  double const dy = w.real(0.25, 2);
  um2::RegularGrid2F const g(um2::Point2F(F(x0), F(y0)), um2::Vec2F(F(dx), F(dy)), um2::Vec2I(n[0], n[1]));
  um2::Vector<um2::AxisAlignedBox2F> boxes;
  std::vector<double> px{x0};
  std::vector<double> py{y0};
  for (int i = 0; i < n[0]; ++i) {
    px.push_back(px.back() + w.real(0.25, 2));
  }
  for (int j = 0; j < n[1]; ++j) {
    py.push_back(py.back() + w.real(0.25, 2));
  }
  for (size_t j = 0; j < static_cast<size_t>(n[1]); ++j) {
    for (size_t i = 0; i < static_cast<size_t>(n[0]); ++i) {
      boxes.emplace_back(um2::AxisAlignedBox2F(um2::Point2F(F(px[i]), F(py[j])), um2::Point2F(F(px[i + 1]), F(py[j + 1]))));
    }
  }
  um2::RectilinearGrid2F const r(boxes);
  w.exact(r.numCells(0));
  w.exact(r.numCells(1));
  for (int d = 0; d < 2; ++d) {
    w.put(static_cast<double>(g.maxima()[d]), 32);
    w.put(static_cast<double>(r.maxima()[d]), 32);
    w.put(static_cast<double>(g.extents()[d]), 32);
  }
  for (int i = 0; i < 10; ++i) {
    int const ix = w.below(static_cast<uint64_t>(n[0]));
    int const iy = w.below(static_cast<uint64_t>(n[1]));
    auto const b = g.getBox(ix, iy);
    auto const q = r.getBox(ix, iy);
    for (int d = 0; d < 2; ++d) {
      w.put(static_cast<double>(b.minima()[d]), 32);
      w.put(static_cast<double>(b.maxima()[d]), 32);
      w.put(static_cast<double>(q.minima()[d]), 32);
      w.put(static_cast<double>(q.maxima()[d]), 32);
    }
    auto const in = g.getCellIndexContaining(um2::Point2F(F(x0 + (ix + w.real(0.05, 0.95)) * dx), F(y0 + (iy + w.real(0.05, 0.95)) * dy)));
    w.exact(in[0]);
    w.exact(in[1]);
    um2::Ray2F const ray(um2::Point2F(F(x0 - 1), F(y0 - 1)), um2::Vec2F(F(w.real(0.1, 1)), F(w.real(0.1, 1))).normalized());
    auto const t = um2::AxisAlignedBox2F(um2::Point2F(F(x0), F(y0)), g.maxima()).intersect(ray);
    bool const hit = t[0] <= t[1] && static_cast<double>(t[1]) < 1e6;
    w.put(hit ? static_cast<double>(t[0]) : 0, 1e4);
    w.put(hit ? static_cast<double>(t[1] - t[0]) : 0, 1e4);
  }
}

void
roots(Work & w)
{
  // well separated
  double const a = w.real(-4, -2);
  double const b = w.real(-1, 1);
  double const c = w.real(2, 4);
  double const k = w.real(0.5, 2);
  auto const q = um2::solveQuadratic(F(k), F(-k * (a + b)), F(k * a * b));
  double lo = std::min(static_cast<double>(q[0]), static_cast<double>(q[1]));
  double hi = std::max(static_cast<double>(q[0]), static_cast<double>(q[1]));
  w.put(lo, 1000);
  w.put(hi, 1000);
  auto const r = um2::solveCubic(F(k), F(-k * (a + b + c)), F(k * (a * b + b * c + a * c)), F(-k * a * b * c));
  std::array<double, 3> s{static_cast<double>(r[0]), static_cast<double>(r[1]), static_cast<double>(r[2])};
  std::sort(s.begin(), s.end());
  for (double const x : s) {
    w.put(x, 10000);
  }
}

void
physics(Work & w)
{
  Int const ng = 1 + w.below(static_cast<uint64_t>(w.size));
  um2::XSec xs(ng);
  xs.isMacro() = true;
  for (Int g = 0; g < ng; ++g) {
    xs.a()[g] = F(w.real(0.01, 4));
    xs.f()[g] = F(w.real(0, 2));
    xs.nuf()[g] = xs.f()[g] * 2;
    xs.tr()[g] = F(w.real(0.5, 4));
    Float sum = 0;
    for (Int t = 0; t < ng; ++t) {
      xs.ss()(t, g) = F(w.real(0, 1));
      sum += xs.ss()(t, g);
    }
    xs.s()[g] = sum;
  }
  xs.isFissile() = true;
  auto const c = xs.collapseTo1GroupAvg();
  w.put(static_cast<double>(c.a()[0]), 8);
  w.put(static_cast<double>(c.f()[0]), 8);
  w.put(static_cast<double>(c.nuf()[0]), 16);
  w.put(static_cast<double>(c.tr()[0]), 8);
  w.put(static_cast<double>(c.s()[0]), 8 * ng);
  for (Int g = 0; g < ng; ++g) {
    w.put(static_cast<double>(xs.t(g)), 8 * ng);
  }
}

void
reactor(Work & w)
{
  um2::mpact::Model m;
  um2::Vector<um2::Material> mats;
  for (int i = 0; i < 3; ++i) {
    um2::Material mat;
    mat.setName(um2::String(i == 0 ? "A" : i == 1 ? "B" : "C"));
    um2::XSec xs(1);
    xs.isMacro() = true;
    xs.a()[0] = F(w.real(0.1, 1));
    xs.tr()[0] = xs.a()[0];
    mat.xsec() = xs;
    mats.emplace_back(mat);
    m.addMaterial(mat, false);
  }
  double const pitch = w.real(1, 2);
  double const r0 = pitch * w.real(0.15, 0.3);
  double const r1 = pitch * w.real(0.35, 0.45);
  int const order = 1 + w.below(2);
  um2::Vector<Float> radii;
  radii.emplace_back(F(r0));
  radii.emplace_back(F(r1));
  um2::Vector<Int> rings;
  rings.emplace_back(1 + w.below(3));
  rings.emplace_back(1 + w.below(2));
  Int const na = 8 * (1 + w.below(2));
  Int const cell = m.addCylindricalPinCell(F(pitch), radii, mats, rings, na, order);
  um2::Vector<um2::Vector<Int>> one;
  one.emplace_back(um2::Vector<Int>());
  one[0].emplace_back(cell);
  if (w.below(2) == 0) {
    one[0].emplace_back(cell);
  }
  m.addRTM(one);
  um2::Vector<um2::Vector<Int>> zero;
  zero.emplace_back(um2::Vector<Int>());
  zero[0].emplace_back(0);
  m.addLattice(zero);
  m.addAssembly(zero[0]);
  m.addCore(zero);
  auto const s = static_cast<um2::PolytopeSoup>(m);
  w.exact(s.numVertices());
  w.exact(s.numElements());
  for (Int i = 0; i < std::min(200, s.numVertices()); ++i) {
    w.put(static_cast<double>(s.getVertex(i)[0]), 100);
    w.put(static_cast<double>(s.getVertex(i)[1]), 100);
  }
  for (auto const & name : s.elsetNames()) {
    um2::Vector<Int> ids;
    um2::Vector<Float> data;
    s.getElset(name, ids, data);
    w.exact(ids.size());
    double sum = 0;
    for (auto const i : ids) {
      sum += i;
    }
    w.exact(sum);
    for (auto const v : data) {
      w.put(static_cast<double>(v), 10 + 10 * std::fabs(static_cast<double>(v)));
    }
  }
}

void
files(Work & w, char const * dir)
{
  um2::PolytopeSoup soup = w.below(2) == 0 ? mesh<1, 3>(w) : mesh<2, 8>(w);
  um2::Vector<Int> ids;
  um2::Vector<Float> data;
  for (Int i = 0; i < soup.numElements(); ++i) {
    if (i == 0 || w.below(2) == 0) {
      ids.emplace_back(i);
      data.emplace_back(F(w.real(-100, 100)));
    }
  }
  if (w.below(2) == 0) {
    soup.addElset(um2::String("power"), ids, data);
  } else {
    soup.addElset(um2::String("Material_A"), ids);
  }
  std::string const path = std::string(dir) + "/m.xdmf";
  soup.write(um2::String(path.c_str()));
  um2::PolytopeSoup const back{um2::String(path.c_str())};
  w.exact(back.numVertices());
  w.exact(back.numElements());
  for (Int i = 0; i < back.numVertices(); ++i) {
    w.put(static_cast<double>(back.getVertex(i)[0]), 4);
    w.put(static_cast<double>(back.getVertex(i)[1]), 4);
  }
  um2::Vector<Int> conn;
  for (Int i = 0; i < back.numElements(); ++i) {
    um2::VTKElemType t{};
    back.getElement(i, t, conn);
    w.exact(static_cast<double>(t));
    for (auto const k : conn) {
      w.exact(k);
    }
  }
  for (auto const & name : back.elsetNames()) {
    um2::Vector<Int> bi;
    um2::Vector<Float> bd;
    back.getElset(name, bi, bd);
    for (auto const k : bi) {
      w.exact(k);
    }
    for (auto const v : bd) {
      w.put(static_cast<double>(v), 100);
    }
  }
}

} // namespace

extern "C" __attribute__((visibility("default"))) auto
work(int kind, uint64_t seed, int size, char const * dir, double * out, int cap) -> int
{
  um2::settings::logger::level = 1;
  um2::settings::logger::exit_on_error = true;
  Work w{seed, size, out, 0, cap};
  switch (kind) {
  case 0:
    vec<2>(w);
    vec<3>(w);
    vec<4>(w);
    break;
  case 1:
    codes(w);
    break;
  case 2:
    matrices<double>(w);
    matrices<float>(w);
    break;
  case 3:
    faces<1, 3>(w);
    break;
  case 4:
    faces<1, 4>(w);
    break;
  case 5:
    faces<2, 6>(w);
    break;
  case 6:
    faces<2, 8>(w);
    break;
  case 7:
    grids(w);
    break;
  case 8:
    roots(w);
    break;
  case 9:
    physics(w);
    break;
  case 10:
    reactor(w);
    break;
  default:
    files(w, dir);
  }
  return w.n;
}

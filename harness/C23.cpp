// C23: generated pin and rectangle meshes.
// Oracle: annulus areas, a conforming-tiling argument (every edge is shared by two faces in
// opposite directions or lies on the cell's side, every face is positive) and sampled points.
#include "mesh.hpp"

#include <um2/common/logger.hpp>
#include <um2/mpact/model.hpp>

#include <set>

namespace
{

using namespace geo;
using um2::mpact::Model;

template <int PO, int N>
auto
regions(um2::FaceVertexMesh<PO, N> const & m) -> std::vector<Region>
{
  std::vector<Region> r;
  for (Int i = 0; i < m.numFaces(); ++i) {
    r.push_back(region(m.getFace(i)));
  }
  return r;
}

// The faces tile [0, w] x [0, h] exactly once
template <int PO, int N>
void
checkTiling(um2::FaceVertexMesh<PO, N> const & m, double w, double h, char const * what)
{
  constexpr int nc = N >= 6 ? N / 2 : N;
  double const tol = 1e-9 * (w + h);
  for (Int i = 0; i < m.numVertices(); ++i) {
    auto const & p = m.vertices()[i];
    REQUIRE(p[0] >= -tol && p[1] >= -tol && p[0] <= w + tol && p[1] <= h + tol, what, ": vertex ",
            i, " at ", p[0], ", ", p[1], " is outside of the cell");
  }
  std::map<std::pair<Int, Int>, Int> mid; // directed edge -> middle node
  std::set<Int> used;
  for (Int i = 0; i < m.numFaces(); ++i) {
    auto const & f = m.faceVertexConn()[i];
    for (int k = 0; k < N; ++k) {
      REQUIRE(f[k] >= 0 && f[k] < m.numVertices(), what, ": face ", i, " node ", f[k]);
      used.insert(f[k]);
    }
    for (int k = 0; k < nc; ++k) {
      Int const a = f[k];
      Int const b = f[(k + 1) % nc];
      REQUIRE(mid.emplace(std::pair<Int, Int>{a, b}, PO == 2 ? Int(f[(nc + k) % N]) : -1).second, what,
              ": edge ", a, "-", b, " is used twice in one direction, again by face ", i);
    }
  }
  REQUIRE(static_cast<Int>(used.size()) == m.numVertices(), what, ": ",
          m.numVertices() - static_cast<Int>(used.size()), " vertices belong to no face");
  double side = 0;
  for (auto const & [e, c] : mid) {
    if (c >= 0) { // beyond the quarter points the edge would turn back on itself
      auto const d = m.vertices()[e.second] - m.vertices()[e.first];
      double const t = (m.vertices()[c] - m.vertices()[e.first]).dot(d) / d.squaredNorm();
      REQUIRE(t > 0.25 && t < 0.75, what, ": the middle of edge ", e.first, "-", e.second, " is at ", t, " of its length");
    }
    auto const it = mid.find({e.second, e.first});
    if (it != mid.end()) {
      REQUIRE(it->second == c, what, ": the faces beside edge ", e.first, "-", e.second,
              " disagree about its middle");
      continue;
    }
    auto const & a = m.vertices()[e.first];
    auto const & b = m.vertices()[e.second];
    auto on = [&](int d, double v) {
      bool ok = std::fabs(a[d] - v) <= tol && std::fabs(b[d] - v) <= tol;
      if (c >= 0) {
        ok = ok && std::fabs(m.vertices()[c][d] - v) <= tol;
      }
      return ok;
    };
    REQUIRE(on(0, 0) || on(0, w) || on(1, 0) || on(1, h), what, ": edge ", e.first, "-", e.second,
            " has no neighbour and is not on the boundary");
    side += std::hypot(a[0] - b[0], a[1] - b[1]);
  }
  REQUIRE(std::fabs(side - 2 * (w + h)) <= 1e-8 * (w + h), what, ": boundary length ", side,
          ", expected ", 2 * (w + h));
  L area = 0;
  auto const rs = regions(m);
  for (size_t i = 0; i < rs.size(); ++i) {
    L const a = rs[i].area();
    REQUIRE(a > 0, what, ": face ", i, " has area ", double(a));
    area += a;
  }
  REQUIRE(std::fabs(double(area) - w * h) <= 1e-9 * w * h, what, ": total area ", double(area),
          ", expected ", w * h);
}

struct Counts {
  Int a, b, c, d, cells;
  explicit Counts(Model const & m)
      : a(m.triMeshes().size()),
        b(m.quadMeshes().size()),
        c(m.tri6Meshes().size()),
        d(m.quad8Meshes().size()),
        cells(m.numCoarseCells())
  {
  }
  auto
  operator==(Counts const &) const -> bool = default;
};

void
armLogger()
{
  um2::settings::logger::level = 1;
  um2::settings::logger::exit_on_error = false;
  um2::logger::buffer[0] = '\0';
}

struct Pin {
  double pitch = 1;
  std::vector<double> radii;
  std::vector<int> rings;
  int na = 8;
  int order = 1;

  [[nodiscard]] auto
  um2Radii() const -> um2::Vector<Float>
  {
    um2::Vector<Float> v;
    for (double const r : radii) {
      v.emplace_back(r);
    }
    return v;
  }
  [[nodiscard]] auto
  um2Rings() const -> um2::Vector<Int>
  {
    um2::Vector<Int> v;
    for (int const r : rings) {
      v.emplace_back(r);
    }
    return v;
  }
};

auto
genPin(pbt::Src & s, pbt::Case & c) -> Pin
{
  Pin p;
  p.pitch = s.oneIn(3) ? 1.26 : s.real(0.1, 50);
  p.na = 8 << s.below(4);
  p.order = s.coin() ? 1 : 2;
  auto const n = 1 + s.below(4);
  double const limit = p.pitch / 2 / 1.06;
  double const top = s.oneIn(4) ? limit : limit * s.real(0.3, 1);
  // cumulative shares, not too thin
  std::vector<double> share;
  double sum = 0;
  for (uint64_t i = 0; i < n; ++i) {
    share.push_back(s.oneIn(4) ? 0.01 : s.real(0.1, 1));
    sum += share.back();
  }
  double at = 0;
  for (uint64_t i = 0; i < n; ++i) {
    at += share[i];
    p.radii.push_back(top * at / sum);
    p.rings.push_back(1 + static_cast<int>(s.below(s.oneIn(4) ? 8 : 3)));
  }
  c.desc << "pitch " << p.pitch << " azimuthal " << p.na << " order " << p.order << " radii";
  for (size_t i = 0; i < n; ++i) {
    c.desc << " " << p.radii[i] << "/" << p.rings[i];
  }
  return p;
}

template <int PO, int N>
void
checkPin(pbt::Src & s, um2::FaceVertexMesh<PO, N> const & m, Pin const & p)
{
  checkTiling(m, p.pitch, p.pitch, "pin");
  // ring radii: equal areas inside each radius
  std::vector<double> ring;
  for (size_t i = 0; i < p.radii.size(); ++i) {
    double const lo = i == 0 ? 0 : p.radii[i - 1];
    double const a = p.radii[i] * p.radii[i] - lo * lo;
    for (int k = 1; k <= p.rings[i]; ++k) {
      ring.push_back(std::sqrt(lo * lo + a * k / p.rings[i]));
    }
  }
  auto const nr = static_cast<Int>(ring.size());
  REQUIRE(m.numFaces() == p.na * (nr + 1), "pin has ", m.numFaces(), " faces, expected ",
          p.na * (nr + 1));
  auto const rs = regions(m);
  double const pi = 3.14159265358979323846;
  for (Int i = 0; i <= nr; ++i) {
    L a = 0;
    for (Int k = 0; k < p.na; ++k) {
      a += rs[static_cast<size_t>(i * p.na + k)].area();
    }
    double const lo = i == 0 ? 0 : ring[static_cast<size_t>(i - 1)];
    double const want = i == nr ? p.pitch * p.pitch - pi * lo * lo
                                : pi * (ring[static_cast<size_t>(i)] * ring[static_cast<size_t>(i)] - lo * lo);
    REQUIRE(std::fabs(double(a) - want) <= 1e-10 * p.pitch * p.pitch, "ring ", i, " has area ",
            double(a), ", expected ", want);
  }
  // a point lies in exactly one face, and in the right ring
  double const slack = 2.2 * pi * pi / (p.na * p.na); // polygon against circle
  for (int t = 0; t < 6; ++t) {
    double r = s.real(0, 0.71) * p.pitch;
    if (s.coin()) {
      auto const k = s.below(ring.size());
      double const lo = k == 0 ? 0 : ring[k - 1];
      r = lo + s.real(0, 1) * (ring[k] - lo);
    }
    double const th = s.real(0, 6.28318);
    P const q{L(p.pitch / 2 + r * std::cos(th)), L(p.pitch / 2 + r * std::sin(th))};
    if (q.x < 0 || q.y < 0 || q.x > L(p.pitch) || q.y > L(p.pitch)) {
      continue;
    }
    int hits = 0;
    Int face = -1;
    bool close = false;
    for (size_t i = 0; i < rs.size(); ++i) {
      L lo[2];
      L hi[2];
      rs[i].box(lo, hi);
      L const e = 1e-6L * L(p.pitch);
      if (q.x < lo[0] - e || q.x > hi[0] + e || q.y < lo[1] - e || q.y > hi[1] + e) {
        continue;
      }
      if (rs[i].distance(q) < e) {
        close = true;
        break;
      }
      if (rs[i].contains(q)) {
        ++hits;
        face = static_cast<Int>(i);
      }
    }
    if (close) {
      continue;
    }
    REQUIRE(hits == 1, "point ", double(q.x), ", ", double(q.y), " is in ", hits, " faces");
    Int const got = face / p.na;
    double const lo = got == 0 ? 0 : ring[static_cast<size_t>(got - 1)];
    double const hi = got == nr ? p.pitch : ring[static_cast<size_t>(got)];
    REQUIRE(r >= lo * (1 - slack) && r <= hi * (1 + slack), "point at radius ", r,
            " is in a face of ring ", got, " (", lo, " to ", hi, ")");
    REQUIRE(m.faceContaining(narrow<double>(q)) == face, "faceContaining gives ",
            m.faceContaining(narrow<double>(q)), ", the point is in ", face);
  }
}

PBT_SUB(cylinder, 2500, 60000, "at least two radii or several rings")
{
  armLogger();
  Pin const p = genPin(s, c);
  Model m;
  if (s.coin()) { // other meshes first
    m.addRectangularPinMesh(um2::Vec2F(1, 1), 1, 1);
  }
  bool const with_cell = s.coin();
  auto const before = Counts(m);
  if (!with_cell) {
    Int const id = m.addCylindricalPinMesh(p.pitch, p.um2Radii(), p.um2Rings(), p.na, p.order);
    REQUIRE(um2::logger::buffer[0] == '\0', "error: ", um2::logger::buffer);
    REQUIRE(id == (p.order == 1 ? before.b : before.d), "mesh id ", id);
    if (p.order == 1) {
      checkPin(s, m.getQuadMesh(id), p);
    } else {
      checkPin(s, m.getQuad8Mesh(id), p);
    }
  } else {
    // regions of named materials, possibly the same one again
    um2::Vector<um2::Material> mats;
    static char const * const names[] = {"UO2", "Gap", "Clad", "Water", "Rod"};
    for (int i = 0; i < 5; ++i) {
      um2::Material mat;
      mat.setName(um2::String(names[i]));
      mats.emplace_back(mat);
      m.addMaterial(mat, false);
    }
    um2::Vector<um2::Material> use;
    std::vector<int> idx;
    for (size_t i = 0; i <= p.radii.size(); ++i) {
      idx.push_back(static_cast<int>(s.below(5)));
      use.emplace_back(mats[idx.back()]);
    }
    Int const id = m.addCylindricalPinCell(p.pitch, p.um2Radii(), use, p.um2Rings(), p.na, p.order);
    REQUIRE(um2::logger::buffer[0] == '\0', "error: ", um2::logger::buffer);
    REQUIRE(id == before.cells, "cell id ", id);
    auto const & cell = m.getCoarseCell(id);
    REQUIRE(cell.xy_extents[0] == p.pitch && cell.xy_extents[1] == p.pitch, "cell extents");
    REQUIRE((cell.mesh_type == (p.order == 1 ? um2::MeshType::Quad : um2::MeshType::QuadraticQuad)), "mesh type");
    REQUIRE(cell.mesh_id == (p.order == 1 ? before.b : before.d), "mesh id ", cell.mesh_id);
    Int at = 0;
    for (size_t i = 0; i <= p.radii.size(); ++i) {
      int const n = (i == p.radii.size() ? 1 : p.rings[i]) * p.na;
      for (int k = 0; k < n; ++k, ++at) {
        REQUIRE(at < cell.material_ids.size() && cell.material_ids[at] == idx[i], "material of face ",
                at, ", expected ", idx[i]);
      }
    }
    REQUIRE(at == cell.material_ids.size() && cell.numFaces() == at, "number of materials");
    if (p.order == 1) {
      checkPin(s, m.getQuadMesh(cell.mesh_id), p);
    } else {
      checkPin(s, m.getQuad8Mesh(cell.mesh_id), p);
    }
  }
  int total = 0;
  for (int const r : p.rings) {
    total += r;
  }
  c.label(p.order == 1 ? "straight" : "curved");
  c.nontrivial(total > 1);
}

PBT_SUB(rectangle, 3000, 60000, "more than one division each way")
{
  armLogger();
  Model m;
  double const w = s.coin() ? 1.26 : s.real(0.05, 50);
  double const h = s.coin() ? w : s.real(0.05, 50);
  int const nx = 1 + static_cast<int>(s.below(12));
  int const ny = 1 + static_cast<int>(s.below(12));
  c.desc << w << " by " << h << ", " << nx << " by " << ny;
  if (s.coin()) {
    m.addRectangularPinMesh(um2::Vec2F(2, 3), 2, 1);
  }
  auto const before = Counts(m);
  Int const id = m.addRectangularPinMesh(um2::Vec2F(w, h), nx, ny);
  REQUIRE(um2::logger::buffer[0] == '\0', "error: ", um2::logger::buffer);
  REQUIRE(id == before.b, "mesh id ", id);
  auto const & mesh = m.getQuadMesh(id);
  checkTiling(mesh, w, h, "rectangle");
  REQUIRE(mesh.numFaces() == nx * ny, "faces ", mesh.numFaces());
  // each division once, whatever the order
  std::set<std::pair<int, int>> seen;
  for (Int i = 0; i < mesh.numFaces(); ++i) {
    L lo[2];
    L hi[2];
    auto const rg = region(mesh.getFace(i));
    rg.box(lo, hi);
    int const ix = static_cast<int>(std::lround(double(lo[0]) * nx / w));
    int const iy = static_cast<int>(std::lround(double(lo[1]) * ny / h));
    double const tol = 1e-12 * (w + h);
    REQUIRE(std::fabs(double(lo[0]) - ix * w / nx) <= tol && std::fabs(double(hi[0]) - (ix + 1) * w / nx) <= tol &&
                std::fabs(double(lo[1]) - iy * h / ny) <= tol &&
                std::fabs(double(hi[1]) - (iy + 1) * h / ny) <= tol,
            "face ", i, " spans ", double(lo[0]), "..", double(hi[0]), ", ", double(lo[1]), "..", double(hi[1]));
    REQUIRE(std::fabs(double(rg.area()) - w * h / nx / ny) <= 1e-12 * w * h, "face ", i, " is no rectangle");
    REQUIRE(seen.emplace(ix, iy).second, "division ", ix, ", ", iy, " twice");
    REQUIRE(i == iy * nx + ix, "face ", i, " is division ", ix, ", ", iy);
  }
  c.nontrivial(nx > 1 && ny > 1);
}

PBT_SUB(refused, 2000, 40000, "always")
{
  armLogger();
  Pin p = genPin(s, c);
  Model m;
  um2::Material mat;
  mat.setName(um2::String("Fuel"));
  m.addMaterial(mat, false);
  um2::Vector<um2::Material> mats;
  for (size_t i = 0; i <= p.radii.size(); ++i) {
    mats.emplace_back(mat);
  }
  if (s.coin()) {
    m.addRectangularPinMesh(um2::Vec2F(1, 1), 1, 1);
  }
  um2::Vec2F ext(1, 2);
  int nx = 2;
  int ny = 3;
  auto const k = s.below(11);
  bool rect = false;
  bool cell_only = false;
  switch (k) {
  case 0:
    p.order = s.coin() ? 0 : 3;
    break;
  case 1:
    p.na = static_cast<int>(s.irange(-8, 7));
    break;
  case 2:
    do {
      p.na = 9 + static_cast<int>(s.below(100));
    } while ((p.na & (p.na - 1)) == 0);
    break;
  case 3:
    if (s.coin()) {
      p.rings.push_back(1);
    } else {
      p.radii.push_back(p.pitch * 0.48);
    }
    break;
  case 4:
    p.radii.back() = p.pitch / 2 * (1 + s.mag(-5, 0));
    break;
  case 5: { // the polygon of the last ring would leave the cell
    p.na = 8;
    p.order = 1;
    p.radii.back() = p.pitch / 2 * s.real(0.96, 0.999);
    break;
  }
  case 6:
    rect = true;
    ext[static_cast<Int>(s.below(2))] = s.coin() ? 0.0 : -s.mag(-3, 1);
    break;
  case 7:
    rect = true;
    (s.coin() ? nx : ny) = -static_cast<int>(s.below(3));
    break;
  case 8:
    cell_only = true;
    mats.emplace_back(mat);
    break;
  case 9:
    cell_only = true;
    mats.pop_back();
    break;
  default: {
    cell_only = true;
    um2::Material other;
    other.setName(um2::String("Unknown"));
    mats[static_cast<Int>(s.below(p.radii.size() + 1))] = other;
    break;
  }
  }
  c.desc << " invalid in way " << k;
  auto const before = Counts(m);
  Int id = 0;
  if (rect) {
    id = m.addRectangularPinMesh(ext, nx, ny);
  } else if (cell_only || s.coin()) {
    c.desc << " as a cell";
    id = m.addCylindricalPinCell(p.pitch, p.um2Radii(), mats, p.um2Rings(), p.na, p.order);
  } else {
    id = m.addCylindricalPinMesh(p.pitch, p.um2Radii(), p.um2Rings(), p.na, p.order);
  }
  REQUIRE(um2::logger::buffer[0] != '\0', "no error reported");
  REQUIRE(id == -1, "returned ", id);
  REQUIRE((Counts(m) == before), "the model was altered by a refused request");
  c.nontrivial(true);
}

} // namespace

auto
main(int argc, char ** argv) -> int
{
  pbt::Options o;
  o.leak_check = true;
  o.assumptions = {"radii increase strictly and ring counts are positive",
                   "outer radii are at most half the pitch divided by 1.06, so the equivalent "
                   "polygon stays inside of the cell"};
  return pbt::run("C23", "pin and rectangle meshes", o, argc, argv);
}

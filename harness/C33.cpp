// C33: from CAD to meshes of coarse cells.
// Oracle: the pins and cells by formula; meshes are integrated in extended precision.
#include "cad.hpp"

#include <um2/physics/cross_section.hpp>

#include <fstream>

namespace
{

using namespace cad;
using reactor::armLogger;
using reactor::errorLogged;
using um2::MeshType;

double constexpr PI = 3.14159265358979323846;
char const * const MATS[] = {"UO2", "Water", "UO2_gad", "MOX_4.3", "U"}; // some names begin with others
MeshType const TYPES[] = {MeshType::Tri, MeshType::Quad, MeshType::QuadraticTri, MeshType::QuadraticQuad};
char const * const TYPE_NAMES[] = {"triangles", "quadrilaterals", "quadratic triangles", "quadratic quadrilaterals"};

// The mesh options of a new session
void
freshOptions()
{
  char const * const names[] = {"Mesh.SecondOrderIncomplete", "Mesh.Smoothing", "Mesh.Algorithm", "Mesh.RecombineAll",
                                "Mesh.SubdivisionAlgorithm", "Mesh.RecombinationAlgorithm", "Mesh.HighOrderOptimize",
                                "Mesh.MeshSizeExtendFromBoundary", "Mesh.MeshSizeFromPoints", "Mesh.MeshSizeFromCurvature",
                                "Mesh.SaveAll", "Mesh.ElementOrder", "Mesh.SaveGroupsOfElements", "Mesh.SaveGroupsOfNodes"};
  static std::vector<double> start;
  if (start.empty()) {
    for (auto const * n : names) {
      double v = 0;
      ::gmsh::option::getNumber(n, v);
      start.push_back(v);
    }
  }
  for (size_t i = 0; i < start.size(); ++i) {
    ::gmsh::option::setNumber(names[i], start[i]);
  }
}

// The installed mesh generator fails on the algorithm the library selects for quadrilaterals,
// so those are made with another one.
void
generate(int kind, int smooth)
{
  if (kind == 0 || kind == 2) {
    um2::gmsh::model::mesh::generateMesh(TYPES[kind], smooth);
    return;
  }
  ::gmsh::option::setNumber("Mesh.SecondOrderIncomplete", 1);
  ::gmsh::option::setNumber("Mesh.Algorithm", 6);
  ::gmsh::option::setNumber("Mesh.RecombineAll", 1);
  ::gmsh::option::setNumber("Mesh.SubdivisionAlgorithm", 1);
  ::gmsh::model::mesh::generate(2);
  if (kind == 3) {
    ::gmsh::model::mesh::setOrder(2);
  }
}

// Whether the generator's elements are well shaped and none is folded over its neighbours
auto
soundMesh() -> bool
{
  std::vector<size_t> ids;
  std::vector<double> xyz;
  std::vector<double> par;
  ::gmsh::model::mesh::getNodes(ids, xyz, par, -1, -1, true);
  std::map<size_t, std::pair<double, double>> at;
  for (size_t i = 0; i < ids.size(); ++i) {
    at[ids[i]] = {xyz[3 * i], xyz[3 * i + 1]};
  }
  for (int const face : entities(2)) {
    std::vector<int> et;
    std::vector<std::vector<size_t>> tags;
    std::vector<std::vector<size_t>> nodes;
    ::gmsh::model::mesh::getElements(et, tags, nodes, 2, face);
    int sign = 0;
    for (size_t g = 0; g < et.size(); ++g) {
      std::vector<double> quality;
      ::gmsh::model::mesh::getElementQualities(tags[g], quality, "minSICN");
      for (double const v : quality) {
        if (std::fabs(v) < 0.1) {
          return false;
        }
      }
      size_t const per = nodes[g].size() / tags[g].size();
      size_t const nc = per == 3 || per == 6 ? 3 : 4;
      for (size_t i = 0; i < nodes[g].size(); i += per) {
        for (size_t k = 0; k < nc; ++k) {
          auto const a = at[nodes[g][i + k]];
          auto const b = at[nodes[g][i + (k + 1) % nc]];
          auto const d = at[nodes[g][i + (k + 2) % nc]];
          double const turn = (b.first - a.first) * (d.second - a.second) - (b.second - a.second) * (d.first - a.first);
          int const now = turn > 0 ? 1 : -1;
          if (sign != 0 && now != sign) {
            return false;
          }
          sign = now;
        }
      }
    }
  }
  return true;
}

auto
matOf(int k) -> um2::Material
{
  return material(MATS[k], um2::Color(20 * k, 100, 50, 255));
}

struct Pin {
  double x = 0, y = 0;
  std::vector<double> r;
  std::vector<int> mat;
};

struct Rect {
  double x = 0, y = 0, w = 0, h = 0;
};

// Area of the part of a disc about the origin left of x and below y, by integration in pieces
auto
discRect(double cx, double cy, double r, Rect const & q) -> double
{
  // area of the disc within [q.x, q.x + w] by [q.y, q.y + h]
  auto F = [&](double x) { // integral of sqrt(r^2 - t^2)
    x = std::clamp(x, -r, r);
    return (x * std::sqrt(std::max(0.0, r * r - x * x)) + r * r * std::asin(x / r)) / 2;
  };
  double const x0 = q.x - cx;
  double const x1 = x0 + q.w;
  double const y0 = q.y - cy;
  double const y1 = y0 + q.h;
  std::vector<double> cut{std::clamp(x0, -r, r), std::clamp(x1, -r, r)};
  for (double const y : {y0, y1}) {
    if (std::fabs(y) < r) {
      double const e = std::sqrt(r * r - y * y);
      for (double const t : {-e, e}) {
        if (t > cut[0] && t < cut[1]) {
          cut.push_back(t);
        }
      }
    }
  }
  std::sort(cut.begin(), cut.end());
  double sum = 0;
  for (size_t i = 0; i + 1 < cut.size(); ++i) {
    double const a = cut[i];
    double const b = cut[i + 1];
    double const m = (a + b) / 2;
    double const top = std::sqrt(std::max(0.0, r * r - m * m));
    double const hi = std::min(top, y1);
    double const lo = std::max(-top, y0);
    if (hi <= lo) {
      continue;
    }
    sum += top < y1 ? F(b) - F(a) : y1 * (b - a);
    sum -= -top > y0 ? -(F(b) - F(a)) : y0 * (b - a);
  }
  return sum;
}

// A mesh of a cell as vertices, faces and materials
struct Flat {
  std::vector<geo::P> v;
  std::vector<std::vector<int>> f;
  bool quadratic = false;
};

template <class M>
auto
flatten(M const & m, Int n, bool quadratic) -> Flat
{
  Flat o;
  o.quadratic = quadratic;
  for (Int i = 0; i < m.numVertices(); ++i) {
    o.v.push_back(geo::P{m.getVertex(i)[0], m.getVertex(i)[1]});
  }
  for (Int i = 0; i < m.numFaces(); ++i) {
    std::vector<int> f;
    auto const & fc = m.getFaceConn(i);
    for (Int j = 0; j < n; ++j) {
      f.push_back(fc[j]);
    }
    o.f.push_back(f);
  }
  return o;
}

auto
meshOf(um2::mpact::Model const & m, um2::mpact::Model::CoarseCell const & cc) -> Flat
{
  switch (cc.mesh_type) {
  case MeshType::Tri:
    return flatten(m.getTriMesh(cc.mesh_id), 3, false);
  case MeshType::Quad:
    return flatten(m.getQuadMesh(cc.mesh_id), 4, false);
  case MeshType::QuadraticTri:
    return flatten(m.getTri6Mesh(cc.mesh_id), 6, true);
  case MeshType::QuadraticQuad:
    return flatten(m.getQuad8Mesh(cc.mesh_id), 8, true);
  default:
    pbt::fail("cell without a mesh");
  }
}

void
flow(pbt::Src & s, pbt::Case & c)
{
  armLogger();
  session();
  freshOptions();
  //------------------------------------------------------------------ geometry
  double const W[2] = {s.real(0.8, 2), s.real(0.8, 2)};
  double const H[2] = {s.real(0.8, 2), s.real(0.8, 2)};
  static int const KINDS[] = {0, 0, 0, 1, 1, 3, 2};
  int const kind = KINDS[s.below(7)];
  // one block of pins, or blocks of equal shape
  int const bx = s.oneIn(4) ? 2 : 1;
  int const by = s.oneIn(4) ? 2 : 1;
  int const nx1 = s.irange(1, kind == 2 || bx > 1 ? 2 : 3); // optimising curved meshes is slow
  int const ny1 = s.irange(1, kind == 2 || by > 1 ? 2 : 3);
  int const nx = nx1 * bx;
  int const ny = ny1 * by;
  std::vector<int> cw;
  std::vector<int> rh;
  for (int i = 0; i < nx; ++i) {
    cw.push_back(i < nx1 ? s.irange(0, 1) : cw[static_cast<size_t>(i - nx1)]);
  }
  for (int j = 0; j < ny; ++j) {
    rh.push_back(j < ny1 ? s.irange(0, 1) : rh[static_cast<size_t>(j - ny1)]);
  }
  struct Type {
    int w, h;
    Pin pin;
    int cell = -1;
    Rect at;
  };
  std::vector<Type> types;
  int const nm = s.irange(2, 5);
  int const fill = s.irange(0, nm - 1);
  for (int w = 0; w < 2; ++w) {
    for (int h = 0; h < 2; ++h) {
      for (int k = s.irange(1, 2); k > 0; --k) {
        Type t{w, h, {}, -1, {}};
        int const n = s.irange(0, 3);
        double const most = 0.47 * std::min(W[w], H[h]);
        double at = 0;
        for (int i = 0; i < n; ++i) {
          double const next = most * (i + s.real(0.6, 1)) / n;
          if (next - at < 0.12) {
            continue;
          }
          at = next;
          t.pin.r.push_back(at);
          t.pin.mat.push_back(s.irange(0, nm - 1));
        }
        types.push_back(t);
      }
    }
  }
  std::vector<Pin> pins;
  std::vector<std::vector<int>> ids(static_cast<size_t>(ny)); // from the bottom
  std::vector<double> xs{0};
  std::vector<double> ys{0};
  for (int const i : cw) {
    xs.push_back(xs.back() + W[i]);
  }
  for (int const j : rh) {
    ys.push_back(ys.back() + H[j]);
  }
  std::vector<int> order; // types in use
  for (size_t j = 0; j < rh.size(); ++j) {
    for (size_t i = 0; i < cw.size(); ++i) {
      std::vector<int> fit;
      for (size_t k = 0; k < types.size(); ++k) {
        if (types[k].w == cw[i] && types[k].h == rh[j]) {
          fit.push_back(static_cast<int>(k));
        }
      }
      int const k = s.pick(fit);
      ids[j].push_back(k);
      auto & t = types[static_cast<size_t>(k)];
      Pin p = t.pin;
      p.x = (xs[i] + xs[i + 1]) / 2;
      p.y = (ys[j] + ys[j + 1]) / 2;
      pins.push_back(p);
      if (std::find(order.begin(), order.end(), k) == order.end()) {
        order.push_back(k);
        t.at = {xs[i], ys[j], W[t.w], H[t.h]};
      }
    }
  }
  size_t rings = 0;
  for (auto const & p : pins) {
    rings += p.r.size();
  }
  pbt::discardUnless(rings > 0);
  auto const sh = s.perm(static_cast<int>(order.size()));
  std::vector<int> cells; // types in the order of the cells
  for (int const k : sh) {
    cells.push_back(order[static_cast<size_t>(k)]);
    types[static_cast<size_t>(cells.back())].cell = static_cast<int>(cells.size()) - 1;
  }
  MeshType const type = TYPES[kind];
  double lc = s.real(0.15, 0.6);
  bool const grid = s.oneIn(3);
  if (kind >= 2) { // fine enough that an arc keeps clear of the next edge
    for (auto const & t : types) {
      for (size_t i = 0; i < t.pin.r.size(); ++i) {
        double const r = t.pin.r[i];
        double const next = i + 1 < t.pin.r.size() ? t.pin.r[i + 1] : std::min(W[t.w], H[t.h]) / 2;
        lc = std::min({lc, r * 0.7, std::sqrt(2 * r * (next - r))});
      }
    }
  }
  //------------------------------------------------------------------ model
  um2::mpact::Model model;
  std::vector<int> mat_id(5, -1);
  for (int const k : s.perm(nm)) {
    mat_id[static_cast<size_t>(k)] = model.addMaterial(matOf(k), false);
  }
  std::vector<Rect> want; // of each cell
  c.desc << TYPE_NAMES[kind] << " of size " << lc << ", fill " << MATS[fill] << ", pins";
  for (auto const & p : pins) {
    c.desc << " (" << p.x << " " << p.y;
    for (size_t i = 0; i < p.r.size(); ++i) {
      c.desc << ", " << MATS[p.mat[i]] << " to " << p.r[i];
    }
    c.desc << ")";
  }
  if (grid) {
    int const gx = s.irange(1, 4);
    int const gy = s.irange(1, 4);
    double const dx = xs.back() / gx;
    double const dy = ys.back() / gy;
    for (int j = 0; j < gy; ++j) {
      for (int i = 0; i < gx; ++i) {
        want.push_back({i * dx, j * dy, dx, dy});
      }
    }
    // lines and corners of the grid keep clear of touching a circle
    for (auto const & p : pins) {
      for (double const r : p.r) {
        for (int i = 0; i <= gx; ++i) {
          pbt::discardUnless(std::fabs(std::fabs(p.x - i * dx) - r) > 0.05);
          for (int j = 0; j <= gy; ++j) {
            pbt::discardUnless(std::fabs(std::hypot(p.x - i * dx, p.y - j * dy) - r) > 0.05);
          }
        }
        for (int j = 0; j <= gy; ++j) {
          pbt::discardUnless(std::fabs(std::fabs(p.y - j * dy) - r) > 0.05);
        }
      }
    }
    c.desc << "; grid " << gx << " by " << gy;
    model.addCoarseGrid(um2::Vec2F(xs.back(), ys.back()), um2::Vec2I(gx, gy));
  } else {
    for (int const k : cells) {
      auto const & t = types[static_cast<size_t>(k)];
      Int const id = model.addCoarseCell(um2::Vec2F(W[t.w], H[t.h]));
      REQUIRE(id == static_cast<Int>(want.size()), "cell id ", id);
      want.push_back(t.at);
    }
    // a block is a ray tracing module; the blocks form one lattice, or an assembly each
    bool const apart = s.coin();
    um2::Vector<um2::Vector<Int>> blocks(by);
    for (int jb = by - 1; jb >= 0; --jb) {
      for (int ib = 0; ib < bx; ++ib) {
        um2::Vector<um2::Vector<Int>> rows(ny1);
        for (int j = 0; j < ny1; ++j) {
          for (int i = 0; i < nx1; ++i) {
            int const k = ids[static_cast<size_t>(jb * ny1 + j)][static_cast<size_t>(ib * nx1 + i)];
            rows[ny1 - 1 - j].emplace_back(types[static_cast<size_t>(k)].cell);
          }
        }
        Int const rtm = model.addRTM(rows);
        blocks[by - 1 - jb].emplace_back(rtm);
        if (apart) {
          Int const lat = model.addLattice({{rtm}});
          model.addAssembly({lat});
        }
      }
    }
    if (apart) {
      model.addCore(blocks);
    } else {
      model.addLattice(blocks);
      model.addAssembly({0});
      model.addCore({{0}});
    }
    if (bx * by > 1) {
      c.label(apart ? "several assemblies" : "several modules");
      c.desc << "; " << bx << " by " << by << (apart ? " assemblies" : " modules");
    }
    c.desc << "; cells as pins, " << want.size();
  }
  REQUIRE(!errorLogged(), "error: ", um2::logger::buffer);
  //------------------------------------------------------------------ a mesh made before
  if (s.oneIn(2)) {
    int const before = s.coin() ? 0 : 2;
    c.desc << "; after " << TYPE_NAMES[before];
    c.label("an earlier mesh in the session");
    ::gmsh::model::occ::addDisk(0, 0, 0, 1, 1);
    ::gmsh::model::occ::synchronize();
    um2::gmsh::model::mesh::setGlobalMeshSize(0.6);
    generate(before, 1);
    ::gmsh::clear();
  }
  //------------------------------------------------------------------ CAD, mesh, export and import
  um2::Vector<um2::Vector<Int>> pin_ids(ny);
  for (int j = 0; j < ny; ++j) {
    for (int const k : ids[static_cast<size_t>(j)]) {
      pin_ids[ny - 1 - j].emplace_back(k);
    }
  }
  um2::Vector<um2::Vec2F> ext;
  um2::Vector<um2::Vector<Float>> radii;
  um2::Vector<um2::Vector<um2::Material>> mats;
  for (auto const & t : types) {
    ext.emplace_back(um2::Vec2F(W[t.w], H[t.h]));
    um2::Vector<Float> r;
    um2::Vector<um2::Material> m;
    for (size_t i = 0; i < t.pin.r.size(); ++i) {
      r.emplace_back(t.pin.r[i]);
      m.emplace_back(matOf(t.pin.mat[i]));
    }
    radii.emplace_back(r);
    mats.emplace_back(m);
  }
  um2::gmsh::model::occ::addCylindricalPinLattice2D(pin_ids, ext, radii, mats);
  um2::gmsh::model::occ::overlayCoarseGrid(model, matOf(fill));
  um2::gmsh::model::mesh::setGlobalMeshSize(lc);
  generate(kind, s.oneIn(2) ? 100 : s.irange(0, 10));
  pbt::discardUnless(soundMesh());
  std::string const file = c.dir() + "/mesh.inp";
  um2::gmsh::write(file);
  REQUIRE(!errorLogged(), "error: ", um2::logger::buffer);
  model.importCoarseCellMeshes(um2::String(file.c_str()));
  REQUIRE(!errorLogged(), "error: ", um2::logger::buffer);
  //------------------------------------------------------------------ what came back
  REQUIRE(model.numCoarseCells() == static_cast<Int>(want.size()), model.numCoarseCells(), " cells");
  size_t faces = 0;
  bool mixed = false;
  for (size_t ic = 0; ic < want.size(); ++ic) {
    Rect const & q = want[ic];
    auto const & cc = model.getCoarseCell(static_cast<Int>(ic));
    REQUIRE(cc.mesh_type == type, "cell ", ic, " has mesh type ", static_cast<int>(cc.mesh_type), ", asked for ",
            static_cast<int>(type));
    Flat const m = meshOf(model, cc);
    REQUIRE(static_cast<size_t>(cc.material_ids.size()) == m.f.size(), "cell ", ic, ": ", m.f.size(), " faces, ",
            cc.material_ids.size(), " materials");
    faces += m.f.size();
    double const size = q.w + q.h;
    // where it lies
    for (auto const & p : m.v) {
      double const x = static_cast<double>(p.x);
      double const y = static_cast<double>(p.y);
      REQUIRE(x > -1e-6 && y > -1e-6 && x < q.w + 1e-6 && y < q.h + 1e-6, "cell ", ic, " of extent ", q.w, " ", q.h,
              " has a vertex at ", x, ", ", y);
    }
    // conforming: every edge has two faces, or one on the rectangle
    std::map<std::vector<int>, int> edges;
    std::map<std::vector<int>, int> last;
    for (size_t i = 0; i < m.f.size(); ++i) {
      auto const & f = m.f[i];
      size_t const nc = m.quadratic ? f.size() / 2 : f.size();
      for (size_t k = 0; k < nc; ++k) {
        std::vector<int> e{std::min(f[k], f[(k + 1) % nc]), std::max(f[k], f[(k + 1) % nc])};
        if (m.quadratic) {
          e.push_back(f[nc + k]);
        }
        ++edges[e];
      }
    }
    double longest = 0;
    for (auto const & [e, n] : edges) {
      REQUIRE(n <= 2, "cell ", ic, ": an edge with ", n, " faces");
      auto const & a = m.v[static_cast<size_t>(e[0])];
      auto const & b = m.v[static_cast<size_t>(e[1])];
      longest = std::max(longest, static_cast<double>(geo::dist(a, b)));
      if (n == 1) {
        auto on = [&](geo::P const & p, int side) {
          double const x = static_cast<double>(p.x);
          double const y = static_cast<double>(p.y);
          double const d[4] = {x, q.w - x, y, q.h - y};
          return std::fabs(d[side]) < 1e-6;
        };
        bool ok = false;
        for (int side = 0; side < 4; ++side) {
          bool all = true;
          for (int const v : e) {
            all = all && on(m.v[static_cast<size_t>(v)], side);
          }
          ok = ok || all;
        }
        REQUIRE(ok, "cell ", ic, ": an edge from ", double(a.x), ", ", double(a.y), " to ", double(b.x), ", ", double(b.y),
                " has one face and is not on the outline");
      }
    }
    // areas
    double area = 0;
    std::map<int, double> by_mat;
    std::set<int> present;
    for (size_t i = 0; i < m.f.size(); ++i) {
      std::vector<geo::P> p;
      for (int const v : m.f[i]) {
        p.push_back(m.v[static_cast<size_t>(v)]);
      }
      auto const rg = geo::region(p, m.quadratic);
      double const a = static_cast<double>(rg.area());
      REQUIRE(a > 0, "cell ", ic, ": face ", i, " has area ", a);
      area += a;
      int const mat = cc.material_ids[static_cast<Int>(i)];
      by_mat[mat] += a;
      present.insert(mat);
      // material at the centroid, by formula
      auto const ce = rg.centroid();
      double const x = q.x + static_cast<double>(ce.x);
      double const y = q.y + static_cast<double>(ce.y);
      int expect = fill;
      bool clear = true;
      for (auto const & pin : pins) {
        double const d = std::hypot(x - pin.x, y - pin.y);
        for (size_t k = 0; k < pin.r.size(); ++k) {
          // an inscribed chord of the mesh leaves its arc by at most this much
          double const sag = pin.r[k] - std::sqrt(std::max(0.0, pin.r[k] * pin.r[k] - longest * longest / 4));
          clear = clear && std::fabs(d - pin.r[k]) > sag;
          if (d < pin.r[k]) {
            expect = pin.mat[k];
            break;
          }
        }
      }
      if (clear) {
        REQUIRE(mat == mat_id[static_cast<size_t>(expect)], "cell ", ic, ": the face about ", x, ", ", y, " has material ", mat,
                ", expected ", mat_id[static_cast<size_t>(expect)], " (", MATS[expect], ")");
      }
    }
    mixed = mixed || present.size() > 1;
    REQUIRE(std::fabs(area - q.w * q.h) < 1e-7 * size * size, "cell ", ic, " has area ", area, ", expected ", q.w * q.h);
    // per material
    std::map<int, double> exact;
    std::map<int, double> tol;
    double left = q.w * q.h;
    double left_tol = 0;
    for (auto const & pin : pins) {
      double in = 0;
      double in_tol = 0;
      for (size_t k = 0; k < pin.r.size(); ++k) {
        double const r = pin.r[k];
        double const d = discRect(pin.x, pin.y, r, q);
        double t = 0;
        if (d > 0) {
          double const e = std::min(longest, 2 * r);
          double const half = std::asin(e / (2 * r)); // half the angle of an edge
          t = m.quadratic ? PI * r * r * std::pow(half, 4) / 10 : r * r * (PI / half) * (half - std::sin(half) * std::cos(half)) * 1.2;
        }
        int const id = mat_id[static_cast<size_t>(pin.mat[k])];
        exact[id] += d - in;
        tol[id] += t + in_tol;
        in = d;
        in_tol = t;
      }
      left -= in;
      left_tol += in_tol;
    }
    exact[mat_id[static_cast<size_t>(fill)]] += left;
    tol[mat_id[static_cast<size_t>(fill)]] += left_tol;
    for (int k = 0; k < nm; ++k) {
      double const diff = std::fabs(by_mat[k] - exact[k]);
      REQUIRE(diff <= tol[k] + 1e-6 * size * size, "cell ", ic, ": material ", k, " covers ", by_mat[k], ", the CAD model ",
              exact[k], ", within ", tol[k]);
    }
  }
  c.label(TYPE_NAMES[kind]);
  c.label(grid ? "cells cut pins" : "cells hold pins");
  c.nontrivial(mixed && want.size() > 1 && faces > 8);
}

// Meshes from any program: each cell takes the elements of its set, with the materials of theirs
PBT_SUB(imported, 3000, 60000, "several cells of several materials")
{
  armLogger();
  bool const many = s.oneIn(25);
  int const n = many ? s.irange(95, 130) : s.irange(1, 12);
  int const nmat = s.irange(1, 5);
  bool const one_kind = s.coin();
  int const kind0 = s.irange(0, 3);
  um2::mpact::Model model;
  for (int k = 0; k < nmat; ++k) {
    model.addMaterial(matOf(k), false);
  }
  int const across = s.irange(1, many ? 20 : 4);
  std::vector<double> w;
  std::vector<double> h;
  for (int i = 0; i < across; ++i) {
    w.push_back(s.coin() ? 1.26 : s.real(0.2, 3));
  }
  for (int i = 0; i <= n / across; ++i) {
    h.push_back(s.coin() ? 1.26 : s.real(0.2, 3));
  }
  std::vector<reactor::CellMesh> mesh;
  std::vector<std::vector<int>> mat;
  std::vector<std::array<double, 2>> at;
  double y = s.coin() ? 0 : s.real(-5, 5);
  double const x0 = s.coin() ? 0 : s.real(-5, 5);
  double x = x0;
  std::set<int> used;
  for (int i = 0; i < n; ++i) {
    auto const ix = static_cast<size_t>(i % across);
    auto const iy = static_cast<size_t>(i / across);
    if (i > 0 && ix == 0) {
      x = x0;
      y += h[iy - 1];
    }
    at.push_back({x, y});
    x += w[ix];
    mesh.push_back(reactor::genCellMesh(s, w[ix], h[iy], one_kind ? kind0 : s.irange(0, 3), many ? 1 : 3));
    std::vector<int> m;
    for (size_t k = 0; k < mesh.back().f.size(); ++k) {
      m.push_back(s.irange(0, nmat - 1));
      used.insert(m.back());
    }
    mat.push_back(m);
    model.addCoarseCell(um2::Vec2F(w[ix], h[iy]));
  }
  // one list of points, of elements and of sets, each in any order
  int const fault = s.oneIn(8) ? s.irange(1, 2) : 0; // a material the model lacks, or none
  std::vector<std::array<double, 2>> pts;
  std::map<std::pair<int64_t, int64_t>, int> known;
  struct El {
    size_t cell, face;
    std::vector<int> conn;
  };
  std::vector<El> els;
  bool const weld = s.coin();
  for (size_t i = 0; i < mesh.size(); ++i) {
    std::vector<int> id;
    for (auto const & v : mesh[i].v) {
      std::array<double, 2> const p{v[0] + at[i][0], v[1] + at[i][1]};
      std::pair<int64_t, int64_t> const key{std::llround(p[0] * 1e9), std::llround(p[1] * 1e9)};
      auto const it = known.find(key);
      if (weld && it != known.end()) {
        id.push_back(it->second);
      } else {
        known[key] = static_cast<int>(pts.size());
        id.push_back(static_cast<int>(pts.size()));
        pts.push_back(p);
      }
    }
    for (size_t k = 0; k < mesh[i].f.size(); ++k) {
      El e{i, k, {}};
      for (int const v : mesh[i].f[k]) {
        e.conn.push_back(id[static_cast<size_t>(v)]);
      }
      els.push_back(e);
    }
  }
  if (s.coin()) {
    auto const p = s.perm(static_cast<int>(pts.size()));
    auto const old = pts;
    for (size_t i = 0; i < p.size(); ++i) {
      pts[static_cast<size_t>(p[i])] = old[i];
    }
    for (auto & e : els) {
      for (auto & v : e.conn) {
        v = p[static_cast<size_t>(v)];
      }
    }
  }
  if (s.coin()) {
    auto const p = s.perm(static_cast<int>(els.size()));
    auto const old = els;
    for (size_t i = 0; i < p.size(); ++i) {
      els[static_cast<size_t>(p[i])] = old[i];
    }
  }
  std::map<std::string, std::vector<Int>> sets;
  for (size_t i = 0; i < els.size(); ++i) {
    char name[32];
    std::snprintf(name, sizeof name, "Coarse_Cell_%05zu", els[i].cell);
    sets[name].push_back(static_cast<Int>(i));
    std::string const m = MATS[mat[els[i].cell][els[i].face]];
    if (fault == 1 && i == 0) {
      sets["Material_" + m + "x"].push_back(0);
    } else if (fault == 0 || i > 0) {
      sets["Material_" + m].push_back(static_cast<Int>(i));
    }
    if (s.oneIn(8)) {
      sets["Other"].push_back(static_cast<Int>(i));
    }
  }
  bool const xdmf = s.coin();
  std::string const file = c.dir() + (xdmf ? "/cells.xdmf" : "/cells.inp");
  c.desc << n << " cells, " << els.size() << " elements, " << (xdmf ? "xdmf" : "inp") << ", fault " << fault;
  static um2::VTKElemType const vtk[] = {um2::VTKElemType::Triangle, um2::VTKElemType::Quad,
                                         um2::VTKElemType::QuadraticTriangle, um2::VTKElemType::QuadraticQuad};
  std::vector<std::string> order;
  for (auto const & kv : sets) {
    order.push_back(kv.first);
  }
  if (s.coin()) {
    auto const p = s.perm(static_cast<int>(order.size()));
    auto const old = order;
    for (size_t i = 0; i < p.size(); ++i) {
      order[static_cast<size_t>(p[i])] = old[i];
    }
  }
  if (xdmf) {
    um2::PolytopeSoup soup;
    for (auto const & p : pts) {
      soup.addVertex(p[0], p[1], 0);
    }
    for (auto const & e : els) {
      um2::Vector<Int> conn;
      for (int const v : e.conn) {
        conn.emplace_back(v);
      }
      soup.addElement(vtk[mesh[e.cell].kind], conn);
    }
    for (auto const & name : order) {
      um2::Vector<Int> ids;
      for (Int const i : sets[name]) {
        ids.emplace_back(i);
      }
      soup.addElset(um2::String(name.c_str()), ids);
    }
    soup.write(um2::String(file.c_str()));
  } else {
    std::ofstream f(file);
    f.precision(17);
    f << "*Heading\n cells\n*NODE\n";
    for (size_t i = 0; i < pts.size(); ++i) {
      f << i + 1 << ", " << pts[i][0] << ", " << pts[i][1] << ", 0\n";
    }
    int last = -1;
    for (size_t i = 0; i < els.size(); ++i) {
      int const k = mesh[els[i].cell].kind;
      if (k != last) {
        f << "*ELEMENT, type=CPS" << reactor::NODES[k] << ", ELSET=Surface1\n";
        last = k;
      }
      f << i + 1;
      for (int const v : els[i].conn) {
        f << ", " << v + 1;
      }
      f << "\n";
    }
    for (auto const & name : order) {
      f << "*ELSET,ELSET=" << name << "\n";
      for (size_t i = 0; i < sets[name].size(); ++i) {
        f << sets[name][i] + 1 << (i % 10 == 9 || i + 1 == sets[name].size() ? ",\n" : ", ");
      }
    }
  }
  REQUIRE(!errorLogged(), "error: ", um2::logger::buffer);
  model.importCoarseCellMeshes(um2::String(file.c_str()));
  if (fault != 0) {
    REQUIRE(errorLogged(), fault == 1 ? "a material the model lacks is not reported"
                                      : "an element without material is not reported");
    c.label("faulty");
    return;
  }
  REQUIRE(!errorLogged(), "error: ", um2::logger::buffer);
  for (size_t i = 0; i < mesh.size(); ++i) {
    auto const & want = mesh[i];
    auto const & cc = model.getCoarseCell(static_cast<Int>(i));
    REQUIRE(cc.mesh_type == TYPES[want.kind], "cell ", i, " has mesh type ", static_cast<int>(cc.mesh_type));
    Flat const got = meshOf(model, cc);
    REQUIRE(got.f.size() == want.f.size() && static_cast<size_t>(cc.material_ids.size()) == want.f.size(), "cell ", i,
            " has ", got.f.size(), " faces and ", cc.material_ids.size(), " materials, expected ", want.f.size());
    std::vector<bool> taken(got.f.size(), false);
    for (size_t k = 0; k < want.f.size(); ++k) {
      auto const & wf = want.f[k];
      size_t found = got.f.size();
      for (size_t q = 0; q < got.f.size() && found == got.f.size(); ++q) {
        // the same nodes in cyclic order
        size_t const nc = want.kind >= 2 ? wf.size() / 2 : wf.size();
        for (size_t turn = 0; turn < nc && !taken[q]; ++turn) {
          bool same = true;
          for (size_t v = 0; v < wf.size() && same; ++v) {
            auto const & p = got.v[static_cast<size_t>(got.f[q][v < nc ? (v + turn) % nc : nc + (v - nc + turn) % nc])];
            auto const & e = want.v[static_cast<size_t>(wf[v])];
            same = std::fabs(static_cast<double>(p.x) - e[0]) < 1e-6 && std::fabs(static_cast<double>(p.y) - e[1]) < 1e-6;
          }
          if (same) {
            found = q;
            break;
          }
        }
      }
      REQUIRE(found < got.f.size(), "cell ", i, " lacks its face ", k);
      taken[found] = true;
      int const id = cc.material_ids[static_cast<Int>(found)];
      REQUIRE(id == mat[i][k], "cell ", i, " face ", k, " has material ", id, ", expected ", mat[i][k]);
    }
  }
  c.label(many ? "many cells" : "few cells");
  c.nontrivial(n > 1 && used.size() > 1);
}

PBT_SUB(pins, 160, 4000, "several cells, more than one material in a cell")
{
  flow(s, c);
}

// Mesh sizes from mean free paths: element counts of squares that stand apart.
PBT_SUB(sizes, 300, 6000, "several materials of different size")
{
  armLogger();
  session();
  freshOptions();
  int const nm = s.irange(1, 5);
  double const kn = s.mag(-0.5, 1.5);
  bool const graded = s.coin();
  bool const inward = s.coin(); // absorbers are coarser inside
  double const abs_threshold = s.real(0, 1);
  double const abs_scale = s.real(1, 2);
  double const threshold = s.real(0, 2);
  double const scale = s.real(1, 2);
  struct Mat {
    double lc = 0, sigma = 0;
    bool fuel = false;
    bool absorber = false;
    um2::Material m;
  };
  std::vector<Mat> mats(static_cast<size_t>(nm));
  bool fuel = false;
  bool absorber = false;
  c.desc << "Knudsen number " << kn << (graded ? ", graded" : "");
  for (int k = 0; k < nm; ++k) {
    auto & a = mats[static_cast<size_t>(k)];
    a.lc = s.real(0.07, 0.35); // of a square of side one
    a.sigma = 12 / (PI * std::sqrt(3.0) * kn * a.lc);
    a.fuel = s.oneIn(3);
    a.absorber = s.oneIn(3) && a.sigma > 1;
    fuel = fuel || a.fuel;
    absorber = absorber || a.absorber;
    a.m = matOf(k);
    int const ng = s.irange(1, 3);
    um2::XSec xs(ng);
    xs.isMacro() = true;
    double left = a.sigma * ng; // of the sum over the groups
    for (Int g = 0; g < ng; ++g) {
      double const t = g + 1 == ng ? left : left * s.real(0.2, 0.6);
      left -= t;
      double const ratio = a.absorber ? s.real(0.02, 0.15) : s.real(0.3, 0.9);
      xs.a()[g] = t * (1 - ratio);
      xs.s()[g] = t * ratio;
      xs.ss()(s.irange(0, ng - 1), g) = t * ratio;
      if (a.fuel) {
        xs.f()[g] = t * (1 - ratio) / 2;
        xs.nuf()[g] = t * (1 - ratio);
      }
    }
    xs.isFissile() = a.fuel;
    a.m.xsec() = xs;
    c.desc << "; " << MATS[k] << (a.fuel ? " (fuel)" : "") << " size " << a.lc << " total " << a.sigma;
  }
  // squares on a lattice with gaps
  struct Square {
    int mat, x, y, tag;
  };
  std::vector<Square> sq;
  for (int k : s.perm(nm)) {
    for (int n = s.irange(1, 2); n > 0; --n) {
      int const i = static_cast<int>(sq.size());
      sq.push_back({k, 2 * (i % 3), 2 * (i / 3), -1});
    }
  }
  for (auto & q : sq) {
    q.tag = ::gmsh::model::occ::addRectangle(q.x, q.y, 0, 1, 1);
  }
  ::gmsh::model::occ::synchronize();
  for (auto const & q : sq) {
    um2::gmsh::model::addToPhysicalGroup(2, {q.tag}, -1, std::string("Material_") + MATS[q.mat]);
  }
  if (s.coin()) {
    um2::gmsh::model::addToPhysicalGroup(2, {sq[0].tag}, -1, "Coarse_Cell_00000");
  }
  um2::Vector<um2::Material> list;
  for (int const k : s.perm(nm)) {
    list.emplace_back(mats[static_cast<size_t>(k)].m);
  }
  //------------------------------------------------------------------ refusals
  if (s.oneIn(6)) {
    int const how = s.irange(0, 4);
    c.desc << "; refusal " << how;
    double bad = kn;
    double fuel_at = -1;
    switch (how) {
    case 0:
      list.emplace_back(matOf(0));
      break;
    case 1:
      list[0].setName(um2::String("Other"));
      break;
    case 2:
      bad = s.coin() ? 0 : -kn;
      break;
    case 3:
      list[0] = matOf(0);
      list[0].setName(mats[0].m.getName());
      for (Int i = 1; i < list.size(); ++i) {
        if (list[i].getName() == list[0].getName()) {
          list[i] = mats[static_cast<size_t>(s.irange(0, 0))].m;
        }
      }
      break;
    default:
      pbt::discardUnless(!fuel);
      fuel_at = 1;
    }
    int const r = um2::gmsh::model::mesh::setMeshFieldFromKnudsenNumber(2, list, bad, fuel_at, 1);
    REQUIRE(r != 0 && errorLogged(), "a bad request was accepted");
    c.label("refused");
    c.nontrivial();
    return;
  }
  bool const by_fuel = graded && fuel;
  bool const by_depth = inward && absorber;
  int const r = um2::gmsh::model::mesh::setMeshFieldFromKnudsenNumber(2, list, kn, by_fuel ? threshold : -1, scale,
                                                                      by_depth ? abs_threshold : -1, abs_scale);
  REQUIRE(r == 0 && !errorLogged(), "refused: ", um2::logger::buffer);
  um2::gmsh::model::mesh::generateMesh(MeshType::Tri, 1);
  double spread = 0;
  for (auto const & q : sq) {
    auto const & m = mats[static_cast<size_t>(q.mat)];
    double near = 1e9; // to fuel, from the square's nearest and farthest points
    double far = 1e9;
    for (auto const & o : sq) {
      if (mats[static_cast<size_t>(o.mat)].fuel) {
        double const dx = std::max(0, std::abs(q.x - o.x) - 1);
        double const dy = std::max(0, std::abs(q.y - o.y) - 1);
        near = std::min(near, std::hypot(dx, dy));
        far = std::min(far, std::hypot(dx + 1, dy + 1));
      }
    }
    double lo = m.lc;
    double hi = m.lc;
    if (by_depth && m.absorber) {
      hi = std::max(hi, m.lc * (1 + abs_scale * (m.sigma / 2 - abs_threshold)));
    } else if (by_fuel && !m.fuel && !m.absorber) {
      lo = std::max(lo, m.lc * (1 + scale * (m.sigma * near - threshold)));
      hi = std::max(hi, m.lc * (1 + scale * (m.sigma * far - threshold)));
    }
    std::vector<int> et;
    std::vector<std::vector<size_t>> tags;
    std::vector<std::vector<size_t>> nodes;
    ::gmsh::model::mesh::getElements(et, tags, nodes, 2, q.tag);
    REQUIRE(et.size() == 1, "elements of ", et.size(), " kinds");
    double const n = static_cast<double>(tags[0].size());
    auto count = [](double l) { return std::max(2.0, 4 / (std::sqrt(3.0) * l * l)); };
    spread = std::max(spread, m.lc / mats[static_cast<size_t>(sq[0].mat)].lc);
    double const least = (hi > lo ? 0.35 : 0.6) * count(hi);
    double const most = lo > m.lc || hi > lo ? 3 * std::max(count(lo), 7.0) : 2.5 * count(lo);
    if (by_depth && m.absorber) {
      // the size grows from the edges of the square inwards
      double want = 0;
      int const steps = 200;
      for (int k = 0; k < steps; ++k) { // over the distance from the edges, which has density 4 - 8d
        double const d = (k + 0.5) / steps / 2;
        double const l = m.lc * std::max(1.0, 1 + abs_scale * (m.sigma * d - abs_threshold));
        want += (4 - 8 * d) / 2 / steps * 4 / (std::sqrt(3.0) * l * l);
      }
REQUIRE(n > 0.6 * want, "absorbing square of ", MATS[q.mat], " has ", n, " elements, expected about ", want);
      REQUIRE(m.lc > 0.13 || want > 0.5 * count(m.lc) || n < 1.6 * want + 7 / m.lc, "absorbing square of ", MATS[q.mat],
              " has ", n, " elements, expected about ", want);
    }
    REQUIRE(n > least && n < most, "square of ", MATS[q.mat], " has ", n, " elements, expected ", least, " to ", most);
  }
  if (by_depth) {
    c.label("coarser inside absorbers");
  }
  c.label(by_fuel ? "graded away from fuel" : "by material");
  c.nontrivial(spread > 1.5);
}

} // namespace

auto
main(int argc, char ** argv) -> int
{
  pbt::Options opt;
  opt.leak_check = false; // of the mesh generator
  opt.assumptions = {"lines of the grid cross circles clearly or keep clear of them", "meshes fine enough for their arcs; folded or badly shaped elements of the generator are discarded",
                     "quadrilaterals are made with another algorithm than the library selects, which fails in the installed generator"};
  return pbt::run("C33", "meshes of cells against the pins and cells by formula", opt, argc, argv);
}

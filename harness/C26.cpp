// C26: the C interface.
// Oracle: the ideal model (reactor.hpp) the queried model was built or loaded from.
#include "reactor.hpp"

#include <um2c.h>

#include <set>

namespace
{

using namespace reactor;

struct Handle {
  void * p = nullptr;
  Handle() = default;
  Handle(Handle const &) = delete;
  auto
  operator=(Handle const &) -> Handle & = delete;
  ~Handle()
  {
    if (p != nullptr) {
      um2DeleteMPACTModel(p);
    }
  }
};

auto
i(size_t k) -> Int
{
  return static_cast<Int>(k);
}

template <class M>
void
raysOf(void * p, Int cc, M const & mesh, pbt::Src & s, Cell const & cell)
{
  auto const cap = static_cast<size_t>(mesh.numFaces()) * 16;
  for (int k = 0; k < 2; ++k) {
    double const ang = s.oneIn(4) ? s.irange(0, 3) * 0.78539816339744830962 : s.real(0, 6.283185307179586);
    double const ox = s.oneIn(3) ? s.real(0, cell.w) : s.real(-1, 1) * cell.w;
    double const oy = s.oneIn(3) ? s.real(0, cell.h) : s.real(-1, 1) * cell.h;
    double const dx = std::cos(ang);
    double const dy = std::sin(ang);
    std::vector<Float> want(cap, -7);
    Int const nw = mesh.intersect(um2::Ray2F(um2::Point2F(ox, oy), um2::Vec2F(dx, dy)), want.data());
    want.resize(static_cast<size_t>(nw));
    std::sort(want.begin(), want.end());
    std::vector<Float> got(cap, -7);
    Int n = -5;
    um2MPACTIntersectCoarseCell(p, cc, ox, oy, dx, dy, got.data(), &n);
    REQUIRE(n == nw, "cell ", cc, " ray from ", ox, ", ", oy, " along ", dx, ", ", dy, ": ", n,
            " crossings, the mesh has ", nw);
    got.resize(static_cast<size_t>(n));
    REQUIRE(got == want, "cell ", cc, " ray from ", ox, ", ", oy, " along ", dx, ", ", dy,
            ": crossings differ or are unsorted");
  }
}

void
cells(void * p, Reactor const & r, pbt::Src & s, double tol)
{
  auto const & m = *reinterpret_cast<Model const *>(p);
  size_t const many = std::min<size_t>(r.cells.size(), 6);
  auto const order = s.perm(static_cast<int>(r.cells.size()));
  for (size_t o = 0; o < many; ++o) {
    auto const k = static_cast<size_t>(order[o]);
    auto const & c = r.cells[k];
    auto const & mesh = r.meshes[static_cast<size_t>(c.mesh)];
    size_t const nf = mesh.f.size();
    Float x = -1;
    Float y = -1;
    um2MPACTCoarseCellWidth(p, i(k), &x);
    um2MPACTCoarseCellHeight(p, i(k), &y);
    REQUIRE(std::fabs(x - c.w) <= tol && std::fabs(y - c.h) <= tol, "cell ", k, " is ", x, " by ", y,
            ", expected ", c.w, " by ", c.h);
    Int n = -1;
    um2MPACTCoarseCellNumFaces(p, i(k), &n);
    REQUIRE(n == i(nf), "cell ", k, " has ", n, " faces, expected ", nf);
    std::vector<MatID> mats(nf, -9);
    um2MPACTCoarseCellMaterialIDs(p, i(k), mats.data());
    std::vector<Float> areas(nf, -1);
    um2MPACTCoarseCellFaceAreas(p, i(k), areas.data());
    for (size_t f = 0; f < nf; ++f) {
      REQUIRE(mats[f] == c.mat[f], "cell ", k, " face ", f, " has material ", int(mats[f]));
      auto const rg = mesh.face(f);
      double const a = static_cast<double>(rg.area());
      REQUIRE(std::fabs(areas[f] - a) <= tol, "cell ", k, " face ", f, " has area ", areas[f], ", expected ", a);
      auto const q = rg.centroid();
      um2MPACTCoarseCellFaceCentroid(p, i(k), i(f), &x, &y);
      REQUIRE(std::fabs(x - static_cast<double>(q.x)) <= 10 * tol && std::fabs(y - static_cast<double>(q.y)) <= 10 * tol,
              "cell ", k, " face ", f, " has centroid ", x, ", ", y, ", expected ", double(q.x), ", ", double(q.y));
    }
    // locate points
    for (int t = 0; t < 4; ++t) {
      P const q{s.real(-0.1, 1.1) * c.w, s.real(-0.1, 1.1) * c.h};
      Int want = -1;
      bool near = false;
      for (size_t f = 0; f < nf; ++f) {
        auto const rg = mesh.face(f);
        if (rg.distance(q) < 1e-6L) {
          near = true;
        } else if (rg.contains(q)) {
          want = i(f);
        }
      }
      Int got = -5;
      um2MPACTCoarseCellFaceContaining(p, i(k), static_cast<double>(q.x), static_cast<double>(q.y), &got);
      REQUIRE(near || got == want, "cell ", k, " point ", double(q.x), ", ", double(q.y), " is in face ", got,
              ", expected ", want);
    }
    // raw data
    Int type = -1;
    Int nv = -1;
    Int nfaces = -1;
    Float * v = nullptr;
    Int * fv = nullptr;
    um2MPACTCoarseCellFaceData(p, i(k), &type, &nv, &nfaces, &v, &fv);
    REQUIRE(type == static_cast<Int>(meshType(mesh.kind)), "cell ", k, " mesh type ", type);
    REQUIRE(nv == i(mesh.v.size()) && nfaces == i(nf), "cell ", k, " data of ", nv, " vertices and ", nfaces, " faces");
    auto const nodes = static_cast<size_t>(NODES[mesh.kind]);
    for (size_t f = 0; f < nf; ++f) {
      for (size_t j = 0; j < nodes; ++j) {
        auto const id = static_cast<size_t>(fv[f * nodes + j]);
        REQUIRE(id < mesh.v.size(), "cell ", k, " face ", f, " node ", j, " is vertex ", id);
        auto const & want = mesh.v[static_cast<size_t>(mesh.f[f][j])];
        REQUIRE(std::fabs(v[2 * id] - want[0]) <= tol && std::fabs(v[2 * id + 1] - want[1]) <= tol, "cell ", k,
                " face ", f, " node ", j, " at ", v[2 * id], ", ", v[2 * id + 1], ", expected ", want[0], ", ",
                want[1]);
      }
    }
    um2Free(v);
    um2Free(fv);
    Int const id = m.getCoarseCell(i(k)).mesh_id;
    switch (mesh.kind) {
    case 0:
      raysOf(p, i(k), m.getTriMesh(id), s, c);
      break;
    case 1:
      raysOf(p, i(k), m.getQuadMesh(id), s, c);
      break;
    case 2:
      raysOf(p, i(k), m.getTri6Mesh(id), s, c);
      break;
    default:
      raysOf(p, i(k), m.getQuad8Mesh(id), s, c);
    }
  }
}

void
maps(void * p, Reactor const & r, double tol)
{
  Int n = -1;
  um2MPACTNumCoarseCells(p, &n);
  REQUIRE(n == i(r.cells.size()), n, " cells");
  um2MPACTNumRTMs(p, &n);
  REQUIRE(n == i(r.rtms.size()), n, " modules");
  um2MPACTNumLattices(p, &n);
  REQUIRE(n == i(r.lats.size()), n, " lattices");
  um2MPACTNumAssemblies(p, &n);
  REQUIRE(n == i(r.asys.size()), n, " assemblies");
  Int nx = -1;
  Int ny = -1;
  auto children = [&](Map const & m, char const * what, size_t k, auto && child) {
    REQUIRE(nx == m.nx && ny == m.ny, what, " ", k, " is ", nx, " by ", ny, ", expected ", m.nx, " by ", m.ny);
    for (int b = 0; b < m.ny; ++b) {
      for (int a = 0; a < m.nx; ++a) {
        Int got = -1;
        child(a, b, &got);
        REQUIRE(got == m.at(a, b), what, " ", k, " child ", a, ", ", b, " is ", got, ", expected ", m.at(a, b));
      }
    }
  };
  um2MPACTCoreNumCells(p, &nx, &ny);
  children(r.core, "core", 0, [&](Int a, Int b, Int * o) { um2MPACTCoreGetChild(p, a, b, o); });
  for (size_t k = 0; k < r.lats.size(); ++k) {
    um2MPACTLatticeNumCells(p, i(k), &nx, &ny);
    children(r.lats[k], "lattice", k, [&](Int a, Int b, Int * o) { um2MPACTLatticeGetChild(p, i(k), a, b, o); });
  }
  for (size_t k = 0; k < r.rtms.size(); ++k) {
    um2MPACTRTMNumCells(p, i(k), &nx, &ny);
    children(r.rtms[k], "module", k, [&](Int a, Int b, Int * o) { um2MPACTRTMGetChild(p, i(k), a, b, o); });
    Float w = -1;
    Float h = -1;
    um2MPACTRTMWidth(p, i(k), &w);
    um2MPACTRTMHeight(p, i(k), &h);
    REQUIRE(std::fabs(w - r.W) <= tol && std::fabs(h - r.H) <= tol, "module ", k, " is ", w, " by ", h);
  }
  for (size_t k = 0; k < r.asys.size(); ++k) {
    auto const & a = r.asys[k];
    um2MPACTAssemblyNumCells(p, i(k), &nx);
    REQUIRE(nx == i(a.lat.size()), "assembly ", k, " has ", nx, " slabs");
    std::vector<Float> dz(a.lat.size(), -1);
    um2MPACTAssemblyHeights(p, i(k), dz.data());
    for (size_t j = 0; j < a.lat.size(); ++j) {
      Int got = -1;
      um2MPACTAssemblyGetChild(p, i(k), i(j), &got);
      REQUIRE(got == a.lat[j], "assembly ", k, " slab ", j, " is lattice ", got);
      REQUIRE(std::fabs(dz[j] - (a.z[j + 1] - a.z[j])) <= tol, "assembly ", k, " slab ", j, " is ", dz[j], " thick");
    }
  }
}

using Item = std::pair<Int, double>;

void
listing(char const * what, std::vector<Item> want, Int n, Int * ids, Float * dz, double tol)
{
  auto close = [](double a, double b) { return std::fabs(a - b) < 1e-4; };
  std::vector<Item> uniq;
  for (auto const & w : want) {
    bool const dup =
        std::any_of(uniq.begin(), uniq.end(), [&](Item const & u) { return u.first == w.first && close(u.second, w.second); });
    if (!dup) {
      uniq.push_back(w);
    }
  }
  std::sort(uniq.begin(), uniq.end(), [&](Item const & a, Item const & b) {
    return close(a.second, b.second) ? a.first < b.first : a.second < b.second;
  });
  std::vector<Item> got;
  for (Int k = 0; k < n; ++k) {
    got.emplace_back(ids[k], dz[k]);
  }
  um2Free(ids);
  um2Free(dz);
  REQUIRE(got.size() == uniq.size(), what, " listing has ", got.size(), " entries, expected ", uniq.size());
  for (size_t k = 0; k < got.size(); ++k) {
    REQUIRE(got[k].first == uniq[k].first && std::fabs(got[k].second - uniq[k].second) <= tol, what, " listing entry ",
            k, " is ", got[k].first, " of ", got[k].second, ", expected ", uniq[k].first, " of ", uniq[k].second);
  }
}

void
heights(void * p, Reactor const & r, double tol)
{
  std::vector<Item> cc;
  std::vector<Item> rt;
  std::vector<Item> la;
  for (auto const & a : r.asys) {
    for (size_t k = 0; k < a.lat.size(); ++k) {
      double const dz = a.z[k + 1] - a.z[k];
      la.emplace_back(a.lat[k], dz);
      for (int const t : r.lats[static_cast<size_t>(a.lat[k])].ids) {
        rt.emplace_back(t, dz);
        for (int const c : r.rtms[static_cast<size_t>(t)].ids) {
          cc.emplace_back(c, dz);
        }
      }
    }
  }
  Int n = -1;
  Int * ids = nullptr;
  Float * dz = nullptr;
  um2MPACTCoarseCellHeights(p, &n, &ids, &dz);
  listing("cell", cc, n, ids, dz, tol);
  um2MPACTRTMHeights(p, &n, &ids, &dz);
  listing("module", rt, n, ids, dz, tol);
  um2MPACTLatticeHeights(p, &n, &ids, &dz);
  listing("lattice", la, n, ids, dz, tol);
}

// Thicknesses are either equal up to rounding or clearly different
void
clearThicknesses(Reactor const & r)
{
  std::vector<double> d;
  for (auto const & a : r.asys) {
    for (size_t k = 0; k + 1 < a.z.size(); ++k) {
      d.push_back(a.z[k + 1] - a.z[k]);
    }
  }
  for (double const a : d) {
    for (double const b : d) {
      double const x = std::fabs(a - b);
      pbt::discardUnless(x < 1e-9 || x > 3e-4);
    }
  }
}

void
labels(pbt::Case & c, Reactor const & r)
{
  std::set<int> kinds;
  for (auto const & m : r.meshes) {
    kinds.insert(m.kind);
  }
  c.label("kinds " + std::to_string(kinds.size()));
  size_t slabs = 0;
  for (auto const & a : r.asys) {
    slabs = std::max(slabs, a.lat.size());
  }
  c.nontrivial(r.cells.size() > 1 && (r.rtms.size() > 1 || slabs > 1));
}

PBT_SUB(built_model, 5000, 120000, "several cells and several modules or slabs")
{
  armLogger();
  auto const r = genReactor(s);
  c.desc << r.describe();
  clearThicknesses(r);
  labels(c, r);
  Handle h;
  um2NewMPACTModel(&h.p);
  build(r, *reinterpret_cast<Model *>(h.p));
  double const tol = 1e-11 * (1 + r.height + (r.W + r.H) * (r.W + r.H));
  maps(h.p, r, tol);
  cells(h.p, r, s, tol);
  heights(h.p, r, tol);
  REQUIRE(!errorLogged(), "error: ", um2::logger::buffer);
}

PBT_SUB(loaded_model, 600, 14000, "several cells and several modules or slabs")
{
  armLogger();
  Limits lim;
  lim.cells = 30;
  auto const r = genReactor(s, lim);
  c.desc << r.describe();
  clearThicknesses(r);
  labels(c, r);
  std::string const file = c.dir() + "/model.xdmf";
  {
    Model m;
    build(r, m);
    m.write(um2::String(file.c_str()));
    REQUIRE(!errorLogged(), "error while writing: ", um2::logger::buffer);
  }
  Handle h;
  um2ReadMPACTModel(file.c_str(), &h.p);
  REQUIRE(!errorLogged(), "error while reading: ", um2::logger::buffer);
  // coordinates pass through positions in the core
  double const tol = 1e-10 * (1 + r.height + 9 * (r.W + r.H) * (1 + r.W + r.H));
  maps(h.p, r, tol);
  cells(h.p, r, s, tol);
  heights(h.p, r, tol);
  REQUIRE(!errorLogged(), "error: ", um2::logger::buffer);
}

PBT_SUB(memory, 2000, 40000, "some blocks are used")
{
  int n = 0;
  um2SizeOfInt(&n);
  REQUIRE(n == static_cast<int>(sizeof(Int)), "size of Int ", n);
  um2SizeOfFloat(&n);
  REQUIRE(n == static_cast<int>(sizeof(Float)), "size of Float ", n);
  struct Block {
    unsigned char * p;
    Int n;
    unsigned char v;
  };
  std::vector<Block> live;
  auto intact = [](Block const & b) {
    for (Int k = 0; k < b.n; ++k) {
      REQUIRE(b.p[k] == b.v, "byte ", k, " of a block of ", b.n, " changed");
    }
  };
  int const ops = s.size(1, 30);
  int used = 0;
  for (int k = 0; k < ops; ++k) {
    if (live.empty() || s.coin()) {
      Block b{};
      b.n = s.irange(1, 2000);
      b.v = static_cast<unsigned char>(s.irange(0, 255));
      void * p = nullptr;
      um2Malloc(&p, b.n);
      REQUIRE(p != nullptr, "no block of ", b.n, " bytes");
      b.p = static_cast<unsigned char *>(p);
      std::fill(b.p, b.p + b.n, b.v);
      live.push_back(b);
      ++used;
    } else {
      auto const j = s.below(live.size());
      intact(live[j]);
      um2Free(live[j].p);
      live.erase(live.begin() + static_cast<std::ptrdiff_t>(j));
    }
  }
  for (auto const & b : live) {
    intact(b);
    um2Free(b.p);
  }
  c.desc << used << " blocks";
  c.nontrivial(used > 1);
}

} // namespace

auto
main(int argc, char ** argv) -> int
{
  pbt::Options o;
  o.leak_check = true;
  o.assumptions = {"slab thicknesses are equal up to rounding or differ by more than 3e-4",
                   "located points keep 1e-6 from face boundaries",
                   "ray crossings are those of the model's own meshes, which C18 decides"};
  return pbt::run("C26", "every query of the C interface returns what the ideal model holds", o, argc, argv);
}

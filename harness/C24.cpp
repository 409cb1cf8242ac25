// C24: assembling a core from cells, modules, lattices and assemblies.
// Oracle: an independent expansion of the same id maps (reactor.hpp).
#include "reactor.hpp"
#include "soup.hpp"

#include <set>

namespace
{

using namespace reactor;

constexpr double PI = 3.14159265358979323846;

auto
vtk(int kind) -> um2::VTKElemType
{
  return kind == 0   ? um2::VTKElemType::Triangle
         : kind == 1 ? um2::VTKElemType::Quad
         : kind == 2 ? um2::VTKElemType::QuadraticTriangle
                     : um2::VTKElemType::QuadraticQuad;
}

struct Sets {
  std::map<std::string, std::vector<Int>> ids;
  std::map<std::string, std::vector<double>> data;
  explicit Sets(um2::PolytopeSoup const & p)
  {
    for (Int i = 0; i < p.numElsets(); ++i) {
      um2::String name;
      um2::Vector<Int> e;
      um2::Vector<Float> d;
      p.getElset(i, name, e, d);
      auto const n = soup::text(name);
      REQUIRE(ids.count(n) == 0, "element set ", n, " appears twice");
      auto & v = ids[n];
      for (Int k = 0; k < e.size(); ++k) {
        v.push_back(e[k]);
      }
      auto & w = data[n];
      for (Int k = 0; k < d.size(); ++k) {
        w.push_back(d[k]);
      }
    }
  }
  // values per element of a set which covers all elements
  [[nodiscard]] auto
  field(std::string const & n, Int count) const -> std::vector<double>
  {
    auto const it = ids.find(n);
    REQUIRE(it != ids.end(), "no element set ", n);
    auto const & d = data.at(n);
    REQUIRE(d.size() == it->second.size() && static_cast<Int>(d.size()) == count, n, " covers ",
            it->second.size(), " elements with ", d.size(), " values, expected ", count);
    std::vector<double> out(d.size(), std::nan(""));
    for (size_t k = 0; k < d.size(); ++k) {
      out[static_cast<size_t>(it->second[k])] = d[k];
    }
    return out;
  }
};

// Which set of one level each element is in
auto
membership(Sets const & s, std::string const & prefix, Int count) -> std::vector<std::string>
{
  std::vector<std::string> in(static_cast<size_t>(count));
  for (auto const & [name, ids] : s.ids) {
    if (name.rfind(prefix, 0) != 0) {
      continue;
    }
    for (Int const e : ids) {
      REQUIRE(e >= 0 && e < count, name, " contains element ", e);
      REQUIRE(in[static_cast<size_t>(e)].empty(), "element ", e, " is in ", in[static_cast<size_t>(e)], " and in ",
              name);
      in[static_cast<size_t>(e)] = name;
    }
  }
  for (Int e = 0; e < count; ++e) {
    REQUIRE(!in[static_cast<size_t>(e)].empty(), "element ", e, " is in no set ", prefix);
  }
  return in;
}

auto
idIn(std::string const & name, std::string const & prefix) -> int
{
  return std::stoi(name.substr(prefix.size(), 5));
}

void
expansion(pbt::Src & s, pbt::Case & c, Limits const & lim)
{
  armLogger();
  Reactor const r = genReactor(s, lim);
  c.desc << r.describe();
  Model m;
  if (s.oneIn(6)) { // a model that held something else
    build(genReactor(s), m);
    m.clear();
    c.label("built after clearing");
  }
  build(r, m);
  expectStructure(m, r, 1e-12, "built model");
  auto const occ = r.expand();
  // counters
  Int faces = 0;
  std::set<int> ka;
  std::set<int> kl;
  std::set<int> kr;
  for (auto const & o : occ) {
    faces += static_cast<Int>(r.cells[static_cast<size_t>(o.cell)].mat.size());
    ka.insert(o.asy_k);
    kl.insert(o.lat_k);
    kr.insert(o.rtm_k);
  }
  REQUIRE(m.numAssembliesTotal() == static_cast<Int>(ka.size()), "numAssembliesTotal ", m.numAssembliesTotal());
  REQUIRE(m.numLatticesTotal() == static_cast<Int>(kl.size()), "numLatticesTotal ", m.numLatticesTotal());
  REQUIRE(m.numRTMsTotal() == static_cast<Int>(kr.size()), "numRTMsTotal ", m.numRTMsTotal());
  REQUIRE(m.numCoarseCellsTotal() == static_cast<Int>(occ.size()), "numCoarseCellsTotal ", m.numCoarseCellsTotal());
  REQUIRE(m.numFineCellsTotal() == faces, "numFineCellsTotal ", m.numFineCellsTotal());

  // own quantities per mesh face and per material
  std::vector<std::vector<double>> mcl;
  for (auto const & mesh : r.meshes) {
    std::vector<double> v;
    for (size_t i = 0; i < mesh.f.size(); ++i) {
      auto const g = mesh.face(i);
      v.push_back(PI * static_cast<double>(g.area() / g.perimeter()));
    }
    mcl.push_back(v);
  }

  auto const p = static_cast<um2::PolytopeSoup>(m);
  REQUIRE(!errorLogged(), "error while expanding: ", um2::logger::buffer);
  REQUIRE(p.numElements() == faces, "the expansion has ", p.numElements(), " elements, expected ", faces);
  Sets const sets(p);
  auto const in_cell = membership(sets, "Coarse_Cell_", faces);
  auto const in_rtm = membership(sets, "RTM_", faces);
  auto const in_lat = membership(sets, "Lattice_", faces);
  auto const in_asy = membership(sets, "Assembly_", faces);
  auto const mat = sets.field("Material_ID", faces);
  auto const xs = sets.field("One_Group_XS", faces);
  auto const chord = sets.field("Mean_Chord_Length", faces);
  auto const kn = sets.field("Knudsen_Number", faces);

  // place each cell set at one occurrence
  double size = r.height;
  size += r.W * 13 + r.H * 13;
  double const tol = 1e-10 * size;
  std::vector<bool> taken(occ.size(), false);
  std::map<std::string, int> rtm_of;
  std::map<std::string, int> lat_of;
  std::map<std::string, int> asy_of;
  std::map<int, std::string> rtm_to;
  std::map<int, std::string> lat_to;
  std::map<int, std::string> asy_to;
  auto bind = [&](std::map<std::string, int> & a, std::map<int, std::string> & b, std::string const & name, int k,
                  int id, std::string const & prefix) {
    REQUIRE(idIn(name, prefix) == id, "a cell of ", prefix, id, " is in set ", name);
    auto const i = a.emplace(name, k).first;
    auto const j = b.emplace(k, name).first;
    REQUIRE(i->second == k && j->second == name, "set ", name, " mixes places, or one place has sets ", name, " and ",
            j->second);
  };
  Int named = 0;
  for (auto const & [name, unordered] : sets.ids) {
    if (name.rfind("Coarse_Cell_", 0) != 0) {
      continue;
    }
    ++named;
    int const id = idIn(name, "Coarse_Cell_");
    REQUIRE(id >= 0 && id < static_cast<int>(r.cells.size()), "set ", name);
    auto const & cell = r.cells[static_cast<size_t>(id)];
    auto const & mesh = r.meshes[static_cast<size_t>(cell.mesh)];
    auto ids = unordered;
    std::sort(ids.begin(), ids.end());
    REQUIRE(ids.size() == cell.mat.size(), name, " has ", ids.size(), " elements, its cell has ", cell.mat.size());
    // positions of all nodes, in order
    std::vector<std::array<double, 3>> q;
    for (size_t k = 0; k < ids.size(); ++k) {
      um2::VTKElemType type{};
      um2::Vector<Int> conn;
      p.getElement(ids[k], type, conn);
      REQUIRE((type == vtk(mesh.kind)), name, " element ", ids[k], " has another type");
      REQUIRE(conn.size() == NODES[mesh.kind], name, " element ", ids[k], " has ", conn.size(), " nodes");
      for (Int n = 0; n < conn.size(); ++n) {
        auto const & v = p.getVertex(conn[n]);
        q.push_back({v[0], v[1], v[2]});
      }
    }
    size_t found = occ.size();
    for (size_t o = 0; o < occ.size() && found == occ.size(); ++o) {
      if (occ[o].cell != id || taken[o]) {
        continue;
      }
      bool ok = true;
      size_t at = 0;
      for (size_t k = 0; k < mesh.f.size() && ok; ++k) {
        for (int const n : mesh.f[k]) {
          auto const & v = mesh.v[static_cast<size_t>(n)];
          ok = ok && std::fabs(q[at][0] - (occ[o].x + v[0])) <= tol && std::fabs(q[at][1] - (occ[o].y + v[1])) <= tol &&
               std::fabs(q[at][2] - occ[o].z) <= tol;
          ++at;
        }
      }
      if (ok) {
        found = o;
      }
    }
    REQUIRE(found < occ.size(), name, " is at no place of cell ", id, " (first node ", q[0][0], ", ", q[0][1], ", ",
            q[0][2], ")");
    taken[found] = true;
    auto const & o = occ[found];
    for (size_t k = 0; k < ids.size(); ++k) {
      auto const e = static_cast<size_t>(ids[k]);
      bind(rtm_of, rtm_to, in_rtm[e], o.rtm_k, o.rtm, "RTM_");
      bind(lat_of, lat_to, in_lat[e], o.lat_k, o.lat, "Lattice_");
      bind(asy_of, asy_to, in_asy[e], o.asy_k, o.asy, "Assembly_");
      REQUIRE(mat[e] == cell.mat[k], name, " element ", e, " has material ", mat[e], ", expected ", cell.mat[k]);
      double const t = r.mats[static_cast<size_t>(cell.mat[k])].meanTotal();
      double const l = mcl[static_cast<size_t>(cell.mesh)][k];
      REQUIRE(std::fabs(xs[e] - t) <= 1e-12 * t, name, " element ", e, " one-group cross section ", xs[e],
              ", expected ", t);
      REQUIRE(std::fabs(chord[e] - l) <= 1e-7 * l, name, " element ", e, " chord length ", chord[e], ", expected ", l);
      REQUIRE(std::fabs(kn[e] * t * l - 1) <= 1e-7, name, " element ", e, " Knudsen number ", kn[e], ", expected ",
              1 / (t * l));
    }
  }
  REQUIRE(named == static_cast<Int>(occ.size()), named, " cell sets, expected ", occ.size());

  // the list of chord lengths
  auto const all = m.getMeanChordLengths();
  REQUIRE(all.size() == faces, "getMeanChordLengths returns ", all.size());
  for (Int e = 0; e < faces; ++e) {
    REQUIRE(std::fabs(all[e] - chord[static_cast<size_t>(e)]) <= 1e-12 * chord[static_cast<size_t>(e)],
            "getMeanChordLengths[", e, "] = ", all[e], ", the expansion has ", chord[static_cast<size_t>(e)]);
  }

  // homogenised cross sections
  for (size_t i = 0; i < r.cells.size(); ++i) {
    auto const & cell = r.cells[i];
    auto const & mesh = r.meshes[static_cast<size_t>(cell.mesh)];
    std::vector<long double> area(r.mats.size(), 0);
    long double total = 0;
    for (size_t k = 0; k < cell.mat.size(); ++k) {
      long double const a = mesh.face(k).area();
      area[static_cast<size_t>(cell.mat[k])] += a;
      total += a;
    }
    auto const got = m.getCoarseCellHomogenizedXSec(static_cast<Int>(i));
    int const ng = r.mats[0].ng;
    REQUIRE(got.numGroups() == ng && got.isMacro(), "homogenised groups of cell ", i);
    auto mean = [&](auto && f) {
      long double sum = 0;
      for (size_t k = 0; k < area.size(); ++k) {
        sum += area[k] * f(r.mats[k]);
      }
      return static_cast<double>(sum / total);
    };
    bool fissile = false;
    for (int g = 0; g < ng; ++g) {
      auto const k = static_cast<size_t>(g);
      auto same = [&](double x, double want, char const * q) {
        REQUIRE(std::fabs(x - want) <= 1e-9 * (std::fabs(want) + 1e-6), "cell ", i, " group ", g, " ", q, " ", x,
                ", expected ", want);
      };
      same(got.a()[g], mean([&](Mat const & x) { return x.a[k]; }), "absorption");
      double const f = mean([&](Mat const & x) { return x.f[k]; });
      fissile = fissile || f > 0;
      same(got.f()[g], f, "fission");
      same(got.nuf()[g], mean([&](Mat const & x) { return x.nuf[k]; }), "production");
      same(got.tr()[g], mean([&](Mat const & x) { return x.tr[k]; }), "transport");
      same(got.s()[g], mean([&](Mat const & x) { return x.s[k]; }), "scattering");
      for (int to = 0; to < ng; ++to) {
        same(got.ss()(to, g), mean([&](Mat const & x) { return x.ss[static_cast<size_t>(to * ng + g)]; }),
             "scattering matrix");
      }
    }
    REQUIRE(got.isFissile() == fissile, "cell ", i, " fissile ", got.isFissile());
  }
  REQUIRE(!errorLogged(), "error: ", um2::logger::buffer);
  c.label(occ.size() >= 20 ? "20 or more cells placed" : "fewer than 20 cells placed");
  c.nontrivial(lim.many ? occ.size() > 100 : r.cells.size() > 1 && occ.size() > r.cells.size());
}

PBT_SUB(expansion, 4000, 100000, "several cells which differ, placed more than once")
{
  expansion(s, c, {});
}

PBT_SUB(many_parts, 60, 1500, "more than a hundred parts at one level")
{
  Limits lim;
  lim.mesh_div = 1;
  lim.many = true;
  expansion(s, c, lim);
}

// Materials keep their numbers; a model that cannot hold another says so.
PBT_SUB(many_materials, 150, 3000, "more than 128 materials")
{
  armLogger();
  Model m;
  int const n = s.irange(100, 300);
  c.desc << n << " materials";
  int held = 0;
  for (int i = 0; i < n; ++i) {
    um2::Material mat;
    mat.setName(um2::String(pbt::cat("M", i).c_str()));
    mat.xsec() = um2::XSec(1);
    mat.xsec().isMacro() = true;
    mat.xsec().a()[0] = 1 + i;
    Int const id = m.addMaterial(mat, s.coin());
    if (errorLogged()) {
      REQUIRE(i >= 100, "material ", i, " refused");
      REQUIRE(id < 0 && m.materials().size() == i, "material ", i, " refused, but there are ", m.materials().size());
      break;
    }
    REQUIRE(id == i, "material ", i, " has number ", id);
    ++held;
  }
  armLogger();
  REQUIRE(m.materials().size() == held, m.materials().size(), " materials, expected ", held);
  for (int k = 0; k < 4; ++k) {
    std::array<int, 2> const want = {k == 0 ? held - 1 : s.irange(0, held - 1), s.irange(0, held - 1)};
    um2::Vector<um2::Material> list;
    for (int const i : want) {
      list.emplace_back(m.materials()[i]);
    }
    Int const id = m.addCylindricalPinCell(1.26, um2::Vector<Float>{0.4}, list, um2::Vector<Int>{1}, 8, s.irange(1, 2));
    REQUIRE(id == k && !errorLogged(), "cell ", k, " of materials ", want[0], " and ", want[1], ": ", um2::logger::buffer);
    auto const & cc = m.getCoarseCell(id);
    REQUIRE(cc.material_ids.size() == 16, cc.material_ids.size(), " faces");
    for (Int f = 0; f < 16; ++f) {
      Int const got = cc.material_ids[f];
      REQUIRE(got == want[f < 8 ? 0 : 1], "face ", f, " has material ", got, ", expected ", want[f < 8 ? 0 : 1]);
    }
  }
  c.nontrivial(n > 128);
}

PBT_SUB(coarse_grid, 3000, 60000, "more than one cell each way")
{
  armLogger();
  double const w = s.real(0.1, 100);
  double const h = s.real(0.1, 100);
  int const most = s.oneIn(20) ? 30 : 8;
  int const nx = s.irange(1, most);
  int const ny = s.irange(1, most);
  c.desc << w << " by " << h << " in " << nx << " by " << ny;
  Model m;
  m.addCoarseGrid(um2::Vec2F(w, h), um2::Vec2I(nx, ny));
  REQUIRE(!errorLogged(), "error: ", um2::logger::buffer);
  Reactor r;
  r.W = w / nx;
  r.H = h / ny;
  Map lat;
  lat.nx = nx;
  lat.ny = ny;
  CellMesh none;
  r.meshes.push_back(none);
  for (int i = 0; i < nx * ny; ++i) {
    Rtm t;
    t.ids = {i};
    t.dx = {r.W};
    t.dy = {r.H};
    r.rtms.push_back(t);
    lat.ids.push_back(i);
    REQUIRE(m.numCoarseCells() == nx * ny, "number of cells ", m.numCoarseCells());
    auto const & cc = m.getCoarseCell(i);
    REQUIRE(std::fabs(cc.xy_extents[0] - r.W) <= 1e-12 * w && std::fabs(cc.xy_extents[1] - r.H) <= 1e-12 * h,
            "cell extents");
  }
  auto near = [&](double a, double b) { return std::fabs(a - b) <= 1e-12 * (w + h); };
  REQUIRE(m.numAssemblies() == 1 && m.numLattices() == 1, "one assembly of one lattice");
  REQUIRE(m.getCore().grid().numCells(0) == 1 && m.getCore().grid().numCells(1) == 1, "core size");
  auto const box = m.getCore().grid();
  REQUIRE(near(box.minima(0), 0) && near(box.minima(1), 0) && near(box.maxima(0), w) && near(box.maxima(1), h),
          "core extents");
  // every cell once; number k is at column k mod nx, row k div nx from the bottom
  auto const & l = m.getLattice(0);
  REQUIRE(l.grid().numCells(0) == nx && l.grid().numCells(1) == ny, "lattice size");
  for (int j = 0; j < ny; ++j) {
    for (int i = 0; i < nx; ++i) {
      auto const & t = m.getRTM(l.getChild(i, j));
      REQUIRE(t.children().size() == 1, "module size");
      REQUIRE(t.getChild(0, 0) == j * nx + i, "cell at ", i, ", ", j, " is ", t.getChild(0, 0));
      auto const b = l.grid().getBox(i, j);
      REQUIRE(near(b.minima(0), i * w / nx) && near(b.maxima(1), (j + 1) * h / ny), "box at ", i, ", ", j);
    }
  }
  c.nontrivial(nx > 1 && ny > 1);
}

PBT_SUB(refused, 5000, 120000, "always")
{
  armLogger();
  Limits lim;
  lim.cells = 12;
  lim.mesh_div = 2;
  Reactor const r = genReactor(s, lim);
  Model m;
  build(r, m);
  auto state = [&] {
    return std::array<Int, 10>{m.numCoarseCells(), m.numRTMs(), m.numLattices(), m.numAssemblies(),
                               m.getCore().children().size(), m.triMeshes().size(), m.quadMeshes().size(),
                               m.tri6Meshes().size(), m.quad8Meshes().size(), m.materials().size()};
  };
  auto const before = state();
  auto const k = s.below(17);
  auto const & cell = r.cells[0];
  auto const kind = r.meshes[static_cast<size_t>(cell.mesh)].kind;
  auto const mesh_id = r.meshes[static_cast<size_t>(cell.mesh)].id;
  um2::Vector<MatID> mats;
  for (int const x : cell.mat) {
    mats.emplace_back(static_cast<MatID>(x));
  }
  um2::Vec2F ext(cell.w, cell.h);
  auto const missing = [&](size_t n) { return s.coin() ? -1 - s.irange(0, 2) : static_cast<int>(n) + s.irange(0, 2); };
  um2::Vector<Int> lats;
  um2::Vector<Float> z;
  for (int const x : r.asys[0].lat) {
    lats.emplace_back(x);
  }
  for (double const x : r.asys[0].z) {
    z.emplace_back(x);
  }
  Int got = 0;
  c.desc << "refused in way " << k << "; " << r.describe();
  switch (k) {
  case 0:
    ext[s.irange(0, 1)] = s.coin() ? 0.0 : -s.mag(-3, 2);
    got = m.addCoarseCell(ext, meshType(kind), mesh_id, mats);
    break;
  case 1:
    got = m.addCoarseCell(ext, meshType(kind), before[static_cast<size_t>(5 + kind)] + s.irange(0, 2), mats);
    break;
  case 2:
    got = m.addCoarseCell(ext, meshType(kind), -2 - s.irange(0, 2), mats);
    break;
  case 3:
    if (s.coin()) {
      mats.pop_back();
    } else {
      mats.emplace_back(static_cast<MatID>(0));
    }
    got = m.addCoarseCell(ext, meshType(kind), mesh_id, mats);
    break;
  case 4:
    mats[s.irange(0, static_cast<int>(mats.size()) - 1)] =
        static_cast<MatID>(s.coin() ? -1 : static_cast<int>(r.mats.size()) + s.irange(0, 3));
    got = m.addCoarseCell(ext, meshType(kind), mesh_id, mats);
    break;
  case 5:
    got = m.addCoarseCell(ext, um2::MeshType::Invalid, mesh_id, mats);
    break;
  case 6: {
    auto rows = r.rtms[0].rows();
    rows[s.irange(0, static_cast<int>(rows.size()) - 1)][s.irange(0, static_cast<int>(rows[0].size()) - 1)] =
        missing(r.cells.size());
    got = m.addRTM(rows);
    break;
  }
  case 7: { // other extents than the modules before
    auto rows = r.rtms[0].rows();
    if (s.coin()) {
      rows.emplace_back(rows[0]);
    } else {
      for (auto & row : rows) {
        row.emplace_back(Int(row[0]));
      }
    }
    got = m.addRTM(rows);
    break;
  }
  case 8: {
    auto rows = r.lats[0].rows();
    rows[s.irange(0, static_cast<int>(rows.size()) - 1)][s.irange(0, static_cast<int>(rows[0].size()) - 1)] =
        missing(r.rtms.size());
    got = m.addLattice(rows);
    break;
  }
  case 9: {
    auto rows = r.lats[0].rows();
    rows.emplace_back(rows[0]);
    rows[s.irange(0, static_cast<int>(rows.size()) - 1)].emplace_back(0);
    got = m.addLattice(rows);
    break;
  }
  case 10:
    lats[s.irange(0, static_cast<int>(lats.size()) - 1)] = missing(r.lats.size());
    got = m.addAssembly(lats, z);
    break;
  case 11:
    if (s.coin()) {
      z.emplace_back(z.back() + 1);
    } else {
      z.pop_back();
    }
    got = m.addAssembly(lats, z);
    break;
  case 12: // planes out of order
    lats.emplace_back(Int(lats[0]));
    lats.emplace_back(Int(lats[0]));
    z = {0, r.height * 0.6, r.height * 0.3, r.height};
    while (lats.size() > 3) {
      lats.pop_back();
    }
    got = m.addAssembly(lats, z);
    break;
  case 13: { // another height
    double const d = s.sign() * s.mag(-5, -1) * r.asys[0].z.back();
    z.back() += d;
    pbt::discardUnless(z.back() > z[z.size() - 2]);
    got = m.addAssembly(lats, z);
    break;
  }
  case 14: // does not start at zero
    pbt::discardUnless(z.front() == 0);
    z.front() = s.sign() * s.mag(-5, 0);
    pbt::discardUnless(z.front() < z[1]);
    got = m.addAssembly(lats, z);
    break;
  case 15: { // lattices of different sizes
    auto rows = r.lats[static_cast<size_t>(lats[0])].rows();
    rows.emplace_back(rows[0]);
    Int const other = m.addLattice(rows);
    REQUIRE(other == before[2], "lattice refused: ", um2::logger::buffer);
    lats = {lats[0], other};
    if (s.coin()) {
      lats = {lats[1], lats[0]};
    }
    z = {r.asys[0].z.front(), (r.asys[0].z.front() + r.asys[0].z.back()) / 2, r.asys[0].z.back()};
    got = m.addAssembly(lats, z);
    REQUIRE(errorLogged() && got == -1, "lattices of different sizes accepted as assembly ", got);
    REQUIRE(m.numAssemblies() == before[3], "refused assembly was added");
    c.nontrivial(true);
    return;
  }
  default: {
    auto rows = r.core.rows();
    if (s.coin()) { // in a model without core
      Model bare;
      Reactor part = r;
      for (auto const & mesh : r.meshes) {
        if (mesh.kind == 1) {
          bare.addQuadMesh(toFVM<1, 4>(mesh));
        }
      }
      bare.addCoarseCell(um2::Vec2F(1, 1));
      bare.addRTM({{0}});
      bare.addLattice({{0}});
      bare.addAssembly({0});
      REQUIRE(!errorLogged(), "small model refused: ", um2::logger::buffer);
      rows = {{0, missing(1)}};
      got = bare.addCore(rows);
      REQUIRE(got == -1 && errorLogged(), "core with missing assembly accepted");
      REQUIRE(bare.getCore().children().empty(), "refused core was added");
      c.nontrivial(true);
      return;
    }
    got = m.addCore(rows);
  }
  }
  REQUIRE(errorLogged(), "no error reported");
  REQUIRE(got == -1, "returned ", got);
  REQUIRE(state() == before, "the model was altered by a refused request");
  expectStructure(m, r, 1e-12, "model after a refused request");
  c.nontrivial(true);
}

} // namespace

auto
main(int argc, char ** argv) -> int
{
  pbt::Options o;
  o.leak_check = true;
  o.assumptions = {"maps are rectangular, cells in one row of a module have one height, in one column one width",
                   "materials have macroscopic cross sections of one group count with positive absorption"};
  return pbt::run("C24", "assembled cores against an independent expansion", o, argc, argv);
}

// C30: pin powers and sources from fields on a mesh.
// Oracle: union-find over shared corners and nodes, exact areas and centroids, and the defining sums.
#include "reactor.hpp"

#include <um2/mpact/powers.hpp>
#include <um2/mpact/source.hpp>

#include <numeric>

namespace
{

using namespace reactor;

struct Patchwork { // faces of one kind, with shared or separate vertices
  int kind = 0;
  std::vector<std::array<double, 2>> v;
  std::vector<std::vector<int>> f;

  [[nodiscard]] auto
  face(size_t i) const -> geo::Region
  {
    CellMesh m;
    m.kind = kind;
    m.v = v;
    m.f = {f[i]};
    return m.face(0);
  }
};

auto
vtk(int kind) -> um2::VTKElemType
{
  return kind == 0   ? um2::VTKElemType::Triangle
         : kind == 1 ? um2::VTKElemType::Quad
         : kind == 2 ? um2::VTKElemType::QuadraticTriangle
                     : um2::VTKElemType::QuadraticQuad;
}

auto
genPatchwork(pbt::Src & s, int max_div) -> Patchwork
{
  Patchwork p;
  p.kind = s.irange(0, 3);
  bool const wide = s.oneIn(4);
  int const nx = s.irange(1, wide ? 6 : 3);
  int const ny = s.irange(1, wide ? 4 : 2);
  double const w = s.mag(-1, 1);
  double const h = s.coin() ? w : s.mag(-1, 1);
  // blocks touch, or keep a gap far above the tolerance for shared points
  double const gap = s.coin() ? 0 : s.real(0.01, 0.5) * std::min(w, h);
  bool const weld = s.coin();
  double const noise = s.oneIn(3) ? 1e-6 : 0; // not watertight
  double const ox = s.oneIn(3) ? s.real(-50, 50) : 0;
  double const oy = s.oneIn(3) ? s.real(-50, 50) : 0;
  std::vector<int> at;
  CellMesh one;
  bool const same = s.coin();
  for (int j = 0; j < ny; ++j) {
    for (int i = 0; i < nx; ++i) {
      if ((i == 0 && j == 0) || !same) {
        one = genCellMesh(s, w, h, p.kind, max_div);
      }
      std::vector<int> id;
      for (auto const & q : one.v) {
        double const x = ox + i * (w + gap) + q[0] + s.real(-noise, noise);
        double const y = oy + j * (h + gap) + q[1] + s.real(-noise, noise);
        int k = -1;
        for (size_t n = 0; weld && gap == 0 && n < p.v.size() && k < 0; ++n) {
          k = std::hypot(p.v[n][0] - x, p.v[n][1] - y) < 1e-9 ? static_cast<int>(n) : -1;
        }
        if (k < 0) {
          k = static_cast<int>(p.v.size());
          p.v.push_back({x, y});
        }
        id.push_back(k);
      }
      for (auto const & f : one.f) {
        std::vector<int> g;
        for (int const k : f) {
          g.push_back(id[static_cast<size_t>(k)]);
        }
        p.f.push_back(g);
      }
    }
  }
  if (!s.oneIn(4)) {
    auto const q = s.perm(static_cast<int>(p.f.size()));
    auto const old = p.f;
    for (size_t i = 0; i < q.size(); ++i) {
      p.f[static_cast<size_t>(q[i])] = old[i];
    }
  }
  return p;
}

void
fill(um2::PolytopeSoup & soup, Patchwork const & p)
{
  for (auto const & q : p.v) {
    soup.addVertex(q[0], q[1]);
  }
  for (auto const & f : p.f) {
    um2::Vector<Int> conn;
    for (int const k : f) {
      conn.emplace_back(k);
    }
    soup.addElement(vtk(p.kind), conn);
  }
}

void
addField(um2::PolytopeSoup & soup, std::string const & name, std::vector<double> const & x)
{
  um2::Vector<Int> ids(static_cast<Int>(x.size()));
  um2::Vector<Float> data(static_cast<Int>(x.size()));
  for (size_t i = 0; i < x.size(); ++i) {
    ids[static_cast<Int>(i)] = static_cast<Int>(i);
    data[static_cast<Int>(i)] = x[i];
  }
  soup.addElset(um2::String(name.c_str()), ids, data);
}

PBT_SUB(powers, 2500, 60000, "at least two powered regions of several faces")
{
  armLogger();
  auto const p = genPatchwork(s, 5);
  size_t const n = p.f.size();
  std::vector<double> power(n, 0);
  int const density = s.irange(1, 6);
  // powers may be tiny, as of a core near shutdown, or large
  double const unit = s.oneIn(4) ? s.mag(-20, 15) : 1;
  for (auto & x : power) {
    x = s.irange(0, 6) < density ? unit * s.mag(-4, 4) : 0;
  }
  if (*std::max_element(power.begin(), power.end()) <= 0) {
    power[s.below(n)] = unit;
  }
  c.desc << n << " faces of kind " << p.kind << ", powers";
  for (double const x : power) {
    c.desc << " " << x;
  }
  // regions
  std::vector<size_t> root(n);
  std::iota(root.begin(), root.end(), 0);
  auto find = [&](size_t i) {
    while (root[i] != i) {
      i = root[i];
    }
    return i;
  };
  for (size_t i = 0; i < n; ++i) {
    for (size_t j = 0; j < i; ++j) {
      if (power[i] <= 0 || power[j] <= 0) {
        continue;
      }
      bool share = false;
      for (int const a : p.f[i]) {
        for (int const b : p.f[j]) {
          auto const & x = p.v[static_cast<size_t>(a)];
          auto const & y = p.v[static_cast<size_t>(b)];
          double const d = std::hypot(x[0] - y[0], x[1] - y[1]);
          pbt::discardUnless(d < 5e-6 || d > 2e-5);
          share = share || d < 5e-6;
        }
      }
      if (share) {
        root[find(i)] = find(j);
      }
    }
  }
  struct Region {
    L power = 0, area = 0, x = 0, y = 0;
    int faces = 0;
  };
  std::map<size_t, Region> regions;
  L total = 0;
  for (size_t i = 0; i < n; ++i) {
    if (power[i] <= 0) {
      continue;
    }
    auto & r = regions[find(i)];
    auto const rg = p.face(i);
    L const a = rg.area();
    auto const q = rg.centroid();
    r.power += a * power[i];
    r.area += a;
    r.x += a * q.x;
    r.y += a * q.y;
    ++r.faces;
    total += a * power[i];
  }
  std::string const file = c.dir() + "/fsr.xdmf";
  {
    um2::PolytopeSoup soup;
    fill(soup, p);
    if (s.coin()) {
      addField(soup, "flux", std::vector<double>(n, 2));
    }
    addField(soup, "power", power);
    soup.write(um2::String(file.c_str()));
  }
  auto const got = um2::mpact::getPowers(um2::String(file.c_str()));
  REQUIRE(!errorLogged(), "error: ", um2::logger::buffer);
  REQUIRE(got.size() == static_cast<Int>(regions.size()), got.size(), " regions, expected ", regions.size());
  L sum = 0;
  std::vector<bool> used(regions.size(), false);
  for (Int k = 0; k < got.size(); ++k) {
    L const pw = got[k].first;
    auto const & at = got[k].second;
    sum += pw;
    size_t best = regions.size();
    size_t idx = 0;
    for (auto const & [id, r] : regions) {
      L const size = 100 + std::fabs(r.x / r.area);
      if (!used[idx] && std::fabs(pw - r.power) <= 1e-9L * r.power && std::fabs(at[0] - r.x / r.area) <= 1e-9L * size &&
          std::fabs(at[1] - r.y / r.area) <= 1e-9L * size) {
        best = idx;
        break;
      }
      ++idx;
    }
    REQUIRE(best < regions.size(), "entry ", k, " of power ", double(pw), " at ", at[0], ", ", at[1],
            " matches no region");
    used[best] = true;
  }
  REQUIRE(std::fabs(sum - total) <= 1e-9L * total, "total power ", double(sum), ", expected ", double(total));
  int big = 0;
  for (auto const & [id, r] : regions) {
    big += r.faces > 1 ? 1 : 0;
  }
  c.label(regions.size() > 4 ? "five or more regions" : "few regions");
  c.nontrivial(big > 1);
}

PBT_SUB(sources, 15000, 300000, "several groups and several materials")
{
  armLogger();
  bool const many = s.oneIn(150);
  auto const p = genPatchwork(s, many ? 1 : 3);
  size_t const n = p.f.size();
  int const ng = many ? s.irange(95, 130) : s.oneIn(4) ? s.irange(9, 13) : s.irange(1, 8);
  int const nm = ng < 4 && s.oneIn(25) ? s.irange(120, 300) : s.irange(1, 5);
  std::vector<Mat> mats;
  um2::Vector<um2::Material> lib;
  for (int i = 0; i < nm; ++i) {
    mats.push_back(genMat(s, "M" + std::to_string(i), ng));
    lib.emplace_back(toMaterial(mats.back()));
  }
  std::vector<double> id(n);
  std::vector<size_t> mat(n);
  for (size_t i = 0; i < n; ++i) {
    mat[i] = s.below(static_cast<size_t>(nm));
    id[i] = static_cast<double>(mat[i] + 1);
  }
  std::vector<std::pair<std::string, std::vector<double>>> fields{{"material", id}};
  std::vector<std::vector<double>> flux;
  for (int g = 0; g < ng; ++g) {
    std::vector<double> phi(n);
    for (auto & x : phi) {
      x = s.oneIn(6) ? 0 : s.mag(-4, 2);
    }
    char name[16];
    std::snprintf(name, sizeof name, "flux_%03d", g + 1);
    fields.emplace_back(name, phi);
    flux.push_back(phi);
  }
  um2::PolytopeSoup soup;
  fill(soup, p);
  for (int const k : s.perm(static_cast<int>(fields.size()))) {
    addField(soup, fields[static_cast<size_t>(k)].first, fields[static_cast<size_t>(k)].second);
  }
  c.desc << n << " faces of kind " << p.kind << ", " << ng << " groups, " << nm << " materials";
  auto const got = um2::mpact::getSource(soup, lib);
  REQUIRE(!errorLogged(), "error: ", um2::logger::buffer);
  REQUIRE(got.size() == static_cast<Int>(n), got.size(), " sources for ", n, " faces");
  for (size_t i = 0; i < n; ++i) {
    L sc = 0;
    L fi = 0;
    for (int g = 0; g < ng; ++g) {
      auto const k = static_cast<size_t>(g);
      sc += L(flux[k][i]) * mats[mat[i]].s[k];
      fi += L(flux[k][i]) * mats[mat[i]].nuf[k];
    }
    auto const & q = got[static_cast<Int>(i)];
    REQUIRE(std::fabs(q[0] - sc) <= 1e-13L * sc, "scattering source of face ", i, " is ", q[0], ", expected ",
            double(sc));
    REQUIRE(std::fabs(q[1] - fi) <= 1e-13L * fi, "fission source of face ", i, " is ", q[1], ", expected ", double(fi));
  }
  c.label(nm > 127 ? "over 127 materials" : "few materials");
  c.nontrivial(ng > 1 && nm > 1);
}

} // namespace

auto
main(int argc, char ** argv) -> int
{
  pbt::Options o;
  o.leak_check = true;
  o.assumptions = {"points are shared when within 5e-6 and distinct when 2e-5 apart",
                   "all faces are of one kind and every face has a value"};
  return pbt::run("C30", "regions, powers and sources against sums over the mesh", o, argc, argv);
}

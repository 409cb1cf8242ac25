// Generated reactor models: an ideal description, its expansion and its conversion to the
// library's model. Parts are created on demand from the core down, so every part is placed.
#pragma once

#include "mesh.hpp"

#include <um2/common/logger.hpp>
#include <um2/mpact/model.hpp>

#include <algorithm>

namespace reactor
{

using geo::L;
using geo::P;
using um2::mpact::Model;

// Node counts of the mesh kinds: triangles, quadrilaterals, and both with curved sides
inline constexpr int NODES[] = {3, 4, 6, 8};

struct CellMesh {
  int kind = 0;
  double w = 1;
  double h = 1;
  std::vector<std::array<double, 2>> v;
  std::vector<std::vector<int>> f;
  int id = -1; // among the meshes of its kind

  [[nodiscard]] auto
  face(size_t i) const -> geo::Region
  {
    std::vector<P> p;
    for (int const k : f[i]) {
      p.push_back({L(v[static_cast<size_t>(k)][0]), L(v[static_cast<size_t>(k)][1])});
    }
    return geo::region(p, kind >= 2);
  }
};

struct Cell {
  double w = 1;
  double h = 1;
  int mesh = 0;
  std::vector<int> mat;
};

struct Map { // ids from the bottom left, row by row
  int nx = 1;
  int ny = 1;
  std::vector<int> ids;

  [[nodiscard]] auto
  at(int i, int j) const -> int
  {
    return ids[static_cast<size_t>(j * nx + i)];
  }
  // as given to the library: rows from top to bottom
  [[nodiscard]] auto
  rows() const -> um2::Vector<um2::Vector<Int>>
  {
    um2::Vector<um2::Vector<Int>> r(ny);
    for (Int j = 0; j < ny; ++j) {
      for (Int i = 0; i < nx; ++i) {
        r[j].emplace_back(at(i, ny - 1 - j));
      }
    }
    return r;
  }
};

struct Rtm : Map {
  std::vector<double> dx;
  std::vector<double> dy;
};

struct Asy {
  int nx = 1; // modules across
  int ny = 1;
  std::vector<int> lat;
  std::vector<double> z;
};

struct Mat {
  std::string name;
  int ng = 1;
  bool fissile = false;
  std::vector<double> a, f, nuf, tr, s;
  std::vector<double> ss; // ss[to * ng + from]

  [[nodiscard]] auto
  meanTotal() const -> double
  {
    long double t = 0;
    for (int g = 0; g < ng; ++g) {
      t += static_cast<long double>(a[static_cast<size_t>(g)]) + s[static_cast<size_t>(g)];
    }
    return static_cast<double>(t / ng);
  }
};

struct Occurrence {
  int cell, rtm, lat, asy;
  int rtm_k, lat_k, asy_k; // instance of each ancestor
  double x, y, z, dz;
};

struct Reactor {
  double W = 1; // module extents
  double H = 1;
  double height = 1;
  std::vector<Mat> mats;
  std::vector<CellMesh> meshes;
  std::vector<Cell> cells;
  std::vector<Rtm> rtms;
  std::vector<Map> lats;
  std::vector<Asy> asys;
  Map core;

  [[nodiscard]] auto
  expand() const -> std::vector<Occurrence>
  {
    std::vector<Occurrence> out;
    int ka = 0;
    int kl = 0;
    int kr = 0;
    double y_asy = 0;
    for (int j = 0; j < core.ny; ++j) {
      double x_asy = 0;
      for (int i = 0; i < core.nx; ++i) {
        int const ia = core.at(i, j);
        auto const & a = asys[static_cast<size_t>(ia)];
        for (size_t k = 0; k < a.lat.size(); ++k) {
          auto const & l = lats[static_cast<size_t>(a.lat[k])];
          for (int jr = 0; jr < l.ny; ++jr) {
            for (int ir = 0; ir < l.nx; ++ir) {
              auto const & r = rtms[static_cast<size_t>(l.at(ir, jr))];
              double y = y_asy + jr * H;
              for (int jc = 0; jc < r.ny; ++jc) {
                double x = x_asy + ir * W;
                for (int ic = 0; ic < r.nx; ++ic) {
                  out.push_back({r.at(ic, jc), l.at(ir, jr), a.lat[k], ia, kr, kl, ka, x, y,
                                 (a.z[k] + a.z[k + 1]) / 2, a.z[k + 1] - a.z[k]});
                  x += r.dx[static_cast<size_t>(ic)];
                }
                y += r.dy[static_cast<size_t>(jc)];
              }
              ++kr;
            }
          }
          ++kl;
        }
        ++ka;
        x_asy += a.nx * W;
      }
      y_asy += asys[static_cast<size_t>(core.at(0, j))].ny * H;
    }
    return out;
  }

  [[nodiscard]] auto
  describe() const -> std::string
  {
    std::ostringstream o;
    auto map = [&](Map const & m) {
      for (int j = m.ny - 1; j >= 0; --j) {
        for (int i = 0; i < m.nx; ++i) {
          o << " " << m.at(i, j);
        }
        o << (j > 0 ? " /" : "");
      }
    };
    o << "modules " << W << " by " << H << ", materials";
    for (auto const & m : mats) {
      o << " " << m.name;
    }
    o << "; core";
    map(core);
    for (size_t i = 0; i < asys.size(); ++i) {
      o << "; assembly " << i << ":";
      for (size_t k = 0; k < asys[i].lat.size(); ++k) {
        o << " " << asys[i].z[k] << " [" << asys[i].lat[k] << "]";
      }
      o << " " << asys[i].z.back();
    }
    for (size_t i = 0; i < lats.size(); ++i) {
      o << "; lattice " << i << ":";
      map(lats[i]);
    }
    for (size_t i = 0; i < rtms.size(); ++i) {
      o << "; module " << i << ":";
      map(rtms[i]);
    }
    for (size_t i = 0; i < cells.size(); ++i) {
      auto const & c = cells[i];
      o << "; cell " << i << ": " << c.w << " by " << c.h << " mesh " << c.mesh << " of kind "
        << meshes[static_cast<size_t>(c.mesh)].kind << " materials";
      for (int const m : c.mat) {
        o << " " << m;
      }
    }
    return o.str();
  }
};

// A rectangle [0, w] x [0, h] divided into faces of one kind
inline auto
genCellMesh(pbt::Src & s, double w, double h, int kind, int max_div) -> CellMesh
{
  CellMesh m;
  m.kind = kind;
  m.w = w;
  m.h = h;
  bool const tri = kind % 2 == 0;
  bool const quadratic = kind >= 2;
  int const nc = tri ? 3 : 4;
  int const nx = s.irange(1, max_div);
  int const ny = s.irange(1, max_div);
  bool const perturb = s.coin();
  auto id = [&](int i, int j) { return j * (nx + 1) + i; };
  for (int j = 0; j <= ny; ++j) {
    for (int i = 0; i <= nx; ++i) {
      double x = i;
      double y = j;
      if (perturb) {
        x += i > 0 && i < nx ? s.real(-0.18, 0.18) : 0;
        y += j > 0 && j < ny ? s.real(-0.18, 0.18) : 0;
      }
      m.v.push_back({i == nx ? w : x * w / nx, j == ny ? h : y * h / ny});
    }
  }
  for (int j = 0; j < ny; ++j) {
    for (int i = 0; i < nx; ++i) {
      int const a = id(i, j);
      int const b = id(i + 1, j);
      int const d = id(i + 1, j + 1);
      int const e = id(i, j + 1);
      if (!tri) {
        m.f.push_back({a, b, d, e});
      } else if (s.coin()) {
        m.f.push_back({a, b, d});
        m.f.push_back({d, e, a});
      } else {
        m.f.push_back({b, d, e});
        m.f.push_back({e, a, b});
      }
    }
  }
  if (quadratic) {
    std::map<std::pair<int, int>, int> uses;
    for (auto const & f : m.f) {
      for (int k = 0; k < nc; ++k) {
        int const a = f[static_cast<size_t>(k)];
        int const b = f[static_cast<size_t>((k + 1) % nc)];
        ++uses[{std::min(a, b), std::max(a, b)}];
      }
    }
    std::map<std::pair<int, int>, int> mid;
    double const bend = s.oneIn(3) ? 0 : 0.07 * std::min(w / nx, h / ny);
    for (auto const & [e, n] : uses) {
      auto const a = m.v[static_cast<size_t>(e.first)];
      auto const b = m.v[static_cast<size_t>(e.second)];
      double const t = n == 2 ? s.real(-bend, bend) / std::hypot(b[0] - a[0], b[1] - a[1]) : 0;
      mid[e] = static_cast<int>(m.v.size());
      m.v.push_back({(a[0] + b[0]) / 2 - t * (b[1] - a[1]), (a[1] + b[1]) / 2 + t * (b[0] - a[0])});
    }
    for (auto & f : m.f) {
      for (int k = 0; k < nc; ++k) {
        int const a = f[static_cast<size_t>(k)];
        int const b = f[static_cast<size_t>((k + 1) % nc)];
        f.push_back(mid[{std::min(a, b), std::max(a, b)}]);
      }
    }
    // No corner may close up: bends are reduced until every corner stays open with bends a third larger
    auto open = [&] {
      auto const n = static_cast<size_t>(nc);
      for (auto const & f : m.f) {
        for (size_t k = 0; k < n; ++k) {
          auto dir = [&](size_t to, size_t edge) {
            auto const & a = m.v[static_cast<size_t>(f[k])];
            auto const & b = m.v[static_cast<size_t>(f[to])];
            auto const & c = m.v[static_cast<size_t>(f[n + edge])];
            std::array<double, 2> d{};
            for (size_t i = 0; i < 2; ++i) {
              double const bent = (a[i] + b[i]) / 2 + 4.0 / 3 * (c[i] - (a[i] + b[i]) / 2);
              d[i] = 4 * bent - 3 * a[i] - b[i];
            }
            return d;
          };
          auto const u = dir((k + 1) % n, k);
          auto const v = dir((k + n - 1) % n, (k + n - 1) % n);
          if (u[0] * v[1] - u[1] * v[0] < 0.1 * std::hypot(u[0], u[1]) * std::hypot(v[0], v[1])) {
            return false;
          }
        }
      }
      return true;
    };
    for (int tries = 0; tries < 6 && !open(); ++tries) {
      for (auto const & [e, k] : mid) {
        for (size_t i = 0; i < 2; ++i) {
          double const chord = (m.v[static_cast<size_t>(e.first)][i] + m.v[static_cast<size_t>(e.second)][i]) / 2;
          double & x = m.v[static_cast<size_t>(k)][i];
          x = tries == 5 ? chord : (x + chord) / 2;
        }
      }
    }
  }
  if (s.coin()) { // renumber
    auto const p = s.perm(static_cast<int>(m.v.size()));
    auto const old = m.v;
    for (size_t i = 0; i < p.size(); ++i) {
      m.v[static_cast<size_t>(p[i])] = old[i];
    }
    for (auto & f : m.f) {
      for (auto & k : f) {
        k = p[static_cast<size_t>(k)];
      }
    }
    auto const q = s.perm(static_cast<int>(m.f.size()));
    auto const fold = m.f;
    for (size_t i = 0; i < q.size(); ++i) {
      m.f[static_cast<size_t>(q[i])] = fold[i];
    }
  }
  return m;
}

inline auto
genMat(pbt::Src & s, std::string const & name, int ng) -> Mat
{
  Mat m;
  m.name = name;
  m.ng = ng;
  m.fissile = s.coin();
  auto const n = static_cast<size_t>(ng);
  m.ss.assign(n * n, 0);
  for (size_t g = 0; g < n; ++g) {
    m.a.push_back(s.mag(-3, 1));
    double const f = m.fissile && !s.oneIn(4) ? s.mag(-3, 0) : 0;
    m.f.push_back(f);
    m.nuf.push_back(f * s.real(2, 3));
    m.tr.push_back(s.mag(-2, 1));
    double sum = 0;
    for (size_t to = 0; to < n; ++to) {
      double const x = s.oneIn(3) ? 0 : s.mag(-4, 0);
      m.ss[to * n + g] = x;
      sum += x;
    }
    m.s.push_back(sum);
  }
  m.fissile = false;
  for (double const f : m.f) {
    m.fissile = m.fissile || f > 0;
  }
  return m;
}

struct Limits {
  int mesh_div = 3;
  int cells = 60; // bounds the expansion
  bool plane = false; // one slab about z = 0
  bool many = false;  // more than a hundred parts at one level
};

inline auto
genDivision(pbt::Src & s, double w) -> std::vector<double>
{
  int const n = s.irange(1, 3);
  if (n == 1) {
    return {w};
  }
  std::vector<double> d;
  if (s.coin()) {
    d.assign(static_cast<size_t>(n), w / n);
    return d;
  }
  double sum = 0;
  for (int i = 0; i < n; ++i) {
    d.push_back(s.real(0.2, 1));
    sum += d.back();
  }
  double at = 0;
  for (int i = 0; i + 1 < n; ++i) {
    d[static_cast<size_t>(i)] *= w / sum;
    at += d[static_cast<size_t>(i)];
  }
  d.back() = w - at;
  return d;
}

inline auto
genReactor(pbt::Src & s, Limits const & lim = {}) -> Reactor
{
  Reactor r;
  static char const * const names[] = {"UO2", "MOX_4.3", "Water", "Clad", "Guide_Tube", "B4C"};
  int const nmat = s.irange(1, 6);
  int const ng = s.oneIn(3) ? 7 : s.irange(1, 3);
  auto const order = s.perm(6);
  for (int i = 0; i < nmat; ++i) {
    r.mats.push_back(genMat(s, names[order[static_cast<size_t>(i)]], ng));
  }
  r.W = s.oneIn(3) ? 1.26 : s.real(0.3, 12);
  r.H = s.oneIn(3) ? r.W : s.real(0.3, 12);
  r.height = s.oneIn(3) ? 1 : s.real(0.5, 400);
  bool const two_d = lim.plane || s.oneIn(3); // the special case of a unit slab
  std::vector<std::vector<double>> px;
  std::vector<std::vector<double>> py;
  for (int i = 0, n = s.irange(1, 3); i < n; ++i) {
    px.push_back(genDivision(s, r.W));
    py.push_back(genDivision(s, r.H));
  }
  int budget = lim.cells;
  auto dims = [&](int hi) {
    int const cap = std::max(1, std::min(hi, static_cast<int>(std::sqrt(static_cast<double>(budget)))));
    return s.irange(1, cap);
  };
  // whether to take an existing part among n
  auto reuse = [&](size_t n) { return n > 0 && (lim.many ? s.oneIn(20) : n >= 8 || s.below(3) != 0); };
  int const level = lim.many ? s.irange(0, 2) : -1; // cells and modules, lattices, assemblies

  std::vector<int> kinds;
  auto newCell = [&](double w, double h) -> int {
    std::vector<int> fit;
    for (size_t i = 0; i < r.cells.size(); ++i) {
      if (r.cells[i].w == w && r.cells[i].h == h) {
        fit.push_back(static_cast<int>(i));
      }
    }
    if (!fit.empty() && (lim.many ? s.oneIn(20) : r.cells.size() >= 14 || s.coin())) {
      return s.pick(fit);
    }
    Cell c;
    c.w = w;
    c.h = h;
    fit.clear();
    for (size_t i = 0; i < r.meshes.size(); ++i) {
      if (r.meshes[i].w == w && r.meshes[i].h == h) {
        fit.push_back(static_cast<int>(i));
      }
    }
    if (!fit.empty() && (lim.many ? !s.oneIn(20) : s.coin())) {
      c.mesh = s.pick(fit);
    } else {
      c.mesh = static_cast<int>(r.meshes.size());
      r.meshes.push_back(genCellMesh(s, w, h, s.irange(0, 3), lim.mesh_div));
    }
    bool const single = s.oneIn(4);
    int const one = s.irange(0, nmat - 1);
    for (size_t i = 0; i < r.meshes[static_cast<size_t>(c.mesh)].f.size(); ++i) {
      c.mat.push_back(single ? one : s.irange(0, nmat - 1));
    }
    r.cells.push_back(c);
    return static_cast<int>(r.cells.size()) - 1;
  };
  auto newRtm = [&]() -> int {
    if (reuse(r.rtms.size())) {
      return static_cast<int>(s.below(r.rtms.size()));
    }
    Rtm m;
    m.dx = s.pick(px);
    m.dy = s.pick(py);
    m.nx = static_cast<int>(m.dx.size());
    m.ny = static_cast<int>(m.dy.size());
    for (double const h : m.dy) {
      for (double const w : m.dx) {
        m.ids.push_back(newCell(w, h));
      }
    }
    r.rtms.push_back(m);
    return static_cast<int>(r.rtms.size()) - 1;
  };
  auto newLat = [&](int nx, int ny) -> int {
    std::vector<int> fit;
    for (size_t i = 0; i < r.lats.size(); ++i) {
      if (r.lats[i].nx == nx && r.lats[i].ny == ny) {
        fit.push_back(static_cast<int>(i));
      }
    }
    if (reuse(fit.size())) {
      return s.pick(fit);
    }
    Map m;
    m.nx = nx;
    m.ny = ny;
    for (int i = 0; i < nx * ny; ++i) {
      m.ids.push_back(newRtm());
    }
    r.lats.push_back(m);
    return static_cast<int>(r.lats.size()) - 1;
  };
  auto newAsy = [&](int nx, int ny, int nz) -> int {
    std::vector<int> fit;
    for (size_t i = 0; i < r.asys.size(); ++i) {
      if (r.asys[i].nx == nx && r.asys[i].ny == ny) {
        fit.push_back(static_cast<int>(i));
      }
    }
    if (reuse(fit.size())) {
      return s.pick(fit);
    }
    Asy a;
    a.nx = nx;
    a.ny = ny;
    int const n = level == 1 ? nz : s.irange(1, nz);
    for (int i = 0; i < n; ++i) {
      a.lat.push_back(newLat(nx, ny));
    }
    a.z.push_back(two_d ? -0.5 : 0);
    double const total = two_d ? 1 : r.height;
    bool const even = s.oneIn(3);
    for (int i = 1; i < n; ++i) {
      double const share = even ? 1.0 * i / n : (i + s.real(-0.4, 0.4)) / n;
      a.z.push_back(a.z[0] + total * share);
    }
    a.z.push_back(two_d ? 0.5 : r.height);
    r.asys.push_back(a);
    return static_cast<int>(r.asys.size()) - 1;
  };
  r.core.nx = level == 2 ? s.irange(9, 13) : level >= 0 ? 1 : dims(3);
  r.core.ny = level == 2 ? 125 / r.core.nx : level >= 0 ? 1 : dims(3);
  budget /= r.core.nx * r.core.ny;
  int const nz = level == 1  ? s.irange(115, 130)
                 : level >= 0 ? 1
                 : lim.plane  ? 1
                              : s.irange(1, std::max(1, std::min(4, budget / 2)));
  budget /= nz;
  std::vector<int> cx;
  std::vector<int> cy;
  for (int i = 0; i < r.core.nx; ++i) {
    cx.push_back(level == 0 ? s.irange(9, 13) : level > 0 ? 1 : dims(3));
  }
  for (int j = 0; j < r.core.ny; ++j) {
    cy.push_back(level == 0 ? 125 / cx[0] : level > 0 ? 1 : dims(3));
  }
  for (int j = 0; j < r.core.ny; ++j) {
    for (int i = 0; i < r.core.nx; ++i) {
      r.core.ids.push_back(newAsy(cx[static_cast<size_t>(i)], cy[static_cast<size_t>(j)], nz));
    }
  }
  // number the parts in any order
  auto shuffle = [&](auto & parts, auto && refs) {
    if (parts.size() < 2 || s.oneIn(3)) {
      return;
    }
    auto const p = s.perm(static_cast<int>(parts.size()));
    auto const old = parts;
    for (size_t i = 0; i < p.size(); ++i) {
      parts[static_cast<size_t>(p[i])] = old[i];
    }
    refs([&](int & x) { x = p[static_cast<size_t>(x)]; });
  };
  shuffle(r.asys, [&](auto && f) {
    for (auto & x : r.core.ids) {
      f(x);
    }
  });
  shuffle(r.lats, [&](auto && f) {
    for (auto & a : r.asys) {
      for (auto & x : a.lat) {
        f(x);
      }
    }
  });
  shuffle(r.rtms, [&](auto && f) {
    for (auto & l : r.lats) {
      for (auto & x : l.ids) {
        f(x);
      }
    }
  });
  shuffle(r.cells, [&](auto && f) {
    for (auto & m : r.rtms) {
      for (auto & x : m.ids) {
        f(x);
      }
    }
  });
  int count[4] = {0, 0, 0, 0};
  for (auto & m : r.meshes) {
    m.id = count[m.kind]++;
  }
  return r;
}

inline void
armLogger()
{
  um2::settings::logger::level = 1;
  um2::settings::logger::exit_on_error = false;
  um2::logger::buffer[0] = '\0';
}

inline auto
errorLogged() -> bool
{
  return um2::logger::buffer[0] != '\0';
}

template <int PO, int N>
auto
toFVM(CellMesh const & m) -> um2::FaceVertexMesh<PO, N>
{
  um2::FaceVertexMesh<PO, N> out;
  for (auto const & p : m.v) {
    out.addVertex(um2::Point2F(p[0], p[1]));
  }
  for (auto const & f : m.f) {
    typename um2::FaceVertexMesh<PO, N>::FaceConn conn;
    for (Int j = 0; j < N; ++j) {
      conn[j] = f[static_cast<size_t>(j)];
    }
    out.addFace(conn);
  }
  return out;
}

inline auto
meshType(int kind) -> um2::MeshType
{
  return kind == 0   ? um2::MeshType::Tri
         : kind == 1 ? um2::MeshType::Quad
         : kind == 2 ? um2::MeshType::QuadraticTri
                     : um2::MeshType::QuadraticQuad;
}

inline auto
toMaterial(Mat const & m) -> um2::Material
{
  um2::Material out;
  out.setName(um2::String(m.name.c_str()));
  um2::XSec xs(m.ng);
  xs.isMacro() = true;
  xs.isFissile() = m.fissile;
  for (Int g = 0; g < m.ng; ++g) {
    auto const k = static_cast<size_t>(g);
    xs.a()[g] = m.a[k];
    xs.f()[g] = m.f[k];
    xs.nuf()[g] = m.nuf[k];
    xs.tr()[g] = m.tr[k];
    xs.s()[g] = m.s[k];
    for (Int to = 0; to < m.ng; ++to) {
      xs.ss()(to, g) = m.ss[static_cast<size_t>(to * m.ng + g)];
    }
  }
  out.xsec() = xs;
  return out;
}

inline void
build(Reactor const & r, Model & m)
{
  for (size_t i = 0; i < r.mats.size(); ++i) {
    Int const id = m.addMaterial(toMaterial(r.mats[i]), false);
    REQUIRE(id == static_cast<Int>(i), "material id ", id);
  }
  for (auto const & mesh : r.meshes) {
    Int id = -1;
    switch (mesh.kind) {
    case 0:
      id = m.addTriMesh(toFVM<1, 3>(mesh));
      break;
    case 1:
      id = m.addQuadMesh(toFVM<1, 4>(mesh));
      break;
    case 2:
      id = m.addTri6Mesh(toFVM<2, 6>(mesh));
      break;
    default:
      id = m.addQuad8Mesh(toFVM<2, 8>(mesh));
    }
    REQUIRE(id == mesh.id, "mesh id ", id, ", expected ", mesh.id);
  }
  for (size_t i = 0; i < r.cells.size(); ++i) {
    auto const & c = r.cells[i];
    auto const & mesh = r.meshes[static_cast<size_t>(c.mesh)];
    um2::Vector<MatID> mats;
    for (int const k : c.mat) {
      mats.emplace_back(static_cast<MatID>(k));
    }
    Int const id = m.addCoarseCell(um2::Vec2F(c.w, c.h), meshType(mesh.kind), mesh.id, mats);
    REQUIRE(id == static_cast<Int>(i), "cell id ", id, ": ", um2::logger::buffer);
  }
  for (size_t i = 0; i < r.rtms.size(); ++i) {
    Int const id = m.addRTM(r.rtms[i].rows());
    REQUIRE(id == static_cast<Int>(i), "module id ", id, ": ", um2::logger::buffer);
  }
  for (size_t i = 0; i < r.lats.size(); ++i) {
    Int const id = m.addLattice(r.lats[i].rows());
    REQUIRE(id == static_cast<Int>(i), "lattice id ", id, ": ", um2::logger::buffer);
  }
  for (size_t i = 0; i < r.asys.size(); ++i) {
    um2::Vector<Int> lat;
    um2::Vector<Float> z;
    for (int const k : r.asys[i].lat) {
      lat.emplace_back(k);
    }
    for (double const x : r.asys[i].z) {
      z.emplace_back(x);
    }
    Int const id = m.addAssembly(lat, z);
    REQUIRE(id == static_cast<Int>(i), "assembly id ", id, ": ", um2::logger::buffer);
  }
  Int const id = m.addCore(r.core.rows());
  REQUIRE(id == 0, "core: ", um2::logger::buffer);
  REQUIRE(!errorLogged(), "error while building: ", um2::logger::buffer);
}

// The structure held by a model equals the ideal one
inline void
expectStructure(Model const & m, Reactor const & r, double tol, char const * what)
{
  auto near = [&](double a, double b) { return std::fabs(a - b) <= tol * (1 + std::fabs(b)); };
  REQUIRE(m.numCoarseCells() == static_cast<Int>(r.cells.size()), what, ": number of cells ", m.numCoarseCells());
  REQUIRE(m.numRTMs() == static_cast<Int>(r.rtms.size()), what, ": number of modules ", m.numRTMs());
  REQUIRE(m.numLattices() == static_cast<Int>(r.lats.size()), what, ": number of lattices ", m.numLattices());
  REQUIRE(m.numAssemblies() == static_cast<Int>(r.asys.size()), what, ": number of assemblies ", m.numAssemblies());
  for (size_t i = 0; i < r.cells.size(); ++i) {
    auto const & c = m.getCoarseCell(static_cast<Int>(i));
    REQUIRE(near(c.xy_extents[0], r.cells[i].w) && near(c.xy_extents[1], r.cells[i].h), what, ": cell ", i,
            " is ", c.xy_extents[0], " by ", c.xy_extents[1]);
    REQUIRE(c.numFaces() == static_cast<Int>(r.cells[i].mat.size()), what, ": cell ", i, " has ", c.numFaces(),
            " materials");
    REQUIRE((c.mesh_type == meshType(r.meshes[static_cast<size_t>(r.cells[i].mesh)].kind)), what, ": cell ", i,
            " mesh type");
  }
  auto map = [&](auto const & part, Map const & want, char const * level, size_t k) {
    REQUIRE(part.grid().numCells(0) == want.nx && part.grid().numCells(1) == want.ny, what, ": ", level, " ", k,
            " is ", part.grid().numCells(0), " by ", part.grid().numCells(1));
    for (int j = 0; j < want.ny; ++j) {
      for (int i = 0; i < want.nx; ++i) {
        REQUIRE(part.getChild(i, j) == want.at(i, j), what, ": ", level, " ", k, " child ", i, ", ", j, " is ",
                part.getChild(i, j), ", expected ", want.at(i, j));
      }
    }
  };
  auto divs = [&](auto const & d, std::vector<double> const & step, char const * level, size_t k) {
    double at = 0;
    REQUIRE(d.size() == static_cast<Int>(step.size()) + 1, what, ": ", level, " ", k, " divisions");
    for (Int i = 0; i < d.size(); ++i) {
      REQUIRE(near(d[i], at), what, ": ", level, " ", k, " division ", i, " at ", d[i], ", expected ", at);
      at += i + 1 < d.size() ? step[static_cast<size_t>(i)] : 0;
    }
  };
  for (size_t k = 0; k < r.rtms.size(); ++k) {
    auto const & p = m.getRTM(static_cast<Int>(k));
    map(p, r.rtms[k], "module", k);
    divs(p.grid().divs(0), r.rtms[k].dx, "module x", k);
    divs(p.grid().divs(1), r.rtms[k].dy, "module y", k);
  }
  for (size_t k = 0; k < r.lats.size(); ++k) {
    auto const & p = m.getLattice(static_cast<Int>(k));
    map(p, r.lats[k], "lattice", k);
    REQUIRE(near(p.grid().minima(0), 0) && near(p.grid().minima(1), 0) && near(p.grid().spacing(0), r.W) &&
                near(p.grid().spacing(1), r.H),
            what, ": lattice ", k, " spacing");
  }
  for (size_t k = 0; k < r.asys.size(); ++k) {
    auto const & p = m.getAssembly(static_cast<Int>(k));
    REQUIRE(p.children().size() == static_cast<Int>(r.asys[k].lat.size()) &&
                p.grid().divs(0).size() == static_cast<Int>(r.asys[k].z.size()),
            what, ": assembly ", k, " has ", p.children().size(), " lattices");
    for (size_t i = 0; i < r.asys[k].lat.size(); ++i) {
      REQUIRE(p.getChild(static_cast<Int>(i)) == r.asys[k].lat[i], what, ": assembly ", k, " child ", i, " is ",
              p.getChild(static_cast<Int>(i)));
    }
    for (size_t i = 0; i < r.asys[k].z.size(); ++i) {
      REQUIRE(near(p.grid().divs(0)[static_cast<Int>(i)], r.asys[k].z[i]), what, ": assembly ", k, " plane ", i,
              " at ", p.grid().divs(0)[static_cast<Int>(i)], ", expected ", r.asys[k].z[i]);
    }
  }
  map(m.getCore(), r.core, "core", 0);
  std::vector<double> dx;
  std::vector<double> dy;
  for (int i = 0; i < r.core.nx; ++i) {
    dx.push_back(r.asys[static_cast<size_t>(r.core.at(i, 0))].nx * r.W);
  }
  for (int j = 0; j < r.core.ny; ++j) {
    dy.push_back(r.asys[static_cast<size_t>(r.core.at(0, j))].ny * r.H);
  }
  divs(m.getCore().grid().divs(0), dx, "core x", 0);
  divs(m.getCore().grid().divs(1), dy, "core y", 0);
}

} // namespace reactor

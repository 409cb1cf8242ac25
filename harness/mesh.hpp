// Conforming meshes of one face type for the mesh checks.
#pragma once

#include "face.hpp"

#include <um2/common/settings.hpp>
#include <um2/mesh/face_vertex_mesh.hpp>
#include <um2/mesh/polytope_soup.hpp>

#include <map>

namespace geo
{

template <int PO, int N>
struct Mesh {
  using F = um2::Polygon<PO, N, 2, double>;
  static constexpr int NN = N;
  std::vector<um2::Point2<double>> v;
  std::vector<std::array<int, N>> f; // counter-clockwise
  bool convex = true;
  L size = 1; // extent of the domain

  [[nodiscard]] auto
  face(size_t i) const -> F
  {
    F g;
    for (int j = 0; j < N; ++j) {
      g[j] = v[static_cast<size_t>(f[i][static_cast<size_t>(j)])];
    }
    return g;
  }
};

struct MeshOptions {
  bool curved_boundary = false;
  int max_cells = 5; // per direction
};

// A mapped grid: perturbed, sheared, split into triangles, with curved edges, shuffled.
template <int PO, int N>
auto
genMesh(pbt::Src & s, pbt::Case & c, MeshOptions const & opt = {}) -> Mesh<PO, N>
{
  Mesh<PO, N> m;
  constexpr bool tri = N == 3 || N == 6;
  constexpr bool quadratic = PO == 2;
  auto const most = static_cast<uint64_t>(s.oneIn(250) ? 4 * opt.max_cells : opt.max_cells);
  int const nx = 1 + static_cast<int>(s.below(most));
  int const ny = 1 + static_cast<int>(s.below(most));
  Frame const fr = genFrame(s);
  bool const perturb = !s.oneIn(4);
  double const shear = s.oneIn(3) ? 0.0 : s.real(-0.4, 0.4);
  double const aspect = s.oneIn(3) ? 1.0 : s.real(0.5, 2);
  std::vector<P> base;
  for (int j = 0; j <= ny; ++j) {
    for (int i = 0; i <= nx; ++i) {
      L x = i;
      L y = j;
      if (perturb) {
        if (i > 0 && i < nx) {
          x += L(s.real(-0.18, 0.18));
        }
        if (j > 0 && j < ny) {
          y += L(s.real(-0.18, 0.18));
        }
      }
      y *= L(aspect);
      base.push_back({x + L(shear) * y, y});
    }
  }
  m.size = L(fr.scale) * (nx + ny * L(aspect));
  auto id = [&](int i, int j) { return j * (nx + 1) + i; };
  std::vector<std::vector<int>> cells;
  for (int j = 0; j < ny; ++j) {
    for (int i = 0; i < nx; ++i) {
      int const a = id(i, j);
      int const b = id(i + 1, j);
      int const d = id(i + 1, j + 1);
      int const e = id(i, j + 1);
      if (!tri) {
        cells.push_back({a, b, d, e});
      } else if (s.coin()) {
        cells.push_back({a, b, d});
        cells.push_back({d, e, a});
      } else {
        cells.push_back({b, d, e});
        cells.push_back({e, a, b});
      }
    }
  }
  constexpr int nc = tri ? 3 : 4;
  // middle nodes: one per edge
  std::map<std::pair<int, int>, int> uses;
  for (auto const & cell : cells) {
    for (int k = 0; k < nc; ++k) {
      int const a = cell[static_cast<size_t>(k)];
      int const b = cell[static_cast<size_t>((k + 1) % nc)];
      ++uses[{std::min(a, b), std::max(a, b)}];
    }
  }
  struct Mid {
    double t, h;
  };
  std::map<std::pair<int, int>, Mid> mids;
  bool curved = false;
  if (quadratic) {
    for (auto const & [e, n] : uses) {
      Mid mid{0.5, 0};
      if (s.oneIn(3)) {
        mid.t = s.real(0.4, 0.6);
      }
      if ((n == 2 || opt.curved_boundary) && !s.oneIn(3)) {
        mid.h = s.sign() * (s.oneIn(5) ? s.mag(-9, -2) : s.real(0.01, 0.2));
        curved = true;
        if (n == 1) {
          m.convex = false;
        }
      }
      mids[e] = mid;
    }
    c.label(curved ? "curved faces" : "straight faces");
  }
  double shrink = 1;
  for (int attempt = 0;; ++attempt) {
    m.v.clear();
    m.f.clear();
    for (auto const & p : base) {
      m.v.push_back(narrow<double>(fr.map(p)));
    }
    std::map<std::pair<int, int>, int> mid_id;
    for (auto const & [e, mid] : mids) {
      P const a = base[static_cast<size_t>(e.first)];
      P const b = base[static_cast<size_t>(e.second)];
      P const d = b - a;
      P const p = a + L(0.5 + (mid.t - 0.5) * shrink) * d + L(mid.h * shrink) * P{-d.y, d.x};
      mid_id[e] = static_cast<int>(m.v.size());
      m.v.push_back(narrow<double>(fr.map(p)));
    }
    bool ok = true;
    for (auto const & cell : cells) {
      std::array<int, N> f{};
      for (int k = 0; k < nc; ++k) {
        int const a = cell[static_cast<size_t>(k)];
        int const b = cell[static_cast<size_t>((k + 1) % nc)];
        f[static_cast<size_t>(k)] = a;
        if (quadratic) {
          f[static_cast<size_t>((nc + k) % N)] = mid_id[{std::min(a, b), std::max(a, b)}];
        }
      }
      m.f.push_back(f);
      ok = ok && validFace(m.face(m.f.size() - 1));
    }
    if (ok) {
      break;
    }
    pbt::discardUnless(attempt < 10 && quadratic);
    shrink *= 0.6;
  }
  // renumber vertices, faces and starting corners
  if (!s.oneIn(4)) {
    auto const p = s.perm(static_cast<int>(m.v.size()));
    auto const old = m.v;
    for (size_t i = 0; i < p.size(); ++i) {
      m.v[static_cast<size_t>(p[i])] = old[i];
    }
    for (auto & f : m.f) {
      for (auto & x : f) {
        x = static_cast<int>(p[static_cast<size_t>(x)]);
      }
    }
    auto const q = s.perm(static_cast<int>(m.f.size()));
    auto const fold = m.f;
    for (size_t i = 0; i < q.size(); ++i) {
      m.f[static_cast<size_t>(q[i])] = fold[i];
    }
    for (auto & f : m.f) {
      auto const k = static_cast<int>(s.below(static_cast<uint64_t>(nc)));
      auto const g = f;
      for (int i = 0; i < N; ++i) {
        f[static_cast<size_t>(i)] =
            g[static_cast<size_t>(i < nc ? (i + k) % nc : nc + (i - nc + k) % nc)];
      }
    }
  }
  c.desc << nx << "x" << ny << " cells of " << N << " nodes, scale " << fr.scale << " angle "
         << fr.angle << " origin " << str(fr.origin) << (perturb ? " perturbed" : "") << " shear "
         << shear << " aspect " << aspect << " shrink " << shrink;
  return m;
}

// Reverse a face's winding in place
template <size_t N>
auto
reversed(std::array<int, N> const & f) -> std::array<int, N>
{
  constexpr size_t nc = N >= 6 ? N / 2 : N;
  std::array<int, N> g{};
  for (size_t i = 0; i < nc; ++i) {
    g[i] = f[(nc - i) % nc];
  }
  if constexpr (N >= 6) {
    for (size_t i = 0; i < nc; ++i) {
      g[nc + i] = f[nc + (nc - 1 - i)];
    }
  }
  return g;
}

template <int PO, int N>
auto
vtkType() -> um2::VTKElemType
{
  return N == 3   ? um2::VTKElemType::Triangle
         : N == 4 ? um2::VTKElemType::Quad
         : N == 6 ? um2::VTKElemType::QuadraticTriangle
                  : um2::VTKElemType::QuadraticQuad;
}

template <int PO, int N>
auto
toSoup(Mesh<PO, N> const & m, double z = 0) -> um2::PolytopeSoup
{
  um2::PolytopeSoup soup;
  for (auto const & p : m.v) {
    soup.addVertex(p[0], p[1], z);
  }
  for (auto const & f : m.f) {
    um2::Vector<Int> conn(N);
    for (Int j = 0; j < N; ++j) {
      conn[j] = f[static_cast<size_t>(j)];
    }
    soup.addElement(vtkType<PO, N>(), conn);
  }
  return soup;
}

template <int PO, int N>
auto
toFVM(Mesh<PO, N> const & m) -> um2::FaceVertexMesh<PO, N>
{
  um2::FaceVertexMesh<PO, N> out;
  for (auto const & p : m.v) {
    out.addVertex(p);
  }
  for (auto const & f : m.f) {
    typename um2::FaceVertexMesh<PO, N>::FaceConn conn;
    for (Int j = 0; j < N; ++j) {
      conn[j] = f[static_cast<size_t>(j)];
    }
    out.addFace(conn);
  }
  return out;
}

inline void
quietLogger()
{
  um2::settings::logger::level = 0;
  um2::settings::logger::exit_on_error = false;
}

} // namespace geo

// C19: spatial renumbering only relabels.
// Oracle: multiset of faces by node positions, and an independent curve index.
#include "mesh.hpp"

#include <algorithm>

namespace
{

using namespace geo;

using Key = std::vector<double>; // a face's node positions in order

template <int PO, int N>
auto
faceKeys(um2::FaceVertexMesh<PO, N> const & m) -> std::vector<Key>
{
  std::vector<Key> out;
  for (Int i = 0; i < m.numFaces(); ++i) {
    Key k;
    for (Int j = 0; j < N; ++j) {
      auto const p = m.getVertex(m.getFaceConn(i)[j]);
      k.push_back(p[0]);
      k.push_back(p[1]);
    }
    out.push_back(k);
  }
  return out;
}

// Smallest and largest index along the curve, on a 1024 x 1024 grid, of points within `slack`
// of u (in the unit square).
void
curveRange(L x, L y, L slack, uint64_t & lo, uint64_t & hi)
{
  auto cell = [](L v) {
    return static_cast<uint64_t>(std::min(1023.0L, std::max(0.0L, std::floor(v * 1024))));
  };
  auto interleave = [](uint64_t a, uint64_t b) {
    uint64_t r = 0;
    for (int i = 0; i < 10; ++i) {
      r |= ((a >> i) & 1U) << (2 * i);
      r |= ((b >> i) & 1U) << (2 * i + 1);
    }
    return r;
  };
  lo = ~0ULL;
  hi = 0;
  for (L const dx : {-slack, slack}) {
    for (L const dy : {-slack, slack}) {
      auto const k = interleave(cell(x + dx), cell(y + dy));
      lo = std::min(lo, k);
      hi = std::max(hi, k);
    }
  }
}

template <int PO, int N>
void
sorted(pbt::Src & s, pbt::Case & c)
{
  quietLogger();
  Mesh<PO, N> const m = genMesh<PO, N>(s, c, {.curved_boundary = s.coin(), .max_cells = 7});
  auto fvm = toFVM(m);
  bool const had_vf = s.coin();
  if (had_vf) {
    fvm.populateVF();
  }
  auto before = faceKeys<PO, N>(fvm);
  std::vector<Key> vbefore;
  for (auto const & p : m.v) {
    vbefore.push_back({p[0], p[1]});
  }
  auto const box = fvm.boundingBox();
  auto const kind = s.below(4);
  bool const faces = kind != 1;
  bool const verts = kind != 0;
  if (kind == 0) {
    fvm.mortonSortFaces();
  } else if (kind == 1) {
    fvm.mortonSortVertices();
  } else {
    fvm.mortonSort();
  }
  if (kind >= 2 && s.oneIn(4)) {
    // build the mesh in two steps and sort after each
    c.label("sorted, extended and sorted again");
    um2::FaceVertexMesh<PO, N> part;
    auto const k = 1 + s.below(m.f.size());
    auto conn = [&](size_t i, std::map<std::pair<double, double>, Int> const & id) {
      um2::Vec<N, Int> f;
      for (Int j = 0; j < N; ++j) {
        auto const & p = m.v[static_cast<size_t>(m.f[i][static_cast<size_t>(j)])];
        f[j] = id.at({p[0], p[1]});
      }
      return f;
    };
    auto ids = [&] {
      std::map<std::pair<double, double>, Int> id;
      for (Int i = 0; i < part.numVertices(); ++i) {
        id[{part.getVertex(i)[0], part.getVertex(i)[1]}] = i;
      }
      return id;
    };
    for (auto const & p : m.v) {
      part.addVertex(p);
    }
    auto const first = ids();
    for (size_t i = 0; i < k; ++i) {
      part.addFace(conn(i, first));
    }
    if (had_vf) {
      part.populateVF();
    }
    part.mortonSort();
    auto const second = ids();
    for (size_t i = k; i < m.f.size(); ++i) {
      part.addFace(conn(i, second));
    }
    if (had_vf) {
      part.populateVF();
    }
    part.mortonSort();
    fvm = part;
  }
  c.label(kind == 0 ? "faces" : kind == 1 ? "vertices" : "both");
  REQUIRE(fvm.numVertices() == static_cast<Int>(m.v.size()) &&
              fvm.numFaces() == static_cast<Int>(m.f.size()),
          "sizes changed");
  auto after = faceKeys<PO, N>(fvm);
  std::vector<Key> vafter;
  for (Int i = 0; i < fvm.numVertices(); ++i) {
    vafter.push_back({fvm.getVertex(i)[0], fvm.getVertex(i)[1]});
  }
  c.nontrivial(after != before || vafter != vbefore);
  if (!faces) {
    REQUIRE(after == before, "sorting the vertices changed a face");
  }
  if (!verts) {
    REQUIRE(vafter == vbefore, "sorting the faces moved a vertex");
  }
  // order along the curve
  L const ex = L(box.maxima(0)) - L(box.minima(0));
  L const ey = L(box.maxima(1)) - L(box.minima(1));
  // cell boundaries of a 16-bit code are only known to about a cell of that code
  L const slack = 4e-5L + 1e-12L * (1 + (m.size + 20) / std::min(ex, ey));
  if (verts) {
    uint64_t top = 0;
    for (Int i = 0; i < fvm.numVertices(); ++i) {
      uint64_t lo = 0;
      uint64_t hi = 0;
      auto const p = fvm.getVertex(i);
      curveRange((L(p[0]) - L(box.minima(0))) / ex, (L(p[1]) - L(box.minima(1))) / ey, slack, lo,
                 hi);
      REQUIRE(hi >= top, "vertex ", i, " precedes an earlier vertex along the curve");
      top = std::max(top, lo);
    }
  }
  if (faces) {
    uint64_t top = 0;
    for (Int i = 0; i < fvm.numFaces(); ++i) {
      uint64_t lo = 0;
      uint64_t hi = 0;
      P const p = region(fvm.getFace(i)).centroid();
      curveRange((p.x - L(box.minima(0))) / ex, (p.y - L(box.minima(1))) / ey, slack, lo,
                 hi);
      REQUIRE(hi >= top, "face ", i, " precedes an earlier face along the curve");
      top = std::max(top, lo);
    }
  }
  std::sort(before.begin(), before.end());
  std::sort(after.begin(), after.end());
  REQUIRE(before == after, "the faces changed");
  std::sort(vbefore.begin(), vbefore.end());
  std::sort(vafter.begin(), vafter.end());
  REQUIRE(vbefore == vafter, "the vertices changed");
  // the vertex-to-face table
  if (kind < 2) {
    fvm.populateVF();
  }
  if (kind < 2 || had_vf) {
    auto const & off = fvm.vertexFaceOffsets();
    auto const & vf = fvm.vertexFaceConn();
    REQUIRE(off.size() == fvm.numVertices() + 1, "table offsets ", off.size());
    std::vector<std::vector<Int>> want(m.v.size());
    for (Int i = 0; i < fvm.numFaces(); ++i) {
      for (Int j = 0; j < N; ++j) {
        want[static_cast<size_t>(fvm.getFaceConn(i)[j])].push_back(i);
      }
    }
    for (Int i = 0; i < fvm.numVertices(); ++i) {
      std::vector<Int> const have(vf.begin() + off[i], vf.begin() + off[i + 1]);
      REQUIRE(have == want[static_cast<size_t>(i)], "table of vertex ", i, " is stale");
    }
  }
}

#define FOUR(name, fn, q, t, rule)                                                       \
  pbt::Reg const name##3(#name "_tri", q, t, rule, fn<1, 3>);                            \
  pbt::Reg const name##4(#name "_quad", q, t, rule, fn<1, 4>);                           \
  pbt::Reg const name##6(#name "_tri6", q, t, rule, fn<2, 6>);                           \
  pbt::Reg const name##8(#name "_quad8", q, t, rule, fn<2, 8>)

FOUR(sorted, sorted, 3000, 120000, "the order changed");

} // namespace

auto
main(int argc, char ** argv) -> int
{
  pbt::Options o;
  o.assumptions = {"meshes have a positive extent in both directions",
                   "order is judged on a 1024 x 1024 grid whose cell boundaries are known to 4e-5"};
  return pbt::run("C19", "random conforming meshes anywhere in the plane", o, argc, argv);
}

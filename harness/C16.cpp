// C16: soup to mesh conversion, winding repair, adjacency, validation.
// Oracle: the generated mesh (positions, connectivity) and independent adjacency tables.
#include "mesh.hpp"

#include <um2/common/logger.hpp>

#include <set>

namespace
{

using namespace geo;

// The face's nodes as a cyclic sequence starting at its smallest corner
template <size_t N>
auto
canonical(std::array<int, N> f) -> std::array<int, N>
{
  constexpr size_t nc = N >= 6 ? N / 2 : N;
  size_t k = 0;
  for (size_t i = 1; i < nc; ++i) {
    if (f[i] < f[k]) {
      k = i;
    }
  }
  std::array<int, N> g{};
  for (size_t i = 0; i < nc; ++i) {
    g[i] = f[(i + k) % nc];
    if constexpr (N >= 6) {
      g[nc + i] = f[nc + (i + k) % nc];
    }
  }
  return g;
}

template <int PO, int N>
auto
conn(um2::FaceVertexMesh<PO, N> const & m, Int i) -> std::array<int, N>
{
  std::array<int, N> out{};
  for (Int j = 0; j < N; ++j) {
    out[static_cast<size_t>(j)] = m.getFaceConn(i)[j];
  }
  return out;
}

template <int PO, int N>
void
checkAdjacency(um2::FaceVertexMesh<PO, N> & fvm, Mesh<PO, N> const & m)
{
  fvm.populateVF();
  auto const & off = fvm.vertexFaceOffsets();
  auto const & vf = fvm.vertexFaceConn();
  REQUIRE(off.size() == static_cast<Int>(m.v.size()) + 1, "offsets ", off.size());
  std::vector<std::vector<int>> want(m.v.size());
  for (size_t i = 0; i < m.f.size(); ++i) {
    for (int const x : m.f[i]) {
      want[static_cast<size_t>(x)].push_back(static_cast<int>(i));
    }
  }
  REQUIRE(off[0] == 0, "first offset ", off[0]);
  for (size_t i = 0; i < m.v.size(); ++i) {
    Int const b = off[static_cast<Int>(i)];
    Int const e = off[static_cast<Int>(i) + 1];
    REQUIRE(e - b == static_cast<Int>(want[i].size()), "vertex ", i, " lists ", e - b,
            " faces, expected ", want[i].size());
    for (Int k = b; k < e; ++k) {
      REQUIRE(vf[k] == want[i][static_cast<size_t>(k - b)], "vertex ", i, " face ", vf[k]);
    }
  }
  REQUIRE(vf.size() == off[off.size() - 1], "table size ", vf.size());
}

template <int PO, int N>
void
convert(pbt::Src & s, pbt::Case & c)
{
  quietLogger();
  Mesh<PO, N> const m = genMesh<PO, N>(s, c, {.curved_boundary = s.coin(), .max_cells = 4});
  // wind some of the faces the other way
  Mesh<PO, N> given = m;
  size_t turned = 0;
  if (!s.oneIn(3)) {
    for (auto & f : given.f) {
      if (s.oneIn(3)) {
        f = reversed(f);
        ++turned;
      }
    }
  }
  c.label(turned > 0 ? "some faces clockwise" : "all counter-clockwise");
  c.nontrivial(m.f.size() > 1);
  double const z = s.oneIn(3) ? s.real(-5, 5) : 0.0;
  bool const wavy = s.oneIn(6); // not quite planar: only a warning
  um2::PolytopeSoup soup;
  if (wavy) {
    c.label("not planar");
    auto const off = s.coin() ? given.v.size() : s.below(given.v.size()); // all vertices, or one
    for (size_t i = 0; i < given.v.size(); ++i) {
      bool const moved = off == given.v.size() ? s.coin() : off == i;
      soup.addVertex(given.v[i][0], given.v[i][1], z + (moved ? s.mag(-5, 0) : 0));
    }
    um2::PolytopeSoup const flat = toSoup(given, z);
    um2::Vector<Int> con;
    um2::VTKElemType t{};
    for (Int i = 0; i < flat.numElements(); ++i) {
      flat.getElement(i, t, con);
      soup.addElement(t, con);
    }
  } else {
    soup = toSoup(given, z);
  }
  auto check = [&](um2::FaceVertexMesh<PO, N> & fvm, char const * what) {
    REQUIRE(fvm.numVertices() == static_cast<Int>(m.v.size()), what, ": vertices ",
            fvm.numVertices());
    REQUIRE(fvm.numFaces() == static_cast<Int>(m.f.size()), what, ": faces ", fvm.numFaces());
    for (size_t i = 0; i < m.v.size(); ++i) {
      auto const p = fvm.getVertex(static_cast<Int>(i));
      auto const & q = fvm.vertices()[static_cast<Int>(i)];
      REQUIRE(p[0] == m.v[i][0] && p[1] == m.v[i][1] && q[0] == p[0] && q[1] == p[1], what,
              ": vertex ", i, " is ", str(wide<double>(p)), " expected ",
              str(wide<double>(m.v[i])));
    }
    for (size_t i = 0; i < m.f.size(); ++i) {
      auto const got = conn<PO, N>(fvm, static_cast<Int>(i));
      REQUIRE(canonical(got) == canonical(m.f[i]), what, ": face ", i,
              " does not connect the given nodes counter-clockwise");
      if (given.f[i] == m.f[i]) {
        REQUIRE(got == m.f[i], what, ": counter-clockwise face ", i, " was renumbered");
      }
      auto const face = fvm.getFace(static_cast<Int>(i));
      REQUIRE(face.isCCW(), what, ": face ", i, " is clockwise");
      constexpr Int ne = PO == 1 ? N : N / 2;
      for (Int e = 0; e < ne; ++e) {
        auto const edge = fvm.getEdge(static_cast<Int>(i), e);
        auto const ec = fvm.getEdgeConn(static_cast<Int>(i), e);
        auto const nodes = [&](Int k) {
          return k == 0   ? got[static_cast<size_t>(e)]
                 : k == 1 ? got[static_cast<size_t>((e + 1) % ne)]
                          : got[static_cast<size_t>((ne + e) % N)];
        };
        for (Int k = 0; k < PO + 1; ++k) {
          int const n = nodes(k);
          REQUIRE(ec[k] == n, what, ": face ", i, " edge ", e, " node ", k, " is ", ec[k]);
          auto const & pv = m.v[static_cast<size_t>(n)];
          REQUIRE(edge[k][0] == pv[0] && edge[k][1] == pv[1], what, ": face ", i, " edge ", e);
        }
      }
    }
    // box of the faces
    L lo[2] = {1e300L, 1e300L};
    L hi[2] = {-1e300L, -1e300L};
    for (size_t i = 0; i < m.f.size(); ++i) {
      L l[2];
      L h[2];
      region(m.face(i)).box(l, h);
      for (int k = 0; k < 2; ++k) {
        lo[k] = std::min(lo[k], l[k]);
        hi[k] = std::max(hi[k], h[k]);
      }
    }
    auto const bb = fvm.boundingBox();
    L const tol = 1e-13L * (m.size + 20) + (PO == 2 ? 1.1e-7L : 0);
    for (Int k = 0; k < 2; ++k) {
      REQUIRE(std::fabs(L(bb.minima(k)) - lo[k]) <= tol &&
                  std::fabs(L(bb.maxima(k)) - hi[k]) <= tol,
              what, ": box along ", k, " [", bb.minima(k), ", ", bb.maxima(k), "]");
    }
  };
  {
    bool level = true;
    for (Int i = 1; i < soup.numVertices(); ++i) {
      level = level && soup.getVertex(i)[2] == soup.getVertex(0)[2];
    }
    um2::settings::logger::level = 2; // warnings
    um2::logger::buffer[0] = '\0';
    um2::FaceVertexMesh<PO, N> const raw(soup, /*validate=*/false);
    bool const warned = um2::logger::buffer[0] != '\0';
    quietLogger();
    REQUIRE(warned == !level, level ? "a warning about a flat mesh" : "no warning that the vertices are not in a plane");
    for (size_t i = 0; i < given.f.size(); ++i) {
      REQUIRE((conn<PO, N>(raw, static_cast<Int>(i)) == given.f[i]), "face ", i, " changed without validation");
    }
  }
  um2::FaceVertexMesh<PO, N> fvm(soup);
  check(fvm, "from a soup");
  checkAdjacency(fvm, m);
  // directly from vectors
  {
    um2::Vector<um2::Point2F> v;
    um2::Vector<um2::Vec<N, Int>> fv;
    for (auto const & p : given.v) {
      v.emplace_back(p);
    }
    for (auto const & f : given.f) {
      um2::Vec<N, Int> k;
      for (Int j = 0; j < N; ++j) {
        k[j] = f[static_cast<size_t>(j)];
      }
      fv.emplace_back(k);
    }
    um2::FaceVertexMesh<PO, N> direct(v, fv);
    check(direct, "from vectors");
    // a stale table is rebuilt, not appended to
    direct.populateVF();
    checkAdjacency(direct, m);
  }
  // and back
  um2::PolytopeSoup const back = fvm;
  REQUIRE(back.numVertices() == soup.numVertices() && back.numElements() == soup.numElements() &&
              back.numElsets() == 0,
          "back: sizes");
  um2::Vector<Int> con;
  um2::VTKElemType type{};
  for (Int i = 0; i < back.numVertices(); ++i) {
    auto const & p = back.getVertex(i);
    REQUIRE(p[0] == m.v[static_cast<size_t>(i)][0] && p[1] == m.v[static_cast<size_t>(i)][1] &&
                p[2] == 0,
            "back: vertex ", i);
  }
  for (Int i = 0; i < back.numElements(); ++i) {
    back.getElement(i, type, con);
    REQUIRE((type == vtkType<PO, N>()) && con.size() == N, "back: element type ", i);
    auto const want = conn<PO, N>(fvm, i);
    for (Int j = 0; j < N; ++j) {
      REQUIRE(con[j] == want[static_cast<size_t>(j)], "back: element ", i, " node ", j);
    }
  }
}

// Does validating the faces report an error?
template <int PO, int N>
auto
rejects(Mesh<PO, N> const & m) -> bool
{
  um2::settings::logger::exit_on_error = false;
  um2::settings::logger::level = 1; // errors only
  um2::logger::buffer[0] = '\0';
  um2::FaceVertexMesh<PO, N> fvm = toFVM(m);
  fvm.validate();
  bool const err = um2::logger::buffer[0] != '\0';
  um2::settings::logger::level = 0;
  return err;
}

template <int PO, int N>
void
validate(pbt::Src & s, pbt::Case & c)
{
  quietLogger();
  Mesh<PO, N> const m = genMesh<PO, N>(s, c, {.curved_boundary = false, .max_cells = 5});
  constexpr size_t nc = PO == 1 ? N : N / 2;
  REQUIRE(!rejects(m), "a conforming mesh is rejected: ",
          std::string(um2::logger::buffer));
  // interior vertices: all their edges are shared
  std::map<std::pair<int, int>, int> uses;
  for (auto const & f : m.f) {
    for (size_t k = 0; k < nc; ++k) {
      int const a = f[k];
      int const b = f[(k + 1) % nc];
      ++uses[{std::min(a, b), std::max(a, b)}];
    }
  }
  std::set<int> boundary;
  for (auto const & [e, n] : uses) {
    if (n == 1) {
      boundary.insert(e.first);
      boundary.insert(e.second);
    }
  }
  Mesh<PO, N> bad = m;
  switch (s.below(5)) {
  case 3: { // a face missing that touches the boundary in one corner
    std::vector<size_t> touching;
    for (size_t i = 0; i < m.f.size(); ++i) {
      size_t n = 0;
      for (size_t k = 0; k < nc; ++k) {
        n += boundary.count(m.f[i][k]);
      }
      if (n == 1) {
        touching.push_back(i);
      }
    }
    if (touching.empty()) {
      return;
    }
    bad.f.erase(bad.f.begin() + static_cast<long>(touching[s.below(touching.size())]));
    c.label("a face missing at the boundary");
    break;
  }
  case 4: { // two pieces joined at one vertex
    int left = m.f[0][0];
    int right = m.f[0][0];
    for (auto const & f : m.f) {
      for (size_t k = 0; k < nc; ++k) {
        left = m.v[static_cast<size_t>(f[k])][0] < m.v[static_cast<size_t>(left)][0] ? f[k] : left;
        right = m.v[static_cast<size_t>(f[k])][0] > m.v[static_cast<size_t>(right)][0] ? f[k] : right;
      }
    }
    auto const d = m.v[static_cast<size_t>(right)] - m.v[static_cast<size_t>(left)];
    auto const nv = static_cast<int>(m.v.size());
    bad.v.clear();
    bad.f.clear();
    std::vector<int> id(2 * m.v.size());
    auto const order = s.perm(2 * nv); // the numbering decides how the boundary is walked
    for (int const k : order) {
      if (k == nv + left) {
        continue;
      }
      id[static_cast<size_t>(k)] = static_cast<int>(bad.v.size());
      auto const & p = m.v[static_cast<size_t>(k % nv)];
      bad.v.push_back(k < nv ? p : um2::Point2<double>(p[0] + d[0], p[1] + d[1]));
    }
    id[static_cast<size_t>(nv + left)] = id[static_cast<size_t>(right)];
    for (int piece = 0; piece < 2; ++piece) {
      for (auto f : m.f) {
        for (auto & x : f) {
          x = id[static_cast<size_t>(x + piece * nv)];
        }
        bad.f.push_back(f);
      }
    }
    c.label("two pieces joined at a vertex");
    break;
  }
  case 0: { // a face given twice
    auto const i = s.below(m.f.size());
    bad.f.insert(bad.f.begin() + static_cast<long>(s.below(m.f.size() + 1)), m.f[i]);
    c.label("a face given twice");
    break;
  }
  case 1: { // an inner face missing: a hole
    std::vector<size_t> inner;
    for (size_t i = 0; i < m.f.size(); ++i) {
      bool all = true;
      for (size_t k = 0; k < nc; ++k) {
        all = all && boundary.count(m.f[i][k]) == 0;
      }
      if (all) {
        inner.push_back(i);
      }
    }
    if (inner.empty()) {
      return;
    }
    bad.f.erase(bad.f.begin() + static_cast<long>(inner[s.below(inner.size())]));
    c.label("an inner face missing");
    break;
  }
  default: { // two separate pieces
    auto const nv = static_cast<int>(m.v.size());
    for (auto const & p : m.v) {
      bad.v.push_back(um2::Point2<double>(p[0] + 10 * double(m.size), p[1]));
    }
    for (auto f : m.f) {
      for (auto & x : f) {
        x += nv;
      }
      bad.f.push_back(f);
    }
    c.label("two separate pieces");
    break;
  }
  }
  c.nontrivial(true);
  REQUIRE(rejects(bad), "a mesh with a hole, overlap or gap is accepted");
}

#define FOUR(name, fn, q, t, rule)                                                       \
  pbt::Reg const name##3(#name "_tri", q, t, rule, fn<1, 3>);                            \
  pbt::Reg const name##4(#name "_quad", q, t, rule, fn<1, 4>);                           \
  pbt::Reg const name##6(#name "_tri6", q, t, rule, fn<2, 6>);                           \
  pbt::Reg const name##8(#name "_quad8", q, t, rule, fn<2, 8>)

FOUR(convert, convert, 2500, 60000, "more than one face");
FOUR(validate, validate, 1500, 40000, "a defective variant of the mesh was also tried");

} // namespace

auto
main(int argc, char ** argv) -> int
{
  pbt::Options o;
  o.assumptions = {"every vertex is used by a face", "faces are valid: convex corner polygon, "
                                                     "invertible reference map"};
  return pbt::run("C16", "random conforming meshes of the four face types", o, argc, argv);
}

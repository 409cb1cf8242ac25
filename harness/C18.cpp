// C18: point location.
// Oracle: crossing parity against the faces' exact boundaries; renumbering.
#include "mesh.hpp"

namespace
{

using namespace geo;

template <int PO, int N>
void
locate(pbt::Src & s, pbt::Case & c)
{
  quietLogger();
  Mesh<PO, N> const m = genMesh<PO, N>(s, c, {.curved_boundary = s.coin(), .max_cells = 5});
  auto const fvm = toFVM(m);
  size_t const nf = m.f.size();
  std::vector<Region> rg;
  for (size_t i = 0; i < nf; ++i) {
    rg.push_back(region(m.face(i)));
  }
  // a renumbered copy
  auto const vp = s.perm(static_cast<int>(m.v.size()));
  auto const fp = s.perm(static_cast<int>(nf));
  Mesh<PO, N> r = m;
  for (size_t i = 0; i < m.v.size(); ++i) {
    r.v[static_cast<size_t>(vp[i])] = m.v[i];
  }
  for (size_t i = 0; i < nf; ++i) {
    auto f = m.f[i];
    for (auto & x : f) {
      x = vp[static_cast<size_t>(x)];
    }
    r.f[static_cast<size_t>(fp[i])] = f;
  }
  auto const renumbered = toFVM(r);
  int inside = 0;
  int outside = 0;
  for (int k = 0; k < 8; ++k) {
    P p;
    auto const i = s.below(nf);
    switch (s.below(5)) {
    case 0: // anywhere around the mesh
      p = wide<double>(m.v[0]) + P{L(s.real(-1.5, 1.5)) * m.size, L(s.real(-1.5, 1.5)) * m.size};
      break;
    case 1: { // close to an edge, on either side
      auto const & e = rg[i].edges[s.below(rg[i].edges.size())];
      L const t = L(s.real(0, 1));
      P const d = e.der(t);
      p = e.at(t) + (L(s.sign() * s.mag(-8, -1)) / norm(d) * dist(e.v0, e.v1)) * P{-d.y, d.x};
      break;
    }
    case 2: { // a node, or close to one
      p = wide<double>(m.v[s.below(m.v.size())]);
      if (s.coin()) {
        L const w = L(s.mag(-8, -1)) * m.size;
        L const a = L(s.real(0, 6.2831853));
        p = p + P{w * std::cos(a), w * std::sin(a)};
      }
      break;
    }
    default: {
      L u = L(s.real(0.02, 0.98));
      L v = L(s.real(0.02, 0.98));
      if (N % 3 == 0 && u + v > 1) {
        u = 1 - u;
        v = 1 - v;
      }
      p = mapAt(m.face(i), u, v);
      break;
    }
    }
    auto const q = narrow<double>(p);
    P const w = wide<double>(q);
    Int const got = fvm.faceContaining(q);
    REQUIRE(got >= -1 && got < static_cast<Int>(nf), "face index ", got);
    // which face, certainly?
    L const margin = (PO == 2 ? 1.1e-7L : 0.0L) + 1e-11L * (m.size + norm(w));
    bool near = false;
    Int want = -1;
    for (size_t j = 0; j < nf; ++j) {
      L lo[2];
      L hi[2];
      rg[j].box(lo, hi);
      if (w.x < lo[0] - margin || w.x > hi[0] + margin || w.y < lo[1] - margin ||
          w.y > hi[1] + margin) {
        continue;
      }
      if (rg[j].distance(w) < margin) {
        near = true;
      } else if (rg[j].contains(w)) {
        REQUIRE(want < 0, "generator: overlapping faces ", want, " and ", j);
        want = static_cast<Int>(j);
      }
    }
    if (near) {
      // on a boundary: an answer must at least touch the point
      if (got >= 0) {
        auto const & g = rg[static_cast<size_t>(got)];
        REQUIRE(g.distance(w) < margin || g.contains(w), "point ", str(w),
                " is located in face ", got, " which does not touch it");
      }
      c.label("on a face boundary");
      continue;
    }
    (want >= 0 ? inside : outside) += 1;
    REQUIRE(got == want, "point ", str(w), " is located in face ", got, " instead of ", want);
    Int const again = renumbered.faceContaining(q);
    REQUIRE(again == (want < 0 ? -1 : fp[static_cast<size_t>(want)]),
            "after renumbering, point ", str(w), " is located in face ", again);
  }
  c.label(outside > 0 ? "some points outside" : "all inside");
  c.nontrivial(inside > 0 && nf > 1);
}

#define FOUR(name, fn, q, t, rule)                                                       \
  pbt::Reg const name##3(#name "_tri", q, t, rule, fn<1, 3>);                            \
  pbt::Reg const name##4(#name "_quad", q, t, rule, fn<1, 4>);                           \
  pbt::Reg const name##6(#name "_tri6", q, t, rule, fn<2, 6>);                           \
  pbt::Reg const name##8(#name "_quad8", q, t, rule, fn<2, 8>)

FOUR(locate, locate, 4000, 100000, "several faces and a point certainly inside one of them");

} // namespace

auto
main(int argc, char ** argv) -> int
{
  pbt::Options o;
  o.assumptions = {"points within 1e-7 of a curved or rounding of a straight face boundary may be given to any touching face "
                   "or to none"};
  return pbt::run("C18", "random conforming meshes with points in, near and outside faces", o,
                  argc, argv);
}

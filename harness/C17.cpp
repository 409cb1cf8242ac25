// C17: tracing a ray through a mesh.
// Oracle: each face's crossings in extended precision, and the part of the ray inside the
// domain's outer boundary.
#include "mesh.hpp"

namespace
{

using namespace geo;

template <int PO, int N>
void
trace(pbt::Src & s, pbt::Case & c)
{
  quietLogger();
  Mesh<PO, N> const m = genMesh<PO, N>(s, c, {.curved_boundary = s.oneIn(3), .max_cells = 5});
  auto const fvm = toFVM(m);
  size_t const nf = m.f.size();
  // aim at a point of some face
  size_t const target = s.below(nf);
  auto const tf = m.face(target);
  L u = L(s.real(0.02, 0.98));
  L v = L(s.real(0.02, 0.98));
  if (N % 3 == 0 && u + v > 1) {
    u = 1 - u;
    v = 1 - v;
  }
  P const aim = s.oneIn(8) ? wide<double>(m.v[s.below(m.v.size())]) : mapAt(tf, u, v);
  L const a =
      s.oneIn(4) ? L(s.irange(0, 7)) * L(0.78539816339744830961L) : L(s.fine(0, 6.283185307));
  P const d{std::cos(a), std::sin(a)};
  bool const inside = s.oneIn(4);
  P const o = aim - (inside ? 0.0L : 2 * m.size + 1) * d;
  um2::Ray2<double> const ray(narrow<double>(o), narrow<double>(d));
  P const ow = wide<double>(ray.origin());
  P dw = wide<double>(ray.direction());
  dw = (1 / norm(dw)) * dw;
  c.desc << " ray " << str(ow) << " dir " << str(dw);

  std::vector<double> flat(8 * nf, -7.0);
  std::vector<double> coords(8 * nf, -7.0);
  std::vector<Int> offsets(nf + 1, -1);
  std::vector<Int> faces(nf, -1);
  Int const n = fvm.intersect(ray, flat.data());
  auto const hf = fvm.intersect(ray, coords.data(), offsets.data(), faces.data());
  Int const hit_faces = hf[1];
  REQUIRE(hf[0] == n, "the variants report ", n, " and ", hf[0], " crossings");
  REQUIRE(hit_faces >= 0 && hit_faces <= static_cast<Int>(nf), "faces hit ", hit_faces);
  REQUIRE(offsets[0] == 0 && offsets[static_cast<size_t>(hit_faces)] == n, "offsets end at ",
          offsets[static_cast<size_t>(hit_faces)]);
  for (Int i = 0; i < n; ++i) {
    REQUIRE(flat[static_cast<size_t>(i)] == coords[static_cast<size_t>(i)],
            "the variants differ at crossing ", i);
  }
  // per face
  L const size = m.size + norm(ow) + dist(ow, wide<double>(m.v[0]));
  L const tol = 1e-13L * size;
  std::vector<std::vector<L>> got(nf);
  Int prev = -1;
  for (Int i = 0; i < hit_faces; ++i) {
    Int const f = faces[static_cast<size_t>(i)];
    REQUIRE(f > prev && f < static_cast<Int>(nf), "face list entry ", i, " is ", f);
    prev = f;
    Int const b = offsets[static_cast<size_t>(i)];
    Int const e = offsets[static_cast<size_t>(i) + 1];
    REQUIRE(e > b, "face ", f, " is listed without crossings");
    got[static_cast<size_t>(f)].assign(coords.begin() + b, coords.begin() + e);
    std::sort(got[static_cast<size_t>(f)].begin(), got[static_cast<size_t>(f)].end());
  }
  bool ambiguous = false;
  bool simple = true;
  L worst = 1;
  std::vector<std::vector<L>> want(nf);
  std::map<std::pair<int, int>, int> uses;
  constexpr size_t nc = PO == 1 ? N : N / 2;
  for (auto const & f : m.f) {
    for (size_t k = 0; k < nc; ++k) {
      int const p = f[k];
      int const q = f[(k + 1) % nc];
      ++uses[{std::min(p, q), std::max(p, q)}];
    }
  }
  std::vector<L> border; // crossings of the ray with the domain's boundary
  for (size_t i = 0; i < nf; ++i) {
    Region const r = region(m.face(i));
    for (auto const g : got[i]) {
      L const off = r.distance(ow + g * dw);
      REQUIRE(off <= 1e-9L * m.size + 10 * tol, "crossing ", double(g), " of face ", i, " is ",
              double(off), " away from its boundary");
    }
    for (size_t k = 0; k < nc; ++k) {
      auto const x = crossings(r.edges[k], ow, dw, tol);
      ambiguous = ambiguous || x.ambiguous;
      int const p = m.f[i][k];
      int const q = m.f[i][(k + 1) % nc];
      bool const outer = uses[{std::min(p, q), std::max(p, q)}] == 1;
      for (auto const & y : x.certain) {
        if (std::fabs(y.t) < 10 * tol / std::max(std::fabs(y.sine), 1e-9L) ||
            std::fabs(y.sine) < 1e-5L) {
          ambiguous = true;
        }
        worst = std::min(worst, std::fabs(y.sine));
        if (y.t > 0) {
          want[i].push_back(y.t);
          if (outer) {
            border.push_back(y.t);
          }
        }
      }
    }
    std::sort(want[i].begin(), want[i].end());
    simple = simple && want[i].size() <= 2;
  }
  // sorting the crossings along the ray
  std::vector<double> sc(8 * nf, -7.0);
  std::vector<Int> so(nf + 1, -1);
  std::vector<Int> sf(nf, -1);
  std::vector<Int> perm(nf, -1);
  um2::sortRayMeshIntersections(coords.data(), offsets.data(), faces.data(), sc.data(), so.data(),
                                sf.data(), perm.data(), hf);
  REQUIRE(so[0] == 0 && so[static_cast<size_t>(hit_faces)] == n, "sorted offsets end at ",
          so[static_cast<size_t>(hit_faces)]);
  std::vector<char> seen(nf, 0);
  for (Int i = 0; i < hit_faces; ++i) {
    auto const f = static_cast<size_t>(sf[static_cast<size_t>(i)]);
    REQUIRE(f < nf && seen[f] == 0, "sorted face ", f, " repeated or out of range");
    seen[f] = 1;
    auto const b = static_cast<size_t>(so[static_cast<size_t>(i)]);
    auto const e = static_cast<size_t>(so[static_cast<size_t>(i) + 1]);
    REQUIRE(e - b == got[f].size(), "sorted face ", f, " has ", e - b, " crossings");
    for (size_t k = b; k < e; ++k) {
      REQUIRE(L(sc[k]) == got[f][k - b], "sorted crossing of face ", f, " is ", sc[k]);
    }
  }
  if (ambiguous) {
    c.label("through a corner or tangent");
    return;
  }
  L const te = (1e-9L * m.size + 10 * tol) / worst;
  L total = 0;
  for (size_t i = 0; i < nf; ++i) {
    REQUIRE(got[i].size() == want[i].size(), "face ", i, ": expected ", want[i].size(),
            " crossings, got ", got[i].size());
    for (size_t k = 0; k < want[i].size(); ++k) {
      REQUIRE(std::fabs(got[i][k] - want[i][k]) <= te, "face ", i, " crossing ", k, " at ",
              double(got[i][k]), " expected ", double(want[i][k]));
    }
    // pair the crossings from the far end; an odd one out starts at the origin
    for (size_t k = 0; k < want[i].size(); ++k) {
      total += (want[i].size() - k) % 2 == 1 ? got[i][k] : -got[i][k];
    }
  }
  std::sort(border.begin(), border.end());
  L domain = 0;
  for (size_t k = 0; k < border.size(); ++k) {
    domain += (border.size() - k) % 2 == 1 ? border[k] : -border[k];
  }
  REQUIRE(std::fabs(total - domain) <= te * L(n + 1), "chords sum to ", double(total),
          ", the ray is inside for ", double(domain));
  c.nontrivial(hit_faces >= 2);
  c.label(inside ? "starts inside" : hit_faces == 0 ? "misses" : "crosses");
  // Faces are listed in the order the ray first enters them. Chords within rounding, and
  // faces left and entered again by a ray starting inside them, may come in any order.
  if (!simple) {
    c.label("a face is entered more than once");
  }
  auto entry = [&](size_t f) { return want[f].size() % 2 == 0 ? want[f][0] : 0.0L; };
  auto exit = [&](size_t f) { return want[f].size() % 2 == 0 ? want[f][1] : want[f][0]; };
  Int last = -1;
  for (Int i = 0; i < hit_faces; ++i) {
    auto const f = static_cast<size_t>(sf[static_cast<size_t>(i)]);
    if ((want[f].size() % 2 == 1 && want[f].size() > 1) || exit(f) - entry(f) < 10 * te) {
      continue;
    }
    if (last >= 0) {
      auto const p = static_cast<size_t>(last);
      REQUIRE(entry(f) >= exit(p) - te, "face ", f, " (entered at ", double(entry(f)),
              ") is listed after face ", p, " (left at ", double(exit(p)), ")");
      if (m.convex && simple) {
        // contiguous up to faces clipped within rounding
        REQUIRE(entry(f) <= exit(p) + 10 * te * L(nf), "a gap in the chords after face ", p);
      }
    }
    last = static_cast<Int>(f);
  }
}

// Sorting alone, over layouts where faces own several stretches of the ray.
void
sorting(pbt::Src & s, pbt::Case & c)
{
  int const nf = 1 + static_cast<int>(s.below(8));
  int const pieces = nf + static_cast<int>(s.below(8));
  // stretches in order along the ray; every face owns at least one
  std::vector<int> owner;
  auto const first = s.perm(nf);
  for (int i = 0; i < nf; ++i) {
    owner.push_back(first[static_cast<size_t>(i)]);
  }
  for (int i = nf; i < pieces; ++i) {
    auto const at = 1 + s.below(owner.size());
    owner.insert(owner.begin() + static_cast<long>(at), static_cast<int>(s.below(static_cast<uint64_t>(nf))));
  }
  bool const inside = s.oneIn(3);
  std::vector<std::vector<double>> hits(static_cast<size_t>(nf));
  std::vector<double> entered(static_cast<size_t>(nf), -1);
  double t = inside ? 0 : s.real(0, 5);
  for (size_t i = 0; i < owner.size(); ++i) {
    auto const f = static_cast<size_t>(owner[i]);
    if (i == 0 && !inside && s.oneIn(4)) {
      t = 0;
    }
    double const end = t + s.real(0.01, 3);
    bool const joined = i > 0 && owner[i - 1] == owner[i];
    if (joined) {
      hits[f].back() = end;
    } else if (i == 0 && inside) {
      hits[f].push_back(end); // starts in this face
      entered[f] = 0;
    } else {
      if (entered[f] < 0) {
        entered[f] = t;
      }
      hits[f].push_back(t);
      hits[f].push_back(end);
    }
    t = end;
    if (s.oneIn(6)) {
      t += s.real(0.01, 1); // leave the domain and come back
      if (i + 1 < owner.size() && owner[i + 1] == owner[i]) {
        t = end;
      }
    }
  }
  size_t most = 0;
  std::vector<double> coords;
  std::vector<Int> offsets{0};
  std::vector<Int> faces;
  c.desc << nf << " faces:";
  for (size_t f = 0; f < hits.size(); ++f) {
    most = std::max(most, hits[f].size());
    auto const p = s.perm(static_cast<int>(hits[f].size()));
    c.desc << " [";
    for (int const k : p) {
      coords.push_back(hits[f][static_cast<size_t>(k)]);
      c.desc << coords.back() << " ";
    }
    c.desc << "]";
    offsets.push_back(static_cast<Int>(coords.size()));
    faces.push_back(static_cast<Int>(3 * f + 2));
  }
  c.label(most > 2 ? "a face is entered more than once" : "every face is entered once");
  c.nontrivial(nf > 1 && most > 1);
  std::vector<double> sc(coords.size(), -7);
  std::vector<Int> so(offsets.size(), -1);
  std::vector<Int> sf(faces.size(), -1);
  std::vector<Int> perm(faces.size(), -1);
  um2::Vec2I hf;
  hf[0] = static_cast<Int>(coords.size());
  hf[1] = static_cast<Int>(nf);
  um2::sortRayMeshIntersections(coords.data(), offsets.data(), faces.data(), sc.data(), so.data(),
                                sf.data(), perm.data(), hf);
  double before = -1;
  std::vector<char> seen(hits.size(), 0);
  REQUIRE(so[0] == 0, "first offset ", so[0]);
  for (size_t i = 0; i < sf.size(); ++i) {
    REQUIRE(sf[i] >= 2 && (sf[i] - 2) % 3 == 0, "face ", sf[i]);
    auto const f = static_cast<size_t>((sf[i] - 2) / 3);
    REQUIRE(f < hits.size() && seen[f] == 0, "face ", sf[i], " repeated or unknown");
    seen[f] = 1;
    auto want = hits[f];
    std::sort(want.begin(), want.end());
    std::vector<double> const have(sc.begin() + so[i], sc.begin() + so[i + 1]);
    REQUIRE(have == want, "crossings of face ", sf[i]);
    if (hits[f].size() % 2 == 1 && hits[f].size() > 1) {
      continue;
    }
    REQUIRE(entered[f] >= before, "face ", sf[i], " entered at ", entered[f], " is listed late");
    before = entered[f];
  }
}

pbt::Reg const sort_only("sorting", 60000, 1500000,
                         "several faces, at least one with an entry and an exit", sorting);

#define FOUR(name, fn, q, t, rule)                                                       \
  pbt::Reg const name##3(#name "_tri", q, t, rule, fn<1, 3>);                            \
  pbt::Reg const name##4(#name "_quad", q, t, rule, fn<1, 4>);                           \
  pbt::Reg const name##6(#name "_tri6", q, t, rule, fn<2, 6>);                           \
  pbt::Reg const name##8(#name "_quad8", q, t, rule, fn<2, 8>)

FOUR(trace, trace, 4000, 120000, "the ray certainly crosses at least two faces");

} // namespace

auto
main(int argc, char ** argv) -> int
{
  pbt::Options o;
  o.assumptions = {"rays within rounding of a corner or tangency are only required to report "
                   "points on the faces they are attributed to"};
  return pbt::run("C17", "random conforming meshes and rays aimed at their faces", o, argc, argv);
}

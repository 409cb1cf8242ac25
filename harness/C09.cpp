// C09: axis-aligned boxes: union, containment and ray clipping.
// Oracle: coordinate-wise definitions; slab clipping in interval arithmetic, so that the
// oracle itself knows how far rounding may move each answer.
#include "pbt.hpp"

#include <um2/geometry/axis_aligned_box.hpp>

#include <limits>

namespace
{

using L = long double;

template <Int D, class T>
auto
genPoint(pbt::Src & s, double m) -> um2::Point<D, T>
{
  um2::Point<D, T> p;
  for (Int i = 0; i < D; ++i) {
    p[i] = static_cast<T>(s.oneIn(3) ? s.irange(-4, 4) : s.real(-m, m));
  }
  return p;
}

template <Int D, class T>
auto
showp(um2::Point<D, T> const & p) -> std::string
{
  std::ostringstream os;
  os.precision(std::numeric_limits<T>::max_digits10);
  os << "(";
  for (Int i = 0; i < D; ++i) {
    os << (i ? ", " : "") << p[i];
  }
  os << ")";
  return os.str();
}

template <Int D, class T>
auto
genBox(pbt::Src & s, double m) -> um2::AxisAlignedBox<D, T>
{
  auto a = genPoint<D, T>(s, m);
  auto b = genPoint<D, T>(s, m);
  for (Int i = 0; i < D; ++i) {
    if (b[i] < a[i]) {
      std::swap(a[i], b[i]);
    }
  }
  return {a, b};
}

template <Int D, class T>
void
setOps(pbt::Src & s, pbt::Case & c)
{
  double const m = s.mag(-2, 4);
  int const n = s.size(1, 12);
  std::vector<um2::Point<D, T>> pts;
  for (int i = 0; i < n; ++i) {
    pts.push_back(genPoint<D, T>(s, m));
  }
  c.desc << "D=" << D << (sizeof(T) == 4 ? " float" : " double") << " points";
  for (auto const & p : pts) {
    c.desc << " " << showp<D, T>(p);
  }
  c.nontrivial(n >= 2);
  auto const bb = um2::boundingBox(pts.data(), static_cast<Int>(n));
  auto const bb2 = um2::boundingBox(pts.data(), pts.data() + n);
  auto acc = um2::AxisAlignedBox<D, T>::empty();
  for (auto const & p : pts) {
    REQUIRE(!(um2::AxisAlignedBox<D, T>::empty().contains(p)), "the empty box contains a point");
    acc += p;
  }
  // union of the boxes of two halves
  int const h = 1 + static_cast<int>(s.below(static_cast<uint64_t>(n)));
  auto u = um2::boundingBox(pts.data(), static_cast<Int>(h));
  if (h < n) {
    auto const second = um2::boundingBox(pts.data() + h, static_cast<Int>(n - h));
    auto const sum = u + second;
    u += second;
    REQUIRE(sum.minima() == u.minima() && sum.maxima() == u.maxima(), "box + box");
  }
  auto const plus = um2::boundingBox(pts.data(), 1) + pts.back();
  for (Int i = 0; i < D; ++i) {
    T lo = pts[0][i];
    T hi = pts[0][i];
    for (auto const & p : pts) {
      lo = std::min(lo, p[i]);
      hi = std::max(hi, p[i]);
    }
    REQUIRE(bb.minima(i) == lo && bb.maxima(i) == hi && bb.minima()[i] == lo &&
                bb.maxima()[i] == hi,
            "bounding box, axis ", i);
    REQUIRE(bb2.minima(i) == lo && bb2.maxima(i) == hi, "bounding box of a range, axis ", i);
    REQUIRE(acc.minima(i) == lo && acc.maxima(i) == hi, "empty box plus points, axis ", i);
    REQUIRE(u.minima(i) == lo && u.maxima(i) == hi, "union of boxes, axis ", i);
    REQUIRE(plus.minima(i) == std::min(pts[0][i], pts.back()[i]) &&
                plus.maxima(i) == std::max(pts[0][i], pts.back()[i]),
            "box plus point, axis ", i);
    REQUIRE(bb.extents(i) == hi - lo && bb.extents()[i] == hi - lo, "extent, axis ", i);
    T const eps = std::numeric_limits<T>::epsilon();
    REQUIRE(std::fabs(L(bb.centroid()[i]) - (L(lo) + L(hi)) / 2) <=
                2 * eps * (std::fabs(lo) + std::fabs(hi)),
            "centroid, axis ", i);
    T const f = static_cast<T>(s.oneIn(4) ? s.irange(0, 3) : s.real(0, 4));
    auto sc = bb;
    sc.scale(f);
    L const half = (L(hi) - L(lo)) / 2 * L(f);
    L const mid = (L(hi) + L(lo)) / 2;
    L const tol = 8 * eps * (std::fabs(L(lo)) + std::fabs(L(hi))) * (1 + L(f));
    REQUIRE(std::fabs(L(sc.minima(i)) - (mid - half)) <= tol &&
                std::fabs(L(sc.maxima(i)) - (mid + half)) <= tol,
            "scaled box, axis ", i, " factor ", f);
  }
  // containment, including exact corners and faces
  for (int k = 0; k < 6; ++k) {
    auto q = genPoint<D, T>(s, m);
    for (Int i = 0; i < D; ++i) {
      switch (s.below(4)) {
      case 1:
        q[i] = bb.minima(i);
        break;
      case 2:
        q[i] = bb.maxima(i);
        break;
      case 3:
        q[i] = pts[s.below(pts.size())][i];
        break;
      default:
        break;
      }
    }
    bool in = true;
    for (Int i = 0; i < D; ++i) {
      in = in && q[i] >= bb.minima(i) && q[i] <= bb.maxima(i);
    }
    REQUIRE(bb.contains(q) == in, "containment of ", showp<D, T>(q));
  }
  // overlap of two boxes
  auto const other = genBox<D, T>(s, m);
  bool meet = true;
  for (Int i = 0; i < D; ++i) {
    meet = meet && std::max(bb.minima(i), other.minima(i)) <= std::min(bb.maxima(i), other.maxima(i));
  }
  c.label(meet ? "overlapping" : "disjoint");
  REQUIRE(bb.intersects(other) == meet && other.intersects(bb) == meet, "overlap with ",
          showp<D, T>(other.minima()), showp<D, T>(other.maxima()));
  // approximate equality: exact copies are, boxes moved by much more than the tolerance
  // are not
  REQUIRE(bb.isApprox(bb), "a box equals itself");
  auto lo2 = bb.minima();
  auto hi2 = bb.maxima();
  T const step = static_cast<T>(10) * um2::epsDistance<T>() + static_cast<T>(m) / 100;
  if (s.coin()) {
    hi2[static_cast<Int>(s.below(D))] += step;
  } else {
    lo2[static_cast<Int>(s.below(D))] -= step;
  }
  REQUIRE(!(bb.isApprox(um2::AxisAlignedBox<D, T>(lo2, hi2))), "a different box is equal");
}

struct Iv {
  L lo, hi;
};
auto
imax(Iv a, Iv b) -> Iv
{
  return {std::max(a.lo, b.lo), std::max(a.hi, b.hi)};
}
auto
imin(Iv a, Iv b) -> Iv
{
  return {std::min(a.lo, b.lo), std::min(a.hi, b.hi)};
}

template <Int D, class T>
void
clip(pbt::Src & s, pbt::Case & c)
{
  double const m = s.mag(-1, 2);
  auto const box = genBox<D, T>(s, m);
  auto o = genPoint<D, T>(s, 2 * m);
  auto const where = s.below(4);
  if (where == 1) { // inside
    for (Int i = 0; i < D; ++i) {
      o[i] = static_cast<T>(box.minima(i) + s.unit() * (box.maxima(i) - box.minima(i)));
    }
  } else if (where == 2) { // exactly on a corner or face plane
    for (Int i = 0; i < D; ++i) {
      if (s.coin()) {
        o[i] = s.coin() ? box.minima(i) : box.maxima(i);
      }
    }
  }
  um2::Point<D, T> d;
  // Aim at a point of the box, or anywhere; possibly axis-parallel.
  if (s.coin()) {
    L n2 = 0;
    for (Int i = 0; i < D; ++i) {
      d[i] = static_cast<T>(box.minima(i) + s.unit() * (box.maxima(i) - box.minima(i)) - o[i]);
      n2 += L(d[i]) * L(d[i]);
    }
    pbt::discardUnless(n2 > 1e-6);
  } else {
    d = genPoint<D, T>(s, 1);
  }
  if (s.oneIn(4)) {
    d[static_cast<Int>(s.below(D))] = 0;
  }
  if (s.oneIn(8) && D > 1) {
    d[static_cast<Int>(s.below(D))] *= static_cast<T>(s.mag(-9, -3));
  }
  L n = 0;
  for (Int i = 0; i < D; ++i) {
    n += L(d[i]) * L(d[i]);
  }
  pbt::discardUnless(n > 1e-12);
  n = std::sqrt(n);
  for (Int i = 0; i < D; ++i) {
    d[i] = static_cast<T>(L(d[i]) / n);
  }
  um2::Ray<D, T> const ray(o, d);
  c.desc << "D=" << D << (sizeof(T) == 4 ? " float" : " double") << " box "
         << showp<D, T>(box.minima()) << showp<D, T>(box.maxima()) << " ray "
         << showp<D, T>(o) << " dir " << showp<D, T>(d);
  // interval oracle
  L const eps = std::numeric_limits<T>::epsilon();
  Iv t0{0, 0};
  Iv t1{L(um2::infDistance<T>()), L(um2::infDistance<T>())};
  L const inf = std::numeric_limits<L>::infinity();
  for (Int i = 0; i < D; ++i) {
    L const lo = box.minima(i);
    L const hi = box.maxima(i);
    if (d[i] == 0) {
      if (L(o[i]) < lo || L(o[i]) > hi) {
        t0 = {inf, inf};
      } else if (L(o[i]) == lo || L(o[i]) == hi) {
        t0.hi = inf; // grazing along a face: either answer
      }
      continue;
    }
    auto slab = [&](L x) -> Iv {
      L const t = (x - L(o[i])) / L(d[i]);
      // origin and plane are exact; their difference is rounded once, the inverse and the
      // product once each
      L const e = 4 * eps * std::fabs(t);
      return {t - e, t + e};
    };
    Iv const a = slab(lo);
    Iv const b = slab(hi);
    t0 = imax(t0, imin(a, b));
    t1 = imin(t1, imax(a, b));
  }
  for (int k = 0; k < 2; ++k) {
    auto const r = k == 0 ? box.intersect(ray) : box.intersect(ray, ray.inverseDirection());
    bool const hit = !(r[0] == -1 && r[1] == -1);
    if (t0.lo > t1.hi) {
      c.label("miss");
      REQUIRE(!hit, "reported ", r[0], " ", r[1], " for a ray that misses");
    } else if (t0.hi < t1.lo) {
      c.label(t0.hi == 0 ? "starts inside" : "passes through");
      c.nontrivial();
      REQUIRE(hit, "a ray through the interior is reported as a miss");
      REQUIRE(L(r[0]) >= t0.lo && L(r[0]) <= t0.hi, "entry ", r[0], " expected ",
              double(t0.lo));
      REQUIRE(L(r[1]) >= t1.lo && L(r[1]) <= t1.hi, "exit ", r[1], " expected ",
              double(t1.lo));
    } else {
      c.label("grazing");
      if (hit && t0.hi < inf) {
        REQUIRE(L(r[0]) >= t0.lo && L(r[1]) <= t1.hi, "grazing hit");
      }
    }
  }
  // the ray itself
  T const x = static_cast<T>(s.real(0, 10));
  auto const p = ray(x);
  for (Int i = 0; i < D; ++i) {
    REQUIRE(std::fabs(L(p[i]) - (L(o[i]) + L(x) * L(d[i]))) <=
                4 * eps * (std::fabs(L(o[i])) + std::fabs(L(x) * L(d[i]))),
            "point along the ray");
  }
}

template <class F>
void
anyDim(pbt::Src & s, F const & f)
{
  bool const flt = s.oneIn(4);
  switch (s.below(3)) {
  case 0:
    return flt ? f(std::integral_constant<Int, 2>(), float())
               : f(std::integral_constant<Int, 2>(), double());
  case 1:
    return flt ? f(std::integral_constant<Int, 3>(), float())
               : f(std::integral_constant<Int, 3>(), double());
  default:
    return flt ? f(std::integral_constant<Int, 1>(), float())
               : f(std::integral_constant<Int, 1>(), double());
  }
}

pbt::Reg const r1("set_operations", 250000, 5000000, "at least two points",
                  [](pbt::Src & s, pbt::Case & c) {
                    anyDim(s, [&](auto d, auto t) { setOps<decltype(d)::value, decltype(t)>(s, c); });
                  });
pbt::Reg const r2("ray_clipping", 400000, 8000000, "the ray passes through the interior",
                  [](pbt::Src & s, pbt::Case & c) {
                    anyDim(s, [&](auto d, auto t) { clip<decltype(d)::value, decltype(t)>(s, c); });
                  });

} // namespace

auto
main(int argc, char ** argv) -> int
{
  pbt::Options o;
  o.assumptions = {"coordinates stay below the library's infinite distance (1e8)",
                   "a ray running exactly along a face may be reported either way"};
  return pbt::run("C09", "random boxes, points and rays in 1 to 3 dimensions", o, argc, argv);
}

// C11: ray-edge intersection finds every crossing and invents none.
// Oracle: the crossing equation solved in extended precision; cases within tolerance of an
// end, a tangency or the ray's origin are only required to be sound.
#include "geo.hpp"

namespace
{

using namespace geo;

template <class T, class Edge>
void
checkEdge(pbt::Case & c, Edge const & e, um2::Ray2<T> const & ray)
{
  Curve const q = curve<T>(e);
  P const o = wide<T>(ray.origin());
  P d = wide<T>(ray.direction());
  L const scale = norm(q.b) + norm(q.a) + norm(q.c) + norm(o) + dist(q.c, o);
  L const eps = std::numeric_limits<T>::epsilon();
  L const tol = 64 * eps * scale * (1 + (norm(q.b) + norm(q.a)) / dist(q.v0, q.v1));
  d = (1 / norm(d)) * d;
  Crossings const ex = crossings(q, o, d, tol);
  T buf[4] = {-77, -77, -77, -77};
  auto const n = e.intersect(ray, buf);
  REQUIRE(n >= 0 && n <= Edge::N - 1, "number of crossings ", n);
  // soundness: every reported crossing is a point of the ray on the edge
  L const margin = 4 * tol + L(1e-9) * (std::is_same_v<T, float> ? L(1e4) : L(1)) *
                                  (norm(q.b) + norm(q.a));
  for (Int i = 0; i < n; ++i) {
    REQUIRE(std::isfinite(buf[i]) && buf[i] >= 0, "distance ", buf[i]);
    L const off = nearest(q, o + L(buf[i]) * d);
    REQUIRE(off <= margin, "reported distance ", buf[i], " is ", double(off),
            " away from the edge");
    if (i > 0) {
      REQUIRE(buf[i] >= buf[i - 1], "crossings are not ordered: ", buf[i - 1], " ", buf[i]);
    }
  }
  bool ambiguous = ex.ambiguous;
  std::vector<Cross> want;
  for (auto const & x : ex.certain) {
    L const te = tol / std::max(std::fabs(x.sine), L(1e-12));
    if (std::fabs(x.t) <= te) {
      ambiguous = true;
    } else if (x.t > 0) {
      want.push_back(x);
    }
    if (std::fabs(x.sine) < 1e-6) {
      ambiguous = true;
    }
  }
  if (ambiguous) {
    c.label("within tolerance of an end, tangency or the origin");
    // every well-separated crossing is still reported
    for (auto const & x : want) {
      if (std::fabs(x.sine) > 0.05 && x.s > 0.01 && x.s < 0.99 && x.t > 0.01 * norm(q.b)) {
        bool found = false;
        for (Int i = 0; i < n; ++i) {
          found = found || std::fabs(L(buf[i]) - x.t) <= margin / 0.05;
        }
        REQUIRE(found, "the crossing at distance ", double(x.t), " is not reported");
      }
    }
    return;
  }
  c.label(want.empty() ? "no crossing" : want.size() == 1 ? "one crossing" : "two crossings");
  c.nontrivial(!want.empty());
  REQUIRE(n == static_cast<Int>(want.size()), "expected ", want.size(), " crossings, got ", n,
          want.empty() ? 0.0 : double(want[0].t));
  for (Int i = 0; i < n; ++i) {
    auto const & x = want[static_cast<size_t>(i)];
    L const te = margin / std::fabs(x.sine);
    REQUIRE(std::fabs(L(buf[i]) - x.t) <= te, "crossing ", i, " at ", buf[i], " expected ",
            double(x.t), " tolerance ", double(te));
  }
}

// A ray near the edge: through a point of the edge, its box or its ends.
template <class T>
auto
genRay(pbt::Src & s, Frame const & f, Curve const & q) -> um2::Ray2<T>
{
  P target;
  switch (s.below(5)) {
  case 0:
    target = f.map({L(s.real(-0.5, 1.5)), L(s.real(-1, 1))});
    break;
  case 1:
    target = s.coin() ? q.v0 : q.v1;
    break;
  default:
    target = q.at(L(s.real(0, 1)));
    break;
  }
  P d{1, 0};
  switch (s.below(4)) {
  case 0: {
    P const axes[4] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}};
    d = axes[s.below(4)];
    break;
  }
  case 1: { // close to the tangent
    d = q.der(L(s.unit()));
    L const w = s.sign() * s.mag(-8, -0.5);
    d = P{d.x - w * d.y, d.y + w * d.x};
    break;
  }
  default: {
    L const a = s.fine(0, 6.283185307179586);
    d = {std::cos(a), std::sin(a)};
    break;
  }
  }
  L n = norm(d);
  if (n < 1e-8L) {
    d = {1, 0};
    n = 1;
  }
  d = (1 / n) * d;
  L back = 0;
  switch (s.below(4)) {
  case 0:
    back = -s.real(0, 2);
    break;
  case 1:
    back = 0;
    break;
  default:
    back = s.real(0, 4);
    break;
  }
  P const o = target - (back * norm(q.v1 - q.v0)) * d;
  auto dd = narrow<T>(d);
  return um2::Ray2<T>(narrow<T>(o), dd);
}

template <class T>
void
lines(pbt::Src & s, pbt::Case & c)
{
  Frame const f = genFrame(s);
  auto const l = genLine<T>(s, f);
  auto const ray = genRay<T>(s, f, curve<T>(l));
  c.desc << (sizeof(T) == 4 ? "float " : "") << str<T>(l) << " ray "
         << str(wide<T>(ray.origin())) << " dir " << str(wide<T>(ray.direction()));
  checkEdge<T>(c, l, ray);
  checkEdge<T>(c, um2::LineSegment2<T>(l[1], l[0]), ray);
}

template <class T>
void
curves(pbt::Src & s, pbt::Case & c)
{
  Frame const f = genFrame(s);
  Bend b{};
  auto const q = genQuadratic<T>(s, f, &b);
  char const * names[] = {"straight", "nearly straight", "mild", "strong"};
  c.label(names[static_cast<int>(b)]);
  auto const ray = genRay<T>(s, f, curve<T>(q));
  c.desc << (sizeof(T) == 4 ? "float " : "") << str<T>(q) << " ray "
         << str(wide<T>(ray.origin())) << " dir " << str(wide<T>(ray.direction()));
  checkEdge<T>(c, q, ray);
  checkEdge<T>(c, um2::QuadraticSegment2<T>(q[1], q[0], q[2]), ray);
}

pbt::Reg const r1("straight_edges", 300000, 6000000, "the ray certainly crosses the edge",
                  [](pbt::Src & s, pbt::Case & c) {
                    s.oneIn(5) ? lines<float>(s, c) : lines<double>(s, c);
                  });
pbt::Reg const r2("curved_edges", 500000, 10000000, "the ray certainly crosses the edge",
                  [](pbt::Src & s, pbt::Case & c) {
                    s.oneIn(5) ? curves<float>(s, c) : curves<double>(s, c);
                  });

} // namespace

auto
main(int argc, char ** argv) -> int
{
  pbt::Options o;
  o.assumptions = {"crossings within rounding of an end of the edge, of tangency or of the "
                   "ray's origin may be reported or not; reported distances are always "
                   "required to lie on the edge"};
  return pbt::run("C11", "random edges and rays aimed at the edge, its ends and tangents", o,
                  argc, argv);
}

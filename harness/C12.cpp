// C12: length, bounds, side, enclosed area and nearest point of edges.
// Oracle: the parametric curve integrated / searched in extended precision.
#include "geo.hpp"

namespace
{

using namespace geo;

auto
bendName(Bend b) -> char const *
{
  char const * names[] = {"straight", "nearly straight", "mild", "strong"};
  return names[static_cast<int>(b)];
}

template <class T>
auto
tolScale() -> L
{
  return std::is_same_v<T, float> ? L(2e5) : L(1);
}

template <class T>
auto
sizeOf(Curve const & q) -> L
{
  return norm(q.c) + norm(q.b) + norm(q.a);
}

// -------------------------------------------------------------- straight edges

template <Int D>
void
straight(pbt::Src & s, pbt::Case & c)
{
  using Pt = um2::Point<D, double>;
  double const scale = s.oneIn(2) ? 1 : s.mag(-2, 3);
  auto point = [&] {
    Pt p;
    for (Int i = 0; i < D; ++i) {
      p[i] = s.oneIn(4) ? double(s.irange(-2, 2)) * scale : scale * s.fine(-3, 3);
    }
    return p;
  };
  Pt const a = point();
  Pt const b = point();
  Pt const p = point();
  L len2 = 0;
  for (Int i = 0; i < D; ++i) {
    len2 += (L(b[i]) - a[i]) * (L(b[i]) - a[i]);
    c.desc << " " << a[i] << "/" << b[i] << "/" << p[i];
  }
  pbt::discardUnless(len2 > 1e-12L * scale * scale);
  um2::LineSegment<D, double> const l(a, b);
  c.nontrivial(true);
  L const len = std::sqrt(len2);
  L const tol = 1e-13L * scale * 10;
  REQUIRE(std::fabs(L(l.length()) - len) <= tol, "length ", l.length(), " ", double(len));
  for (int k = 0; k < 5; ++k) {
    double const r = k == 0 ? 0.0 : k == 1 ? 1.0 : s.unit();
    Pt const q = l(r);
    auto const j = l.jacobian(r);
    for (Int i = 0; i < D; ++i) {
      L const e = L(a[i]) + L(r) * (L(b[i]) - a[i]);
      REQUIRE(std::fabs(L(q[i]) - e) <= tol, "l(", r, ")[", i, "] = ", q[i]);
      REQUIRE(std::fabs(L(j[i]) - (L(b[i]) - a[i])) <= tol, "jacobian[", i, "]");
    }
  }
  auto const bb = l.boundingBox();
  for (Int i = 0; i < D; ++i) {
    REQUIRE(bb.minima(i) == std::min(a[i], b[i]) && bb.maxima(i) == std::max(a[i], b[i]),
            "box along ", i, " is ", bb.minima(i), " ", bb.maxima(i));
  }
  // nearest point
  L t = 0;
  for (Int i = 0; i < D; ++i) {
    t += (L(p[i]) - a[i]) * (L(b[i]) - a[i]);
  }
  t /= len2;
  c.label(t <= 0 ? "before the start" : t >= 1 ? "beyond the end" : "abeam");
  t = std::clamp(t, L(0), L(1));
  L d2 = 0;
  for (Int i = 0; i < D; ++i) {
    L const q = L(a[i]) + t * (L(b[i]) - a[i]);
    d2 += (q - p[i]) * (q - p[i]);
  }
  L const d = std::sqrt(d2);
  double const r = l.pointClosestTo(p);
  REQUIRE(r >= 0 && r <= 1, "nearest parameter ", r);
  REQUIRE(std::fabs(L(r) - t) * len <= tol * (1 + 1 / len * scale), "nearest parameter ", r,
          " expected ", double(t));
  REQUIRE(std::fabs(L(l.distanceTo(p)) - d) <= tol * 10, "distance ", l.distanceTo(p), " ",
          double(d));
  REQUIRE(std::fabs(L(l.squaredDistanceTo(p)) - d2) <= 10 * tol * (scale + d),
          "squared distance ", l.squaredDistanceTo(p));
  if constexpr (D == 2) {
    L const side = lineSide({a[0], a[1]}, {b[0], b[1]}, {p[0], p[1]});
    if (std::fabs(side) > 1e-12L * scale * 10) {
      REQUIRE(l.isLeft(p) == (side > 0), "isLeft ", l.isLeft(p), " signed distance ",
              double(side));
      REQUIRE(um2::LineSegment2<double>(b, a).isLeft(p) == (side < 0), "reversed isLeft");
    } else {
      (void)l.isLeft(p);
    }
    auto const m = l.getRotation();
    auto const v = m * (b - a);
    REQUIRE(std::fabs(L(v[0]) - len) <= tol && std::fabs(v[1]) <= tol,
            "rotation takes the edge to ", v[0], " ", v[1]);
    auto const w = m * (p - a);
    REQUIRE(std::fabs(L(w[1]) - side) <= 10 * tol, "rotation is improper: ", w[1], " ",
            double(side));
  }
}

pbt::Reg const r1("straight_plane", 200000, 4000000, "every case", straight<2>);
pbt::Reg const r2("straight_space", 100000, 2000000, "every case", straight<3>);

// -------------------------------------------------------------- measures

template <class T>
void
measures(pbt::Src & s, pbt::Case & c)
{
  Frame const f = genFrame(s);
  Bend bend{};
  auto const e = genQuadratic<T>(s, f, &bend);
  c.desc << (sizeof(T) == 4 ? "float " : "") << str<T>(e);
  c.label(bendName(bend));
  c.nontrivial(bend != Bend::straight);
  Curve const q = curve<T>(e);
  L const size = sizeOf<T>(q);
  L const chord = dist(q.v0, q.v1);
  L const eps = std::numeric_limits<T>::epsilon();
  L const tol = 100 * eps * size;
  um2::QuadraticSegment2<T> const rev(e[1], e[0], e[2]);

  // interpolation
  for (int k = 0; k < 6; ++k) {
    T const r = k == 0 ? T(0) : k == 1 ? T(1) : k == 2 ? T(0.5) : static_cast<T>(s.unit());
    P const got = wide<T>(e(r));
    REQUIRE(dist(got, q.at(L(r))) <= tol, "Q(", r, ") = ", str(got), " expected ",
            str(q.at(L(r))));
    P const jac = wide<T>(e.jacobian(r));
    REQUIRE(dist(jac, q.der(L(r))) <= tol, "Q'(", r, ") = ", str(jac), " expected ",
            str(q.der(L(r))));
  }
  REQUIRE(dist(wide<T>(e(T(0))), wide<T>(e[0])) <= tol, "start");
  REQUIRE(dist(wide<T>(e(T(1))), wide<T>(e[1])) <= tol, "end");
  REQUIRE(dist(wide<T>(e(T(0.5))), wide<T>(e[2])) <= tol, "middle");

  // box: the tightest one
  L lo[2] = {std::min(q.v0.x, q.v1.x), std::min(q.v0.y, q.v1.y)};
  L hi[2] = {std::max(q.v0.x, q.v1.x), std::max(q.v0.y, q.v1.y)};
  L const aa[2] = {q.a.x, q.a.y};
  L const bb[2] = {q.b.x, q.b.y};
  for (int i = 0; i < 2; ++i) {
    if (aa[i] != 0) {
      L const r = -bb[i] / (2 * aa[i]);
      if (r > 0 && r < 1) {
        P const p = q.at(r);
        L const v = i == 0 ? p.x : p.y;
        lo[i] = std::min(lo[i], v);
        hi[i] = std::max(hi[i], v);
      }
    }
  }
  auto const box = e.boundingBox();
  L const straight_tol = bend <= Bend::nearly ? L(1.1e-7) * (sizeof(T) == 4 ? 10 : 1) : L(0);
  for (Int i = 0; i < 2; ++i) {
    REQUIRE(std::fabs(L(box.minima(i)) - lo[i]) <= tol + straight_tol &&
                std::fabs(L(box.maxima(i)) - hi[i]) <= tol + straight_tol,
            "box along ", i, " [", box.minima(i), ", ", box.maxima(i), "] expected [",
            double(lo[i]), ", ", double(hi[i]), "]");
  }

  // length
  L const len = length(q);
  // The closed form loses |B|/|A| in precision as the edge straightens.
  L const loss = 100 * eps * norm(q.b) / std::max(norm(q.a), L(um2::epsDistance<T>()));
  L const ltol = ((sizeof(T) == 4 ? 1e-4L : 1e-10L) + loss) * len + 100 * eps * size;
  T const got = e.length();
  REQUIRE(std::fabs(L(got) - len) <= ltol, "length ", got, " expected ", double(len));
  T const got_rev = rev.length();
  REQUIRE(std::fabs(L(got_rev) - len) <= ltol, "reversed length ", got_rev, " expected ",
          double(len));

  // area between the chord and the curve, positive when the curve runs to the right of it
  L const area = integrate([&](L r) { return cross(q.at(r) - q.v0, q.der(r)) / 2; }, 1);
  L const atol = 100 * eps * size * (norm(q.a) + norm(q.b));
  T const ga = um2::enclosedArea(e);
  REQUIRE(std::fabs(L(ga) - area) <= atol, "enclosed area ", ga, " expected ", double(area));
  REQUIRE(std::fabs(L(um2::enclosedArea(rev)) + area) <= atol, "reversed enclosed area");

  // centroid of that region
  if (std::fabs(area) > 1e-3L * chord * chord && sizeof(T) == 8) {
    // first moments by the divergence theorem, about v0, curve then back along the chord
    P const o = q.v0;
    L const mx = integrate(
        [&](L r) {
          P const p = q.at(r) - o;
          return p.x * p.x * q.der(r).y / 2;
        },
        2);
    L const my = integrate(
        [&](L r) {
          P const p = q.at(r) - o;
          return -p.y * p.y * q.der(r).x / 2;
        },
        2);
    P const ch = q.v1 - q.v0;
    L const bx = -ch.x * ch.x * ch.y / 6; // the chord, traversed from v1 to v0
    L const by = ch.y * ch.y * ch.x / 6;
    P const cen = o + P{(mx + bx) / area, (my + by) / area};
    P const gc = wide<T>(um2::enclosedCentroid(e));
    REQUIRE(dist(gc, cen) <= 1e-10L * (size + norm(q.c)), "enclosed centroid ", str(gc),
            " expected ", str(cen));
    P const gr = wide<T>(um2::enclosedCentroid(rev));
    REQUIRE(dist(gr, cen) <= 1e-10L * (size + norm(q.c)), "reversed enclosed centroid ",
            str(gr), " expected ", str(cen));
  }

  // bending direction and straightness
  L const h = lineSide(q.v0, q.v1, wide<T>(e[2]));
  L const step = L(um2::epsDistance<T>());
  if (std::fabs(h) > 10 * eps * size) {
    REQUIRE(e.curvesLeft() == (h < 0), "curvesLeft ", e.curvesLeft(), " height ", double(h));
    REQUIRE(rev.curvesLeft() == (h > 0), "reversed curvesLeft");
  }
  if (std::fabs(h) > 1.5L * step + 10 * eps * size) {
    REQUIRE(!um2::isStraight(e), "an edge with its middle node ", double(h),
            " off the chord is called straight");
  } else if (std::fabs(h) < 0.5L * step - 10 * eps * size && bend <= Bend::nearly) {
    REQUIRE(um2::isStraight(e), "an edge with its middle node ", double(h),
            " off the chord is not called straight");
  }
  // rotation
  auto const m = e.getRotation();
  P const v = wide<T>(m * (e[1] - e[0]));
  REQUIRE(std::fabs(v.x - chord) <= tol && std::fabs(v.y) <= tol, "rotation takes the chord to ",
          str(v));
  P const w = wide<T>(m * (e[2] - e[0]));
  REQUIRE(std::fabs(w.y - h) <= tol, "rotation is improper: ", double(w.y), " ", double(h));
}

pbt::Reg const r3("curve_measures", 300000, 4000000, "the edge is not exactly straight",
                  [](pbt::Src & s, pbt::Case & c) {
                    s.oneIn(6) ? measures<float>(s, c) : measures<double>(s, c);
                  });

// -------------------------------------------------------------- queries

auto
genQuery(pbt::Src & s, Frame const & f, um2::QuadraticSegment2<double> const & e, Curve const & q)
    -> P
{
  switch (s.below(7)) {
  case 0:
    return f.map({L(s.fine(-3, 4)), L(s.fine(-3, 3))});
  case 1: // near or on the chord
    return q.v0 + L(s.real(-0.2, 1.2)) * (q.v1 - q.v0) +
           L(s.oneIn(3) ? 0 : s.sign() * s.mag(-17, -1)) *
               P{-(q.v1 - q.v0).y, (q.v1 - q.v0).x};
  case 2: { // near or on the curve
    L const r = s.oneIn(4) ? L(s.irange(0, 2)) / 2 : L(s.real(0, 1));
    P const d = q.der(r);
    L const n = norm(d);
    P const nrm = n > 0 ? P{-d.y / n, d.x / n} : P{0, 1};
    return q.at(r) + (L(s.oneIn(3) ? 0 : s.sign() * s.mag(-17, -0.5)) * dist(q.v0, q.v1)) * nrm;
  }
  case 3: // within the Bezier triangle
  {
    P const ctl = 2 * wide<double>(e[2]) - L(0.5) * (q.v0 + q.v1);
    L u = s.unit();
    L v = s.unit();
    if (u + v > 1) {
      u = 1 - u;
      v = 1 - v;
    }
    return q.v0 + u * (q.v1 - q.v0) + v * (ctl - q.v0);
  }
  case 4: { // exactly a node or the control point
    P const ctl = 2 * wide<double>(e[2]) - L(0.5) * (q.v0 + q.v1);
    P const opts[4] = {q.v0, q.v1, wide<double>(e[2]), ctl};
    return opts[s.below(4)];
  }
  default: // around the edge
    return f.map({L(s.real(-0.5, 1.5)), L(s.real(-1, 1))});
  }
}

void
nearestPoint(pbt::Src & s, pbt::Case & c)
{
  Frame const f = genFrame(s);
  Bend bend{};
  auto const e = genQuadratic<double>(s, f, &bend);
  Curve const q = curve<double>(e);
  auto const p = narrow<double>(genQuery(s, f, e, q));
  c.desc << str<double>(e) << " point " << str(wide<double>(p));
  c.label(bendName(bend));
  L where = 0;
  L const d = nearest(q, wide<double>(p), &where);
  c.label(where <= 0 || where >= 1 ? "nearest at an end" : "nearest inside");
  c.nontrivial(where > 0 && where < 1);
  L const tol = 2e-7L + 1e-8L * (dist(q.v0, q.v1) + d);
  double const r = e.pointClosestTo(p);
  REQUIRE(r >= 0 && r <= 1, "parameter ", r);
  L const at = dist(q.at(L(r)), wide<double>(p));
  REQUIRE(at <= d + tol, "Q(", r, ") is ", double(at), " away but Q(", double(where), ") is ",
          double(d), " away");
  double const got = e.distanceTo(p);
  REQUIRE(std::fabs(L(got) - d) <= tol, "distance ", got, " expected ", double(d));
  double const got2 = e.squaredDistanceTo(p);
  REQUIRE(std::fabs(L(got2) - d * d) <= tol * (2 * d + tol), "squared distance ", got2,
          " expected ", double(d * d));
}

pbt::Reg const r4("curve_nearest", 150000, 3000000, "the nearest point is interior to the edge",
                  nearestPoint);

void
side(pbt::Src & s, pbt::Case & c)
{
  Frame const f = genFrame(s);
  Bend bend{};
  auto const e = genQuadratic<double>(s, f, &bend);
  Curve const q = curve<double>(e);
  auto const p = narrow<double>(genQuery(s, f, e, q));
  P const w = wide<double>(p);
  c.desc << str<double>(e) << " point " << str(w);
  c.label(bendName(bend));
  bool const got = e.isLeft(p);
  bool const rev = um2::QuadraticSegment2<double>(e[1], e[0], e[2]).isLeft(p);
  // The edge, continued along its chord line, separates left from right.
  L const ch = lineSide(q.v0, q.v1, w);
  L const t = dot(w - q.v0, q.v1 - q.v0) / dot(q.v1 - q.v0, q.v1 - q.v0);
  L const tol = 1.1e-7L + 1e-9L * (dist(q.v0, q.v1) + norm(q.c));
  L const d = nearest(q, w);
  // A point on the chord itself is on the side away from the bulge.
  L const h = lineSide(q.v0, q.v1, wide<double>(e[2]));
  bool const on_chord = std::fabs(ch) < tol && t > 0 && t < 1 && std::fabs(h) > 2 * tol;
  if (d < tol || (std::fabs(ch) < tol && !on_chord)) {
    c.label("within tolerance of the edge");
    return;
  }
  bool inside = false;
  L const den = cross(q.b, q.a);
  if (std::fabs(den) > 0) {
    P const dd = w - q.v0;
    L const u = cross(dd, q.a) / den;
    L const v = -cross(dd, q.b) / den;
    inside = v > u * u && v < u;
  }
  c.nontrivial(inside || on_chord);
  c.label(on_chord ? "on the chord" : inside ? "between chord and curve" : "elsewhere");
  bool const want = on_chord ? h < 0 : (ch > 0) != inside;
  REQUIRE(got == want, "isLeft ", got, " but the point is to the ", want ? "left" : "right");
  REQUIRE(rev == !want, "reversed isLeft ", rev);
}

pbt::Reg const r5("curve_side", 300000, 4000000, "the point lies between the chord and the curve",
                  side);

} // namespace

auto
main(int argc, char ** argv) -> int
{
  pbt::Options o;
  o.assumptions = {"an edge whose middle node is within 1e-7 of the chord counts as straight",
                   "the middle node of a (nearly) straight edge projects onto the middle 40% of "
                   "the chord"};
  return pbt::run("C12", "random edges of all curvatures and query points around them", o, argc,
                  argv);
}

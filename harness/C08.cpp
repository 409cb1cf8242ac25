// C08: polynomial solvers return exactly the real roots.
// Oracle: quadruple-precision discriminant and bisection on the monotone pieces.
#include "pbt.hpp"

#include <um2/math/cubic_equation.hpp>
#include <um2/math/quadratic_equation.hpp>

#include <algorithm>
#include <limits>

namespace
{

using Q = __float128;

auto
qabs(Q x) -> Q
{
  return x < 0 ? -x : x;
}

auto
qsqrt(Q x) -> Q
{
  if (x <= 0) {
    return 0;
  }
  Q y = std::sqrt(static_cast<long double>(x));
  if (y == 0) {
    return 0;
  }
  y = (y + x / y) / 2;
  return (y + x / y) / 2;
}

template <class T>
auto
valid(T x) -> bool
{
  return x != T(1e16);
}

// A coefficient: small integers, zero, or a signed log-uniform magnitude.
template <class T>
auto
coef(pbt::Src & s, double m) -> T
{
  switch (s.below(5)) {
  case 0:
    return T(0);
  case 1:
    return static_cast<T>(s.irange(-6, 6));
  case 2:
    return static_cast<T>(s.fine(-2, 2));
  default:
    return static_cast<T>(s.sign() * s.mag(-m, m));
  }
}

template <class T>
void
quadratic(pbt::Src & s, pbt::Case & c)
{
  double const m = std::is_same_v<T, float> ? 2 : 5;
  T a = 0;
  T b = 0;
  T d = 0;
  auto const kind = s.below(5);
  if (kind == 1) { // from roots
    T const r1 = coef<T>(s, m / 2);
    T const r2 = s.oneIn(3) ? r1 : s.oneIn(3) ? static_cast<T>(-r1) : coef<T>(s, m / 2);
    a = coef<T>(s, 1);
    b = -a * (r1 + r2);
    d = a * r1 * r2;
  } else if (kind == 2) { // nearly a perfect square
    T const r1 = coef<T>(s, m / 2);
    a = 1;
    b = -2 * r1;
    d = r1 * r1 * (1 + static_cast<T>(s.sign() * s.mag(-18, -2)));
  } else if (kind == 3) { // strong cancellation in the small root
    a = static_cast<T>(s.sign() * s.mag(-m, 0));
    b = static_cast<T>(s.sign() * s.mag(0, m));
    d = static_cast<T>(s.sign() * s.mag(-m, 0));
  } else {
    a = coef<T>(s, m);
    b = coef<T>(s, m);
    d = coef<T>(s, m);
  }
  pbt::discardUnless(a != 0 || b != 0); // documented as not handled
  c.desc.precision(17);
  c.desc << (sizeof(T) == 4 ? "float " : "double ") << a << " x^2 + " << b << " x + " << d;
  auto const r = um2::solveQuadratic(a, b, d);
  c.desc << " -> " << r[0] << ", " << r[1];
  Q const eps = std::numeric_limits<T>::epsilon();
  if (a == 0) {
    c.label("linear");
    Q const x = -Q(d) / Q(b);
    REQUIRE(qabs(Q(r[0]) - x) <= 4 * eps * qabs(x), "root of a linear equation");
    REQUIRE(!valid(r[1]), "a linear equation has one root");
    return;
  }
  c.nontrivial(b != 0 && d != 0);
  Q const disc = Q(b) * Q(b) - 4 * Q(a) * Q(d);
  Q const delta = 8 * eps * (Q(b) * Q(b) + 4 * qabs(Q(a) * Q(d)));
  if (disc < -delta || (b == 0 && disc < 0)) {
    c.label("no real root");
    REQUIRE(!valid(r[0]) && !valid(r[1]), "there is no real root");
    return;
  }
  bool const near_double = qabs(disc) <= delta;
  c.label(near_double ? "double root" : "two roots");
  if (near_double && !valid(r[0]) && !valid(r[1]) && disc != 0) {
    return;
  }
  REQUIRE(valid(r[0]) && valid(r[1]), "both real roots must be returned");
  REQUIRE(r[0] <= r[1], "roots are returned in increasing order");
  Q const root = qsqrt(disc);
  Q const q = -(Q(b) + (b < 0 ? -root : root)) / 2;
  Q x0 = q / Q(a);
  Q x1 = q == 0 ? -x0 : Q(d) / q;
  if (b == 0) {
    x0 = -qsqrt(-Q(d) / Q(a));
    x1 = -x0;
  }
  if (x0 > x1) {
    std::swap(x0, x1);
  }
  // Perturbing the coefficients by their rounding changes sqrt(disc) by at most:
  Q const dr = near_double ? qsqrt(delta) : std::min(Q(qsqrt(delta)), Q(delta / root));
  Q const rel = (q == 0 || b == 0 ? Q(0) : dr / qabs(q)) + 8 * eps;
  REQUIRE(qabs(Q(r[0]) - x0) <= rel * qabs(x0), "lower root ", r[0], " expected ",
          double(x0));
  REQUIRE(qabs(Q(r[1]) - x1) <= rel * qabs(x1), "upper root ", r[1], " expected ",
          double(x1));
}

struct Poly {
  Q a, b, c, d;
  [[nodiscard]] auto
  at(Q x) const -> Q
  {
    return ((a * x + b) * x + c) * x + d;
  }
  [[nodiscard]] auto
  terms(Q x) const -> Q
  {
    Q const ax = qabs(x);
    return ((qabs(a) * ax + qabs(b)) * ax + qabs(c)) * ax + qabs(d);
  }
};

auto
bisect(Poly const & p, Q lo, Q hi) -> Q
{
  bool const up = p.at(hi) > 0;
  for (int i = 0; i < 220; ++i) {
    Q const m = (lo + hi) / 2;
    if ((p.at(m) > 0) == up) {
      hi = m;
    } else {
      lo = m;
    }
  }
  return (lo + hi) / 2;
}

template <class T>
void
cubic(pbt::Src & s, pbt::Case & c)
{
  double const m = std::is_same_v<T, float> ? 1.5 : 4;
  T a = 0;
  T b = 0;
  T g = 0;
  T d = 0;
  auto const kind = s.below(5);
  if (kind <= 1) { // from three roots, possibly repeated
    T const r1 = coef<T>(s, m / 2);
    T const r2 = s.oneIn(5) ? r1 : coef<T>(s, m / 2);
    T const r3 = s.oneIn(5) ? r2 : coef<T>(s, m / 2);
    a = coef<T>(s, 1);
    b = -a * (r1 + r2 + r3);
    g = a * (r1 * r2 + r2 * r3 + r1 * r3);
    d = -a * r1 * r2 * r3;
  } else if (kind == 2) { // one real root and a complex pair
    T const r1 = coef<T>(s, m / 2);
    T const re = coef<T>(s, m / 2);
    T const im = coef<T>(s, m / 2);
    a = coef<T>(s, 1);
    T const mod = re * re + im * im;
    b = a * (-2 * re - r1);
    g = a * (mod + 2 * re * r1);
    d = -a * mod * r1;
  } else {
    a = coef<T>(s, m);
    b = coef<T>(s, m);
    g = coef<T>(s, m);
    d = coef<T>(s, m);
  }
  pbt::discardUnless(a != 0);
  c.desc.precision(17);
  c.desc << (sizeof(T) == 4 ? "float " : "double ") << a << " x^3 + " << b << " x^2 + " << g
         << " x + " << d;
  auto const r = um2::solveCubic(a, b, g, d);
  c.desc << " -> " << r[0] << ", " << r[1] << ", " << r[2];
  c.nontrivial(d != 0 && (b != 0 || g != 0));
  Poly const p{a, b, g, d};
  Q const eps = std::numeric_limits<T>::epsilon();
  // Returned values: sorted, valid ones first, each satisfies the equation.
  REQUIRE(r[0] <= r[1] && r[1] <= r[2], "roots are returned in increasing order");
  Q const xi = -p.b / (3 * p.a);
  Q const dd = p.b * p.b - 3 * p.a * p.c;
  Q const dscale = p.b * p.b + 3 * qabs(p.a * p.c);
  Q const e23 = std::pow(static_cast<long double>(eps), 2.0L / 3);
  if (qabs(dd) <= 100 * e23 * dscale && qabs(p.at(xi)) <= 10000 * eps * p.terms(xi)) {
    // Indistinguishable from a triple root in the given precision.
    c.label("close to a triple root");
    return;
  }
  // A shifted pure cube: the root is the inflection point plus a cube root, so its error has the
  // size of the inflection point's
  bool const cube = qabs(dd) <= 1000 * eps * dscale;
  int n = 0;
  for (int i = 0; i < 3; ++i) {
    if (valid(r[i])) {
      ++n;
      REQUIRE(std::isfinite(r[i]), "root ", i);
      Q const x = r[i];
      REQUIRE(qabs(p.at(x)) <= 200 * eps * p.terms(cube ? std::max(qabs(x), qabs(xi)) : x), "root ", i, " leaves ",
              double(p.at(x)), " of terms ", double(p.terms(x)));
    }
  }
  REQUIRE(n == 1 || n == 3, "number of roots ", n);
  // True roots
  Q bound = 1 + std::max({qabs(p.b / p.a), qabs(p.c / p.a), qabs(p.d / p.a)});
  std::vector<Q> knots = {-bound};
  bool ambiguous = false;
  if (dd > 0) {
    Q const q = -(p.b + (p.b < 0 ? -qsqrt(dd) : qsqrt(dd)));
    Q x0 = q / (3 * p.a);
    Q x1 = p.c / q;
    if (x0 > x1) {
      std::swap(x0, x1);
    }
    for (Q const x : {x0, x1}) {
      knots.push_back(x);
      ambiguous = ambiguous || qabs(p.at(x)) <= 1000 * eps * p.terms(x);
    }
  }
  ambiguous = ambiguous || (dd <= 0 && qabs(dd) <= 1000 * eps * dscale);
  knots.push_back(bound);
  std::vector<Q> roots;
  for (size_t i = 0; i + 1 < knots.size(); ++i) {
    Q const f0 = p.at(knots[i]);
    Q const f1 = p.at(knots[i + 1]);
    if ((f0 < 0) != (f1 < 0)) {
      roots.push_back(bisect(p, knots[i], knots[i + 1]));
    }
  }
  if (ambiguous) {
    c.label("close to a repeated root");
    return;
  }
  c.label(roots.size() == 3 ? "three roots" : "one root");
  REQUIRE(n == static_cast<int>(roots.size()), "real roots ", roots.size());
  for (int i = 0; i < n; ++i) {
    Q const x = roots[static_cast<size_t>(i)];
    Q const slope = qabs((3 * p.a * x + 2 * p.b) * x + p.c);
    Q const tol =
        400 * eps * p.terms(x) / slope + 8 * eps * qabs(x) + bound * Q(1e-30); // bisection
    // first-order error bound; only meaningful while small against the distance to the
    // neighbouring critical point
    REQUIRE(qabs(Q(r[i]) - x) <= 4 * tol, "root ", i, " is ", r[i], " expected ",
            double(x), " tolerance ", double(4 * tol));
  }
}

pbt::Reg const r1("quadratic", 400000, 6000000, "all three coefficients non-zero",
                  [](pbt::Src & s, pbt::Case & c) {
                    s.oneIn(4) ? quadratic<float>(s, c) : quadratic<double>(s, c);
                  });
pbt::Reg const r2("cubic", 120000, 3000000,
                  "non-zero constant term and a non-zero middle coefficient",
                  [](pbt::Src & s, pbt::Case & c) {
                    s.oneIn(4) ? cubic<float>(s, c) : cubic<double>(s, c);
                  });

} // namespace

auto
main(int argc, char ** argv) -> int
{
  pbt::Options o;
  o.assumptions = {
      "magnitudes keep every intermediate far from overflow and underflow",
      "close to a repeated root (within a few hundred roundings of the terms) the number "
      "of roots reported may go either way"};
  return pbt::run("C08", "random coefficients, polynomials built from roots, near-squares",
                  o, argc, argv);
}

// C06: fixed-size vectors and matrices obey the definitions of linear algebra.
// Oracle: component formulas in extended precision (128-bit for determinants).
#include "pbt.hpp"

#include <um2/geometry/point.hpp>
#include <um2/math/mat.hpp>
#include <um2/math/vec.hpp>

#include <array>
#include <limits>
#include <type_traits>

namespace
{

using F128 = __float128;

template <class T>
auto
genComp(pbt::Src & s, double scale) -> T
{
  if constexpr (std::is_floating_point_v<T>) {
    switch (s.below(4)) {
    case 0:
      return static_cast<T>(s.irange(-8, 8));
    case 1:
      return static_cast<T>(scale * s.fine(-1, 1));
    case 2:
      return static_cast<T>(s.sign() * s.mag(-3, 3));
    default:
      return static_cast<T>(s.irange(-64, 64)) / 16;
    }
  } else if constexpr (std::is_unsigned_v<T>) {
    return static_cast<T>(s.below(1000));
  } else {
    return static_cast<T>(s.irange(-1000, 1000));
  }
}

template <Int D, class T>
auto
genVec(pbt::Src & s) -> um2::Vec<D, T>
{
  um2::Vec<D, T> v;
  double const scale = s.mag(-6, 6);
  for (Int i = 0; i < D; ++i) {
    v[i] = genComp<T>(s, scale);
  }
  return v;
}

template <Int D, class T>
auto
str(um2::Vec<D, T> const & v) -> std::string
{
  return pbt::show(std::vector<T>(v.begin(), v.end()));
}

template <Int D, class T>
void
vectors(pbt::Src & s, pbt::Case & c)
{
  using V = um2::Vec<D, T>;
  V const u = genVec<D, T>(s);
  V v = genVec<D, T>(s);
  if (s.oneIn(3)) { // share a prefix, to exercise lexicographic order
    auto const k = s.below(D + 1);
    for (Int i = 0; i < static_cast<Int>(k); ++i) {
      v[i] = u[i];
    }
  }
  c.desc << "D=" << D << " T=" << (std::is_floating_point_v<T> ? "f" : "i") << 8 * sizeof(T)
         << " u=" << str(u) << " v=" << str(v);
  c.nontrivial(true);
  // storage
  REQUIRE(u.end() - u.begin() == D, "iterator range");
  for (Int i = 0; i < D; ++i) {
    REQUIRE(&u[i] == u.begin() + i, "element ", i, " is not at its place");
  }
  bool const fp = std::is_floating_point_v<T>;
  double const eps = fp ? 2 * static_cast<double>(std::numeric_limits<T>::epsilon()) : 0;
  auto near = [&](T got, double want, double size) {
    return fp ? std::abs(static_cast<double>(got) - want) <= eps * size + 1e-300
              : static_cast<T>(static_cast<int64_t>(want)) == got;
  };
  auto each = [&](V const & r, auto const & f, char const * what) {
    for (Int i = 0; i < D; ++i) {
      double const w = f(i);
      REQUIRE(near(r[i], w, std::abs(w) * 1.0), what, " component ", i, " = ", +r[i],
              " expected ", w);
    }
  };
  auto du = [&](Int i) { return static_cast<double>(u[i]); };
  auto dv = [&](Int i) { return static_cast<double>(v[i]); };
  each(u + v, [&](Int i) { return static_cast<double>(static_cast<T>(u[i] + v[i])); }, "u+v");
  each(u - v, [&](Int i) { return static_cast<double>(static_cast<T>(u[i] - v[i])); }, "u-v");
  each(u * v, [&](Int i) { return du(i) * dv(i); }, "u*v");
  each(-u, [&](Int i) { return static_cast<double>(static_cast<T>(-u[i])); }, "-u");
  {
    V w = u;
    w += v;
    each(w, [&](Int i) { return static_cast<double>(static_cast<T>(u[i] + v[i])); }, "u+=v");
    w = u;
    w -= v;
    each(w, [&](Int i) { return static_cast<double>(static_cast<T>(u[i] - v[i])); }, "u-=v");
    w = u;
    w *= v;
    each(w, [&](Int i) { return du(i) * dv(i); }, "u*=v");
    w = u;
    w += w;
    each(w, [&](Int i) { return static_cast<double>(static_cast<T>(u[i] + u[i])); }, "u+=u");
  }
  bool vnz = true;
  for (Int i = 0; i < D; ++i) {
    vnz = vnz && v[i] != T(0);
  }
  if (vnz) {
    each(u / v, [&](Int i) { return fp ? du(i) / dv(i) : std::trunc(du(i) / dv(i)); }, "u/v");
    V w = u;
    w /= v;
    each(w, [&](Int i) { return fp ? du(i) / dv(i) : std::trunc(du(i) / dv(i)); }, "u/=v");
    each(T(7) / v, [&](Int i) { return fp ? 7 / dv(i) : std::trunc(7 / dv(i)); }, "7/v");
  }
  T const k = genComp<T>(s, 10);
  auto const dk = static_cast<double>(k);
  each(u + k, [&](Int i) { return static_cast<double>(static_cast<T>(u[i] + k)); }, "u+k");
  each(k + u, [&](Int i) { return static_cast<double>(static_cast<T>(u[i] + k)); }, "k+u");
  each(u - k, [&](Int i) { return static_cast<double>(static_cast<T>(u[i] - k)); }, "u-k");
  each(k - u, [&](Int i) { return static_cast<double>(static_cast<T>(k - u[i])); }, "k-u");
  each(u * k, [&](Int i) { return du(i) * dk; }, "u*k");
  each(k * u, [&](Int i) { return du(i) * dk; }, "k*u");
  if (k != T(0)) {
    each(u / k, [&](Int i) { return fp ? du(i) / dk : std::trunc(du(i) / dk); }, "u/k");
  }
  {
    V w = u;
    w = k;
    each(w, [&](Int) { return dk; }, "assign scalar");
    w = u;
    w += 3;
    each(w, [&](Int i) { return static_cast<double>(static_cast<T>(u[i] + 3)); }, "u+=3");
    w = u;
    w *= 3;
    each(w, [&](Int i) { return du(i) * 3; }, "u*=3");
    w = u;
    w /= 4;
    each(w, [&](Int i) { return fp ? du(i) / 4 : std::trunc(du(i) / 4); }, "u/=4");
    if constexpr (!std::is_unsigned_v<T>) {
      w = u;
      w -= 3;
      each(w, [&](Int i) { return static_cast<double>(static_cast<T>(u[i] - 3)); }, "u-=3");
    }
  }
  each(V::zero(), [](Int) { return 0.0; }, "zero");
  each(um2::min(u, v), [&](Int i) { return std::min(du(i), dv(i)); }, "min");
  each(um2::max(u, v), [&](Int i) { return std::max(du(i), dv(i)); }, "max");
  // order: exactly lexicographic
  std::array<T, D> au{};
  std::array<T, D> av{};
  for (Int i = 0; i < D; ++i) {
    au[static_cast<size_t>(i)] = u[i];
    av[static_cast<size_t>(i)] = v[i];
  }
  REQUIRE((u == v) == (au == av) && (u != v) == (au != av), "equality");
  REQUIRE((u < v) == (au < av) && (u <= v) == (au <= av) && (u > v) == (au > av) &&
              (u >= v) == (au >= av),
          "order");
  // inner products and norms
  double dot = 0;
  double dabs = 0;
  double sq = 0;
  double dist2 = 0;
  for (Int i = 0; i < D; ++i) {
    dot += du(i) * dv(i);
    dabs += std::abs(du(i) * dv(i));
    sq += du(i) * du(i);
    double const d = static_cast<double>(static_cast<T>(u[i] - v[i]));
    dist2 += d * d;
  }
  REQUIRE(near(u.dot(v), dot, D * dabs), "dot ", +u.dot(v), " expected ", dot);
  REQUIRE(near(um2::dot(u, v), dot, D * dabs), "free dot");
  REQUIRE(near(u.squaredNorm(), sq, D * sq), "squared norm ", +u.squaredNorm(),
          " expected ", sq);
  if constexpr (std::is_floating_point_v<T>) {
    REQUIRE(near(u.norm(), std::sqrt(sq), D * std::sqrt(sq)), "norm");
    REQUIRE(near(um2::norm(u), std::sqrt(sq), D * std::sqrt(sq)), "free norm");
    REQUIRE(near(u.squaredDistanceTo(v), dist2, (D + 2) * dist2), "squared distance");
    REQUIRE(near(u.distanceTo(v), std::sqrt(dist2), (D + 2) * std::sqrt(dist2)),
            "distance");
    REQUIRE(u.distanceTo(v) == v.distanceTo(u), "distance is not symmetric");
    if (sq > 0) {
      V const n = u.normalized();
      each(n, [&](Int i) { return static_cast<double>(n[i]); }, "self");
      for (Int i = 0; i < D; ++i) {
        REQUIRE(std::abs(n[i] - du(i) / std::sqrt(sq)) <= (D + 4) * eps, "normalized ", i);
      }
      V w = u;
      w.normalize();
      REQUIRE(w == n, "normalize and normalized differ");
    }
    V const mid = um2::midpoint(u, v);
    for (Int i = 0; i < D; ++i) {
      REQUIRE(std::abs(mid[i] - (du(i) + dv(i)) / 2) <= eps * (std::abs(du(i)) + std::abs(dv(i))),
              "midpoint");
    }
    T const tol2 = static_cast<T>(s.mag(-8, 4));
    if (std::abs(dist2 - static_cast<double>(tol2)) > 1e-4 * dist2) {
      REQUIRE(u.isApprox(v, tol2) == (dist2 < static_cast<double>(tol2)),
              "approximate equality at squared distance ", dist2, " tolerance ", +tol2);
    }
    REQUIRE(u.isApprox(u), "a vector is not near itself");
  }
}

// Planar and spatial cross products, including nearly parallel vectors: the sign must
// be that of the exact value.
template <class T>
void
crosses(pbt::Src & s, pbt::Case & c)
{
  auto exact = [](T a, T b, T cc, T d) {
    return static_cast<F128>(a) * static_cast<F128>(d) -
           static_cast<F128>(b) * static_cast<F128>(cc);
  };
  auto checkDet = [&](T got, T a, T b, T cc, T d, char const * what) {
    F128 const w = exact(a, b, cc, d);
    // Products that underflow carry no relative accuracy.
    double const tiny = static_cast<double>(std::numeric_limits<T>::min()) /
                        static_cast<double>(std::numeric_limits<T>::epsilon());
    for (double const p : {double(a) * double(d), double(b) * double(cc)}) {
      if (p != 0 && std::abs(p) < tiny) {
        return;
      }
    }
    auto const ww = static_cast<double>(w);
    auto const eps = static_cast<double>(std::numeric_limits<T>::epsilon());
    if (w == 0) {
      REQUIRE(got == 0, what, ": ", got, " expected exactly 0");
    } else {
      REQUIRE((got > 0) == (ww > 0) && got != 0, what, ": sign of ", got, " expected ", ww);
      REQUIRE(std::abs(static_cast<double>(got) - ww) <= 4 * eps * std::abs(ww), what,
              ": ", got, " expected ", ww);
    }
  };
  um2::Vec2<T> u = genVec<2, T>(s);
  um2::Vec2<T> v = genVec<2, T>(s);
  bool const close = s.coin();
  if (close) { // nearly parallel
    T const k = static_cast<T>(s.sign() * s.mag(-2, 2));
    v = u * k;
    auto const ulps = s.irange(0, 3);
    for (int i = 0; i < ulps && v[0] != 0; ++i) {
      v[0] = std::nextafter(v[0], T(1e30));
    }
  }
  c.desc << "u=" << str(u) << " v=" << str(v);
  c.nontrivial(close);
  checkDet(u.cross(v), u[0], u[1], v[0], v[1], "2-d cross product");
  checkDet(um2::cross(u, v), u[0], u[1], v[0], v[1], "2-d cross product");
  um2::Vec3<T> a = genVec<3, T>(s);
  um2::Vec3<T> b = close ? a * static_cast<T>(s.real(-3, 3)) : genVec<3, T>(s);
  auto const w = a.cross(b);
  checkDet(w[0], a[1], a[2], b[1], b[2], "3-d cross product x");
  checkDet(w[1], a[2], a[0], b[2], b[0], "3-d cross product y");
  checkDet(w[2], a[0], a[1], b[0], b[1], "3-d cross product z");
  REQUIRE(um2::cross(a, b) == w, "free cross product");
  // counter-clockwise test of three points
  um2::Point2<T> const o = um2::Point2<T>(static_cast<T>(s.irange(-4, 4)), static_cast<T>(s.irange(-4, 4)));
  um2::Point2<T> const p(static_cast<T>(s.irange(-8, 8)), static_cast<T>(s.irange(-8, 8)));
  um2::Point2<T> const q(static_cast<T>(s.irange(-8, 8)), static_cast<T>(s.irange(-8, 8)));
  T const det = (p[0] - o[0]) * (q[1] - o[1]) - (p[1] - o[1]) * (q[0] - o[0]);
  REQUIRE(um2::areCCW(o, p, q) == (det >= 0), "orientation of three points");
  REQUIRE(um2::areApproxCCW(o, p, q) == (det >= 0), "approximate orientation");
}

template <Int M, Int N, Int P, class T>
void
matrices(pbt::Src & s, pbt::Case & c)
{
  um2::Mat<M, N, T> a;
  um2::Mat<M, N, T> a2;
  um2::Mat<N, P, T> b;
  double const sc = s.mag(-3, 3);
  for (Int j = 0; j < N; ++j) {
    for (Int i = 0; i < M; ++i) {
      a(i, j) = genComp<T>(s, sc);
      a2(i, j) = genComp<T>(s, sc);
    }
  }
  for (Int j = 0; j < P; ++j) {
    for (Int i = 0; i < N; ++i) {
      b(i, j) = genComp<T>(s, sc);
    }
  }
  c.desc << M << "x" << N << " times " << N << "x" << P << " a(0,0)=" << +a(0, 0);
  c.nontrivial(M != N || N != P);
  bool const fp = std::is_floating_point_v<T>;
  double const eps = fp ? 2 * static_cast<double>(std::numeric_limits<T>::epsilon()) : 0;
  for (Int j = 0; j < N; ++j) {
    for (Int i = 0; i < M; ++i) {
      REQUIRE(&a(j * M + i) == &a(i, j), "linear index");
      REQUIRE(a.col(j)[i] == a(i, j), "column access");
    }
  }
  auto const sum = a + a2;
  auto const dif = a - a2;
  for (Int i = 0; i < M * N; ++i) {
    REQUIRE(sum(i) == static_cast<T>(a(i) + a2(i)), "sum");
    REQUIRE(dif(i) == static_cast<T>(a(i) - a2(i)), "difference");
  }
  um2::Vec<N, T> x;
  for (Int i = 0; i < N; ++i) {
    x[i] = genComp<T>(s, sc);
  }
  um2::Vec<M, T> const y = a * x;
  auto const ab = a * b;
  for (Int i = 0; i < M; ++i) {
    double w = 0;
    double wa = 0;
    for (Int k = 0; k < N; ++k) {
      w += static_cast<double>(a(i, k)) * static_cast<double>(x[k]);
      wa += std::abs(static_cast<double>(a(i, k)) * static_cast<double>(x[k]));
    }
    REQUIRE(std::abs(static_cast<double>(y[i]) - w) <= N * eps * wa, "matrix-vector row ",
            i, " = ", +y[i], " expected ", w);
    for (Int j = 0; j < P; ++j) {
      w = 0;
      wa = 0;
      for (Int k = 0; k < N; ++k) {
        w += static_cast<double>(a(i, k)) * static_cast<double>(b(k, j));
        wa += std::abs(static_cast<double>(a(i, k)) * static_cast<double>(b(k, j)));
      }
      REQUIRE(std::abs(static_cast<double>(ab(i, j)) - w) <= N * eps * wa,
              "matrix product (", i, ",", j, ") = ", +ab(i, j), " expected ", w);
    }
  }
  auto const z = um2::Mat<M, N, T>::zero();
  for (Int i = 0; i < M * N; ++i) {
    REQUIRE(z(i) == 0, "zero matrix");
  }
  auto const id = um2::Mat<M, M, T>::identity();
  for (Int i = 0; i < M; ++i) {
    for (Int j = 0; j < M; ++j) {
      REQUIRE(id(i, j) == static_cast<T>(i == j ? 1 : 0), "identity");
    }
  }
}

template <class T>
void
small(pbt::Src & s, pbt::Case & c)
{
  um2::Mat2x2<T> m;
  double const sc = s.mag(-3, 3);
  for (Int i = 0; i < 4; ++i) {
    m(i) = genComp<T>(s, sc);
  }
  auto const det = static_cast<double>(static_cast<F128>(m(0, 0)) * static_cast<F128>(m(1, 1)) -
                                       static_cast<F128>(m(0, 1)) * static_cast<F128>(m(1, 0)));
  c.desc << "[" << m(0, 0) << " " << m(0, 1) << "; " << m(1, 0) << " " << m(1, 1) << "]";
  auto const eps = static_cast<double>(std::numeric_limits<T>::epsilon());
  if (det != 0) {
    c.nontrivial(true);
    auto const r = um2::inv(m);
    double const w[4] = {m(1, 1) / det, -m(1, 0) / det, -m(0, 1) / det, m(0, 0) / det};
    for (Int i = 0; i < 4; ++i) {
      REQUIRE(std::abs(static_cast<double>(r(i)) - w[i]) <= 8 * eps * std::abs(w[i]),
              "inverse entry ", i, " = ", r(i), " expected ", w[i]);
    }
  }
  T const ang = static_cast<T>(s.real(-10, 10));
  auto const rot = um2::makeRotationMatrix(ang);
  double const cs = std::cos(static_cast<double>(ang));
  double const sn = std::sin(static_cast<double>(ang));
  double const want[2][2] = {{cs, -sn}, {sn, cs}};
  for (Int i = 0; i < 2; ++i) {
    for (Int j = 0; j < 2; ++j) {
      REQUIRE(std::abs(static_cast<double>(rot(i, j)) - want[i][j]) <= 4 * eps,
              "rotation by ", ang, " entry ", i, j);
    }
  }
}

template <Int D>
void
anyType(pbt::Src & s, pbt::Case & c)
{
  switch (s.below(5)) {
  case 0:
    return vectors<D, double>(s, c);
  case 1:
    return vectors<D, float>(s, c);
  case 2:
    return vectors<D, int32_t>(s, c);
  case 3:
    return vectors<D, uint32_t>(s, c);
  default:
    return vectors<D, int64_t>(s, c);
  }
}

template <class T>
void
anyShape(pbt::Src & s, pbt::Case & c)
{
  switch (s.below(10)) {
  case 0:
    return matrices<2, 2, 2, T>(s, c);
  case 1:
    return matrices<2, 3, 4, T>(s, c);
  case 2:
    return matrices<4, 3, 2, T>(s, c);
  case 3:
    return matrices<3, 1, 3, T>(s, c);
  case 4:
    return matrices<1, 4, 1, T>(s, c);
  case 5:
    return matrices<3, 3, 3, T>(s, c);
  case 6:
    return matrices<3, 2, 5, T>(s, c);
  case 7:
    return matrices<4, 4, 4, T>(s, c);
  case 8:
    return matrices<2, 4, 3, T>(s, c);
  default:
    return matrices<5, 4, 2, T>(s, c);
  }
}

pbt::Reg const r1("vectors", 300000, 4000000, "every case (random components)",
                  [](pbt::Src & s, pbt::Case & c) {
                    switch (s.below(7)) {
                    case 0:
                      return anyType<2>(s, c);
                    case 1:
                      return anyType<3>(s, c);
                    case 2:
                      return anyType<1>(s, c);
                    case 3:
                      return anyType<4>(s, c);
                    case 4:
                      return anyType<5>(s, c);
                    case 5:
                      return anyType<8>(s, c);
                    default:
                      return anyType<6>(s, c);
                    }
                  });
pbt::Reg const r2("cross_products", 200000, 3000000, "nearly parallel vectors",
                  [](pbt::Src & s, pbt::Case & c) {
                    if (s.coin()) {
                      return crosses<float>(s, c);
                    }
                    return crosses<double>(s, c);
                  });
pbt::Reg const r3("matrices", 150000, 2000000, "not all dimensions equal",
                  [](pbt::Src & s, pbt::Case & c) {
                    switch (s.below(3)) {
                    case 0:
                      return anyShape<double>(s, c);
                    case 1:
                      return anyShape<float>(s, c);
                    default:
                      return anyShape<int32_t>(s, c);
                    }
                  });
pbt::Reg const r4("inverse_rotation", 150000, 2000000, "determinant not zero",
                  [](pbt::Src & s, pbt::Case & c) {
                    if (s.coin()) {
                      return small<float>(s, c);
                    }
                    return small<double>(s, c);
                  });

} // namespace

auto
main(int argc, char ** argv) -> int
{
  pbt::Options o;
  o.assumptions = {"magnitudes are kept away from overflow and underflow",
                   "sums of products are allowed n*eps times the sum of the magnitudes"};
  return pbt::run("C06", "random vectors and matrices of every dimension and element type",
                  o, argc, argv);
}

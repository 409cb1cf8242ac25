// C07: dense matrix operations match a direct reference for every shape.
// Oracle: textbook sums in extended precision; residuals for linear systems; power sums
// (traces of matrix powers) for eigenvalues.
#include "pbt.hpp"

#include <um2/math/matrix.hpp>

#include <complex>
#include <limits>
#include <type_traits>

namespace
{

template <class T>
struct Real {
  using type = T;
};
template <class T>
struct Real<Complex<T>> {
  using type = T;
};
template <class T>
using RealOf = typename Real<T>::type;
template <class T>
constexpr bool is_cplx = !std::is_same_v<T, RealOf<T>>;

using W = std::complex<long double>;

template <class T>
auto
wide(T const & x) -> W
{
  if constexpr (is_cplx<T>) {
    return {static_cast<long double>(x.real()), static_cast<long double>(x.imag())};
  } else {
    return {static_cast<long double>(x), 0};
  }
}

template <class T>
auto
genElem(pbt::Src & s, double scale) -> T
{
  auto one = [&]() -> RealOf<T> {
    switch (s.below(3)) {
    case 0:
      return static_cast<RealOf<T>>(s.irange(-4, 4));
    case 1:
      return static_cast<RealOf<T>>(scale * s.fine(-1, 1));
    default:
      return static_cast<RealOf<T>>(s.real(-1, 1));
    }
  };
  if constexpr (is_cplx<T>) {
    auto const re = one();
    auto const im = one();
    return T(re, im);
  } else {
    return one();
  }
}

template <class T>
auto
genMatrix(pbt::Src & s, Int r, Int n) -> um2::Matrix<T>
{
  um2::Matrix<T> m(r, n);
  double const scale = s.mag(-2, 2);
  for (Int j = 0; j < n; ++j) {
    for (Int i = 0; i < r; ++i) {
      m(i, j) = genElem<T>(s, scale);
    }
  }
  return m;
}

template <class T>
auto
same(um2::Matrix<T> const & a, um2::Matrix<T> const & b) -> bool
{
  if (a.rows() != b.rows() || a.cols() != b.cols()) {
    return false;
  }
  for (Int i = 0; i < a.rows() * a.cols(); ++i) {
    if (a(i) != b(i)) {
      return false;
    }
  }
  return true;
}

template <class T>
void
algebra(pbt::Src & s, pbt::Case & c)
{
  using R = RealOf<T>;
  Int const most = s.oneIn(100) ? 140 : 24;
  Int const m = s.size(1, most);
  Int const k = s.size(1, most);
  Int const n = s.size(1, most);
  auto const a = genMatrix<T>(s, m, k);
  auto const a2 = genMatrix<T>(s, m, k);
  auto const b = genMatrix<T>(s, k, n);
  auto const a0 = a;
  auto const b0 = b;
  c.desc << (is_cplx<T> ? "complex" : "real") << 8 * sizeof(R) << " " << m << "x" << k
         << " * " << k << "x" << n;
  c.nontrivial(m * k * n > 1 && (m != k || k != n));
  auto const eps = static_cast<long double>(std::numeric_limits<R>::epsilon());
  // construction and storage order
  REQUIRE(a.rows() == m && a.cols() == k && a.end() - a.begin() == m * k &&
              a.asVector().size() == m * k && a.data() == a.begin(),
          "shape");
  for (Int j = 0; j < k; ++j) {
    for (Int i = 0; i < m; ++i) {
      REQUIRE(&a(i, j) == a.data() + j * m + i && &a(j * m + i) == &a(i, j),
              "column-major order");
    }
  }
  T const fillv = genElem<T>(s, 1);
  um2::Matrix<T> const filled(m, n, fillv);
  for (Int i = 0; i < m * n; ++i) {
    REQUIRE(filled(i) == fillv, "filled matrix");
  }
  auto const id = um2::Matrix<T>::identity(n);
  for (Int i = 0; i < n; ++i) {
    for (Int j = 0; j < n; ++j) {
      REQUIRE(id(i, j) == static_cast<T>(i == j ? R(1) : R(0)), "identity");
    }
  }
  // sums
  auto const sum = a + a2;
  auto const dif = a - a2;
  auto ps = a;
  ps += a2;
  auto ms = a;
  ms -= a2;
  auto sc = a;
  T const f = genElem<T>(s, 3);
  sc *= f;
  for (Int i = 0; i < m * k; ++i) {
    REQUIRE(sum(i) == a(i) + a2(i) && ps(i) == sum(i), "sum entry ", i);
    REQUIRE(dif(i) == a(i) - a2(i) && ms(i) == dif(i), "difference entry ", i);
    W const w = wide(a(i)) * wide(f);
    REQUIRE(std::abs(wide(sc(i)) - w) <= 4 * eps * (std::abs(wide(a(i))) * std::abs(wide(f))),
            "scaled entry ", i);
  }
  auto self = a;
  self += self;
  for (Int i = 0; i < m * k; ++i) {
    REQUIRE(self(i) == a(i) + a(i), "a += a");
  }
  // matrix-vector
  um2::Vector<T> x(k);
  for (Int i = 0; i < k; ++i) {
    x[i] = genElem<T>(s, 2);
  }
  auto const x0 = x;
  auto const y = a * x;
  REQUIRE(y.size() == m, "matrix-vector size");
  for (Int i = 0; i < m; ++i) {
    W w = 0;
    long double wa = 0;
    for (Int l = 0; l < k; ++l) {
      w += wide(a(i, l)) * wide(x[l]);
      wa += std::abs(wide(a(i, l))) * std::abs(wide(x[l]));
    }
    REQUIRE(std::abs(wide(y[i]) - w) <= 2 * (k + 2) * eps * wa, "matrix-vector row ", i);
  }
  // matrix-matrix, by value and into an output that already holds something
  auto const ab = a * b;
  um2::Matrix<T> out = genMatrix<T>(s, m, n);
  if (s.oneIn(4)) {
    out(0) = std::numeric_limits<R>::quiet_NaN();
  }
  um2::matmul(out, a, b);
  REQUIRE(ab.rows() == m && ab.cols() == n, "product shape");
  for (Int i = 0; i < m; ++i) {
    for (Int j = 0; j < n; ++j) {
      W w = 0;
      long double wa = 0;
      for (Int l = 0; l < k; ++l) {
        w += wide(a(i, l)) * wide(b(l, j));
        wa += std::abs(wide(a(i, l))) * std::abs(wide(b(l, j)));
      }
      long double const tol = 2 * (k + 2) * eps * wa;
      REQUIRE(std::abs(wide(ab(i, j)) - w) <= tol, "product (", i, ",", j, ")");
      REQUIRE(std::abs(wide(out(i, j)) - w) <= tol, "product into a used output (", i,
              ",", j, ")");
    }
  }
  REQUIRE(same(a, a0) && same(b, b0) && x == x0, "an input changed");
  // transposition of square real matrices
  if constexpr (!is_cplx<T>) {
    auto const q = genMatrix<T>(s, n, n);
    auto t = q;
    t.transpose();
    for (Int i = 0; i < n; ++i) {
      for (Int j = 0; j < n; ++j) {
        REQUIRE(t(i, j) == q(j, i), "transpose (", i, ",", j, ")");
      }
    }
  }
  auto z = a;
  z.zero();
  for (Int i = 0; i < m * k; ++i) {
    REQUIRE(z(i) == T(0), "zeroed matrix");
  }
}

template <class T>
void
systems(pbt::Src & s, pbt::Case & c)
{
  using R = RealOf<T>;
  Int const n = s.oneIn(100) ? s.irange(21, 120) : s.size(1, 20);
  Int const nrhs = s.size(1, 6);
  auto a = genMatrix<T>(s, n, n);
  // Diagonally dominant, then rows permuted: well conditioned, needs pivoting.
  for (Int i = 0; i < n; ++i) {
    R off = 0;
    for (Int j = 0; j < n; ++j) {
      off += std::abs(a(i, j));
    }
    a(i, i) = static_cast<T>(static_cast<R>(s.sign()) * (off + R(0.5) + static_cast<R>(s.unit())));
  }
  auto const p = s.perm(n);
  um2::Matrix<T> ap(n, n);
  for (Int i = 0; i < n; ++i) {
    for (Int j = 0; j < n; ++j) {
      ap(i, j) = a(static_cast<Int>(p[static_cast<size_t>(i)]), j);
    }
  }
  auto const b = genMatrix<T>(s, n, nrhs);
  auto const ap0 = ap;
  auto const b0 = b;
  c.desc << (is_cplx<T> ? "complex" : "real") << 8 * sizeof(R) << " n=" << n << " rhs="
         << nrhs;
  c.nontrivial(n >= 2);
  auto const x = um2::linearSolve(ap, b);
  REQUIRE(same(ap, ap0) && same(b, b0), "an input changed");
  auto lu = ap;
  auto x2 = b;
  um2::Vector<Int> piv(n);
  um2::linearSolve(lu, x2, piv);
  auto const eps = static_cast<long double>(std::numeric_limits<R>::epsilon());
  for (um2::Matrix<T> const * sol : {&x, static_cast<um2::Matrix<T> const *>(&x2)}) {
    REQUIRE(sol->rows() == n && sol->cols() == nrhs, "solution shape");
    for (Int r = 0; r < nrhs; ++r) {
      long double xmax = 0;
      long double amax = 0;
      for (Int j = 0; j < n; ++j) {
        xmax = std::max(xmax, std::abs(wide((*sol)(j, r))));
      }
      for (Int i = 0; i < n * n; ++i) {
        amax = std::max(amax, std::abs(wide(ap(i))));
      }
      for (Int i = 0; i < n; ++i) {
        W res = -wide(b(i, r));
        for (Int j = 0; j < n; ++j) {
          res += wide(ap(i, j)) * wide((*sol)(j, r));
        }
        long double const tol =
            20 * n * n * eps * (amax * xmax) + 20 * eps * std::abs(wide(b(i, r)));
        REQUIRE(std::abs(res) <= tol, "residual ", double(std::abs(res)), " of equation ", i,
                " right-hand side ", r, " tolerance ", double(tol));
      }
    }
  }
}

template <class T>
void
eigen(pbt::Src & s, pbt::Case & c)
{
  using R = RealOf<T>;
  Int const n = s.size(1, 8);
  auto a = genMatrix<T>(s, n, n);
  auto const kind = s.below(3);
  if (kind == 1) { // upper triangular
    for (Int j = 0; j < n; ++j) {
      for (Int i = j + 1; i < n; ++i) {
        a(i, j) = T(0);
      }
    }
  } else if (kind == 2) { // symmetric part only
    for (Int j = 0; j < n; ++j) {
      for (Int i = j + 1; i < n; ++i) {
        a(i, j) = a(j, i);
      }
    }
  }
  auto const a0 = a;
  c.desc << (is_cplx<T> ? "complex" : "real") << 8 * sizeof(R) << " n=" << n << " kind "
         << kind;
  c.nontrivial(n >= 2);
  auto const ev = um2::eigvals(a);
  REQUIRE(same(a, a0), "the input changed");
  REQUIRE(ev.size() == n, "number of eigenvalues ", ev.size());
  long double norm = 0;
  for (Int i = 0; i < n * n; ++i) {
    norm += std::norm(wide(a(i)));
  }
  norm = std::sqrt(norm);
  auto const eps = static_cast<long double>(std::numeric_limits<R>::epsilon());
  // Power sums determine the multiset of eigenvalues.
  std::vector<W> pw(static_cast<size_t>(n) * n);
  for (Int i = 0; i < n * n; ++i) {
    pw[static_cast<size_t>(i)] = wide(a(i));
  }
  long double scale = 1;
  for (Int k = 1; k <= n; ++k) {
    scale *= norm;
    W tr = 0;
    for (Int i = 0; i < n; ++i) {
      tr += pw[static_cast<size_t>(i * n + i)];
    }
    W sum = 0;
    for (Int i = 0; i < n; ++i) {
      W z = 1;
      for (Int l = 0; l < k; ++l) {
        z *= wide(ev[i]);
      }
      sum += z;
    }
    REQUIRE(std::abs(sum - tr) <= 100 * k * n * n * eps * scale, "sum of powers ", k,
            " of the eigenvalues is off by ", double(std::abs(sum - tr)), " of scale ",
            double(scale));
    std::vector<W> nx(pw.size(), 0);
    for (Int j = 0; j < n; ++j) {
      for (Int l = 0; l < n; ++l) {
        for (Int i = 0; i < n; ++i) {
          nx[static_cast<size_t>(j * n + i)] +=
              wide(a(i, l)) * pw[static_cast<size_t>(j * n + l)];
        }
      }
    }
    pw = nx;
  }
}

template <class F>
void
anyElem(pbt::Src & s, F const & f)
{
  switch (s.below(4)) {
  case 0:
    return f(double());
  case 1:
    return f(float());
  case 2:
    return f(Complex<double>());
  default:
    return f(Complex<float>());
  }
}

pbt::Reg const r1("algebra", 60000, 400000, "not all dimensions equal",
                  [](pbt::Src & s, pbt::Case & c) {
                    anyElem(s, [&](auto t) { algebra<decltype(t)>(s, c); });
                  });
pbt::Reg const r2("systems", 45000, 300000, "at least two unknowns",
                  [](pbt::Src & s, pbt::Case & c) {
                    anyElem(s, [&](auto t) { systems<decltype(t)>(s, c); });
                  });
pbt::Reg const r3("eigenvalues", 45000, 300000, "order at least two",
                  [](pbt::Src & s, pbt::Case & c) {
                    anyElem(s, [&](auto t) { eigen<decltype(t)>(s, c); });
                  });

} // namespace

auto
main(int argc, char ** argv) -> int
{
  pbt::Options o;
  o.assumptions = {"no dimension is zero", "linear systems are diagonally dominant up to a "
                                           "row permutation",
                   "transposition is checked for real square matrices (the only documented "
                   "use)"};
  return pbt::run("C07", "random shapes, real and complex, single and double precision", o,
                  argc, argv);
}

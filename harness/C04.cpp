// C04: Morton codes are a bijection and Morton ordering only permutes points.
// Oracle: bit-by-bit interleaving; sorted permutations of the input.
#include "pbt.hpp"

#include <um2/geometry/morton_sort_points.hpp>
#include <um2/math/morton.hpp>
#include <um2/stdlib/vector.hpp>

#include <algorithm>
#include <array>
#include <dlfcn.h>
#include <type_traits>
#include <unistd.h>

namespace
{

template <class U, int D>
auto
interleave(std::array<U, D> const & x) -> U
{
  U r = 0;
  int const nb = 8 * static_cast<int>(sizeof(U)) / D;
  for (int b = 0; b < nb; ++b) {
    for (int d = 0; d < D; ++d) {
      r |= static_cast<U>((x[d] >> b) & 1U) << (b * D + d);
    }
  }
  return r;
}

template <class U, int D>
constexpr U max_coord = static_cast<U>((static_cast<U>(1) << (8 * sizeof(U) / D)) - 1);

void * g_alt = nullptr;

template <class F>
auto
alt(char const * name) -> F
{
  auto p = reinterpret_cast<F>(dlsym(g_alt, name));
  if (p == nullptr) {
    fprintf(stderr, "missing %s\n", name);
    _exit(77);
  }
  return p;
}

template <class U, int D>
auto
genCoord(pbt::Src & s) -> U
{
  int const nb = 8 * static_cast<int>(sizeof(U)) / D;
  U const top = max_coord<U, D>;
  switch (s.below(5)) {
  case 0:
    return static_cast<U>(U(1) << s.below(nb)); // single bit
  case 1:
    return static_cast<U>(top ^ (U(1) << s.below(nb))); // all but one bit
  case 2:
    return static_cast<U>(s.below(8));
  case 3:
    return static_cast<U>(top - s.below(4));
  default:
    return static_cast<U>(s.bits() & top);
  }
}

template <class U, int D>
auto
encode(std::array<U, D> const & x, bool soft) -> U
{
  if constexpr (D == 2) {
    if (soft) {
      return alt<U (*)(U, U)>(sizeof(U) == 4 ? "alt_enc2_32" : "alt_enc2_64")(x[0], x[1]);
    }
    return um2::mortonEncode(x[0], x[1]);
  } else {
    if (soft) {
      return alt<U (*)(U, U, U)>(sizeof(U) == 4 ? "alt_enc3_32" : "alt_enc3_64")(
          x[0], x[1], x[2]);
    }
    return um2::mortonEncode(x[0], x[1], x[2]);
  }
}

template <class U, int D>
auto
decode(U m, bool soft) -> std::array<U, D>
{
  std::array<U, D> r{};
  if (soft) {
    char const * const n = D == 2 ? (sizeof(U) == 4 ? "alt_dec2_32" : "alt_dec2_64")
                                  : (sizeof(U) == 4 ? "alt_dec3_32" : "alt_dec3_64");
    alt<void (*)(U, U *)>(n)(m, r.data());
  } else if constexpr (D == 2) {
    um2::mortonDecode(m, r[0], r[1]);
  } else {
    um2::mortonDecode(m, r[0], r[1], r[2]);
  }
  return r;
}

template <class U, int D>
void
bijection(pbt::Src & s, pbt::Case & c)
{
  std::array<U, D> x{};
  for (auto & v : x) {
    v = genCoord<U, D>(s);
  }
  c.desc << "D=" << D << " bits=" << 8 * sizeof(U) << " x=" << pbt::show(x);
  c.nontrivial(*std::max_element(x.begin(), x.end()) > 1);
  U const want = interleave<U, D>(x);
  // A code drawn directly (only the bits a code can have)
  U const valid = D == 2 ? ~U(0)
                         : static_cast<U>((U(1) << (3 * (8 * sizeof(U) / 3))) - 1);
  U const code = static_cast<U>(s.bits() & valid);
  for (bool const soft : {false, true}) {
    char const * const w = soft ? " (portable)" : " (hardware)";
    U const m = encode<U, D>(x, soft);
    REQUIRE(m == want, "code ", m, " expected ", want, w);
    auto const back = decode<U, D>(m, soft);
    REQUIRE(back == x, "decoded ", pbt::show(back), w);
    auto const y = decode<U, D>(code, soft);
    for (auto const v : y) {
      REQUIRE((v <= max_coord<U, D>), "decoded coordinate out of range", w);
    }
    REQUIRE((encode<U, D>(y, soft) == code), "code ", code, " decodes to ",
            pbt::show(y), " which encodes to ", encode<U, D>(y, soft), w);
  }
}

auto
genUnit(pbt::Src & s) -> double
{
  switch (s.below(5)) {
  case 0:
    return s.pick<double>({0.0, 1.0, 0.5, 0x1p-53, 1 - 0x1p-53, 0x1p-1074});
  case 1:
    return static_cast<double>(s.below(65536)) / 65535;
  case 2:
    return static_cast<double>(s.below(9)) / 8;
  default:
    return s.unit();
  }
}

template <class U, class T, int D>
void
realCode(pbt::Src & s, pbt::Case & c)
{
  std::array<T, D> p{};
  std::array<U, D> qm{};
  bool inner = false;
  for (int d = 0; d < D; ++d) {
    p[d] = static_cast<T>(genUnit(s));
    qm[d] = static_cast<U>(p[d] * static_cast<T>(max_coord<U, D>));
    inner = inner || (p[d] > 0 && p[d] < 1);
  }
  c.desc << "real D=" << D << " U=" << 8 * sizeof(U) << " T=" << 8 * sizeof(T)
         << pbt::show(p);
  c.nontrivial(inner);
  U m = 0;
  std::array<T, D> back{};
  if constexpr (D == 2) {
    m = um2::mortonEncode<U, T>(p[0], p[1]);
    um2::mortonDecode<U, T>(m, back[0], back[1]);
  } else {
    m = um2::mortonEncode<U, T>(p[0], p[1], p[2]);
    um2::mortonDecode<U, T>(m, back[0], back[1], back[2]);
  }
  U const want = interleave<U, D>(qm);
  REQUIRE(m == want, "code ", m, " expected ", want);
  double const step = 1.0 / static_cast<double>(max_coord<U, D>);
  for (int d = 0; d < D; ++d) {
    REQUIRE(back[d] >= 0 && back[d] <= 1, "decoded point leaves the unit box");
    double const eps = 4 * static_cast<double>(std::numeric_limits<T>::epsilon());
    REQUIRE(std::abs(double(back[d]) - double(p[d])) <= step + eps, "decoded ", back[d],
            " too far from ", p[d]);
  }
  if constexpr (sizeof(U) == 8 && std::is_same_v<T, double>) {
    U ms = 0;
    if constexpr (D == 2) {
      ms = alt<U (*)(double, double)>("alt_encr2")(p[0], p[1]);
    } else {
      ms = alt<U (*)(double, double, double)>("alt_encr3")(p[0], p[1], p[2]);
    }
    REQUIRE(ms == want, "portable code ", ms, " expected ", want);
  }
  if constexpr (sizeof(U) == 4) {
    um2::Point<D, T> q;
    for (int d = 0; d < D; ++d) {
      q[d] = p[d];
    }
    REQUIRE(um2::mortonEncode(q) == want, "point overload");
    um2::Point<D, T> r;
    um2::mortonDecode(static_cast<um2::MortonCode>(want), r);
    for (int d = 0; d < D; ++d) {
      REQUIRE(r[d] == back[d], "point overload of decode");
    }
  }
}

template <class T, int D>
void
sorting(pbt::Src & s, pbt::Case & c)
{
  using P = um2::Point<D, T>;
  using A = std::array<T, D>;
  int const n = s.oneIn(60) ? s.irange(201, 5000) : s.size(0, 200);
  std::vector<P> pts(static_cast<size_t>(n));
  bool const dup = s.coin();
  for (auto & p : pts) {
    for (int d = 0; d < D; ++d) {
      p[d] = static_cast<T>(dup ? static_cast<double>(s.below(5)) / 4 : genUnit(s));
    }
  }
  c.desc << "sort D=" << D << " n=" << n << (dup ? " duplicates" : "");
  c.nontrivial(n >= 3);
  auto arr = [](P const & p) {
    A a{};
    for (int d = 0; d < D; ++d) {
      a[d] = p[d];
    }
    return a;
  };
  auto code = [](P const & p) {
    std::array<uint32_t, D> x{};
    for (int d = 0; d < D; ++d) {
      x[d] = static_cast<uint32_t>(p[d] * static_cast<T>(max_coord<uint32_t, D>));
    }
    return interleave<uint32_t, D>(x);
  };
  // in place
  std::vector<P> sorted = pts;
  um2::mortonSort(sorted.data(), sorted.data() + n);
  std::vector<A> a;
  std::vector<A> b;
  for (int i = 0; i < n; ++i) {
    a.push_back(arr(pts[i]));
    b.push_back(arr(sorted[i]));
    if (i > 0) {
      REQUIRE(code(sorted[i - 1]) <= code(sorted[i]), "codes decrease at ", i);
      REQUIRE(!um2::mortonLess(sorted[i], sorted[i - 1]), "order relation at ", i);
    }
  }
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  REQUIRE(a == b, "points were lost or altered");
  // permutation
  std::vector<Int> perm(static_cast<size_t>(n) + 1, -7);
  um2::mortonSortPermutation(pts.data(), pts.data() + n, perm.data());
  REQUIRE(perm[n] == -7, "wrote beyond the permutation");
  auto isPerm = [&](std::vector<Int> const & p) {
    std::vector<bool> seen(static_cast<size_t>(n), false);
    for (int i = 0; i < n; ++i) {
      if (p[i] < 0 || p[i] >= n || seen[p[i]]) {
        return false;
      }
      seen[p[i]] = true;
    }
    return true;
  };
  REQUIRE(isPerm(perm), "not a permutation");
  for (int i = 1; i < n; ++i) {
    REQUIRE(code(pts[perm[i - 1]]) <= code(pts[perm[i]]), "permutation order at ", i);
  }
  // scaled: points in a box [0, L] with scale 1/L
  P scale;
  std::vector<P> big = pts;
  T ext[D];
  for (int d = 0; d < D; ++d) {
    ext[d] = static_cast<T>(std::ldexp(1.0, s.irange(-8, 8)));
    scale[d] = 1 / ext[d];
  }
  for (auto & p : big) {
    for (int d = 0; d < D; ++d) {
      p[d] *= ext[d];
    }
  }
  std::vector<Int> perm2(static_cast<size_t>(n), -7);
  um2::mortonSortPermutation(big.data(), big.data() + n, perm2.data(), scale);
  REQUIRE(isPerm(perm2), "scaled: not a permutation");
  for (int i = 1; i < n; ++i) {
    REQUIRE(code(pts[perm2[i - 1]]) <= code(pts[perm2[i]]), "scaled order at ", i);
  }
}

pbt::Reg const r1("bijection", 600000, 8000000, "some coordinate above 1",
                  [](pbt::Src & s, pbt::Case & c) {
                    switch (s.below(4)) {
                    case 0:
                      return bijection<uint32_t, 2>(s, c);
                    case 1:
                      return bijection<uint32_t, 3>(s, c);
                    case 2:
                      return bijection<uint64_t, 2>(s, c);
                    default:
                      return bijection<uint64_t, 3>(s, c);
                    }
                  });
pbt::Reg const r2("real_points", 300000, 4000000, "some coordinate strictly inside (0,1)",
                  [](pbt::Src & s, pbt::Case & c) {
                    switch (s.below(7)) {
                    case 0:
                      return realCode<uint32_t, float, 2>(s, c);
                    case 1:
                      return realCode<uint32_t, float, 3>(s, c);
                    case 2:
                      return realCode<uint32_t, double, 2>(s, c);
                    case 3:
                      return realCode<uint32_t, double, 3>(s, c);
                    case 4:
                      return realCode<uint64_t, double, 2>(s, c);
                    case 5:
                      return realCode<uint64_t, double, 3>(s, c);
                    default:
                      return realCode<uint64_t, float, 3>(s, c);
                    }
                  });
pbt::Reg const r3("sorting", 15000, 200000, "at least 3 points",
                  [](pbt::Src & s, pbt::Case & c) {
                    switch (s.below(4)) {
                    case 0:
                      return sorting<float, 2>(s, c);
                    case 1:
                      return sorting<float, 3>(s, c);
                    case 2:
                      return sorting<double, 2>(s, c);
                    default:
                      return sorting<double, 3>(s, c);
                    }
                  });

} // namespace

auto
main(int argc, char ** argv) -> int
{
  std::string path = argv[0];
  path += "_nobmi.so";
  g_alt = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (g_alt == nullptr) {
    fprintf(stderr, "%s\n", dlerror());
    return 3;
  }
  pbt::Options o;
  o.assumptions = {"real points lie in the closed unit box (documented precondition)",
                   "3-d codes are drawn from the codes 3-d coordinates can produce"};
  return pbt::run("C04",
                  "random coordinates (single bits, all-but-one bits, extremes, uniform), "
                  "codes and point sets, in the hardware and the portable build",
                  o, argc, argv);
}

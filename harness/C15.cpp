// C15: modular rays. Oracle: the modular ray-tracing rules evaluated in extended precision and
// the geometry of the rays themselves (even spacing, closure across adjacent boxes, mirror).
#include "geo.hpp"

#include <um2/geometry/modular_rays.hpp>

namespace
{

using namespace geo;

template <class T>
void
modular(pbt::Src & s, pbt::Case & c)
{
  L const pi = 3.14159265358979323846L;
  L const eps = std::numeric_limits<T>::epsilon();
  T const w = static_cast<T>(s.oneIn(3) ? double(s.irange(1, 20)) : s.mag(-1.5, 2));
  T const h = static_cast<T>(s.oneIn(3)   ? double(w)
                             : s.oneIn(3) ? double(s.irange(1, 20))
                                          : s.mag(-1.5, 2));
  T const x0 = static_cast<T>(s.oneIn(3) ? 0.0 : s.real(-50, 50));
  T const y0 = static_cast<T>(s.oneIn(3) ? 0.0 : s.real(-50, 50));
  um2::AxisAlignedBox2<T> const box(um2::Point2<T>(x0, y0), um2::Point2<T>(x0 + w, y0 + h));
  T a = 0;
  switch (s.below(4)) {
  case 0: { // the usual quadrature: centres of equal sectors
    int const n = 1 << s.below(6);
    a = static_cast<T>(pi / 2 / n * (L(0.5) + L(s.below(static_cast<uint64_t>(2 * n)))));
    break;
  }
  case 1: // nearly along an axis
    a = static_cast<T>(L(s.mag(-6, -1)));
    if (s.coin()) {
      a = static_cast<T>(pi / 2) + (s.coin() ? a : -a);
    } else if (s.coin()) {
      a = static_cast<T>(pi) - a;
    }
    break;
  case 2:
    a = static_cast<T>(pi * L(s.irange(1, 11)) / 12);
    break;
  default:
    a = static_cast<T>(s.fine(0.001, 3.1405));
    break;
  }
  T const big = w > h ? w : h;
  T const sp = static_cast<T>(s.oneIn(4) ? double(big) / double(s.irange(1, 60))
                                         : double(big) * s.mag(-2.3, 0.5));
  c.desc << (sizeof(T) == 4 ? "float " : "") << "box " << x0 << " " << y0 << " size " << w << " x "
         << h << " angle " << a << " spacing " << sp;
  um2::ModularRayParams<T> const prm(a, sp, box);

  // extents as represented
  L const we = L(box.maxima(0)) - L(box.minima(0));
  L const he = L(box.maxima(1)) - L(box.minima(1));
  L const offset = std::fabs(L(x0)) + std::fabs(L(y0)) + we + he;
  Int const nx = prm.getNumXRays();
  Int const ny = prm.getNumYRays();
  REQUIRE(prm.getTotalNumRays() == nx + ny, "total ", prm.getTotalNumRays(), " is not ", nx,
          " + ", ny);
  REQUIRE(nx >= 1 && ny >= 1, "counts ", nx, " ", ny);
  c.nontrivial(nx > 1 && ny > 1);
  c.label(nx > 1 && ny > 1 ? "several rays per side" : "a single ray on a side");
  // the fewest rays per side that do not exceed the requested spacing along the side
  auto count = [&](Int got, L want, char const * side) {
    L const slack = want * (16 * eps + 4 * eps * offset / std::min(we, he)) + 1e-12L;
    REQUIRE(L(got) >= want - slack && L(got) < want + 1 + slack, got, " rays on the ", side,
            " side; extent/spacing is ", double(want));
  };
  count(nx, we * std::sin(L(a)) / L(sp), "x");
  count(ny, he * std::fabs(std::cos(L(a))) / L(sp), "y");
  L const dx = we / nx;
  L const dy = he / ny;
  L const tol = 16 * eps * offset;
  auto const gs = prm.getSpacing();
  REQUIRE(std::fabs(L(gs[0]) - dx) <= tol && std::fabs(L(gs[1]) - dy) <= tol, "spacing ", gs[0],
          " ", gs[1], " expected ", double(dx), " ", double(dy));
  // direction: cyclic, pointing up, in the requested quadrant
  auto const dir = prm.getDirection();
  L const hyp = std::hypot(dx, dy);
  bool const may_right = L(a) < pi / 2 + 4 * eps;
  bool const may_left = L(a) > pi / 2 - 4 * eps;
  REQUIRE((dir[0] > 0 && may_right) || (dir[0] < 0 && may_left), "direction ", dir[0], " ",
          dir[1]);
  L const sgn = dir[0] > 0 ? 1 : -1;
  L const dtol = 16 * eps + 8 * tol / std::min(dx, dy) * std::min(dx, dy) / hyp;
  REQUIRE(std::fabs(L(dir[0]) - sgn * dx / hyp) <= dtol &&
              std::fabs(L(dir[1]) - dy / hyp) <= dtol,
          "direction ", dir[0], " ", dir[1], " expected ", double(sgn * dx / hyp), " ",
          double(dy / hyp));
  L const gap = dx * dy / hyp;
  REQUIRE(gap <= L(sp) * (1 + 64 * eps) + tol, "perpendicular spacing ", double(gap),
          " exceeds the requested ", sp);

  // the rays
  P const d{sgn * dx / hyp, dy / hyp};
  P const nrm{-d.y, d.x};
  Int const n = nx + ny;
  Int const stride = n > 400 ? n / 200 : 1;
  std::vector<L> offs;
  L const rtol = 4 * tol;
  for (Int i = 0; i < n; i += (i + 1 == nx || i == nx || i == n - 2) ? 1 : stride) {
    auto const ray = prm.getRay(i);
    REQUIRE(ray.direction()[0] == dir[0] && ray.direction()[1] == dir[1], "direction of ray ", i);
    P const o = wide<T>(ray.origin());
    // where the ray enters: on the bottom side or the side it points away from
    bool const bottom = i < nx;
    if (bottom) {
      REQUIRE(std::fabs(o.y - L(box.minima(1))) <= rtol && o.x > L(box.minima(0)) - rtol &&
                  o.x < L(box.maxima(0)) + rtol,
              "ray ", i, " starts at ", str(o));
    } else {
      L const side = sgn > 0 ? L(box.minima(0)) : L(box.maxima(0));
      REQUIRE(std::fabs(o.x - side) <= rtol && o.y > L(box.minima(1)) - rtol &&
                  o.y < L(box.maxima(1)) + rtol,
              "ray ", i, " starts at ", str(o));
    }
    // even spacing: ray i is the i-th line of a family of lines `gap` apart
    P const corner = sgn > 0 ? P{L(box.maxima(0)), L(box.minima(1))}
                             : P{L(box.minima(0)), L(box.minima(1))};
    L const off = sgn * dot(o - corner, nrm);
    REQUIRE(std::fabs(off - (i + L(0.5)) * gap) <= rtol, "ray ", i, " is ", double(off),
            " from the corner, expected ", double((i + L(0.5)) * gap));
    // closure: where it leaves, a ray of the neighbouring box starts
    L const tx = ((sgn > 0 ? L(box.maxima(0)) : L(box.minima(0))) - o.x) / d.x;
    L const ty = (L(box.maxima(1)) - o.y) / d.y;
    bool const via_x = tx < ty;
    P const out = o + std::min(tx, ty) * d;
    P image = out;
    if (via_x) {
      image.x -= sgn * we;
    } else {
      image.y -= he;
    }
    // index of the continuing ray by position
    L best = 1e300L;
    if (via_x) {
      L const k = (image.y - L(box.minima(1))) / dy - L(0.5);
      Int const j = std::clamp(static_cast<Int>(std::lround(k)), 0, ny - 1);
      best = dist(wide<T>(prm.getRay(nx + j).origin()), image);
    } else {
      L const from = sgn > 0 ? L(box.maxima(0)) - image.x : image.x - L(box.minima(0));
      Int const j = std::clamp(static_cast<Int>(std::lround(from / dx - L(0.5))), 0, nx - 1);
      best = dist(wide<T>(prm.getRay(j).origin()), image);
    }
    L const ctol = rtol * 8 * std::max(1 / std::fabs(d.x), 1 / d.y);
    if (std::fabs(tx - ty) * std::min(std::fabs(d.x), d.y) > 4 * rtol) {
      REQUIRE(best <= ctol, "ray ", i, " leaves at ", str(out), ", ", double(best),
              " from the nearest start in the adjacent box");
    }
  }

  // the supplementary angle gives the mirrored rays
  L const fx = we * std::sin(L(a)) / L(sp);
  L const fy = he * std::fabs(std::cos(L(a))) / L(sp);
  auto clear = [&](L f) { return std::fabs(f - std::round(f)) > 1e-4L * (1 + f); };
  if (sizeof(T) == 8 && clear(fx) && clear(fy) && std::fabs(L(a) - pi / 2) > 1e-6L) {
    um2::ModularRayParams<T> const mir(static_cast<T>(pi - L(a)), sp, box);
    REQUIRE(mir.getNumXRays() == nx && mir.getNumYRays() == ny, "supplementary angle: counts ",
            mir.getNumXRays(), " ", mir.getNumYRays(), " instead of ", nx, " ", ny);
    for (Int i = 0; i < n; i += stride) {
      P const o = wide<T>(prm.getRay(i).origin());
      P const q = wide<T>(mir.getRay(i).origin());
      REQUIRE(std::fabs((L(box.minima(0)) + L(box.maxima(0)) - o.x) - q.x) <= rtol &&
                  std::fabs(o.y - q.y) <= rtol,
              "supplementary angle: ray ", i, " at ", str(q), " mirrors ", str(o));
    }
    c.label("mirrored set compared");
  }
}

pbt::Reg const r1("modular_rays", 500000, 10000000, "several rays start on each side",
                  [](pbt::Src & s, pbt::Case & c) {
                    s.oneIn(5) ? modular<float>(s, c) : modular<double>(s, c);
                  });

} // namespace

auto
main(int argc, char ** argv) -> int
{
  pbt::Options o;
  return pbt::run("C15", "random boxes, target angles and spacings", o, argc, argv);
}

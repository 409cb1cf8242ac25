// C10: grids tile their box; lookups, queries and partitions agree with the tiling.
// Oracle: extended-precision cell planes and brute-force overlap of every cell.
#include "pbt.hpp"

#include <um2/mesh/rectilinear_grid.hpp>
#include <um2/mesh/rectilinear_partition.hpp>
#include <um2/mesh/regular_grid.hpp>
#include <um2/mesh/regular_partition.hpp>

#include <array>
#include <limits>
#include <set>

namespace
{

using L = long double;
using std::fabs;

template <Int D, class G>
auto
flat(G const & g, std::array<Int, 3> const & i) -> Int
{
  if constexpr (D == 1) {
    return g.getFlatIndex(i[0]);
  } else if constexpr (D == 2) {
    return g.getFlatIndex(i[0], i[1]);
  } else {
    return g.getFlatIndex(i[0], i[1], i[2]);
  }
}
template <Int D, class G>
auto
cell(G const & g, std::array<Int, 3> const & i)
{
  if constexpr (D == 1) {
    return g.getBox(i[0]);
  } else if constexpr (D == 2) {
    return g.getBox(i[0], i[1]);
  } else {
    return g.getBox(i[0], i[1], i[2]);
  }
}
template <Int D, class G>
auto
centre(G const & g, std::array<Int, 3> const & i)
{
  if constexpr (D == 1) {
    return g.getCellCentroid(i[0]);
  } else if constexpr (D == 2) {
    return g.getCellCentroid(i[0], i[1]);
  } else {
    return g.getCellCentroid(i[0], i[1], i[2]);
  }
}
template <Int D, class G>
auto
childOf(G & g, std::array<Int, 3> const & i) -> decltype(auto)
{
  if constexpr (D == 1) {
    return g.getChild(i[0]);
  } else if constexpr (D == 2) {
    return g.getChild(i[0], i[1]);
  } else {
    return g.getChild(i[0], i[1], i[2]);
  }
}

template <Int D, class F>
void
eachCell(std::array<Int, 3> const & n, F const & f)
{
  for (Int k = 0; k < n[2]; ++k) {
    for (Int j = 0; j < n[1]; ++j) {
      for (Int i = 0; i < n[0]; ++i) {
        f(std::array<Int, 3>{i, j, k});
      }
    }
  }
}

// Coordinate chosen relative to planes p[0..n]: inside cells, on planes, outside.
auto
genCoord(pbt::Src & s, std::vector<L> const & p) -> L
{
  L const w = p.back() - p.front();
  switch (s.below(5)) {
  case 0:
    return p[s.below(p.size())];
  case 1:
    return p.front() - w * s.real(0, 2);
  case 2:
    return p.back() + w * s.real(0, 2);
  default:
    return p.front() + w * s.real(0, 1);
  }
}

template <Int D, class T>
void
regular(pbt::Src & s, pbt::Case & c)
{
  um2::Point<D, T> lo;
  um2::Vec<D, T> dx;
  um2::Vec<D, Int> nc;
  std::array<Int, 3> n{1, 1, 1};
  std::vector<std::vector<L>> planes(D);
  L const eps = std::numeric_limits<T>::epsilon();
  c.desc << "D=" << D << (sizeof(T) == 4 ? " float" : " double");
  c.desc.precision(17);
  std::array<L, 3> tol{};
  for (Int i = 0; i < D; ++i) {
    lo[i] = static_cast<T>(s.oneIn(3) ? s.irange(-3, 3) : s.real(-50, 50));
    dx[i] = static_cast<T>(s.oneIn(3) ? s.irange(1, 4) : s.mag(-2, 1));
    nc[i] = s.oneIn(150) ? s.irange(15, D == 3 ? 40 : 300) : s.size(1, D == 3 ? 6 : 14);
    n[static_cast<size_t>(i)] = nc[i];
    for (Int k = 0; k <= nc[i]; ++k) {
      planes[static_cast<size_t>(i)].push_back(L(lo[i]) + L(dx[i]) * k);
    }
    tol[static_cast<size_t>(i)] = 8 * eps * (fabs(L(lo[i])) + L(dx[i]) * (nc[i] + 1));
    c.desc << " [" << lo[i] << " + " << nc[i] << " x " << dx[i] << "]";
  }
  bool const box_ctor = s.oneIn(6);
  um2::RegularGrid<D, T> g(lo, dx, nc);
  if (box_ctor) {
    um2::Point<D, T> hi;
    for (Int i = 0; i < D; ++i) {
      hi[i] = static_cast<T>(planes[static_cast<size_t>(i)].back());
      nc[i] = 1;
      n[static_cast<size_t>(i)] = 1;
      planes[static_cast<size_t>(i)] = {L(lo[i]), L(hi[i])};
      dx[i] = hi[i] - lo[i];
    }
    g = um2::RegularGrid<D, T>(um2::AxisAlignedBox<D, T>(lo, hi));
    c.desc << " as one box";
  }
  Int total = 1;
  for (Int i = 0; i < D; ++i) {
    total *= nc[i];
  }
  c.nontrivial(total >= 4 && D >= 2);
  REQUIRE(g.totalNumCells() == total, "total cells");
  auto const bb = g.boundingBox();
  for (Int i = 0; i < D; ++i) {
    auto const & p = planes[static_cast<size_t>(i)];
    L const t = tol[static_cast<size_t>(i)];
    REQUIRE(g.numCells(i) == nc[i] && g.numCells()[i] == nc[i], "number of cells, axis ", i);
    REQUIRE(g.minima(i) == lo[i] && g.minima()[i] == lo[i], "lower corner, axis ", i);
    REQUIRE(fabs(L(g.spacing(i)) - L(dx[i])) <= t && g.spacing()[i] == g.spacing(i),
            "spacing, axis ", i);
    REQUIRE(fabs(L(g.extents(i)) - (p.back() - p.front())) <= t &&
                g.extents()[i] == g.extents(i),
            "extent, axis ", i);
    REQUIRE(fabs(L(g.maxima(i)) - p.back()) <= t && g.maxima()[i] == g.maxima(i),
            "upper corner, axis ", i);
    REQUIRE(bb.minima(i) == lo[i] && fabs(L(bb.maxima(i)) - p.back()) <= t,
            "bounding box, axis ", i);
  }
  std::set<Int> seen;
  Int expect = 0;
  eachCell<D>(n, [&](std::array<Int, 3> const & id) {
    Int const f = flat<D>(g, id);
    REQUIRE(f == expect, "flat index of cell (", id[0], ",", id[1], ",", id[2], ") is ", f);
    um2::Vec<D, Int> v;
    for (Int i = 0; i < D; ++i) {
      v[i] = id[static_cast<size_t>(i)];
    }
    REQUIRE(g.getFlatIndex(v) == f, "flat index of an index vector");
    ++expect;
    auto const b = cell<D>(g, id);
    auto const m = centre<D>(g, id);
    for (Int i = 0; i < D; ++i) {
      auto const k = static_cast<size_t>(id[static_cast<size_t>(i)]);
      auto const & p = planes[static_cast<size_t>(i)];
      L const t = tol[static_cast<size_t>(i)];
      REQUIRE(fabs(L(b.minima(i)) - p[k]) <= t && fabs(L(b.maxima(i)) - p[k + 1]) <= t,
              "box of cell ", f, ", axis ", i);
      REQUIRE(fabs(L(m[i]) - (p[k] + p[k + 1]) / 2) <= t, "centroid of cell ", f, ", axis ",
              i);
    }
  });
  // point lookup
  for (int q = 0; q < 4; ++q) {
    um2::Point<D, T> x;
    for (Int i = 0; i < D; ++i) {
      x[i] = static_cast<T>(genCoord(s, planes[static_cast<size_t>(i)]));
    }
    auto const r = g.getCellIndexContaining(x);
    bool outside = false;
    for (Int i = 0; i < D; ++i) {
      auto const & p = planes[static_cast<size_t>(i)];
      L const t = tol[static_cast<size_t>(i)];
      outside = outside || L(x[i]) < p.front() - t || L(x[i]) > p.back() + t;
    }
    for (Int i = 0; i < D; ++i) {
      auto const & p = planes[static_cast<size_t>(i)];
      L const t = tol[static_cast<size_t>(i)];
      L const xi = x[i];
      if (xi < p.front() - t || xi > p.back() + t) {
        REQUIRE(r[i] == -1, "point ", x[i], " is outside on axis ", i, " but got ", r[i]);
      } else if (r[i] == -1) {
        REQUIRE(outside || xi < p.front() + t || xi > p.back() - t, "point ", x[i],
                " is inside on axis ", i);
      } else {
        REQUIRE(r[i] >= 0 && r[i] < nc[i], "index ", r[i], " axis ", i);
        auto const k = static_cast<size_t>(r[i]);
        REQUIRE(xi >= p[k] - t && xi <= p[k + 1] + t, "cell ", r[i], " axis ", i,
                " does not contain ", x[i]);
      }
    }
  }
  // box query
  for (int q = 0; q < 4; ++q) {
    um2::Point<D, T> a;
    um2::Point<D, T> b;
    for (Int i = 0; i < D; ++i) {
      a[i] = static_cast<T>(genCoord(s, planes[static_cast<size_t>(i)]));
      b[i] = static_cast<T>(genCoord(s, planes[static_cast<size_t>(i)]));
      if (s.oneIn(16)) {
        b[i] = um2::infDistance<T>();
      }
      if (s.oneIn(16)) {
        a[i] = -um2::infDistance<T>();
      }
      if (b[i] < a[i]) {
        std::swap(a[i], b[i]);
      }
    }
    um2::AxisAlignedBox<D, T> const box(a, b);
    auto const r = g.getCellIndicesIntersecting(box);
    for (Int i = 0; i < D; ++i) {
      auto const & p = planes[static_cast<size_t>(i)];
      L const t = tol[static_cast<size_t>(i)];
      Int const r0 = r[i];
      Int const r1 = r[i + D];
      REQUIRE((r0 == -1 && r1 == -1) || (0 <= r0 && r0 <= r1 && r1 < nc[i]), "range ", r0,
              "..", r1, " axis ", i);
      for (Int k = 0; k < nc[i]; ++k) {
        L const c0 = p[static_cast<size_t>(k)];
        L const c1 = p[static_cast<size_t>(k) + 1];
        bool const reported = r0 != -1 && r0 <= k && k <= r1;
        if (L(a[i]) < c1 - t && L(b[i]) > c0 + t) {
          REQUIRE(reported, "cell ", k, " axis ", i, " overlaps [", a[i], ", ", b[i],
                  "] but the range is ", r0, "..", r1);
        } else if (L(a[i]) > c1 + t || L(b[i]) < c0 - t) {
          REQUIRE(!reported, "cell ", k, " axis ", i, " does not overlap [", a[i], ", ", b[i],
                  "] but the range is ", r0, "..", r1);
        }
      }
    }
  }
}

template <Int D>
void
regularPartition(pbt::Src & s, pbt::Case & c)
{
  um2::Point<D, Float> lo;
  um2::Vec<D, Float> dx;
  um2::Vec<D, Int> nc;
  std::array<Int, 3> n{1, 1, 1};
  Int total = 1;
  for (Int i = 0; i < D; ++i) {
    lo[i] = s.real(-5, 5);
    dx[i] = s.mag(-1, 1);
    nc[i] = s.oneIn(150) ? s.irange(7, D == 3 ? 30 : 150) : s.size(1, 6);
    n[static_cast<size_t>(i)] = nc[i];
    total *= nc[i];
  }
  c.desc << "regular partition D=" << D << " " << n[0] << "x" << n[1] << "x" << n[2];
  c.nontrivial(total > 1);
  um2::Vector<int> kids;
  for (Int i = 0; i < total; ++i) {
    kids.push_back(s.irange(0, 1000));
  }
  um2::RegularPartition<D, int> p({lo, dx, nc}, kids);
  auto const & cp = p;
  REQUIRE(p.children() == kids, "children");
  REQUIRE(p.grid().totalNumCells() == total, "grid");
  Int f = 0;
  eachCell<D>(n, [&](std::array<Int, 3> const & id) {
    REQUIRE(childOf<D>(p, id) == kids[f] && childOf<D>(cp, id) == kids[f], "child of cell ",
            f);
    ++f;
  });
  childOf<D>(p, {n[0] - 1, n[1] - 1, n[2] - 1}) = -7;
  REQUIRE(p.children()[total - 1] == -7, "assignment through the child reference");
}

template <Int D, class T>
void
rectilinear(pbt::Src & s, pbt::Case & c)
{
  std::array<Int, 3> n{1, 1, 1};
  std::vector<std::vector<T>> planes(D);
  Int total = 1;
  c.desc.precision(17);
  c.desc << "rectilinear D=" << D << (sizeof(T) == 4 ? " float" : " double");
  for (Int i = 0; i < D; ++i) {
    n[static_cast<size_t>(i)] = s.oneIn(150) ? s.irange(8, D == 3 ? 20 : 60) : s.size(1, D == 3 ? 4 : 7);
    total *= n[static_cast<size_t>(i)];
    T x = static_cast<T>(s.oneIn(3) ? 0 : s.real(-5, 5));
    auto & p = planes[static_cast<size_t>(i)];
    p.push_back(x);
    for (Int k = 0; k < n[static_cast<size_t>(i)]; ++k) {
      x += static_cast<T>(s.oneIn(3) ? s.irange(1, 3) : s.mag(-2, 1));
      p.push_back(x);
    }
    c.desc << " " << pbt::show(p);
  }
  c.nontrivial(total >= 4 && D >= 2);
  auto box = [&](std::array<Int, 3> const & id) {
    um2::Point<D, T> a;
    um2::Point<D, T> b;
    for (Int i = 0; i < D; ++i) {
      auto const k = static_cast<size_t>(id[static_cast<size_t>(i)]);
      a[i] = planes[static_cast<size_t>(i)][k];
      b[i] = planes[static_cast<size_t>(i)][k + 1];
    }
    return um2::AxisAlignedBox<D, T>(a, b);
  };
  um2::RectilinearGrid<D, T> g;
  auto const how = s.below(2);
  if (total == 1 && s.coin()) {
    g = um2::RectilinearGrid<D, T>(box({0, 0, 0}));
  } else if (how == 0) {
    for (Int i = 0; i < D; ++i) {
      g.divs(i).clear();
      for (T const x : planes[static_cast<size_t>(i)]) {
        g.divs(i).push_back(x);
      }
    }
  } else {
    std::vector<um2::AxisAlignedBox<D, T>> bs;
    eachCell<D>(n, [&](std::array<Int, 3> const & id) { bs.push_back(box(id)); });
    um2::Vector<um2::AxisAlignedBox<D, T>> v;
    for (int const i : s.perm(static_cast<int>(bs.size()))) {
      v.push_back(bs[static_cast<size_t>(i)]);
    }
    g = um2::RectilinearGrid<D, T>(v);
    c.desc << " from shuffled boxes";
    if (sizeof(T) == 8 && s.coin()) {
      // the faces of neighbours agree to rounding only
      for (auto & b : v) {
        um2::Point<D, T> lo = b.minima();
        um2::Point<D, T> hi = b.maxima();
        for (Int i = 0; i < D; ++i) {
          lo[i] += static_cast<T>(1e-12 * s.irange(-4, 4));
          hi[i] += static_cast<T>(1e-12 * s.irange(-4, 4));
        }
        b = um2::AxisAlignedBox<D, T>(lo, hi);
      }
      um2::RectilinearGrid<D, T> const r(v);
      for (Int i = 0; i < D; ++i) {
        auto const & p = planes[static_cast<size_t>(i)];
        REQUIRE(r.numCells(i) == n[static_cast<size_t>(i)], "from boxes that agree to rounding: ", r.numCells(i),
                " cells along axis ", i);
        for (Int k = 0; k <= r.numCells(i); ++k) {
          REQUIRE(pbt::near(r.divs(i)[k], p[static_cast<size_t>(k)], 0, 1e-9), "plane ", k, " of axis ", i,
                  " from boxes that agree to rounding");
        }
      }
      c.label("boxes that agree to rounding");
    }
  }
  REQUIRE(g.totalNumCells() == total, "total cells ", g.totalNumCells());
  auto const bb = g.boundingBox();
  for (Int i = 0; i < D; ++i) {
    auto const & p = planes[static_cast<size_t>(i)];
    REQUIRE(g.numCells(i) == n[static_cast<size_t>(i)] && g.numCells()[i] == g.numCells(i),
            "number of cells, axis ", i);
    REQUIRE(g.minima(i) == p.front() && g.maxima(i) == p.back() &&
                g.minima()[i] == p.front() && g.maxima()[i] == p.back() &&
                bb.minima(i) == p.front() && bb.maxima(i) == p.back(),
            "corners, axis ", i);
    REQUIRE(g.extents(i) == p.back() - p.front() && g.extents()[i] == g.extents(i),
            "extent, axis ", i);
  }
  Int f = 0;
  eachCell<D>(n, [&](std::array<Int, 3> const & id) {
    REQUIRE(flat<D>(g, id) == f, "flat index");
    um2::Vec<D, Int> v;
    for (Int i = 0; i < D; ++i) {
      v[i] = id[static_cast<size_t>(i)];
    }
    REQUIRE(g.getFlatIndex(v) == f, "flat index of an index vector");
    ++f;
    auto const b = cell<D>(g, id);
    auto const e = box(id);
    REQUIRE(b.minima() == e.minima() && b.maxima() == e.maxima(), "box of cell ", f - 1);
  });
  if constexpr (std::is_same_v<T, Float>) {
    um2::Vector<int> kids;
    for (Int i = 0; i < total; ++i) {
      kids.push_back(s.irange(0, 1000));
    }
    um2::RectilinearPartition<D, int> p(g, kids);
    auto const & cp = p;
    f = 0;
    eachCell<D>(n, [&](std::array<Int, 3> const & id) {
      REQUIRE(childOf<D>(p, id) == kids[f] && childOf<D>(cp, id) == kids[f],
              "child of cell ", f);
      ++f;
    });
    REQUIRE(p.children() == kids && p.grid().totalNumCells() == total, "partition parts");
    p.clear();
    REQUIRE(p.children().size() == 0 && p.grid().divs(0).size() == 0, "cleared partition");
  }
}

// ids with sizes, written top row first
void
idMap(pbt::Src & s, pbt::Case & c)
{
  int const nx = s.oneIn(100) ? s.irange(7, 40) : s.size(1, 6);
  int const ny = s.oneIn(100) ? s.irange(7, 40) : s.size(1, 6);
  int const nw = s.irange(1, 3);
  int const nh = s.irange(1, 3);
  int const variants = s.irange(1, 2);
  std::vector<double> w;
  std::vector<double> h;
  for (int i = 0; i < nw; ++i) {
    w.push_back(s.oneIn(3) ? s.irange(1, 3) : s.mag(-1, 1));
  }
  for (int i = 0; i < nh; ++i) {
    h.push_back(s.oneIn(3) ? s.irange(1, 3) : s.mag(-1, 1));
  }
  auto const lbl = s.perm(nw * nh * variants);
  um2::Vector<um2::Vec2F> dxdy(static_cast<Int>(lbl.size()));
  auto id = [&](int iw, int ih, int v) {
    return lbl[static_cast<size_t>((iw * nh + ih) * variants + v)];
  };
  for (int iw = 0; iw < nw; ++iw) {
    for (int ih = 0; ih < nh; ++ih) {
      for (int v = 0; v < variants; ++v) {
        dxdy[id(iw, ih, v)] = um2::Vec2F(w[static_cast<size_t>(iw)], h[static_cast<size_t>(ih)]);
      }
    }
  }
  std::vector<int> colw;
  std::vector<int> rowh; // top to bottom
  for (int j = 0; j < nx; ++j) {
    colw.push_back(s.irange(0, nw - 1));
  }
  for (int i = 0; i < ny; ++i) {
    rowh.push_back(s.irange(0, nh - 1));
  }
  um2::Vector<um2::Vector<Int>> ids(ny);
  for (int i = 0; i < ny; ++i) {
    c.desc << "[";
    for (int j = 0; j < nx; ++j) {
      ids[i].push_back(id(colw[static_cast<size_t>(j)], rowh[static_cast<size_t>(i)],
                          s.irange(0, variants - 1)));
      c.desc << " " << ids[i][j];
    }
    c.desc << " ]";
  }
  c.nontrivial(nx > 1 && ny > 1);
  um2::RectilinearPartition<2, Int> const p(dxdy, ids);
  um2::RectilinearGrid<2, Float> const g(dxdy, ids);
  REQUIRE(p.grid().numCells(0) == nx && p.grid().numCells(1) == ny, "cells");
  double y = 0;
  for (int i = 0; i < ny; ++i) {
    auto const row = static_cast<size_t>(ny - 1 - i);
    double const dy = h[static_cast<size_t>(rowh[row])];
    double x = 0;
    for (int j = 0; j < nx; ++j) {
      double const dxx = w[static_cast<size_t>(colw[static_cast<size_t>(j)])];
      for (auto const & b : {p.grid().getBox(j, i), g.getBox(j, i)}) {
        REQUIRE(pbt::near(b.minima(0), x, 0, 1e-9) && pbt::near(b.minima(1), y, 0, 1e-9) &&
                    pbt::near(b.maxima(0), x + dxx, 0, 1e-9) &&
                    pbt::near(b.maxima(1), y + dy, 0, 1e-9),
                "cell (", j, ",", i, ")");
      }
      REQUIRE(p.getChild(j, i) == ids[static_cast<Int>(row)][j], "id of cell (", j, ",", i,
              ")");
      x += dxx;
    }
    y += dy;
  }
}

template <class F>
void
anyDim(pbt::Src & s, F const & f)
{
  bool const flt = s.oneIn(4);
  switch (s.below(3)) {
  case 0:
    return flt ? f(std::integral_constant<Int, 2>(), float())
               : f(std::integral_constant<Int, 2>(), double());
  case 1:
    return flt ? f(std::integral_constant<Int, 3>(), float())
               : f(std::integral_constant<Int, 3>(), double());
  default:
    return flt ? f(std::integral_constant<Int, 1>(), float())
               : f(std::integral_constant<Int, 1>(), double());
  }
}

pbt::Reg const r1("regular_grid", 100000, 1500000, "two or more dimensions, four or more cells",
                  [](pbt::Src & s, pbt::Case & c) {
                    anyDim(s, [&](auto d, auto t) { regular<decltype(d)::value, decltype(t)>(s, c); });
                  });
pbt::Reg const r2("regular_partition", 30000, 500000, "more than one cell",
                  [](pbt::Src & s, pbt::Case & c) {
                    anyDim(s, [&](auto d, auto) { regularPartition<decltype(d)::value>(s, c); });
                  });
pbt::Reg const r3("rectilinear_grid", 100000, 1500000,
                  "two or more dimensions, four or more cells",
                  [](pbt::Src & s, pbt::Case & c) {
                    anyDim(s, [&](auto d, auto t) { rectilinear<decltype(d)::value, decltype(t)>(s, c); });
                  });
pbt::Reg const r4("id_map", 60000, 1000000, "more than one row and column", idMap);

} // namespace

auto
main(int argc, char ** argv) -> int
{
  pbt::Options o;
  o.leak_check = true;
  o.assumptions = {"a point or box corner within a few roundings of a cell plane may be "
                   "assigned to either side",
                   "divisions are farther apart than the geometric tolerance",
                   "in an id map, cells of one column share their width and cells of one row "
                   "their height"};
  return pbt::run("C10", "random grids in 1 to 3 dimensions with unequal axes", o, argc, argv);
}

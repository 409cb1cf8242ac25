// An ideal element soup, generators and comparison with the real one.
#pragma once

#include "pbt.hpp"

#include <um2/common/logger.hpp>
#include <um2/mesh/polytope_soup.hpp>

#include <algorithm>
#include <array>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace soup
{

struct Element {
  um2::VTKElemType type;
  std::vector<int> conn;
};
struct Set {
  std::string name;
  std::vector<int> ids;
  std::vector<double> data;
};
struct Model {
  std::vector<std::array<double, 3>> v;
  std::vector<Element> e;
  std::vector<Set> s;
};

inline auto
text(um2::String const & s) -> std::string
{
  return std::string(s.data(), static_cast<size_t>(s.size()));
}
inline auto
lib(std::string const & s) -> um2::String
{
  return um2::String(s.c_str());
}
template <class T>
auto
lib(std::vector<T> const & v) -> um2::Vector<T>
{
  um2::Vector<T> o;
  for (auto const & x : v) {
    o.emplace_back(x);
  }
  return o;
}

inline auto
allTypes() -> std::vector<um2::VTKElemType> const &
{
  using T = um2::VTKElemType;
  static std::vector<T> const t{T::Triangle,      T::Quad, T::QuadraticTriangle, T::QuadraticQuad,
                                T::QuadraticEdge, T::Line, T::Vertex};
  return t;
}
inline auto
nodes(um2::VTKElemType t) -> int
{
  using T = um2::VTKElemType;
  switch (t) {
  case T::Vertex:
    return 1;
  case T::Line:
    return 2;
  case T::Triangle:
  case T::QuadraticEdge:
    return 3;
  case T::Quad:
    return 4;
  case T::QuadraticTriangle:
    return 6;
  default:
    return 8;
  }
}

inline void
quiet()
{
  um2::settings::logger::level = 0;
  um2::settings::logger::exit_on_error = false;
}

// Exactly the model's content (positions within `tol`)
inline void
expectSame(um2::PolytopeSoup const & p, Model const & m, char const * what, double tol = 0)
{
  REQUIRE(p.numVertices() == static_cast<Int>(m.v.size()), what, ": ", p.numVertices(),
          " vertices, expected ", m.v.size());
  REQUIRE(p.numElements() == static_cast<Int>(m.e.size()), what, ": ", p.numElements(),
          " elements, expected ", m.e.size());
  REQUIRE(p.numElsets() == static_cast<Int>(m.s.size()), what, ": ", p.numElsets(),
          " element sets, expected ", m.s.size());
  REQUIRE(p.vertices().size() == p.numVertices() && p.elementTypes().size() == p.numElements() &&
              p.elsetNames().size() == p.numElsets() && p.elsetData().size() == p.numElsets(),
          what, ": sizes of the member arrays");
  for (size_t i = 0; i < m.v.size(); ++i) {
    auto const & q = p.getVertex(static_cast<Int>(i));
    for (Int k = 0; k < 3; ++k) {
      double const w = m.v[i][static_cast<size_t>(k)];
      REQUIRE(std::fabs(q[k] - w) <= tol, what, ": vertex ", i, " coordinate ", k, " is ", q[k],
              ", expected ", w);
    }
  }
  um2::Vector<Int> conn;
  Int offset = 0;
  std::vector<um2::VTKElemType> kinds;
  for (size_t i = 0; i < m.e.size(); ++i) {
    um2::VTKElemType t{};
    p.getElement(static_cast<Int>(i), t, conn);
    REQUIRE((t == m.e[i].type), what, ": element ", i, " has type ", int(t), ", expected ",
            int(m.e[i].type));
    if (std::find(kinds.begin(), kinds.end(), t) == kinds.end()) {
      kinds.push_back(t);
    }
    REQUIRE(conn.size() == static_cast<Int>(m.e[i].conn.size()), what, ": element ", i, " has ",
            conn.size(), " nodes");
    REQUIRE(p.elementOffsets()[static_cast<Int>(i)] == offset, what, ": offset of element ", i);
    for (Int k = 0; k < conn.size(); ++k) {
      REQUIRE(conn[k] == m.e[i].conn[static_cast<size_t>(k)] &&
                  p.elementConnectivity()[offset + k] == conn[k],
              what, ": element ", i, " node ", k, " is ", conn[k], ", expected ",
              m.e[i].conn[static_cast<size_t>(k)]);
    }
    offset += conn.size();
  }
  REQUIRE(p.elementConnectivity().size() == offset, what, ": connectivity has ",
          p.elementConnectivity().size(), " entries, expected ", offset);
  auto const types = p.getElemTypes();
  REQUIRE(types.size() == static_cast<Int>(kinds.size()), what, ": distinct types ", types.size());
  for (auto const t : kinds) {
    bool found = false;
    for (auto const u : types) {
      found = found || t == u;
    }
    REQUIRE(found, what, ": type ", int(t), " is not listed");
  }
  if (!m.e.empty()) {
    REQUIRE(p.elementOffsets().size() == p.numElements() + 1 &&
                p.elementOffsets()[p.numElements()] == offset,
            what, ": end of the offsets");
  }
  Int so = 0;
  for (size_t i = 0; i < m.s.size(); ++i) {
    auto const & want = m.s[i];
    for (int form = 0; form < 2; ++form) {
      um2::String name("unset");
      um2::Vector<Int> ids;
      // outputs already holding something else
      ids.emplace_back(77);
      um2::Vector<Float> data;
      data.emplace_back(5.0);
      if (form == 0) {
        p.getElset(static_cast<Int>(i), name, ids, data);
        REQUIRE(text(name) == want.name, what, ": set ", i, " is called ", text(name),
                ", expected ", want.name);
      } else {
        p.getElset(lib(want.name), ids, data);
      }
      REQUIRE(ids.size() == static_cast<Int>(want.ids.size()), what, ": set ", want.name, " has ",
              ids.size(), " members, expected ", want.ids.size());
      for (Int k = 0; k < ids.size(); ++k) {
        REQUIRE(ids[k] == want.ids[static_cast<size_t>(k)], what, ": set ", want.name, " member ",
                k, " is ", ids[k], ", expected ", want.ids[static_cast<size_t>(k)]);
      }
      REQUIRE(data.size() == static_cast<Int>(want.data.size()), what, ": set ", want.name,
              " has ", data.size(), " values, expected ", want.data.size());
      for (Int k = 0; k < data.size(); ++k) {
        REQUIRE(data[k] == want.data[static_cast<size_t>(k)], what, ": set ", want.name, " value ",
                k, " is ", data[k], ", expected ", want.data[static_cast<size_t>(k)]);
      }
    }
    REQUIRE(text(p.elsetNames()[static_cast<Int>(i)]) == want.name, what, ": name of set ", i);
    REQUIRE(p.elsetOffsets()[static_cast<Int>(i)] == so, what, ": offset of set ", want.name);
    for (size_t k = 0; k < want.ids.size(); ++k) {
      REQUIRE(p.elsetIDs()[so + static_cast<Int>(k)] == want.ids[k], what, ": ids of ", want.name);
    }
    so += static_cast<Int>(want.ids.size());
  }
  REQUIRE(p.elsetIDs().size() == so, what, ": ", p.elsetIDs().size(), " set members in all");
  if (!m.s.empty()) {
    REQUIRE(p.elsetOffsets().size() == p.numElsets() + 1 && p.elsetOffsets()[p.numElsets()] == so,
            what, ": end of the set offsets");
  }
}

inline auto
build(Model const & m) -> um2::PolytopeSoup
{
  um2::PolytopeSoup p;
  for (auto const & v : m.v) {
    p.addVertex(v[0], v[1], v[2]);
  }
  for (auto const & e : m.e) {
    p.addElement(e.type, lib(std::vector<Int>(e.conn.begin(), e.conn.end())));
  }
  for (auto const & s : m.s) {
    p.addElset(lib(s.name), lib(std::vector<Int>(s.ids.begin(), s.ids.end())), lib(s.data));
  }
  return p;
}

inline void
sortSets(Model & m)
{
  std::sort(m.s.begin(), m.s.end(), [](Set const & a, Set const & b) { return a.name < b.name; });
}

// Sets whose name starts with 'd' carry data
inline auto
genName(pbt::Src & s) -> std::string
{
  static char const * const fixed[] = {"A",          "B",     "d1",      "d10",     "d2",
                                       "Material_1", "dflux", "Mat_UO2", "d_long_name_over_the_inline_size"};
  if (!s.oneIn(3)) {
    return fixed[s.below(9)];
  }
  std::string n(1, "dABZaz_9"[s.below(8)]);
  auto const len = s.below(20);
  for (uint64_t i = 0; i < len; ++i) {
    n.push_back("abcXYZ019_-."[s.below(12)]);
  }
  return n;
}

inline auto
genValue(pbt::Src & s) -> double
{
  switch (s.below(4)) {
  case 0:
    return static_cast<double>(s.irange(-5, 5));
  case 1:
    return s.real(-10, 10);
  case 2:
    return s.sign() * s.mag(-12, 12);
  default:
    return s.fine(-1, 1);
  }
}

inline auto
genSubset(pbt::Src & s, size_t n) -> std::vector<int>
{
  std::vector<int> ids;
  auto const dense = s.below(4);
  for (size_t i = 0; i < n; ++i) {
    if (dense == 0 || s.below(4) < dense) {
      ids.push_back(static_cast<int>(i));
    }
  }
  if (ids.empty() && n > 0) {
    ids.push_back(static_cast<int>(s.below(n)));
  }
  return ids;
}

inline auto
genElement(pbt::Src & s, um2::VTKElemType t, size_t nv) -> Element
{
  Element e{t, {}};
  for (int k = 0; k < nodes(t); ++k) {
    e.conn.push_back(static_cast<int>(s.below(nv)));
  }
  return e;
}

inline auto
describe(Model const & m) -> std::string
{
  std::ostringstream o;
  o.precision(17);
  o << m.v.size() << " vertices, elements";
  for (auto const & e : m.e) {
    o << " " << int(e.type);
  }
  o << ", sets";
  for (auto const & s : m.s) {
    o << " " << s.name << "[" << s.ids.size() << (s.data.empty() ? "]" : " with data]");
  }
  return o.str();
}

} // namespace soup

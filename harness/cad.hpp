// CAD sessions: solid shapes with their own membership test, and queries of the kernel's model.
#pragma once

#include "reactor.hpp"

#include <gmsh.h>
#include <um2/gmsh/io.hpp>
#include <um2/gmsh/mesh.hpp>
#include <um2/gmsh/model.hpp>

#include <set>

namespace cad
{

using Pairs = std::vector<std::pair<int, int>>;

inline void
session()
{
  if (::gmsh::isInitialized() == 0) {
    ::gmsh::initialize(0, nullptr, false);
  }
  ::gmsh::option::setNumber("General.Terminal", 0);
  ::gmsh::option::setNumber("General.AbortOnError", 0);
  ::gmsh::clear();
}

struct Shape { // ellipse or rectangle; cylinder or box over [z, z + h] in three dimensions
  int kind = 0; // 0 ellipse, 1 rectangle
  int dim = 2;
  double x = 0, y = 0, z = 0; // centre, or lower corner
  double a = 1, b = 1, h = 0; // radii, or extents
  int tag = -1;

  // signed measure, below zero inside
  [[nodiscard]] auto
  side(double px, double py, double pz) const -> double
  {
    double s = 0;
    if (kind == 0) {
      s = (std::hypot((px - x) / a, (py - y) / b) - 1) * std::min(a, b);
    } else {
      s = std::max({x - px, px - x - a, y - py, py - y - b});
    }
    return dim == 2 ? s : std::max({s, z - pz, pz - z - h});
  }

  void
  add()
  {
    namespace occ = ::gmsh::model::occ;
    if (dim == 2) {
      tag = kind == 0 ? occ::addDisk(x, y, z, a, b) : occ::addRectangle(x, y, z, a, b);
    } else {
      tag = kind == 0 ? occ::addCylinder(x, y, z, 0, 0, h, a) : occ::addBox(x, y, z, a, b, h);
    }
  }
};

inline void
describe(std::ostream & o, Shape const & q)
{
  o << (q.kind == 0 ? "round " : "box ") << q.x << " " << q.y << " " << q.a << " " << q.b;
  if (q.dim == 3) {
    o << " from " << q.z << " height " << q.h;
  }
}

inline auto
entities(int dim) -> std::vector<int>
{
  Pairs p;
  ::gmsh::model::getEntities(p, dim);
  std::vector<int> t;
  for (auto const & [d, tag] : p) {
    t.push_back(tag);
  }
  return t;
}

// names of the groups of an entity
inline auto
groupsOf(int dim, int tag) -> std::multiset<std::string>
{
  std::vector<int> g;
  ::gmsh::model::getPhysicalGroupsForEntity(dim, tag, g);
  std::multiset<std::string> out;
  for (int const k : g) {
    std::string name;
    ::gmsh::model::getPhysicalName(dim, k, name);
    out.insert(name);
  }
  return out;
}

inline auto
inside(int dim, int tag, double x, double y, double z) -> bool
{
  double lo[3];
  double hi[3];
  ::gmsh::model::getBoundingBox(dim, tag, lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]);
  if (z < lo[2] - 1e-5 || z > hi[2] + 1e-5) { // surfaces are otherwise met by projection
    return false;
  }
  return ::gmsh::model::isInside(dim, tag, {x, y, z}) > 0;
}

// A point inside an entity where every shape is at least margin away; false if none was met
template <class F>
auto
witness(pbt::Src & s, int dim, int tag, F const & clear, double p[3]) -> bool
{
  double lo[3];
  double hi[3];
  ::gmsh::model::getBoundingBox(dim, tag, lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]);
  for (int t = 0; t < 40; ++t) {
    for (int k = 0; k < 3; ++k) {
      p[k] = k < dim ? s.real(lo[k], hi[k]) : (lo[k] + hi[k]) / 2;
    }
    if (clear(p) && inside(dim, tag, p[0], p[1], p[2])) {
      return true;
    }
  }
  return false;
}

inline auto
join(std::multiset<std::string> const & a) -> std::string
{
  std::string out;
  for (auto const & x : a) {
    out += (out.empty() ? "" : ", ") + x;
  }
  return "{" + out + "}";
}

inline auto
material(std::string const & name, um2::Color const & c) -> um2::Material
{
  um2::Material m;
  m.setName(um2::String(name.c_str()));
  m.setColor(c);
  return m;
}

} // namespace cad

// C31: group-preserving CAD operations.
// Oracle: membership of sample points in the original shapes, decided by formula.
#include "cad.hpp"

namespace
{

using namespace cad;
using reactor::armLogger;
using reactor::errorLogged;

um2::Color const COLORS[] = {um2::Color(255, 0, 0, 255), um2::Color(0, 120, 0, 255), um2::Color(10, 20, 30, 255),
                             um2::Color(200, 200, 0, 100), um2::Color(1, 2, 3, 4)};
char const * const MATS[] = {"UO2", "Water", "Clad", "MOX_4.3", "B4C"};

struct Scene {
  std::vector<Shape> shapes;
  std::vector<std::set<std::string>> groups; // of each shape
  std::vector<int> mat;                      // of each shape, or -1
};

// Whether no two boundaries are nearly tangent
auto
apart(Shape const & a, Shape const & b) -> bool
{
  constexpr double M = 0.03;
  if (a.dim == 3 && a.kind == 0 && b.kind == 0 &&
      (std::fabs(a.z - b.z) < M || std::fabs(a.z + a.h - b.z) < M || std::fabs(a.z - b.z - b.h) < M)) {
    // shared planes are fine
  }
  if (a.kind == 1 && b.kind == 1) {
    return true; // on one lattice: edges coincide or are far apart
  }
  Shape const & c = a.kind == 0 ? a : b;
  Shape const & o = a.kind == 0 ? b : a;
  // sample the round boundary: the sign of the other shape must change clearly or not at all
  double last = 0;
  double least = 1e9;
  int flips = 0;
  for (int i = 0; i <= 256; ++i) {
    double const t = 2 * 3.14159265358979 * i / 256;
    Shape flat = o;
    flat.dim = 2;
    double const v = flat.side(c.x + c.a * std::cos(t), c.y + c.b * std::sin(t), 0);
    least = std::min(least, std::fabs(v));
    if (i > 0 && (v < 0) != (last < 0)) {
      ++flips;
      if (std::fabs(v - last) < 0.004 * std::min(c.a, c.b)) {
        return false; // crosses at a grazing angle
      }
    }
    last = v;
  }
  if (flips == 0) {
    return least > M;
  }
  if (o.kind == 1) { // corners clear of the curve
    for (int k = 0; k < 4; ++k) {
      Shape flat = c;
      flat.dim = 2;
      if (std::fabs(flat.side(o.x + (k % 2) * o.a, o.y + (k / 2) * o.b, 0)) < M) {
        return false;
      }
    }
  }
  // no near touch besides the crossings
  int near = 0;
  double prev = 1e9;
  bool in = false;
  for (int i = 0; i <= 256; ++i) {
    double const t = 2 * 3.14159265358979 * i / 256;
    Shape flat = o;
    flat.dim = 2;
    double const v = flat.side(c.x + c.a * std::cos(t), c.y + c.b * std::sin(t), 0);
    bool const close = std::fabs(v) < M;
    if (close && !in) {
      ++near;
    }
    in = close;
    prev = v;
  }
  (void)prev;
  return near <= flips + 1;
}

auto
genShape(pbt::Src & s, int dim) -> Shape
{
  Shape q;
  q.dim = dim;
  q.kind = s.irange(0, 1);
  if (q.kind == 0) {
    q.x = s.real(0, 4);
    q.y = s.real(0, 4);
    q.a = s.real(0.2, 2);
    q.b = dim == 2 && s.oneIn(3) ? q.a * s.real(0.5, 1) : q.a;
  } else {
    q.x = s.irange(0, 3);
    q.y = s.irange(0, 3);
    q.a = s.irange(1, 3);
    q.b = s.irange(1, 3);
  }
  if (dim == 3) {
    q.z = s.irange(0, 2);
    q.h = s.irange(1, 3);
  }
  return q;
}

auto
genScene(pbt::Src & s, int dim, int most) -> Scene
{
  Scene sc;
  int const n = s.irange(2, most);
  for (int i = 0; i < n; ++i) {
    for (int t = 0; t < 10; ++t) {
      Shape const q = genShape(s, dim);
      bool ok = true;
      for (auto const & o : sc.shapes) {
        ok = ok && apart(q, o);
      }
      if (ok) {
        sc.shapes.push_back(q);
        break;
      }
    }
  }
  int const nm = s.irange(1, 4);
  for (size_t i = 0; i < sc.shapes.size(); ++i) {
    std::set<std::string> g;
    for (char const * const name : {"A", "Zone 2", "zz", "Material"}) {
      if (s.oneIn(4)) {
        g.insert(name);
      }
    }
    int const m = s.oneIn(4) ? -1 : s.irange(0, nm - 1);
    sc.mat.push_back(m);
    if (m >= 0) {
      g.insert(std::string("Material_") + MATS[m]);
    }
    sc.groups.push_back(g);
  }
  return sc;
}

// Creates the shapes and their groups in a new model
void
realise(pbt::Src & s, Scene & sc, int dim)
{
  session();
  // numbering with gaps
  std::vector<int> extra;
  for (auto & q : sc.shapes) {
    if (s.oneIn(5)) {
      Shape e = q;
      e.x += 20;
      e.add();
      extra.push_back(e.tag);
    }
    q.add();
  }
  if (!extra.empty()) {
    Pairs p;
    for (int const t : extra) {
      p.emplace_back(dim, t);
    }
    ::gmsh::model::occ::remove(p, true);
  }
  ::gmsh::model::occ::synchronize();
  std::map<std::string, std::vector<int>> members;
  for (size_t i = 0; i < sc.shapes.size(); ++i) {
    for (auto const & g : sc.groups[i]) {
      members[g].push_back(sc.shapes[i].tag);
    }
  }
  std::vector<std::string> names;
  for (auto const & [g, t] : members) {
    names.push_back(g);
  }
  for (int const k : s.perm(static_cast<int>(names.size()))) {
    auto tags = members[names[static_cast<size_t>(k)]];
    std::sort(tags.begin(), tags.end());
    // in one request, or one by one in any order
    if (s.coin()) {
      um2::gmsh::model::addToPhysicalGroup(dim, tags, -1, names[static_cast<size_t>(k)]);
    } else {
      for (int const j : s.perm(static_cast<int>(tags.size()))) {
        um2::gmsh::model::addToPhysicalGroup(dim, {tags[static_cast<size_t>(j)]}, -1, names[static_cast<size_t>(k)]);
      }
    }
  }
}

void
checkNames(int dim)
{
  Pairs p;
  ::gmsh::model::getPhysicalGroups(p, dim);
  std::set<std::string> seen;
  for (auto const & [d, t] : p) {
    std::string name;
    ::gmsh::model::getPhysicalName(d, t, name);
    REQUIRE(seen.insert(name).second, "two groups are named ", name);
  }
}

void
booleans(pbt::Src & s, pbt::Case & c, int dim)
{
  armLogger();
  auto sc = genScene(s, dim, dim == 2 ? 7 : 5);
  pbt::discardUnless(sc.shapes.size() >= 2);
  realise(s, sc, dim);
  size_t const n = sc.shapes.size();
  int const op = s.irange(0, 2); // fragment, intersect, cut
  // role: 0 object, 1 tool, 2 bystander
  std::vector<int> role(n);
  Pairs obj;
  Pairs tool;
  for (size_t i = 0; i < n; ++i) {
    role[i] = i == 0 ? 0 : i == 1 ? 1 : s.oneIn(5) ? 2 : s.irange(0, 1);
    if (role[i] < 2) {
      (role[i] == 0 ? obj : tool).emplace_back(dim, sc.shapes[i].tag);
    }
  }
  std::sort(obj.begin(), obj.end());
  std::sort(tool.begin(), tool.end());
  std::vector<um2::Material> hier;
  std::vector<int> order;
  if (op < 2 && !s.oneIn(3)) {
    for (int const k : s.perm(5)) {
      if (!s.oneIn(4)) {
        order.push_back(k);
        hier.push_back(material(MATS[k], COLORS[k]));
      }
    }
  }
  static char const * const OPS[] = {"fragment", "intersect", "cut"};
  c.desc << OPS[op];
  for (size_t i = 0; i < n; ++i) {
    c.desc << "; " << (role[i] == 0 ? "object " : role[i] == 1 ? "tool " : "other ");
    describe(c.desc, sc.shapes[i]);
    c.desc << " groups";
    for (auto const & g : sc.groups[i]) {
      c.desc << " '" << g << "'";
    }
  }
  c.desc << "; hierarchy";
  for (int const k : order) {
    c.desc << " " << MATS[k];
  }
  bool const drop[2] = {true, op != 2 || s.coin()}; // whether objects and tools are removed
  c.desc << (drop[1] ? "" : "; tools kept");
  Pairs out;
  std::vector<Pairs> map;
  namespace occ = um2::gmsh::model::occ;
  if (op == 0) {
    occ::groupPreservingFragment(obj, tool, out, map, hier, -1, drop[0], drop[1]);
  } else if (op == 1) {
    occ::groupPreservingIntersect(obj, tool, out, map, hier, -1, drop[0], drop[1]);
  } else {
    occ::groupPreservingCut(obj, tool, out, map, -1, drop[0], drop[1]);
  }
  REQUIRE(!errorLogged(), "error: ", um2::logger::buffer);
  checkNames(dim);

  auto clear = [&](double const * p) {
    for (auto const & q : sc.shapes) {
      if (std::fabs(q.side(p[0], p[1], p[2])) < 0.01) {
        return false;
      }
    }
    return true;
  };
  auto const all = entities(dim);
  int overlaps = 0;
  int tested = 0;
  auto test = [&](double const * p) {
    std::vector<int> here;
    for (int const t : all) {
      if (inside(dim, t, p[0], p[1], p[2])) {
        here.push_back(t);
      }
    }
    std::multiset<std::string> want;
    std::set<int> mats;
    bool in_obj = false;
    bool in_tool = false;
    std::set<std::string> uni;
    for (size_t i = 0; i < n; ++i) {
      if (sc.shapes[i].side(p[0], p[1], p[2]) >= 0) {
        continue;
      }
      bool const kept = role[i] < 2 && !drop[role[i]] &&
                        std::find(out.begin(), out.end(), std::pair(dim, sc.shapes[i].tag)) == out.end();
      if (role[i] == 2 || kept) { // untouched
        auto const it = std::find(here.begin(), here.end(), sc.shapes[i].tag);
        REQUIRE(it != here.end(), "a shape that was to stay is gone at ", p[0], ", ", p[1], ", ", p[2]);
        here.erase(it);
        auto const g = groupsOf(dim, sc.shapes[i].tag);
        std::multiset<std::string> const w(sc.groups[i].begin(), sc.groups[i].end());
        REQUIRE(g == w, "a shape that was to stay now has groups ", join(g), ", had ", join(w));
        if (!kept) {
          continue;
        }
      }
      in_obj = in_obj || role[i] == 0;
      in_tool = in_tool || role[i] == 1;
      uni.insert(sc.groups[i].begin(), sc.groups[i].end());
      if (sc.mat[i] >= 0) {
        mats.insert(sc.mat[i]);
      }
    }
    bool const survives = op == 0 ? in_obj || in_tool : op == 1 ? in_obj && in_tool : in_obj && !in_tool;
    REQUIRE(here.size() == (survives ? 1U : 0U), here.size(), " pieces at ", p[0], ", ", p[1], ", ", p[2], ", expected ",
            survives ? 1 : 0);
    ++tested;
    if (!survives) {
      return;
    }
    int top = -1;
    for (int const k : order) {
      if (mats.contains(k)) {
        if (top < 0) {
          top = k;
        } else {
          uni.erase(std::string("Material_") + MATS[k]);
        }
      }
    }
    overlaps += mats.size() > 1 ? 1 : 0;
    want.insert(uni.begin(), uni.end());
    auto const g = groupsOf(dim, here[0]);
    REQUIRE(g == want, "the piece at ", p[0], ", ", p[1], ", ", p[2], " has groups ", join(g), ", expected ", join(want));
    if (top >= 0) {
      int r = 0;
      int gg = 0;
      int b = 0;
      int a = 0;
      ::gmsh::model::getColor(dim, here[0], r, gg, b, a);
      auto const & col = COLORS[top];
      REQUIRE(r == col.r() && gg == col.g() && b == col.b() && a == col.a(), "the piece at ", p[0], ", ", p[1], ", ", p[2],
              " has colour ", r, " ", gg, " ", b, " ", a, " but material ", MATS[top]);
    }
  };
  double p[3] = {0, 0, 0};
  for (int const t : all) {
    if (witness(s, dim, t, clear, p)) {
      test(p);
    }
  }
  for (int i = 0; i < 20; ++i) {
    for (int k = 0; k < dim; ++k) {
      p[k] = s.real(-1, 6);
    }
    p[2] = dim == 2 ? 0 : p[2];
    if (clear(p)) {
      test(p);
    }
  }
  c.label(OPS[op]);
  c.label(overlaps > 0 ? "materials overlap" : "no overlapping materials");
  c.nontrivial(overlaps > 0 && tested > 5);
}

PBT_SUB(booleans_2d, 800, 20000, "pieces where materials overlap")
{
  booleans(s, c, 2);
}

PBT_SUB(booleans_3d, 200, 5000, "pieces where materials overlap")
{
  booleans(s, c, 3);
}

PBT_SUB(refusals, 150, 3000, "every case")
{
  armLogger();
  auto sc = genScene(s, 2, 4);
  pbt::discardUnless(sc.shapes.size() >= 2);
  realise(s, sc, 2);
  Pairs a{{2, sc.shapes[0].tag}};
  Pairs b{{2, sc.shapes[1].tag}};
  int const how = s.irange(0, 4);
  c.desc << "refusal " << how;
  switch (how) {
  case 0:
    a.clear();
    break;
  case 1:
    b.clear();
    break;
  case 2:
    a.emplace_back(a[0]);
    break;
  case 3:
    b.insert(b.begin(), {2, sc.shapes[1].tag + 1});
    break;
  default:
    b[0].first = 1;
  }
  Pairs out;
  std::vector<Pairs> map;
  namespace occ = um2::gmsh::model::occ;
  int const op = s.irange(0, 2);
  auto const before = entities(2);
  if (op == 0) {
    occ::groupPreservingFragment(a, b, out, map);
  } else if (op == 1) {
    occ::groupPreservingIntersect(a, b, out, map);
  } else {
    occ::groupPreservingCut(a, b, out, map);
  }
  REQUIRE(errorLogged(), "no error for a bad request");
  REQUIRE(entities(2) == before, "a refused request changed the model");
  for (size_t i = 0; i < sc.shapes.size(); ++i) {
    auto const g = groupsOf(2, sc.shapes[i].tag);
    REQUIRE(g == std::multiset<std::string>(sc.groups[i].begin(), sc.groups[i].end()),
            "a refused request left groups ", join(g));
  }
  c.nontrivial();
}

// Concentric rings with materials
struct Pin {
  double x = 0, y = 0;
  std::vector<double> r;
  std::vector<int> mat;

  [[nodiscard]] auto
  at(double px, double py) const -> int // material, or -1
  {
    double const d = std::hypot(px - x, py - y);
    for (size_t i = 0; i < r.size(); ++i) {
      if (d < r[i]) {
        return mat[i];
      }
    }
    return -1;
  }
  [[nodiscard]] auto
  clear(double px, double py, double m) const -> bool
  {
    double const d = std::hypot(px - x, py - y);
    return std::none_of(r.begin(), r.end(), [&](double q) { return std::fabs(d - q) < m; });
  }
};

auto
genRings(pbt::Src & s, double most, int nm) -> Pin
{
  Pin p;
  int const n = s.irange(1, 3);
  for (int i = 0; i < n; ++i) {
    p.r.push_back(most * (i + s.real(0.3, 1)) / n);
    p.mat.push_back(s.irange(0, nm - 1));
  }
  return p;
}

void
addPin(Pin const & p)
{
  um2::Vector<Float> r;
  um2::Vector<um2::Material> m;
  for (size_t i = 0; i < p.r.size(); ++i) {
    r.emplace_back(p.r[i]);
    m.emplace_back(material(MATS[p.mat[i]], COLORS[p.mat[i]]));
  }
  auto const tags = um2::gmsh::model::occ::addCylindricalPin2D(um2::Vec2F(p.x, p.y), r, m);
  REQUIRE(tags.size() == static_cast<Int>(p.r.size()), tags.size(), " tags for ", p.r.size(), " rings");
  for (size_t i = 0; i < p.r.size(); ++i) {
    double mass = 0;
    ::gmsh::model::occ::getMass(2, tags[static_cast<Int>(i)], mass);
    double const in = i == 0 ? 0 : p.r[i - 1];
    double const want = 3.14159265358979323846 * (p.r[i] * p.r[i] - in * in);
    REQUIRE(std::fabs(mass - want) < 1e-6 * want, "ring ", i, " has area ", mass, ", expected ", want);
  }
}

auto
colourIs(int dim, int tag, um2::Color const & col) -> bool
{
  int r = 0;
  int g = 0;
  int b = 0;
  int a = 0;
  ::gmsh::model::getColor(dim, tag, r, g, b, a);
  return r == col.r() && g == col.g() && b == col.b() && a == col.a();
}

PBT_SUB(pin_lattice, 400, 10000, "several pins of several rings")
{
  armLogger();
  session();
  // columns and rows of two sizes; a pin type for each combination, perhaps several
  double const W[2] = {s.real(0.5, 3), s.real(0.5, 3)};
  double const H[2] = {s.real(0.5, 3), s.real(0.5, 3)};
  int const nx = s.irange(1, 4);
  int const ny = s.irange(1, 4);
  std::vector<int> cw;
  std::vector<int> rh;
  for (int i = 0; i < nx; ++i) {
    cw.push_back(s.irange(0, 1));
  }
  for (int j = 0; j < ny; ++j) {
    rh.push_back(s.irange(0, 1));
  }
  struct Type {
    int w, h;
    Pin pin;
  };
  std::vector<Type> types;
  for (int w = 0; w < 2; ++w) {
    for (int h = 0; h < 2; ++h) {
      for (int k = s.irange(1, 2); k > 0; --k) {
        Type t{w, h, genRings(s, 0.49 * std::min(W[w], H[h]), 5)};
        if (s.oneIn(5)) {
          t.pin.r.clear();
          t.pin.mat.clear();
        }
        types.push_back(t);
      }
    }
  }
  double const ox = s.coin() ? 0 : s.real(-5, 5);
  double const oy = s.coin() ? 0 : s.real(-5, 5);
  std::vector<Pin> pins;
  um2::Vector<um2::Vector<Int>> ids(ny);
  double y = oy;
  int rings = 0;
  for (int j = 0; j < ny; ++j) {
    double x = ox;
    for (int i = 0; i < nx; ++i) {
      std::vector<int> fit;
      for (size_t k = 0; k < types.size(); ++k) {
        if (types[k].w == cw[static_cast<size_t>(i)] && types[k].h == rh[static_cast<size_t>(j)]) {
          fit.push_back(static_cast<int>(k));
        }
      }
      int const k = s.pick(fit);
      ids[ny - 1 - j].emplace_back(k);
      Pin p = types[static_cast<size_t>(k)].pin;
      p.x = x + W[cw[static_cast<size_t>(i)]] / 2;
      p.y = y + H[rh[static_cast<size_t>(j)]] / 2;
      rings += static_cast<int>(p.r.size());
      pins.push_back(p);
      x += W[cw[static_cast<size_t>(i)]];
    }
    y += H[rh[static_cast<size_t>(j)]];
  }
  um2::Vector<um2::Vec2F> ext;
  um2::Vector<um2::Vector<Float>> radii;
  um2::Vector<um2::Vector<um2::Material>> mats;
  for (auto const & t : types) {
    ext.emplace_back(um2::Vec2F(W[t.w], H[t.h]));
    um2::Vector<Float> r;
    um2::Vector<um2::Material> m;
    for (size_t i = 0; i < t.pin.r.size(); ++i) {
      r.emplace_back(t.pin.r[i]);
      m.emplace_back(material(MATS[t.pin.mat[i]], COLORS[t.pin.mat[i]]));
    }
    radii.emplace_back(r);
    mats.emplace_back(m);
  }
  c.desc << nx << " by " << ny << " pins at " << ox << ", " << oy << ", " << types.size() << " types";
  auto const tags = um2::gmsh::model::occ::addCylindricalPinLattice2D(ids, ext, radii, mats, um2::Vec2F(ox, oy));
  REQUIRE(!errorLogged(), "error: ", um2::logger::buffer);
  checkNames(2);
  auto const all = entities(2);
  std::set<int> returned;
  for (auto const t : tags) {
    returned.insert(t);
  }
  REQUIRE(returned == std::set<int>(all.begin(), all.end()), "returned tags differ from the surfaces");
  REQUIRE(static_cast<int>(all.size()) == rings, all.size(), " surfaces for ", rings, " rings");
  auto test = [&](double px, double py) {
    int want = -1;
    for (auto const & p : pins) {
      if (!p.clear(px, py, 1e-3)) {
        return;
      }
      want = std::max(want, p.at(px, py));
    }
    std::vector<int> here;
    for (int const t : all) {
      if (inside(2, t, px, py, 0)) {
        here.push_back(t);
      }
    }
    REQUIRE(here.size() == (want < 0 ? 0U : 1U), here.size(), " surfaces at ", px, ", ", py);
    if (want >= 0) {
      auto const g = groupsOf(2, here[0]);
      REQUIRE(g == std::multiset<std::string>{std::string("Material_") + MATS[want]}, "groups ", join(g), " at ", px, ", ",
              py, ", expected ", MATS[want]);
      REQUIRE(colourIs(2, here[0], COLORS[want]), "wrong colour at ", px, ", ", py);
    }
  };
  for (auto const & p : pins) {
    for (size_t i = 0; i < p.r.size(); ++i) {
      double const in = i == 0 ? 0 : p.r[i - 1];
      double const q = in + (p.r[i] - in) * s.real(0.05, 0.95);
      double const t = s.real(0, 6.283);
      test(p.x + q * std::cos(t), p.y + q * std::sin(t));
    }
  }
  for (int i = 0; i < 6; ++i) {
    test(s.real(ox - 0.5, ox + 3 * nx), s.real(oy - 0.5, oy + 3 * ny));
  }
  std::vector<um2::Material> found;
  um2::gmsh::model::getMaterials(found);
  std::set<int> used;
  for (auto const & p : pins) {
    used.insert(p.mat.begin(), p.mat.end());
  }
  REQUIRE(found.size() == used.size(), found.size(), " materials in the model, expected ", used.size());
  for (auto const & m : found) {
    bool ok = false;
    for (int const k : used) {
      ok = ok || (m.getName() == MATS[k] && m.getColor() == COLORS[k]);
    }
    REQUIRE(ok, "unexpected material ", m.getName().data());
  }
  c.nontrivial(rings > static_cast<int>(pins.size()) && pins.size() > 2);
}

void
overlay(pbt::Src & s, pbt::Case & c, bool solid)
{
  armLogger();
  session();
  reactor::Limits lim;
  lim.mesh_div = 1;
  lim.cells = solid ? 8 : 24;
  lim.plane = !solid;
  auto const r = reactor::genReactor(s, lim);
  reactor::Model m;
  reactor::build(r, m);
  REQUIRE(!errorLogged(), "error: ", um2::logger::buffer);
  auto const occ = r.expand();
  double X = 0;
  double Y = 0;
  for (auto const & o : occ) {
    X = std::max(X, o.x + r.cells[static_cast<size_t>(o.cell)].w);
    Y = std::max(Y, o.y + r.cells[static_cast<size_t>(o.cell)].h);
  }
  double const unit = std::min(r.W, r.H) / 3;
  // whether a circle keeps clear of the lines and corners of every cell
  auto ok = [&](double x, double y, double q) {
    for (auto const & o : occ) {
      auto const & cell = r.cells[static_cast<size_t>(o.cell)];
      for (int k = 0; k < 4; ++k) {
        double const dx = std::fabs(x - o.x - (k % 2) * cell.w);
        double const dy = std::fabs(y - o.y - (k / 2) * cell.h);
        if (std::fabs(dx - q) < 0.03 * q || std::fabs(dy - q) < 0.03 * q || std::fabs(std::hypot(dx, dy) - q) < 0.03 * q) {
          return false;
        }
      }
    }
    return true;
  };
  int const nm = s.irange(1, 4);
  struct Thing {
    Pin p;
    double z0, z1;
    bool a; // also in a group that is no material
  };
  std::vector<Thing> things;
  for (int i = s.irange(1, solid ? 4 : 6); i > 0; --i) {
    for (int t = 0; t < 10; ++t) {
      Thing th{genRings(s, unit * s.real(0.4, 2), nm), -1, 1, s.oneIn(3)};
      th.p.x = s.real(-unit, X + unit);
      th.p.y = s.real(-unit, Y + unit);
      if (solid) {
        th.p.r.resize(1);
        th.p.mat.resize(1);
        double const h = r.asys[0].z.back() - r.asys[0].z[0];
        double const z = r.asys[0].z[0];
        th.z0 = s.coin() ? z : z + h * s.real(-0.2, 0.5);
        th.z1 = s.coin() ? z + h : th.z0 + h * s.real(0.2, 1);
      }
      bool good = th.z1 > th.z0;
      for (double const q : th.p.r) {
        good = good && ok(th.p.x, th.p.y, q);
      }
      for (auto const & o : things) {
        good = good && std::hypot(o.p.x - th.p.x, o.p.y - th.p.y) > 1.05 * (o.p.r.back() + th.p.r.back());
      }
      for (auto const & o : occ) {
        for (double const zz : {o.z, o.z - o.dz / 2, o.z + o.dz / 2}) {
          for (double const e : {th.z0, th.z1}) {
            good = good && (!solid || std::fabs(zz - e) > 0.01 * r.height || (zz != o.z && zz == e));
          }
        }
      }
      if (good) {
        things.push_back(th);
        break;
      }
    }
  }
  pbt::discardUnless(!things.empty());
  c.desc << r.describe() << "; rings";
  for (auto const & t : things) {
    c.desc << "; " << t.p.x << " " << t.p.y << " z " << t.z0 << " " << t.z1;
    for (size_t i = 0; i < t.p.r.size(); ++i) {
      c.desc << " r " << t.p.r[i] << " " << MATS[t.p.mat[i]];
    }
  }
  for (auto & t : things) {
    std::vector<int> tags;
    if (!solid) {
      auto const before = entities(2);
      addPin(t.p);
      for (int const k : entities(2)) {
        if (std::find(before.begin(), before.end(), k) == before.end()) {
          tags.push_back(k);
        }
      }
    } else {
      int const tag = ::gmsh::model::occ::addCylinder(t.p.x, t.p.y, t.z0, 0, 0, t.z1 - t.z0, t.p.r[0]);
      ::gmsh::model::occ::synchronize();
      um2::gmsh::model::addToPhysicalGroup(3, {tag}, -1, std::string("Material_") + MATS[t.p.mat[0]]);
      tags.push_back(tag);
    }
    if (t.a) {
      um2::gmsh::model::addToPhysicalGroup(solid ? 3 : 2, tags, -1, "A");
    }
  }
  int const fill = s.oneIn(3) ? s.irange(0, nm - 1) : 4;
  c.desc << "; fill " << MATS[fill];
  um2::gmsh::model::occ::overlayCoarseGrid(m, material(MATS[fill], COLORS[fill]));
  REQUIRE(!errorLogged(), "error: ", um2::logger::buffer);
  checkNames(2);
  // where each cell was placed
  std::vector<int> place(r.cells.size(), -1);
  Pairs groups;
  ::gmsh::model::getPhysicalGroups(groups, 2);
  for (auto const & [d, g] : groups) {
    std::string name;
    ::gmsh::model::getPhysicalName(d, g, name);
    if (!name.starts_with("Coarse_Cell_")) {
      continue;
    }
    auto const id = std::stoul(name.substr(12));
    REQUIRE(name.size() == 17 && id < r.cells.size(), "group ", name);
    std::vector<int> tags;
    ::gmsh::model::getEntitiesForPhysicalGroup(d, g, tags);
    double lo[3] = {1e30, 1e30, 1e30};
    double hi[3] = {-1e30, -1e30, -1e30};
    for (int const t : tags) {
      double a[3];
      double b[3];
      ::gmsh::model::getBoundingBox(2, t, a[0], a[1], a[2], b[0], b[1], b[2]);
      for (int k = 0; k < 3; ++k) {
        lo[k] = std::min(lo[k], a[k]);
        hi[k] = std::max(hi[k], b[k]);
      }
    }
    for (size_t k = 0; k < occ.size() && place[id] < 0; ++k) {
      auto const & o = occ[k];
      auto const & cell = r.cells[id];
      double const eps = 1e-5;
      if (o.cell == static_cast<int>(id) && std::fabs(lo[0] - o.x) < eps && std::fabs(lo[1] - o.y) < eps &&
          std::fabs(hi[0] - o.x - cell.w) < eps && std::fabs(hi[1] - o.y - cell.h) < eps && std::fabs(lo[2] - o.z) < eps &&
          std::fabs(hi[2] - o.z) < eps) {
        place[id] = static_cast<int>(k);
      }
    }
    REQUIRE(place[id] >= 0, name, " covers ", lo[0], " ", lo[1], " ", lo[2], " to ", hi[0], " ", hi[1], " ", hi[2],
            ", no place of that cell");
  }
  for (size_t i = 0; i < place.size(); ++i) {
    REQUIRE(place[i] >= 0, "no group for cell ", i);
  }
  auto const all = entities(2);
  REQUIRE(entities(3).empty(), "volumes left over");
  int met = 0;
  bool several = false;
  auto test = [&](double x, double y, double z) {
    int cell = -1;
    for (size_t i = 0; i < place.size(); ++i) {
      auto const & o = occ[static_cast<size_t>(place[i])];
      double const dx = x - o.x;
      double const dy = y - o.y;
      double const m = 0.01 * unit;
      for (double const e : {dx, dx - r.cells[i].w, dy, dy - r.cells[i].h}) {
        if (std::fabs(e) < m) {
          return;
        }
      }
      if (dx > 0 && dy > 0 && dx < r.cells[i].w && dy < r.cells[i].h && std::fabs(z - o.z) < 1e-5) {
        cell = static_cast<int>(i);
      }
    }
    int mat = -1;
    bool in_a = false;
    for (auto const & t : things) {
      if (!t.p.clear(x, y, 0.01 * unit)) {
        return;
      }
      int const k = z > t.z0 && z < t.z1 ? t.p.at(x, y) : -1;
      if (k >= 0) {
        mat = k;
        in_a = t.a;
      }
    }
    std::vector<int> here;
    for (int const t : all) {
      if (inside(2, t, x, y, z)) {
        here.push_back(t);
      }
    }
    REQUIRE(here.size() == (cell < 0 ? 0U : 1U), here.size(), " surfaces at ", x, ", ", y, ", ", z, ", expected ",
            cell < 0 ? 0 : 1);
    if (cell < 0) {
      return;
    }
    ++met;
    several = several || mat >= 0;
    char name[32];
    std::snprintf(name, sizeof name, "Coarse_Cell_%05d", cell);
    std::multiset<std::string> want{name, std::string("Material_") + MATS[mat < 0 ? fill : mat]};
    if (in_a) {
      want.insert("A");
    }
    auto const g = groupsOf(2, here[0]);
    REQUIRE(g == want, "groups ", join(g), " at ", x, ", ", y, ", ", z, ", expected ", join(want));
    if (!solid) {
      REQUIRE(colourIs(2, here[0], COLORS[mat < 0 ? fill : mat]), "wrong colour at ", x, ", ", y);
    }
  };
  double p[3];
  for (int const t : all) {
    if (witness(s, 2, t, [](double const *) { return true; }, p)) {
      test(p[0], p[1], p[2]);
    }
  }
  for (int i = 0; i < 20; ++i) {
    auto const & o = occ[s.below(occ.size())];
    test(s.real(-unit, X + unit), s.real(-unit, Y + unit), o.z);
  }
  c.label(met > 10 ? "over ten pieces tested" : "few pieces tested");
  c.nontrivial(several && place.size() > 1);
}

PBT_SUB(overlay_2d, 250, 6000, "several cells cutting at least one pin")
{
  overlay(s, c, false);
}

PBT_SUB(overlay_3d, 100, 2500, "several cells cutting at least one cylinder")
{
  overlay(s, c, true);
}

} // namespace

auto
main(int argc, char ** argv) -> int
{
  pbt::Options o;
  o.assumptions = {"boundaries cross clearly, coincide exactly or keep clear of each other",
                   "points within 0.01 of a boundary are not sampled", "the geometry kernel itself is trusted"};
  return pbt::run("C31", "groups and materials at sample points against the original shapes", o, argc, argv);
}

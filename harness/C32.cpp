// C32: CAD files with side information.
// Oracle: the members of every group and the colours, identified by size and place, before saving.
#include "cad.hpp"

#include <fstream>

namespace
{

using namespace cad;
using reactor::armLogger;
using reactor::errorLogged;

struct Fingerprint {
  double m = 0;
  double at[3] = {0, 0, 0};
};

auto
fingerprint(int dim, int tag) -> Fingerprint
{
  Fingerprint f;
  if (dim == 0) {
    double q[3];
    ::gmsh::model::getBoundingBox(0, tag, f.at[0], f.at[1], f.at[2], q[0], q[1], q[2]);
  } else {
    ::gmsh::model::occ::getMass(dim, tag, f.m);
    ::gmsh::model::occ::getCenterOfMass(dim, tag, f.at[0], f.at[1], f.at[2]);
  }
  return f;
}

auto
same(Fingerprint const & a, Fingerprint const & b) -> bool
{
  return std::fabs(a.m - b.m) < 1e-6 && std::fabs(a.at[0] - b.at[0]) < 1e-5 && std::fabs(a.at[1] - b.at[1]) < 1e-5 &&
         std::fabs(a.at[2] - b.at[2]) < 1e-5;
}

struct Group {
  int dim = 2;
  std::string name;
  std::vector<Fingerprint> members;
};

struct Coloured {
  int dim = 2;
  Fingerprint f;
  std::array<int, 4> rgba{};
};

auto
readGroups() -> std::vector<Group>
{
  std::vector<Group> out;
  Pairs p;
  ::gmsh::model::getPhysicalGroups(p);
  for (auto const & [d, t] : p) {
    Group g;
    g.dim = d;
    ::gmsh::model::getPhysicalName(d, t, g.name);
    std::vector<int> tags;
    ::gmsh::model::getEntitiesForPhysicalGroup(d, t, tags);
    for (int const k : tags) {
      g.members.push_back(fingerprint(d, k));
    }
    out.push_back(g);
  }
  return out;
}

auto
readColours() -> std::vector<Coloured>
{
  std::vector<Coloured> out;
  for (int d = 2; d < 4; ++d) {
    for (int const t : entities(d)) {
      Coloured q;
      q.dim = d;
      ::gmsh::model::getColor(d, t, q.rgba[0], q.rgba[1], q.rgba[2], q.rgba[3]);
      q.f = fingerprint(d, t);
      out.push_back(q);
    }
  }
  return out;
}

auto
show(Fingerprint const & f) -> std::string
{
  return pbt::cat("size ", f.m, " at ", f.at[0], " ", f.at[1], " ", f.at[2]);
}

void
sameMembers(Group const & a, Group const & b)
{
  REQUIRE(a.members.size() == b.members.size(), "group '", a.name, "' of dimension ", a.dim, " has ", b.members.size(),
          " members after opening, had ", a.members.size());
  std::vector<bool> used(b.members.size(), false);
  for (auto const & m : a.members) {
    bool ok = false;
    for (size_t i = 0; i < b.members.size() && !ok; ++i) {
      if (!used[i] && same(m, b.members[i])) {
        used[i] = ok = true;
      }
    }
    REQUIRE(ok, "group '", a.name, "' of dimension ", a.dim, " lost the entity of ", show(m));
  }
}

PBT_SUB(round_trip, 900, 20000, "gaps in the numbering and a group of more than eight entities")
{
  armLogger();
  session();
  namespace occ = ::gmsh::model::occ;
  int const dim = s.oneIn(4) ? 3 : 2;
  int const n = s.oneIn(3) ? s.irange(8, 20) : s.irange(1, 7);
  std::vector<Shape> shapes;
  Pairs gone;
  for (int i = 0; i < n; ++i) {
    Shape q;
    q.dim = dim;
    q.kind = s.irange(0, 1);
    // no two alike, apart unless they are fragmented below
    q.x = 3 * i + s.real(0, 0.5);
    q.y = s.real(0, 1);
    q.a = s.real(0.5, 0.9);
    q.b = q.a;
    q.z = dim == 3 ? s.real(0, 1) : 0;
    q.h = s.real(1, 2);
    if (s.oneIn(4)) { // leaves a gap
      Shape e = q;
      e.y += 50;
      e.add();
      gone.emplace_back(dim, e.tag);
    }
    q.add();
    shapes.push_back(q);
    if (s.oneIn(3)) { // a companion that overlaps
      q.x += 0.3;
      q.y += 0.1;
      q.a *= 0.9;
      q.b *= 0.9;
      q.add();
      shapes.push_back(q);
    }
  }
  if (!gone.empty()) {
    occ::remove(gone, true);
  }
  bool const cut = s.coin();
  if (cut && shapes.size() > 1) {
    Pairs a;
    Pairs b;
    for (size_t i = 0; i < shapes.size(); ++i) {
      (i == 0 ? a : b).emplace_back(dim, shapes[i].tag);
    }
    Pairs out;
    std::vector<Pairs> map;
    occ::fragment(a, b, out, map);
  }
  occ::synchronize();
  // groups
  static char const * const NAMES[] = {"A", "Material_UO2", "Zone 2", "Coarse_Cell_00012", "x", "a 1 2", "Fuel-Rod"};
  int const ng = s.irange(0, 7);
  size_t largest = 0;
  for (int k = 0; k < ng; ++k) {
    int const d = s.oneIn(3) ? s.irange(0, dim) : dim;
    auto tags = entities(d);
    std::vector<int> in;
    int const keep = s.irange(1, 4);
    for (int const t : tags) {
      if (s.irange(1, 4) <= keep) {
        in.push_back(t);
      }
    }
    if (in.empty()) {
      in.push_back(tags[s.below(tags.size())]);
    }
    largest = std::max(largest, in.size());
    ::gmsh::model::addPhysicalGroup(d, in, -1, NAMES[k]);
  }
  // colours
  static int const PALETTE[][4] = {{255, 0, 0, 255}, {0, 120, 0, 255}, {1, 2, 3, 4}, {0, 0, 255, 255}, {0, 0, 0, 0}};
  int const share = s.irange(0, 3);
  for (int d = 2; d <= dim; ++d) {
    for (int const t : entities(d)) {
      if (s.irange(0, 3) < share) {
        auto const & q = PALETTE[s.below(5)];
        ::gmsh::model::setColor({{d, t}}, q[0], q[1], q[2], q[3]);
      }
    }
  }
  auto const groups = readGroups();
  auto const colours = readColours();
  bool const old = s.oneIn(4); // the file exists from before
  std::string const base = c.dir() + (s.coin() ? "/model" : "/model.v2");
  std::string const file = base + ".brep";
  c.desc << shapes.size() << " shapes of dimension " << dim << (cut ? ", fragmented" : "") << "; groups";
  for (auto const & g : groups) {
    c.desc << "; '" << g.name << "' dimension " << g.dim << " of " << g.members.size();
  }
  if (old) {
    std::ofstream(base + ".info") << "PHYSICAL_GROUPS 1\nnonsense\n";
  }
  um2::gmsh::write(file, true);
  REQUIRE(!errorLogged(), "error: ", um2::logger::buffer);
  if (s.oneIn(4)) { // a new session
    ::gmsh::finalize();
  }
  session();
  um2::gmsh::open(file, true);
  REQUIRE(!errorLogged(), "error: ", um2::logger::buffer);
  auto const groups2 = readGroups();
  REQUIRE(groups2.size() == groups.size(), groups2.size(), " groups after opening, had ", groups.size());
  for (auto const & g : groups) {
    auto const it = std::find_if(groups2.begin(), groups2.end(),
                                 [&](Group const & h) { return h.dim == g.dim && h.name == g.name; });
    REQUIRE(it != groups2.end(), "group '", g.name, "' of dimension ", g.dim, " is gone");
    sameMembers(g, *it);
  }
  auto const colours2 = readColours();
  REQUIRE(colours2.size() == colours.size(), colours2.size(), " surfaces and volumes, had ", colours.size());
  std::vector<bool> used(colours2.size(), false);
  for (auto const & q : colours) {
    bool ok = false;
    for (size_t i = 0; i < colours2.size() && !ok; ++i) {
      if (!used[i] && q.dim == colours2[i].dim && same(q.f, colours2[i].f)) {
        used[i] = ok = true;
        REQUIRE(q.rgba == colours2[i].rgba, "the entity of ", show(q.f), " has colour ", colours2[i].rgba[0], " ",
                colours2[i].rgba[1], " ", colours2[i].rgba[2], " ", colours2[i].rgba[3], ", had ", q.rgba[0], " ",
                q.rgba[1], " ", q.rgba[2], " ", q.rgba[3]);
      }
    }
    REQUIRE(ok, "the entity of ", show(q.f), " is gone");
  }
  c.label(gone.empty() ? "no gaps" : "gaps");
  c.label(largest > 8 ? "group over eight" : "small groups");
  c.nontrivial(!gone.empty() && largest > 8);
}

PBT_SUB(plain, 150, 3000, "every case")
{
  armLogger();
  session();
  int const n = s.irange(1, 6);
  for (int i = 0; i < n; ++i) {
    ::gmsh::model::occ::addDisk(3 * i, 0, 0, 1, 1);
  }
  ::gmsh::model::occ::synchronize();
  ::gmsh::model::addPhysicalGroup(2, {1}, -1, "A");
  std::string const file = c.dir() + "/model.brep";
  int const how = s.irange(0, 2);
  c.desc << n << " disks, way " << how;
  if (how == 2) { // nothing there
    auto const before = entities(2).size();
    um2::gmsh::open(c.dir() + "/none.brep", s.coin());
    REQUIRE(errorLogged(), "no error for a missing file");
    REQUIRE(entities(2).size() == before, "opening a missing file changed the model");
  } else { // without the side file
    um2::gmsh::write(file, false);
    REQUIRE(!std::ifstream(c.dir() + "/model.info").good(), "a side file was written");
    session();
    um2::gmsh::open(file, how == 1);
    REQUIRE(errorLogged() == (how == 1), how == 1 ? "no error for a missing side file" : "error without reason");
    REQUIRE(static_cast<int>(entities(2).size()) == n, entities(2).size(), " surfaces of ", n);
    REQUIRE(readGroups().empty(), "groups from nowhere");
  }
  c.nontrivial();
}

} // namespace

auto
main(int argc, char ** argv) -> int
{
  pbt::Options o;
  o.assumptions = {"group names hold no quote", "models hold only shapes of one dimension and their boundaries",
                   "colours of points and curves are not saved"};
  return pbt::run("C32", "groups and colours after opening against those before saving", o, argc, argv);
}

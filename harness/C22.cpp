// C22: mesh text files (Abaqus and legacy VTK layouts).
// Oracle: the model the text was written from, numbers as the C library reads them.
#include "soup.hpp"

#include <cstdlib>
#include <fstream>

namespace
{

using namespace soup;
using T = um2::VTKElemType;

// A number in one of several notations; returns the text
auto
number(pbt::Src & s, double & value) -> std::string
{
  char b[64];
  switch (s.below(8)) {
  case 0:
    std::snprintf(b, sizeof b, "%d", static_cast<int>(s.irange(-50, 50)));
    break;
  case 1:
    std::snprintf(b, sizeof b, "%g", s.real(-10, 10));
    break;
  case 2:
    std::snprintf(b, sizeof b, "%.17g", s.real(-10, 10));
    break;
  case 3:
    std::snprintf(b, sizeof b, "%.16e", s.sign() * s.mag(-9, 9));
    break;
  case 4:
    std::snprintf(b, sizeof b, "%.8E", s.real(-10, 10));
    break;
  case 5:
    std::snprintf(b, sizeof b, "%d.", static_cast<int>(s.irange(-9, 9)));
    break;
  case 6:
    std::snprintf(b, sizeof b, ".%d", static_cast<int>(s.irange(0, 9999)));
    break;
  default:
    std::snprintf(b, sizeof b, "%+.6f", s.real(-10, 10));
    break;
  }
  value = std::strtod(b, nullptr);
  return b;
}

auto
spaces(pbt::Src & s, bool at_least_one) -> std::string
{
  auto const n = s.oneIn(4) ? s.below(6) : 0;
  return std::string(n + (at_least_one ? 1 : 0), ' ');
}

void
abaqus(pbt::Src & s, pbt::Case & c)
{
  quiet();
  Model m;
  std::string const path = c.dir() + "/" + (s.coin() ? "mesh.inp" : "a mesh.v2.inp");
  std::ofstream f(path);
  bool const comments = s.coin();
  size_t inside = 0; // comments inside a section
  auto comment = [&](bool in_section) {
    if (comments && s.oneIn(6)) {
      static char const * const t[] = {"**", "** a comment", "**1, 2, 3",
                                       "******* E L E M E N T S *************",
                                       "** *ELEMENT, type=CPS3"};
      if (s.oneIn(60)) {
        f << "** " << std::string(s.below(900), '=') << "\n";
      } else {
        f << t[s.below(5)] << "\n";
      }
      inside += in_section ? 1 : 0;
    }
  };
  bool const tight = s.coin();
  auto comma = [&] { return tight ? std::string(",") : spaces(s, false) + "," + spaces(s, true); };
  if (s.coin()) {
    f << "*Heading\n";
    if (s.coin()) {
      f << " " << path << "\n";
    }
  } else {
    f << "** exported\n";
  }
  comment(false);
  auto const nv = 1 + static_cast<uint64_t>(s.oneIn(200) ? s.irange(200, 3000) : s.size(0, 40));
  uint64_t left = nv;
  while (left > 0) {
    uint64_t const now = s.oneIn(4) ? 1 + s.below(left) : left;
    f << "*NODE" << (s.oneIn(4) ? ", NSET=All" : "") << "\n";
    for (uint64_t i = 0; i < now; ++i) {
      comment(true);
      std::array<double, 3> v{};
      f << spaces(s, false) << m.v.size() + 1;
      for (auto & x : v) {
        f << comma() << number(s, x);
      }
      f << spaces(s, false) << "\n";
      m.v.push_back(v);
    }
    left -= now;
  }
  comment(true);
  static T const types[] = {T::Triangle, T::Quad, T::QuadraticTriangle, T::QuadraticQuad};
  auto const blocks = 1 + s.below(4);
  for (uint64_t b = 0; b < blocks; ++b) {
    comment(true);
    T const t = types[s.below(4)];
    f << "*ELEMENT, type=CPS" << nodes(t) << (s.coin() ? ", ELSET=Surface" + std::to_string(b + 1) : "")
      << "\n";
    auto const ne = 1 + static_cast<uint64_t>(s.oneIn(100) ? 200 : s.size(0, 15));
    for (uint64_t i = 0; i < ne; ++i) {
      comment(true);
      auto const e = genElement(s, t, nv);
      f << spaces(s, false) << m.e.size() + 1;
      for (auto const k : e.conn) {
        f << comma() << k + 1;
      }
      f << spaces(s, false) << "\n";
      m.e.push_back(e);
    }
  }
  auto const sets = s.below(6);
  for (uint64_t k = 0; k < sets; ++k) {
    Set t{genName(s), genSubset(s, m.e.size()), {}};
    if (s.oneIn(6)) {
      t.name += " with space";
    }
    if (std::any_of(m.s.begin(), m.s.end(), [&](Set const & u) { return u.name == t.name; })) {
      continue;
    }
    comment(true);
    f << "*ELSET,ELSET=" << t.name << "\n";
    uint64_t const width = s.oneIn(10) ? 180 : 1 + s.below(s.coin() ? 3 : 16);
    bool const blank = s.coin();
    for (size_t i = 0; i < t.ids.size(); ++i) {
      bool const last = i % width == width - 1 || i + 1 == t.ids.size();
      f << t.ids[i] + 1 << ",";
      if (!last) {
        f << (tight ? "" : " ");
      } else {
        f << (blank ? " " : "");
        bool const end_of_file = i + 1 == t.ids.size() && k + 1 == sets;
        if (!end_of_file || s.coin()) {
          f << "\n";
        }
        if (!end_of_file) {
          comment(i + 1 < t.ids.size());
        }
      }
    }
    m.s.push_back(t);
  }
  f.close();
  c.desc << describe(m) << " blocks " << blocks << " comments inside " << inside;
  sortSets(m);
  um2::PolytopeSoup const p(lib(path));
  expectSame(p, m, "the file");
  um2::PolytopeSoup q;
  q.read(lib(path));
  REQUIRE(q.compare(p) == 0, "two readings differ");
  c.label(inside > 0 ? "comments inside sections" : "plain");
  c.nontrivial(blocks > 1 && !m.s.empty());
}

void
vtk(pbt::Src & s, pbt::Case & c)
{
  quiet();
  Model m;
  std::string const path = c.dir() + "/mesh.vtk";
  std::ofstream f(path);
  bool const lead = s.coin(); // values written with leading blanks
  auto gap = [&] { return spaces(s, true); };
  auto start = [&] { return lead ? spaces(s, false) + " " : std::string(); };
  f << "# vtk DataFile Version 3.0\n" << (s.coin() ? "header text" : "") << "\nASCII\nDATASET UNSTRUCTURED_GRID\n";
  auto const nv = 1 + static_cast<uint64_t>(s.oneIn(200) ? s.irange(200, 3000) : s.size(0, 40));
  f << "POINTS " << nv << (s.coin() ? " float" : " double") << "\n";
  for (uint64_t i = 0; i < nv; ++i) {
    std::array<double, 3> v{};
    std::string const a = number(s, v[0]);
    std::string const b = number(s, v[1]);
    std::string const d = number(s, v[2]);
    f << start() << a << gap() << b << gap() << d << "\n";
    m.v.push_back(v);
  }
  f << "\n";
  static T const types[] = {T::Vertex, T::Line, T::Triangle, T::Quad, T::QuadraticTriangle,
                            T::QuadraticQuad};
  auto const ne = 1 + static_cast<uint64_t>(s.oneIn(200) ? s.irange(200, 3000) : s.size(0, 40));
  bool const mixed = s.coin();
  T const one = types[s.below(6)];
  size_t len = 0;
  for (uint64_t i = 0; i < ne; ++i) {
    m.e.push_back(genElement(s, mixed ? types[s.below(6)] : one, nv));
    len += m.e.back().conn.size() + 1;
  }
  f << "CELLS " << ne << " " << len << "\n";
  for (auto const & e : m.e) {
    f << start() << e.conn.size();
    for (auto const k : e.conn) {
      f << gap() << k;
    }
    f << "\n";
  }
  f << "\nCELL_TYPES " << ne << "\n";
  bool const one_line = s.coin();
  for (auto const & e : m.e) {
    f << int(e.type) << (one_line ? " " : "\n");
  }
  f << (one_line ? "\n" : "") << "\n";
  auto const sets = s.below(5);
  for (uint64_t k = 0; k < sets; ++k) {
    if (s.oneIn(5)) {
      // point data is not represented and must not disturb the rest
      f << "POINT_DATA " << nv << "\nSCALARS height float\nLOOKUP_TABLE default\n";
      for (uint64_t i = 0; i < nv; ++i) {
        f << i << "\n";
      }
      f << "\n";
    }
    Set t{genName(s), {}, {}};
    if (std::any_of(m.s.begin(), m.s.end(), [&](Set const & u) { return u.name == t.name; })) {
      continue;
    }
    auto const kind = s.below(3);
    f << "CELL_DATA " << ne << "\nSCALARS " << t.name
      << (kind == 0 ? " int" : kind == 1 ? " float" : " double") << (s.oneIn(4) ? " 1" : "")
      << "\nLOOKUP_TABLE " << (s.coin() ? "default" : t.name) << "\n";
    uint64_t const width = 1 + s.below(12);
    for (uint64_t i = 0; i < ne; ++i) {
      t.ids.push_back(static_cast<int>(i));
      double x = 0;
      std::string text;
      if (kind == 0) {
        int64_t const big = int64_t(1) << s.irange(8, 52);
        int64_t const v = s.oneIn(4) ? s.range(-big, big) : s.irange(-100, 100);
        text = std::to_string(v);
        x = static_cast<double>(v);
      } else {
        text = number(s, x);
      }
      t.data.push_back(x);
      bool const last = i % width == width - 1 || i + 1 == ne;
      f << (i % width == 0 ? start() : "") << text << (last ? "" : gap());
      if (last) {
        f << (s.coin() ? "" : " ") << "\n";
      }
    }
    if (k + 1 < sets || s.coin()) {
      f << "\n";
    }
    m.s.push_back(t);
  }
  f.close();
  c.desc << describe(m);
  sortSets(m);
  um2::PolytopeSoup const p(lib(path));
  expectSame(p, m, "the file");
  c.label(m.s.empty() ? "without data" : "with data");
  c.nontrivial(mixed && m.s.size() > 1);
}

void
refused(pbt::Src & s, pbt::Case & c)
{
  um2::settings::logger::level = 1;
  um2::settings::logger::exit_on_error = false;
  um2::logger::buffer[0] = '\0';
  static char const * const name[] = {"absent.inp", "absent.vtk", "mesh.stl", "inp", "x.INPX", "noext"};
  auto const k = s.below(6);
  c.desc << name[k];
  std::string const path = c.dir() + "/" + name[k];
  if (k >= 2) {
    std::ofstream(path) << "*NODE\n1, 0, 0, 0\n";
  }
  um2::PolytopeSoup p;
  p.read(lib(path));
  REQUIRE(um2::logger::buffer[0] != '\0', "no error for ", name[k]);
  REQUIRE(p.numVertices() == 0 && p.numElements() == 0 && p.numElsets() == 0, "content out of nothing");
  c.nontrivial(true);
}

pbt::Reg const r1("abaqus", 50000, 1500000, "several element blocks and at least one set", abaqus);
pbt::Reg const r2("vtk", 40000, 1200000, "mixed cells and several data arrays", vtk);
pbt::Reg const r3("refused", 60, 200, "always", refused);

} // namespace

auto
main(int argc, char ** argv) -> int
{
  pbt::Options o;
  o.leak_check = true;
  o.assumptions = {
      "node and element ids run from 1 in file order, lines stay under 1024 characters",
      "each member of a set is followed by a comma and members ascend, as the exporter writes them",
      "each data array in the visualisation format is preceded by its own count line and followed "
      "by a blank line or the end of the file"};
  return pbt::run("C22", "generated mesh text files", o, argc, argv);
}

// C21: soups written to disk and read back.
// Oracle: the model the soup was built from; for the reader alone, a file written here
// with the HDF5 library in every supported number format.
#include "soup.hpp"

#include <H5Cpp.h>

#include <fstream>
#include <sys/stat.h>
#include <unistd.h>

namespace
{

using namespace soup;
using T = um2::VTKElemType;

auto
genModel(pbt::Src & s, bool mixed) -> Model
{
  Model m;
  auto const nv = 1 + static_cast<uint64_t>(s.oneIn(80) ? s.irange(200, 3000) : s.size(0, 30));
  auto const flat = s.below(4);
  for (uint64_t i = 0; i < nv; ++i) {
    m.v.push_back({genValue(s), genValue(s),
                   flat == 0   ? genValue(s)
                   : flat == 1 ? (s.oneIn(8) ? genValue(s) : 0.0)
                               : 0.0});
  }
  // values that are neither planar nor clearly out of plane are not asked for
  for (auto & v : m.v) {
    if (std::fabs(v[2]) < 2e-7) {
      v[2] = 0;
    }
  }
  static std::vector<T> const homogeneous{T::Triangle, T::Quad, T::QuadraticTriangle,
                                          T::QuadraticQuad, T::QuadraticEdge};
  auto const ne = 1 + static_cast<uint64_t>(s.oneIn(80) ? s.irange(200, 2500) : s.size(0, 20));
  T const one = s.pick(homogeneous);
  for (uint64_t i = 0; i < ne; ++i) {
    m.e.push_back(genElement(s, mixed ? s.pick(allTypes()) : one, nv));
  }
  if (mixed) { // only mixtures may hold points and lines
    bool const same = std::all_of(m.e.begin(), m.e.end(),
                                  [&](Element const & e) { return e.type == m.e[0].type; });
    if (same && (m.e[0].type == T::Vertex || m.e[0].type == T::Line)) {
      m.e.push_back(genElement(s, T::Quad, nv));
    }
  }
  auto const ns = s.below(5);
  static char const * const odd[] = {"d & <x>", "A \"quoted\"", "d'", "Material: UO2", "A B",
                                     "d\xc3\xa9", "d.", "A_data", "d]]>"};
  for (uint64_t i = 0; i < ns; ++i) {
    Set t{s.oneIn(4) ? std::string(odd[s.below(9)]) : genName(s), genSubset(s, m.e.size()), {}};
    if (t.name == "." || t.name == ".." ||
        std::any_of(m.s.begin(), m.s.end(), [&](Set const & u) {
          return u.name == t.name || u.name + "_data" == t.name || t.name + "_data" == u.name;
        })) {
      continue;
    }
    if (t.name[0] == 'd') {
      for (size_t k = 0; k < t.ids.size(); ++k) {
        t.data.push_back(genValue(s));
      }
    }
    m.s.push_back(t);
  }
  return m;
}

auto
genFile(pbt::Src & s) -> std::string
{
  static char const * const name[] = {"m.xdmf",     "mesh.xdmf",         "a.b.xdmf",  "with space.xdmf",
                                      "x&y.xdmf",   "a:b.xdmf",          "h5.h5.xdmf", ".xdmf.xdmf",
                                      "x.xdmf.xdmf", "a_long_file_name_for_the_mesh_of_a_core.xdmf"};
  return name[s.below(s.coin() ? 10 : 2)];
}

auto
exists(std::string const & p) -> bool
{
  struct stat st {
  };
  return stat(p.c_str(), &st) == 0;
}

// Flat coordinates are written without the third
auto
flattened(Model m) -> Model
{
  bool flat = true;
  for (auto const & v : m.v) {
    flat = flat && std::fabs(v[2]) <= 1e-7;
  }
  if (flat) {
    for (auto & v : m.v) {
      v[2] = 0;
    }
  }
  return m;
}

void
roundTrip(pbt::Src & s, pbt::Case & c)
{
  quiet();
  std::string const dir = c.dir();
  std::string const sub = dir + "/sub.dir";
  mkdir(sub.c_str(), 0700);
  struct File {
    std::string path;
    Model m;
  };
  std::vector<File> files;
  auto const n = 1 + s.below(4);
  bool interesting = false;
  for (uint64_t k = 0; k < n; ++k) {
    bool const mixed = s.coin();
    Model const m = flattened(genModel(s, mixed));
    std::string const f = genFile(s);
    std::string where;
    std::string path; // as handed to the library
    std::string cwd = dir;
    switch (s.below(5)) {
    case 0:
      where = path = dir + "/" + f;
      break;
    case 1:
      where = dir + "/" + f;
      path = f;
      break;
    case 2:
      where = dir + "/" + f;
      path = "./" + f;
      break;
    case 3:
      where = sub + "/" + f;
      path = "sub.dir/" + f;
      break;
    default:
      cwd = sub;
      where = dir + "/" + f;
      path = "../" + f;
      break;
    }
    c.desc << path << " [" << describe(m) << "] ";
    REQUIRE(chdir(cwd.c_str()) == 0, "chdir");
    auto p = build(m);
    bool const again = s.oneIn(6);
    p.write(lib(path));
    if (again) {
      p.write(lib(path));
    }
    expectSame(p, m, "after writing");
    REQUIRE(exists(where), "no file ", where);
    REQUIRE(exists(where.substr(0, where.size() - 5) + ".h5"), "no data file beside ", where);
    bool known = false;
    for (auto & x : files) {
      if (x.path == where) {
        x.m = m;
        known = true;
      }
    }
    if (!known) {
      files.push_back({where, m});
    }
    if (s.coin()) {
      um2::PolytopeSoup q(lib(path));
      expectSame(q, m, "read back at once");
    }
    interesting = interesting || (m.s.size() > 1 && m.e.size() > 2);
  }
  // every file still states its own soup, from elsewhere, and rewriting what was read
  // changes nothing
  REQUIRE(chdir("/") == 0, "chdir");
  for (auto const & x : files) {
    um2::PolytopeSoup q;
    q.read(lib(x.path));
    expectSame(q, x.m, "read back");
    um2::PolytopeSoup const r(lib(x.path));
    REQUIRE(q.compare(r) == 0, "two readings of one file differ");
    std::string const second = dir + "/second.xdmf";
    q.write(lib(second));
    um2::PolytopeSoup const t(lib(second));
    expectSame(t, x.m, "second generation");
  }
  c.label(files.size() > 1 ? "several files" : "one file");
  c.nontrivial(interesting);
}

template <class N>
void
put(H5::Group & g, std::string const & name, std::vector<hsize_t> const & dims,
    std::vector<N> const & data, H5::PredType const & file_type, H5::PredType const & mem_type)
{
  H5::DataSpace const space(static_cast<int>(dims.size()), dims.data());
  H5::DataSet const set = g.createDataSet(name, file_type, space);
  set.write(data.data(), mem_type, space);
}

// A file as another program (or another build of this one) would write it
void
foreign(pbt::Src & s, pbt::Case & c)
{
  quiet();
  bool const mixed = s.coin();
  Model m = flattened(genModel(s, mixed));
  bool const wide_int = s.coin();
  bool const wide_set = s.coin();
  bool const wide_xyz = s.coin();
  bool const wide_data = s.coin();
  if (!wide_xyz) {
    for (auto & v : m.v) {
      for (auto & x : v) {
        x = static_cast<double>(static_cast<float>(x));
      }
    }
    m = flattened(m);
  }
  for (auto & t : m.s) {
    if (!wide_data) {
      for (auto & x : t.data) {
        x = static_cast<double>(static_cast<float>(x));
      }
    }
  }
  bool const keep_z = s.coin(); // planar meshes may still state the third coordinate
  bool flat = std::all_of(m.v.begin(), m.v.end(), [](auto const & v) { return v[2] == 0; });
  hsize_t const dim = flat && !keep_z ? 2 : 3;
  std::string const dir = c.dir();
  std::string const base = dir + "/foreign";
  c.desc << describe(m) << (wide_int ? " int64" : " int32") << (wide_xyz ? " xyz64" : " xyz32");
  bool same = std::all_of(m.e.begin(), m.e.end(),
                          [&](Element const & e) { return e.type == m.e[0].type; });
  bool const as_mixed = !same || s.oneIn(4) || m.e[0].type == T::Vertex || m.e[0].type == T::Line;
  std::ofstream x(base + ".xdmf");
  {
    H5::H5File h5((base + ".h5").c_str(), H5F_ACC_TRUNC);
    H5::Group g = h5.createGroup("/G");
    std::vector<double> xyz;
    for (auto const & v : m.v) {
      for (size_t k = 0; k < dim; ++k) {
        xyz.push_back(v[k]);
      }
    }
    put(g, "Geometry", {m.v.size(), dim}, xyz,
        wide_xyz ? H5::PredType::NATIVE_DOUBLE : H5::PredType::NATIVE_FLOAT,
        H5::PredType::NATIVE_DOUBLE);
    std::vector<int> topo;
    static std::map<T, int> const code{{T::Vertex, 1},        {T::Line, 2},
                                       {T::Triangle, 4},      {T::Quad, 5},
                                       {T::QuadraticEdge, 34}, {T::QuadraticTriangle, 36},
                                       {T::QuadraticQuad, 37}};
    for (auto const & e : m.e) {
      if (as_mixed) {
        topo.push_back(code.at(e.type));
      }
      topo.insert(topo.end(), e.conn.begin(), e.conn.end());
    }
    auto const itype = wide_int ? H5::PredType::NATIVE_INT64 : H5::PredType::NATIVE_INT32;
    std::vector<hsize_t> tdims{topo.size()};
    if (!as_mixed) {
      tdims = {m.e.size(), m.e[0].conn.size()};
    }
    put(g, "Topology", tdims, topo, itype, H5::PredType::NATIVE_INT32);
    for (auto const & t : m.s) {
      put(g, t.name, {t.ids.size()}, t.ids,
          wide_set ? H5::PredType::NATIVE_INT64 : H5::PredType::NATIVE_INT32,
          H5::PredType::NATIVE_INT32);
      if (!t.data.empty()) {
        put(g, t.name + "_data", {t.data.size()}, t.data,
            wide_data ? H5::PredType::NATIVE_DOUBLE : H5::PredType::NATIVE_FLOAT,
            H5::PredType::NATIVE_DOUBLE);
      }
    }
  }
  auto esc = [](std::string const & t) {
    std::string o;
    for (char const ch : t) {
      if (ch == '&') {
        o += "&amp;";
      } else if (ch == '<') {
        o += "&lt;";
      } else if (ch == '>') {
        o += "&gt;";
      } else if (ch == '"') {
        o += "&quot;";
      } else {
        o += ch;
      }
    }
    return o;
  };
  static std::map<T, char const *> const title{{T::Triangle, "Triangle"},
                                               {T::Quad, "Quadrilateral"},
                                               {T::QuadraticEdge, "Edge_3"},
                                               {T::QuadraticTriangle, "Triangle_6"},
                                               {T::QuadraticQuad, "Quadrilateral_8"}};
  x << "<?xml version=\"1.0\"?>\n<!-- by hand -->\n<Xdmf Version=\"3.0\">\n<Domain>\n"
    << "<Grid Name=\"G\" GridType=\"Uniform\">\n<Geometry GeometryType=\""
    << (dim == 2 ? "XY" : "XYZ") << "\">\n<DataItem Precision=\"" << (wide_xyz ? 8 : 4)
    << "\" DataType=\"Float\" Dimensions=\"" << m.v.size() << " " << dim
    << "\" Format=\"HDF\">foreign.h5:/G/Geometry</DataItem>\n</Geometry>\n<Topology TopologyType=\""
    << (as_mixed ? "Mixed" : title.at(m.e[0].type)) << "\" NumberOfElements=\"" << m.e.size()
    << "\">\n<DataItem DataType=\"Int\" Dimensions=\"";
  if (as_mixed) {
    size_t n = 0;
    for (auto const & e : m.e) {
      n += 1 + e.conn.size();
    }
    x << n;
  } else {
    x << m.e.size() << " " << m.e[0].conn.size();
  }
  x << "\" Precision=\"" << (wide_int ? 8 : 4)
    << "\" Format=\"HDF\">foreign.h5:/G/Topology</DataItem></Topology>\n";
  for (auto const & t : m.s) {
    x << "<Set Name=\"" << esc(t.name) << "\" SetType=\"Cell\"><DataItem DataType=\"Int\" Dimensions=\""
      << t.ids.size() << "\" Precision=\"" << (wide_set ? 8 : 4) << "\" Format=\"HDF\">foreign.h5:/G/"
      << esc(t.name) << "</DataItem>";
    if (!t.data.empty()) {
      x << "<Attribute Name=\"" << esc(t.name) << "_data\" Center=\"Cell\"><DataItem DataType=\"Float\" Dimensions=\""
        << t.data.size() << "\" Precision=\"" << (wide_data ? 8 : 4)
        << "\" Format=\"HDF\">foreign.h5:/G/" << esc(t.name) << "_data</DataItem></Attribute>";
    }
    x << "</Set>\n";
  }
  x << "</Grid>\n</Domain>\n</Xdmf>\n";
  x.close();
  um2::PolytopeSoup const p(lib(base + ".xdmf"));
  expectSame(p, m, "the file");
  c.label(as_mixed ? "mixed" : "homogeneous");
  c.nontrivial(!m.s.empty());
}

// Sets or elements stored in fewer bytes: read, or reported
void
narrow(pbt::Src & s, pbt::Case & c)
{
  quiet();
  um2::settings::logger::level = 1;
  um2::logger::buffer[0] = '\0';
  bool const sets = s.coin(); // otherwise the elements
  bool const one = s.coin();
  std::string const base = c.dir() + "/narrow";
  int const n = s.irange(1, 20);
  Model m;
  for (int j = 0; j < 2; ++j) {
    for (int i = 0; i <= n; ++i) {
      m.v.push_back({double(i), double(j), 0});
    }
  }
  std::vector<int> topo;
  for (int i = 0; i < n; ++i) {
    m.e.push_back({T::Quad, {i, i + 1, n + 2 + i, n + 1 + i}});
    topo.insert(topo.end(), m.e.back().conn.begin(), m.e.back().conn.end());
  }
  if (sets) {
    m.s.push_back({"A", genSubset(s, m.e.size()), {}});
  }
  bool const data = sets && s.coin();
  if (data) {
    for (size_t i = 0; i < m.s[0].ids.size(); ++i) {
      m.s[0].data.push_back(s.real(0, 1));
    }
  }
  auto const few = one ? H5::PredType::NATIVE_INT8 : H5::PredType::NATIVE_INT16;
  std::string const width = one ? "1" : "2";
  {
    H5::H5File h5((base + ".h5").c_str(), H5F_ACC_TRUNC);
    H5::Group g = h5.createGroup("/G");
    std::vector<double> xyz;
    for (auto const & v : m.v) {
      xyz.insert(xyz.end(), v.begin(), v.end());
    }
    put(g, "Geometry", {m.v.size(), 3}, xyz, H5::PredType::NATIVE_DOUBLE, H5::PredType::NATIVE_DOUBLE);
    put(g, "Topology", {m.e.size(), 4}, topo, sets ? H5::PredType::NATIVE_INT32 : few, H5::PredType::NATIVE_INT32);
    if (sets) {
      put(g, "A", {m.s[0].ids.size()}, m.s[0].ids, few, H5::PredType::NATIVE_INT32);
    }
    if (data) {
      put(g, "A_data", {m.s[0].data.size()}, m.s[0].data, H5::PredType::NATIVE_DOUBLE, H5::PredType::NATIVE_DOUBLE);
    }
  }
  std::ofstream x(base + ".xdmf");
  x << "<?xml version=\"1.0\"?>\n<Xdmf Version=\"3.0\">\n<Domain>\n"
    << "<Grid Name=\"G\" GridType=\"Uniform\">\n<Geometry GeometryType=\"XYZ\">\n<DataItem Precision=\"8\""
    << " DataType=\"Float\" Dimensions=\"" << m.v.size()
    << " 3\" Format=\"HDF\">narrow.h5:/G/Geometry</DataItem>\n</Geometry>\n<Topology TopologyType=\"Quadrilateral\""
    << " NumberOfElements=\"" << m.e.size() << "\">\n<DataItem DataType=\"Int\" Dimensions=\"" << m.e.size()
    << " 4\" Precision=\"" << (sets ? "4" : width)
    << "\" Format=\"HDF\">narrow.h5:/G/Topology</DataItem></Topology>\n";
  if (sets) {
    x << "<Set Name=\"A\" SetType=\"Cell\"><DataItem DataType=\"Int\" Dimensions=\"" << m.s[0].ids.size()
      << "\" Precision=\"" << width << "\" Format=\"HDF\">narrow.h5:/G/A</DataItem>";
  }
  if (data) {
    x << "<Attribute Name=\"A_data\" Center=\"Cell\"><DataItem DataType=\"Float\" Dimensions=\""
      << m.s[0].data.size() << "\" Precision=\"8\" Format=\"HDF\">narrow.h5:/G/A_data</DataItem></Attribute>";
  }
  x << (sets ? "</Set>\n" : "") << "</Grid>\n</Domain>\n</Xdmf>\n";
  x.close();
  c.desc << (sets ? "sets" : "elements") << " in " << width << " bytes, " << describe(m);
  um2::PolytopeSoup p;
  p.read(lib(base + ".xdmf"));
  if (um2::logger::buffer[0] == '\0') {
    expectSame(p, m, "the file");
  }
  c.nontrivial();
}

pbt::Reg const r1("round_trip", 5000, 120000, "a soup with several elements and sets", roundTrip);
pbt::Reg const r3("narrow", 150, 1500, "always", narrow);
pbt::Reg const r2("foreign", 5000, 120000, "at least one set", foreign);

} // namespace

auto
main(int argc, char ** argv) -> int
{
  pbt::Options o;
  o.leak_check = true;
  o.assumptions = {
      "set names contain no '/' or control characters, are not Geometry or Topology, and no name "
      "is another's followed by _data",
      "soups of only points or only straight lines are not writable (the library says so)",
      "heights within 1e-7 of zero everywhere count as planar; a soup is read into an empty one"};
  return pbt::run("C21", "soups written, read back and written again", o, argc, argv);
}

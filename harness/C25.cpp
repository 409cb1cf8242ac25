// C25: saving a model and loading it back; companion files.
// Oracle: the ideal model the saved one was built from (reactor.hpp); the XML and HDF5 files
// are also read here with the format's own libraries.
#include "reactor.hpp"

#include <H5Cpp.h>
#include <pugixml.hpp>

#include <filesystem>
#include <fstream>

namespace
{

using namespace reactor;

constexpr double PI = 3.14159265358979323846;

auto
slurp(std::string const & f) -> std::string
{
  std::ifstream in(f);
  REQUIRE(in.good(), "no file ", f);
  std::stringstream o;
  o << in.rdbuf();
  return o.str();
}

// The mesh of each cell, up to its number in the model
template <int PO, int N>
void
sameMesh(um2::FaceVertexMesh<PO, N> const & got, CellMesh const & want, size_t cell, double tol)
{
  REQUIRE(got.numVertices() == static_cast<Int>(want.v.size()) && got.numFaces() == static_cast<Int>(want.f.size()),
          "mesh of cell ", cell, " has ", got.numVertices(), " vertices and ", got.numFaces(), " faces");
  for (Int i = 0; i < got.numFaces(); ++i) {
    for (Int k = 0; k < N; ++k) {
      auto const & p = got.vertices()[got.faceVertexConn()[i][k]];
      auto const & q = want.v[static_cast<size_t>(want.f[static_cast<size_t>(i)][static_cast<size_t>(k)])];
      REQUIRE(std::fabs(p[0] - q[0]) <= tol && std::fabs(p[1] - q[1]) <= tol, "cell ", cell, " face ", i, " node ", k,
              " at ", p[0], ", ", p[1], ", expected ", q[0], ", ", q[1]);
    }
  }
}

void
expectModel(Model const & m, Reactor const & r, double tol, char const * what)
{
  expectStructure(m, r, 1e-12, what);
  REQUIRE(m.materials().size() == static_cast<Int>(r.mats.size()), what, ": ", m.materials().size(), " materials");
  for (size_t i = 0; i < r.mats.size(); ++i) {
    auto const & n = m.materials()[static_cast<Int>(i)].getName();
    REQUIRE(std::string(n.data()) == r.mats[i].name, what, ": material ", i, " is ", n.data());
  }
  for (size_t i = 0; i < r.cells.size(); ++i) {
    auto const & c = m.getCoarseCell(static_cast<Int>(i));
    for (size_t k = 0; k < r.cells[i].mat.size(); ++k) {
      REQUIRE(c.material_ids[static_cast<Int>(k)] == r.cells[i].mat[k], what, ": cell ", i, " face ", k,
              " has material ", int(c.material_ids[static_cast<Int>(k)]));
    }
    auto const & mesh = r.meshes[static_cast<size_t>(r.cells[i].mesh)];
    auto in = [&](Int n) { REQUIRE(c.mesh_id >= 0 && c.mesh_id < n, what, ": cell ", i, " has mesh ", c.mesh_id); };
    switch (mesh.kind) {
    case 0:
      in(m.triMeshes().size());
      sameMesh(m.getTriMesh(c.mesh_id), mesh, i, tol);
      break;
    case 1:
      in(m.quadMeshes().size());
      sameMesh(m.getQuadMesh(c.mesh_id), mesh, i, tol);
      break;
    case 2:
      in(m.tri6Meshes().size());
      sameMesh(m.getTri6Mesh(c.mesh_id), mesh, i, tol);
      break;
    default:
      in(m.quad8Meshes().size());
      sameMesh(m.getQuad8Mesh(c.mesh_id), mesh, i, tol);
    }
  }
}

struct Files {
  H5::H5File h5;
  std::string name;

  [[nodiscard]] auto
  read(pugi::xml_node const & item) const -> std::vector<double>
  {
    std::string t = item.child_value();
    auto const a = t.find_first_not_of(" \t\n");
    auto const b = t.find_last_not_of(" \t\n");
    t = t.substr(a, b - a + 1);
    auto const colon = t.find(':');
    REQUIRE(colon != std::string::npos && t.substr(0, colon) == name, "data item ", t);
    H5::DataSet const set = h5.openDataSet(t.substr(colon + 1));
    auto const n = set.getSpace().getSimpleExtentNpoints();
    std::vector<double> v(static_cast<size_t>(n));
    set.read(v.data(), H5::PredType::NATIVE_DOUBLE);
    return v;
  }
};

// What another program finds in the saved files
void
checkFiles(std::string const & base, std::string const & name, Reactor const & r, bool knudsen, bool xsec)
{
  pugi::xml_document doc;
  REQUIRE(doc.load_file((base + ".xdmf").c_str()), "the .xdmf file is not XML");
  Files f{H5::H5File((base + ".h5").c_str(), H5F_ACC_RDONLY), name + ".h5"};
  auto const occ = r.expand();
  std::vector<bool> taken(occ.size(), false);
  double const tol = 1e-10 * (r.height + r.W * 13 + r.H * 13);
  size_t grids = 0;
  auto level = [](pugi::xml_node n, std::string const & prefix) {
    std::string const t = n.attribute("Name").value();
    REQUIRE(t.rfind(prefix, 0) == 0, "grid ", t, " where ", prefix, " is expected");
    return std::stoi(t.substr(prefix.size(), 5));
  };
  auto const core = doc.child("Xdmf").child("Domain").child("Grid");
  for (auto const a : core.children("Grid")) {
    for (auto const l : a.children("Grid")) {
      for (auto const t : l.children("Grid")) {
        for (auto const g : t.children("Grid")) {
          ++grids;
          int const id = level(g, "Coarse_Cell_");
          REQUIRE(id < static_cast<int>(r.cells.size()), "cell ", id);
          auto const & cell = r.cells[static_cast<size_t>(id)];
          auto const & mesh = r.meshes[static_cast<size_t>(cell.mesh)];
          auto const xyz = f.read(g.child("Geometry").child("DataItem"));
          bool const flat = std::string(g.child("Geometry").attribute("GeometryType").value()) == "XY";
          size_t const dim = flat ? 2 : 3;
          REQUIRE(xyz.size() == dim * mesh.v.size(), "cell ", id, " has ", xyz.size(), " coordinates");
          size_t found = occ.size();
          for (size_t o = 0; o < occ.size() && found == occ.size(); ++o) {
            auto const & q = occ[o];
            if (q.cell != id || taken[o] || q.rtm != level(t, "RTM_") || q.lat != level(l, "Lattice_") ||
                q.asy != level(a, "Assembly_")) {
              continue;
            }
            bool ok = true;
            for (size_t k = 0; k < mesh.v.size() && ok; ++k) {
              ok = std::fabs(xyz[dim * k] - q.x - mesh.v[k][0]) <= tol &&
                   std::fabs(xyz[dim * k + 1] - q.y - mesh.v[k][1]) <= tol &&
                   std::fabs((flat ? 0 : xyz[dim * k + 2]) - q.z) <= tol;
            }
            if (ok) {
              found = o;
            }
          }
          REQUIRE(found < occ.size(), "a grid of cell ", id, " is at no place of the cell");
          taken[found] = true;
          std::map<std::string, std::vector<double>> field;
          for (auto const set : g.children("Set")) {
            auto const ids = f.read(set.child("DataItem"));
            auto const data = f.read(set.child("Attribute").child("DataItem"));
            REQUIRE(ids.size() == cell.mat.size() && data.size() == ids.size(), "set ", set.attribute("Name").value(),
                    " of cell ", id, " has ", ids.size(), " elements");
            auto & v = field[set.attribute("Name").value()];
            v.assign(ids.size(), std::nan(""));
            for (size_t k = 0; k < ids.size(); ++k) {
              v[static_cast<size_t>(ids[k])] = data[k];
            }
          }
          auto same = [&](std::string const & n, auto && want) {
            REQUIRE(field.count(n) == 1, "no set ", n, " in cell ", id);
            for (size_t k = 0; k < cell.mat.size(); ++k) {
              double const w = want(k, r.mats[static_cast<size_t>(cell.mat[k])]);
              REQUIRE(std::fabs(field[n][k] - w) <= 1e-7 * (std::fabs(w) + 1e-12), n, " of face ", k, " in cell ", id,
                      " is ", field[n][k], ", expected ", w);
            }
          };
          auto mean = [](std::vector<double> const & v) {
            double x = 0;
            for (double const y : v) {
              x += y;
            }
            return x / static_cast<double>(v.size());
          };
          auto chord = [&](size_t k) {
            auto const face = mesh.face(k);
            return PI * static_cast<double>(face.area() / face.perimeter());
          };
          same("Material_ID", [&](size_t k, Mat const &) { return double(cell.mat[k]); });
          if (knudsen || xsec) {
            same("One_Group_Avg_XS_a", [&](size_t, Mat const & m) { return mean(m.a); });
            same("One_Group_Avg_XS_f", [&](size_t, Mat const & m) { return mean(m.f); });
            same("One_Group_Avg_XS_s", [&](size_t, Mat const & m) { return mean(m.s); });
            same("One_Group_Avg_XS_t", [&](size_t, Mat const & m) { return m.meanTotal(); });
          }
          if (xsec) {
            for (int ig = 0; ig < r.mats[0].ng; ++ig) {
              char buf[64];
              std::snprintf(buf, sizeof buf, "Group_%05d_Total_XS", ig);
              auto const gi = static_cast<size_t>(ig);
              same(buf, [&](size_t, Mat const & m) { return m.a[gi] + m.s[gi]; });
            }
          }
          if (knudsen) {
            same("Mean_Chord_Length", [&](size_t k, Mat const &) { return chord(k); });
            same("Knudsen_Number", [&](size_t k, Mat const & m) { return 1 / (m.meanTotal() * chord(k)); });
          }
        }
      }
    }
  }
  REQUIRE(grids == occ.size(), "the file has ", grids, " cells, expected ", occ.size());
}

void
checkCompanions(std::string const & base, Reactor const & r, Model const & m)
{
  auto const occ = r.expand();
  std::vector<long double> volume(r.mats.size(), 0);
  std::vector<double> chords;
  for (auto const & o : occ) {
    auto const & cell = r.cells[static_cast<size_t>(o.cell)];
    auto const & mesh = r.meshes[static_cast<size_t>(cell.mesh)];
    for (size_t k = 0; k < cell.mat.size(); ++k) {
      auto const g = mesh.face(k);
      volume[static_cast<size_t>(cell.mat[k])] += g.area() * o.dz;
      chords.push_back(PI * static_cast<double>(g.area() / g.perimeter()));
    }
  }
  {
    std::istringstream in(slurp(base + ".volumes"));
    std::string n;
    double v = 0;
    for (size_t i = 0; i < r.mats.size(); ++i) {
      REQUIRE(static_cast<bool>(in >> n >> v), "the volumes file ends before material ", i);
      REQUIRE(n == r.mats[i].name, "volumes file: ", n, " where ", r.mats[i].name, " is expected");
      REQUIRE(std::fabs(v - static_cast<double>(volume[i])) <= 1e-9 * static_cast<double>(volume[i]), "volume of ", n,
              " is ", v, ", expected ", static_cast<double>(volume[i]));
    }
    REQUIRE(!(in >> n), "more text in the volumes file: ", n);
  }
  {
    std::istringstream in(slurp(base + ".xs"));
    size_t nm = 0;
    int ng = 0;
    in >> nm >> ng;
    REQUIRE(nm == r.mats.size() && ng == r.mats[0].ng, "cross-section file: ", nm, " materials, ", ng, " groups");
    for (auto const & x : r.mats) {
      std::string n;
      in >> n;
      REQUIRE(n == x.name, "cross-section file: ", n, " where ", x.name, " is expected");
      for (size_t g = 0; g < static_cast<size_t>(ng); ++g) {
        double const want[] = {x.a[g], x.f[g], x.nuf[g], x.tr[g], x.s[g]};
        for (double const w : want) {
          double v = 0;
          REQUIRE(static_cast<bool>(in >> v), "the cross-section file ends early");
          REQUIRE(std::fabs(v - w) <= 1e-13 * w, "cross section of ", n, " in group ", g, ": ", v, ", expected ", w);
        }
      }
    }
    std::string rest;
    REQUIRE(!(in >> rest), "more text in the cross-section file: ", rest);
  }
  {
    // composition of each material and the ray spacing
    std::istringstream in(slurp(base + ".input"));
    std::string t;
    for (Int i = 0; i < m.materials().size(); ++i) {
      auto const & x = m.materials()[i];
      while (in >> t && t != "mat") {
      }
      int number = 0;
      std::string type;
      double rho = 0;
      double temp = 0;
      std::string gcc;
      std::string kelvin;
      std::string slash;
      in >> number >> type >> rho >> gcc >> temp >> kelvin >> slash;
      REQUIRE(number == i + 1 && slash == "\\", "input file: material ", i);
      REQUIRE(std::fabs(rho - x.getDensity()) <= 1e-5 && std::fabs(temp - x.getTemperature()) <= 1e-4,
              "input file: density ", rho, " or temperature ", temp, " of material ", i);
      for (Int k = 0; k < x.numNuclides(); ++k) {
        int zaid = 0;
        double nd = 0;
        in >> zaid >> nd;
        REQUIRE(zaid == x.zaid(k) && std::fabs(nd - x.numDensity(k)) <= 1e-5 * x.numDensity(k), "input file: nuclide ",
                zaid, " of density ", nd);
      }
    }
    while (in >> t && t != "RAY" && t != "ray") {
      if (t == "!") {
        std::getline(in, t);
      }
    }
    double ray = 0;
    in >> ray;
    std::sort(chords.begin(), chords.end());
    double const n = static_cast<double>(chords.size());
    double const lo = chords[static_cast<size_t>(std::max(0.0, 0.1 * n - 1e-6))];
    double const hi = chords[static_cast<size_t>(std::min(n - 1, 0.1 * n + 1e-6))];
    REQUIRE(ray >= lo / 4 * (1 - 1e-5) && ray <= hi / 4 * (1 + 1e-5), "input file: ray spacing ", ray, ", expected ",
            lo / 4);
  }
}

void
roundTrip(pbt::Src & s, pbt::Case & c, Limits const & lim)
{
  armLogger();
  Reactor const r = genReactor(s, lim);
  c.desc << r.describe();
  Model m;
  build(r, m);
  for (auto & x : m.materials()) {
    x.setDensity(s.real(0.1, 20));
    x.setTemperature(s.real(290, 1500));
    int z = 1000;
    for (int i = 0, n = s.irange(1, 4); i < n; ++i) {
      z += s.irange(1, 20000);
      x.addNuclide(z, s.mag(-6, -1));
    }
  }
  bool const knudsen = s.coin();
  bool const xsec = s.coin();
  static char const * const names[] = {"core", "a", "model.v2", "Test_Core-1"};
  std::string const name = names[s.below(4)];
  std::string const base = c.dir() + "/" + name;
  // by its full name, or by a name relative to the working directory
  auto const home = std::filesystem::current_path();
  int const place = s.irange(0, 2);
  std::string const call = place == 0 ? base : place == 1 ? name : "./" + name;
  if (place > 0) {
    std::filesystem::current_path(c.dir());
  }
  c.desc << ", named " << (place == 0 ? "in full" : place == 1 ? "from its directory" : "with a dot");
  m.write(um2::String((call + ".xdmf").c_str()), knudsen, xsec);
  std::filesystem::current_path(home);
  REQUIRE(!errorLogged(), "error while writing: ", um2::logger::buffer);
  expectStructure(m, r, 1e-12, "model after writing");
  checkFiles(base, name, r, knudsen, xsec);
  checkCompanions(base, r, m);

  double const tol = 1e-12 * (r.height + r.W * 13 + r.H * 13);
  Model back;
  if (place > 0) {
    std::filesystem::current_path(c.dir());
  }
  int const way = s.irange(0, 2);
  if (way == 0) {
    back.read(um2::String((call + ".xdmf").c_str()));
  } else if (way == 1) {
    Model other(um2::String((call + ".xdmf").c_str()));
    back = other;
  } else { // a model that held something else
    back = m;
    back.clear();
    back.read(um2::String((call + ".xdmf").c_str()));
  }
  std::filesystem::current_path(home);
  REQUIRE(!errorLogged(), "error while reading: ", um2::logger::buffer);
  expectModel(back, r, tol, "loaded model");

  // and once more
  std::string const dir2 = c.dir() + "/again";
  std::filesystem::create_directory(dir2);
  std::string const base2 = dir2 + "/" + name;
  back.write(um2::String((base2 + ".xdmf").c_str()));
  REQUIRE(!errorLogged(), "error while writing the loaded model: ", um2::logger::buffer);
  checkFiles(base2, name, r, false, false);
  if (!knudsen && !xsec) {
    REQUIRE(slurp(base + ".xdmf") == slurp(base2 + ".xdmf"), "the loaded model is written differently");
  }
  std::istringstream in(slurp(base + ".volumes"));
  std::istringstream in2(slurp(base2 + ".volumes"));
  for (size_t i = 0; i < r.mats.size(); ++i) {
    std::string n;
    std::string n2;
    double v = 0;
    double v2 = -1;
    in >> n >> v;
    in2 >> n2 >> v2;
    REQUIRE(n == n2 && std::fabs(v - v2) <= 1e-9 * v, "volume of ", n, " changes from ", v, " to ", v2);
  }
  Model third(um2::String((base2 + ".xdmf").c_str()));
  REQUIRE(!errorLogged(), "error while reading again: ", um2::logger::buffer);
  expectModel(third, r, 2 * tol, "model loaded twice");
  std::filesystem::remove_all(dir2);
  for (char const * e : {".xdmf", ".h5", ".input", ".volumes", ".xs"}) {
    std::filesystem::remove(base + e);
  }
  std::set<int> kinds;
  for (auto const & x : r.meshes) {
    kinds.insert(x.kind);
  }
  c.label(r.lats.size() > 1 ? "several lattices" : "one lattice");
  if (lim.many) {
    c.label(r.asys.size() > 100 ? "many assemblies" : r.lats.size() > 100 ? "many lattices" : "many modules");
    c.nontrivial(r.cells.size() > 100 || r.rtms.size() > 100 || r.lats.size() > 100 || r.asys.size() > 100);
  } else {
    c.nontrivial(kinds.size() > 1 || (r.lats.size() > 1 && r.asys.size() > 1));
  }
}

PBT_SUB(round_trip, 500, 14000, "several lattices and assemblies, or several mesh kinds")
{
  Limits lim;
  lim.cells = 24;
  lim.mesh_div = 2;
  roundTrip(s, c, lim);
}

PBT_SUB(many_parts, 16, 250, "more than a hundred parts at one level")
{
  Limits lim;
  lim.mesh_div = 1;
  lim.many = true;
  roundTrip(s, c, lim);
}

} // namespace

auto
main(int argc, char ** argv) -> int
{
  pbt::Options o;
  o.leak_check = true;
  o.assumptions = {"every part of the model is placed in the core",
                   "material names contain no commas, spaces or characters special to XML",
                   "materials are restored by name; cross sections are not part of the saved model"};
  return pbt::run("C25", "models saved, loaded and saved again", o, argc, argv);
}

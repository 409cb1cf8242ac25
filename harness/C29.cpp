// C29: reading a cross-section library file.
// Oracle: the numbers the generated file was written from, as strtod reads their text.
#include "reactor.hpp"

#include <um2/physics/cross_section_library.hpp>

#include <fstream>

namespace
{

using namespace reactor;

struct Writer {
  pbt::Src & s;
  std::ostringstream o;
  int style; // number format

  // writes a number and returns what its text means
  auto
  num(double x) -> double
  {
    char t[64];
    switch (style) {
    case 0:
      std::snprintf(t, sizeof t, "%.6E", x);
      break;
    case 1:
      std::snprintf(t, sizeof t, "%.17g", x);
      break;
    case 2:
      std::snprintf(t, sizeof t, "%.4e", x);
      break;
    default:
      std::snprintf(t, sizeof t, "%.8f", x);
    }
    gap();
    o << t;
    return std::strtod(t, nullptr);
  }
  void
  integer(long x)
  {
    gap();
    o << x;
  }
  void
  gap()
  {
    o << std::string(static_cast<size_t>(s.irange(1, 4)), ' ');
  }
  void
  end()
  {
    if (s.oneIn(8)) {
      gap();
    }
    o << "\n";
  }
};

struct Row {
  double a = 0, f = 0, nuf = 0, tr = 0, sc = 0;
  int lo = 0;
  std::vector<double> ss;
  bool only = false;
};

struct Nuc {
  Int zaid = 0;
  double mass = 0;
  std::vector<double> temps;
  std::vector<std::vector<Row>> rows; // [group][temperature]
};

struct Lib {
  int ng = 1;
  std::vector<double> bounds, chi;
  std::vector<Nuc> nuc;
};

// Values over one or more lines
template <class F>
auto
list(Writer & w, int n, F && value) -> std::vector<double>
{
  std::vector<double> out;
  int const per = w.s.oneIn(3) ? n : w.s.irange(1, std::max(1, std::min(n, 10)));
  for (int i = 0; i < n; ++i) {
    out.push_back(w.num(value(i)));
    if ((i + 1) % per == 0 || i + 1 == n) {
      w.end();
    }
  }
  return out;
}

auto
signedValue(pbt::Src & s) -> double
{
  return s.oneIn(6) ? 0 : (s.oneIn(10) ? -1 : 1) * s.mag(-6, 3);
}

auto
generate(Writer & w) -> Lib
{
  auto & s = w.s;
  Lib lib;
  bool const big = s.oneIn(700); // rows of thousands of characters
  lib.ng = big ? s.irange(50, 300) : s.oneIn(4) ? s.irange(1, 30) : s.irange(1, 8);
  int const nn = big ? s.irange(1, 2) : s.oneIn(60) ? s.irange(20, 150) : s.size(1, 6);
  w.o << "%VER:";
  w.end();
  w.gap();
  w.o << "4." << s.irange(0, 9);
  if (s.coin()) {
    w.o << " 5 library of " << lib.ng << " groups";
  }
  w.end();
  w.o << "%DIM:";
  w.end();
  for (int const d : {lib.ng, s.irange(0, 9), s.irange(0, 9), s.irange(0, 9), nn, s.irange(0, 99), s.irange(0, 9),
                      s.irange(0, 9), s.irange(0, 9), s.irange(0, 9)}) {
    w.integer(d);
  }
  w.end();
  w.o << "%GRP:";
  w.end();
  std::vector<double> e(static_cast<size_t>(lib.ng));
  double at = s.oneIn(3) ? 2e7 : s.mag(3, 7);
  for (auto & x : e) {
    x = at;
    at *= s.real(0.3, 0.9);
  }
  if (w.style == 3) {
    w.style = 0; // small bounds need exponents
  }
  lib.bounds = list(w, lib.ng, [&](int i) { return e[static_cast<size_t>(i)]; });
  w.o << "%CHI:";
  w.end();
  lib.chi = list(w, lib.ng, [&](int) { return s.oneIn(4) ? 0 : s.real(0, 1); });
  w.o << "%DIR:";
  w.end();
  for (int i = 0; i < nn; ++i) {
    w.integer(i + 1);
    w.num(s.real(1, 250));
    w.o << "  name" << i;
    w.end();
  }
  std::vector<Int> used;
  for (int k = 0; k < nn; ++k) {
    Nuc n;
    do {
      n.zaid = s.irange(1, 98) * 1000 + s.irange(0, 760);
    } while (std::count(used.begin(), used.end(), n.zaid) != 0);
    used.push_back(n.zaid);
    int const nt = s.irange(1, big ? 2 : 5);
    w.o << "%NUC";
    w.integer(k + 1);
    w.integer(n.zaid);
    n.mass = w.num(s.real(1, 250));
    for (int i = 0; i < 4; ++i) {
      w.integer(s.irange(0, 9));
    }
    w.integer(nt);
    for (int i = 0, m = s.irange(0, 3); i < m; ++i) {
      w.integer(s.irange(0, 9));
    }
    w.end();
    if (s.oneIn(3)) {
      w.gap();
    }
    w.o << "TP1+";
    w.end();
    double t = s.real(200, 600);
    for (int i = 0; i < nt; ++i) {
      n.temps.push_back(w.num(t));
      t += s.real(10, 400);
    }
    w.end();
    if (s.oneIn(3)) {
      w.gap();
    }
    w.o << "XSD+";
    w.end();
    bool const fissile = s.oneIn(3);
    bool const sparse = s.oneIn(3);
    n.rows.resize(static_cast<size_t>(lib.ng));
    for (int g = 0; g < lib.ng; ++g) {
      for (int i = 0; i < nt; ++i) {
        Row r;
        r.only = sparse && s.coin();
        w.integer(g + 1);
        w.integer(i + 1);
        r.a = w.num(signedValue(s));
        if (!r.only) {
          bool const f = fissile && (g == 0 || s.coin());
          r.f = w.num(f ? s.mag(-3, 3) : 0);
          r.nuf = w.num(f ? r.f * s.real(2, 3) : 0);
          r.tr = w.num(signedValue(s));
          r.sc = w.num(signedValue(s));
          int const lo = s.irange(1, lib.ng);
          int const hi = big && !s.oneIn(4) ? std::min(lib.ng, lo + s.irange(0, 9)) : s.irange(lo, lib.ng);
          w.integer(lo);
          w.integer(hi);
          r.lo = lo - 1;
          for (int j = lo; j <= hi; ++j) {
            r.ss.push_back(w.num(signedValue(s)));
          }
        }
        w.end();
        n.rows[static_cast<size_t>(g)].push_back(r);
      }
    }
    for (int i = 0, m = s.irange(0, 3); i < m; ++i) { // sections not read
      w.o << (s.coin() ? "SUB+" : "RES+") << " " << s.irange(1, 9);
      w.end();
      for (int j = 0, q = s.irange(0, 3); j < q; ++j) {
        for (int n = big ? s.irange(1, 300) : 2; n > 0; --n) {
          w.num(s.real(0, 10));
        }
        w.end();
      }
    }
    lib.nuc.push_back(n);
  }
  w.o << "%END";
  w.end();
  return lib;
}

PBT_SUB(contents, 30000, 700000, "several groups and several nuclides")
{
  armLogger();
  Writer w{s, {}, s.irange(0, 3)};
  auto const lib = generate(w);
  auto const text = w.o.str();
  size_t longest = 0;
  std::istringstream lines(text);
  for (std::string line; std::getline(lines, line);) {
    longest = std::max(longest, line.size());
  }
  if (longest > 1000) {
    c.label("lines of more than 1000 characters");
  }
  c.desc << text.substr(0, 500);
  std::string const file = c.dir() + "/lib.fmt";
  std::ofstream(file) << text;
  um2::XSLibrary const got(um2::String(file.c_str()));
  REQUIRE(!errorLogged(), "error: ", um2::logger::buffer);
  REQUIRE(got.numGroups() == lib.ng && got.groupBounds().size() == lib.ng && got.chi().size() == lib.ng, got.numGroups(),
          " groups, expected ", lib.ng);
  for (Int g = 0; g < lib.ng; ++g) {
    REQUIRE(got.groupBounds()[g] == lib.bounds[static_cast<size_t>(g)], "bound ", g, " is ", got.groupBounds()[g],
            ", expected ", lib.bounds[static_cast<size_t>(g)]);
    REQUIRE(got.chi()[g] == lib.chi[static_cast<size_t>(g)], "fission spectrum ", g, " is ", got.chi()[g],
            ", expected ", lib.chi[static_cast<size_t>(g)]);
  }
  REQUIRE(got.nuclides().size() == static_cast<Int>(lib.nuc.size()), got.nuclides().size(), " nuclides");
  for (size_t k = 0; k < lib.nuc.size(); ++k) {
    auto const & want = lib.nuc[k];
    auto const & n = got.nuclides()[static_cast<Int>(k)];
    REQUIRE(n.zaid() == want.zaid && n.mass() == want.mass, "nuclide ", k, " is ", n.zaid(), " of mass ", n.mass(),
            ", expected ", want.zaid, " of mass ", want.mass);
    REQUIRE(&got.getNuclide(want.zaid) == &n, "lookup of ", want.zaid);
    auto const nt = want.temps.size();
    REQUIRE(n.temperatures().size() == static_cast<Int>(nt) && n.xs().size() == static_cast<Int>(nt), "nuclide ", k,
            " has ", n.temperatures().size(), " temperatures, expected ", nt);
    bool any = false;
    for (size_t t = 0; t < nt; ++t) {
      auto const ti = static_cast<Int>(t);
      REQUIRE(n.temperatures()[ti] == want.temps[t], "nuclide ", k, " temperature ", t, " is ", n.temperatures()[ti],
              ", expected ", want.temps[t]);
      auto const & xs = n.xs()[ti];
      REQUIRE(xs.numGroups() == lib.ng && !xs.isMacro(), "cross sections of nuclide ", k);
      bool fissile = false;
      for (Int g = 0; g < lib.ng; ++g) {
        auto const & r = want.rows[static_cast<size_t>(g)][t];
        auto same = [&](char const * what, double x, double y) {
          REQUIRE(x == y, what, " of nuclide ", k, " group ", g, " temperature ", t, " is ", x, ", expected ", y);
        };
        same("absorption", xs.a()[g], r.a);
        same("fission", xs.f()[g], r.f);
        same("production", xs.nuf()[g], r.nuf);
        same("transport", xs.tr()[g], r.tr);
        same("scattering", xs.s()[g], r.sc);
        for (Int j = 0; j < lib.ng; ++j) {
          bool const in = j >= r.lo && j < r.lo + static_cast<Int>(r.ss.size());
          same("scattering matrix", xs.ss()(g, j), in ? r.ss[static_cast<size_t>(j - r.lo)] : 0);
        }
        fissile = fissile || r.f > 0;
      }
      REQUIRE(xs.isFissile() == fissile, "nuclide ", k, " temperature ", t, " fissile flag");
      any = any || fissile;
    }
    REQUIRE(n.isFissile() == any, "nuclide ", k, " fissile flag");
  }
  // declared pure, so the result must be used
  Int const other = got.getNuclide(99999).zaid();
  REQUIRE(other != 99999 && errorLogged(), "a nuclide that is not in the library is found");
  c.nontrivial(lib.ng > 1 && lib.nuc.size() > 1);
}

PBT_SUB(other_files, 8000, 150000, "a header is damaged")
{
  armLogger();
  Writer w{s, {}, 0};
  (void)generate(w);
  auto text = w.o.str();
  std::string const file = c.dir() + "/lib.fmt";
  int const kind = s.irange(0, 5);
  char const * const head[] = {"%VER:", "%DIM:", "%GRP:", "%CHI:", "%DIR:"};
  if (kind < 5) {
    auto const at = text.find(head[kind]);
    text[at + static_cast<size_t>(s.irange(0, 4))] = s.coin() ? ' ' : 'x';
    c.desc << head[kind] << " damaged";
  } else if (s.coin()) {
    auto const at = text.find("4.");
    text[at] = static_cast<char>('5' + s.irange(0, 4));
    c.desc << "another version";
  } else {
    um2::XSLibrary const none(um2::String((file + "x").c_str()));
    c.desc << "no file";
    REQUIRE(errorLogged() && none.nuclides().empty(), "a missing file is not reported");
    return;
  }
  std::ofstream(file) << text;
  um2::XSLibrary const got(um2::String(file.c_str()));
  REQUIRE(errorLogged() && got.nuclides().empty(), "the file is read without error");
  c.nontrivial(kind < 5);
}

} // namespace

auto
main(int argc, char ** argv) -> int
{
  pbt::Options o;
  o.leak_check = true;
  o.assumptions = {"fields are separated by spaces and lines are shorter than 1000 characters",
                   "a nuclide's temperatures are on one line, production is positive only with fission"};
  return pbt::run("C29", "library files read to the numbers they state", o, argc, argv);
}

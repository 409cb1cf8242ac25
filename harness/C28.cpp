// C28: material compositions.
// Oracle: the stated density and fractions, with mass numbers and standard atomic weights
// standing in for the library's own mass table.
#include "reactor.hpp"

#include <um2/physics/material.hpp>

namespace
{

using namespace reactor;

constexpr double NAVO = 0.602214076;

// Symbols in order of atomic number
char const * const ELEM[] = {
    "H",  "He", "Li", "Be", "B",  "C",  "N",  "O",  "F",  "Ne", "Na", "Mg", "Al", "Si", "P",  "S",  "Cl", "Ar", "K",  "Ca",
    "Sc", "Ti", "V",  "Cr", "Mn", "Fe", "Co", "Ni", "Cu", "Zn", "Ga", "Ge", "As", "Se", "Br", "Kr", "Rb", "Sr", "Y",  "Zr",
    "Nb", "Mo", "Tc", "Ru", "Rh", "Pd", "Ag", "Cd", "In", "Sn", "Sb", "Te", "I",  "Xe", "Cs", "Ba", "La", "Ce", "Pr", "Nd",
    "Pm", "Sm", "Eu", "Gd", "Tb", "Dy", "Ho", "Er", "Tm", "Yb", "Lu", "Hf", "Ta", "W",  "Re", "Os", "Ir", "Pt", "Au", "Hg",
    "Tl", "Pb", "Bi", "Po", "At", "Rn", "Fr", "Ra", "Ac", "Th", "Pa", "U",  "Np", "Pu", "Am", "Cm", "Bk", "Cf", "Es", "Fm",
    "Md", "No", "Lr", "Rf", "Db", "Sg", "Bh", "Hs", "Mt", "Ds", "Rg", "Cn", "Nh", "Fl", "Mc", "Lv", "Ts", "Og"};

struct Isotope {
  char const * name;
  int z;
  double mass;
  double tol;
};

auto
iso(char const * name, int z, int a) -> Isotope
{
  return {name, z * 1000 + a, double(a), 0.13};
}

auto
nat(char const * name, int z, double w) -> Isotope
{
  return {name, z * 1000, w, 0.05};
}

// Nuclides of common reactor materials
std::vector<Isotope> const KNOWN = {
    iso("H1", 1, 1),       iso("H2", 1, 2),       iso("H3", 1, 3),       iso("He3", 2, 3),      iso("He4", 2, 4),
    iso("Li6", 3, 6),      iso("Li7", 3, 7),      iso("Be9", 4, 9),      iso("B10", 5, 10),     iso("B11", 5, 11),
    nat("C0", 6, 12.011),  iso("N14", 7, 14),     iso("O16", 8, 16),     iso("F19", 9, 19),     iso("Na23", 11, 23),
    nat("Mg", 12, 24.305), iso("Al27", 13, 27),   nat("Si", 14, 28.085), iso("P31", 15, 31),    nat("S0", 16, 32.06),
    nat("Cl", 17, 35.45),  nat("Ca", 20, 40.078), nat("Ti", 22, 47.867), nat("V0", 23, 50.942), iso("Cr50", 24, 50),
    iso("Cr52", 24, 52),   iso("Cr53", 24, 53),   iso("Cr54", 24, 54),   nat("Cr", 24, 51.996), iso("Mn55", 25, 55),
    iso("Fe54", 26, 54),   iso("Fe56", 26, 56),   iso("Fe57", 26, 57),   iso("Fe58", 26, 58),   nat("Fe", 26, 55.845),
    iso("Co59", 27, 59),   iso("Ni58", 28, 58),   iso("Ni60", 28, 60),   iso("Ni61", 28, 61),   iso("Ni62", 28, 62),
    iso("Ni64", 28, 64),   nat("Ni", 28, 58.693), iso("Cu63", 29, 63),   iso("Cu65", 29, 65),   iso("Zr90", 40, 90),
    iso("Zr91", 40, 91),   iso("Zr92", 40, 92),   iso("Zr94", 40, 94),   iso("Zr96", 40, 96),   nat("Zr", 40, 91.224),
    iso("Nb93", 41, 93),   nat("Mo", 42, 95.95),  iso("Mo95", 42, 95),   iso("Rh103", 45, 103), iso("Ag107", 47, 107),
    iso("Ag109", 47, 109), nat("Cd", 48, 112.414), iso("Cd110", 48, 110), iso("Cd111", 48, 111), iso("Cd112", 48, 112),
    iso("Cd113", 48, 113), iso("Cd114", 48, 114), iso("In113", 49, 113), iso("In115", 49, 115), nat("In", 49, 114.818),
    iso("Sn112", 50, 112), iso("Sn114", 50, 114), iso("Sn115", 50, 115), iso("Sn116", 50, 116), iso("Sn117", 50, 117),
    iso("Sn118", 50, 118), iso("Sn119", 50, 119), iso("Sn120", 50, 120), iso("Sn122", 50, 122), iso("Sn124", 50, 124),
    nat("Sn", 50, 118.71), iso("Sb121", 51, 121), iso("Sb123", 51, 123), iso("Sm152", 62, 152), iso("Eu151", 63, 151),
    iso("Eu153", 63, 153), iso("Gd152", 64, 152), iso("Gd154", 64, 154), iso("Gd155", 64, 155), iso("Gd156", 64, 156),
    iso("Gd157", 64, 157), iso("Gd158", 64, 158), iso("Gd160", 64, 160), iso("Dy160", 66, 160), iso("Dy164", 66, 164),
    iso("Ho165", 67, 165), iso("Er162", 68, 162), iso("Er166", 68, 166), iso("Er167", 68, 167), iso("Er170", 68, 170),
    iso("Hf174", 72, 174), iso("Hf177", 72, 177), iso("Hf180", 72, 180), iso("Ta181", 73, 181), iso("W182", 74, 182),
    iso("W186", 74, 186),  nat("W0", 74, 183.84), iso("Au197", 79, 197), iso("Pb206", 82, 206), iso("Pb208", 82, 208),
    iso("Bi209", 83, 209), iso("Th232", 90, 232), iso("Pa233", 91, 233), iso("U233", 92, 233),  iso("U234", 92, 234),
    iso("U235", 92, 235),  iso("U236", 92, 236),  iso("U238", 92, 238),  iso("Np237", 93, 237), iso("Pu238", 94, 238),
    iso("Pu239", 94, 239), iso("Pu240", 94, 240), iso("Pu241", 94, 241), iso("Pu242", 94, 242), iso("Am241", 95, 241),
    iso("Am243", 95, 243), iso("Cm242", 96, 242), iso("Cm244", 96, 244), iso("Cf252", 98, 252)};

struct Entry {
  Int zaid;
  double n;
};

void
expectList(um2::Material const & m, std::vector<Entry> const & want, double rel, char const * what)
{
  REQUIRE(m.numNuclides() == static_cast<Int>(want.size()) && m.numDensities().size() == m.numNuclides() &&
              m.zaids().size() == m.numNuclides(),
          what, ": ", m.numNuclides(), " nuclides and ", m.numDensities().size(), " densities, expected ",
          want.size());
  for (size_t i = 0; i < want.size(); ++i) {
    Int k = -1;
    for (Int j = 0; j < m.numNuclides(); ++j) {
      if (m.zaid(j) == want[i].zaid) {
        REQUIRE(k == -1, what, ": nuclide ", want[i].zaid, " appears twice");
        k = j;
      }
    }
    REQUIRE(k >= 0, what, ": nuclide ", want[i].zaid, " is missing");
    REQUIRE(std::fabs(m.numDensity(k) - want[i].n) <= rel * want[i].n, what, ": density of ", want[i].zaid, " is ",
            m.numDensity(k), ", expected ", want[i].n);
  }
}

PBT_SUB(names, 100000, 2000000, "element of two letters or mass number of three digits")
{
  armLogger();
  int const z = s.irange(1, 118);
  std::string const e = ELEM[z - 1];
  int const a = s.oneIn(8) ? 0 : s.irange(1, 400);
  std::string t = e;
  std::string const sep = s.oneIn(4) ? "-" : "";
  if (a > 0) {
    t += sep + std::to_string(a);
  } else if (e.size() < 2) {
    t += "0";
  }
  pbt::discardUnless(t.size() <= 6);
  c.desc << t;
  Int const got = um2::toZAID(um2::String(t.c_str()));
  REQUIRE(got == 1000 * z + a && !errorLogged(), t, " is ", got, ", expected ", 1000 * z + a);
  c.nontrivial(e.size() == 2 || a > 99);
  // not an element
  std::string bad(1, static_cast<char>('A' + s.irange(0, 25)));
  bad += static_cast<char>('a' + s.irange(0, 25));
  if (s.oneIn(3)) {
    bad = e;
    std::transform(bad.begin(), bad.end(), bad.begin(), [](char x) { return static_cast<char>(std::tolower(x)); });
  } else if (s.oneIn(3)) {
    bad = e + "x";
  }
  if (std::none_of(std::begin(ELEM), std::end(ELEM), [&](char const * x) { return bad == x; })) {
    bad += "12";
    Int const r = um2::toZAID(um2::String(bad.c_str()));
    REQUIRE(r == -1 && errorLogged(), bad, " is accepted as ", r);
  }
}

PBT_SUB(history, 80000, 2000000, "a refused request among accepted ones")
{
  armLogger();
  um2::Material m;
  m.setName("M");
  std::vector<Entry> want;
  double rho = s.mag(-3, 1.5);
  m.setDensity(rho);
  int const ops = s.oneIn(100) ? s.irange(15, 150) : s.size(1, 14);
  int refused = 0;
  int accepted = 0;
  for (int k = 0; k < ops; ++k) {
    um2::logger::buffer[0] = '\0';
    auto const & x = s.pick(KNOWN);
    bool const by_name = s.coin();
    um2::String const name(x.name);
    auto const has = [&](Int z) {
      return std::any_of(want.begin(), want.end(), [&](Entry const & e) { return e.zaid == z; });
    };
    bool error = false;
    c.desc << (k > 0 ? "; " : "");
    switch (s.below(6)) {
    case 0:
    case 1: {
      double n = s.mag(-9, 0);
      bool const bad = s.oneIn(5);
      n = bad ? (s.coin() ? 0 : -n) : n;
      c.desc << "add " << x.name << " " << n;
      if (by_name) {
        m.addNuclide(name, n);
      } else {
        m.addNuclide(x.z, n);
      }
      error = bad || has(x.z);
      if (!error) {
        want.push_back({x.z, n});
      }
      break;
    }
    case 2: {
      double const w = s.oneIn(6) ? 1 : s.real(0.0001, 1);
      c.desc << "add " << x.name << " by weight " << w;
      if (by_name) {
        m.addNuclideWt(name, w);
      } else {
        m.addNuclideWt(x.z, w);
      }
      error = has(x.z);
      if (!error) {
        REQUIRE(m.numNuclides() == static_cast<Int>(want.size()) + 1, x.name, " is not added");
        double const n = m.numDensity(m.numNuclides() - 1);
        // N = w rho / mass
        double const mass = w * rho * NAVO / n;
        REQUIRE(std::fabs(mass - x.mass) <= x.tol, x.name, " of weight ", w, " at density ", rho, " has ", n,
                " atoms, a mass of ", mass);
        want.push_back({x.z, n});
      }
      break;
    }
    case 3: {
      // no such nuclide
      c.desc << "add an unknown nuclide";
      error = true;
      if (s.coin()) {
        m.addNuclide(-s.irange(0, 100000), 0.1);
      } else if (s.coin()) {
        m.addNuclideWt(s.irange(1, 120) * 1000 + 499, 0.1);
      } else {
        m.addNuclide(um2::String("Xx12"), 0.1);
      }
      break;
    }
    case 4:
      rho = s.mag(-3, 1.5);
      m.setDensity(rho);
      c.desc << "density " << rho;
      break;
    default: {
      // by atom fractions
      int const n = s.irange(1, 4);
      std::vector<Isotope> part;
      um2::Vector<um2::String> sym;
      um2::Vector<Float> pc;
      double mass = 0;
      bool dup = false;
      c.desc << "add atoms";
      for (int i = 0; i < n; ++i) {
        auto const & y = s.pick(KNOWN);
        dup = dup || std::any_of(part.begin(), part.end(), [&](Isotope const & p) { return p.z == y.z; });
        dup = dup || has(y.z);
        part.push_back(y);
        sym.emplace_back(um2::String(y.name));
        pc.emplace_back(s.real(0.001, 1));
        um2::Material ref;
        ref.setDensity(1);
        ref.addNuclideWt(y.z, 1);
        mass += pc[i] * (NAVO / ref.numDensity(0));
        c.desc << " " << y.name << " " << pc[i];
      }
      bool const unknown = s.oneIn(6);
      if (unknown) {
        sym[s.irange(0, n - 1)] = um2::String(s.coin() ? "Qq12" : "U499");
        c.desc << ", one unknown";
      }
      if (dup && unknown) {
        break;
      }
      m.addNuclidesAtomPercent(sym, pc);
      error = unknown || dup;
      if (!unknown) {
        for (size_t i = 0; i < part.size(); ++i) {
          if (!has(part[i].z)) {
            want.push_back({part[i].z, pc[static_cast<Int>(i)] * rho * NAVO / mass});
          }
        }
      }
    }
    }
    REQUIRE(errorLogged() == error, error ? "no error is given" : um2::logger::buffer, " (request ", k, ")");
    ++(error ? refused : accepted);
    expectList(m, want, 1e-13, "composition");
  }
  c.nontrivial(refused > 0 && accepted > 0);
}

PBT_SUB(mass_balance, 60000, 1500000, "at least two nuclides")
{
  armLogger();
  double const rho = s.mag(-3, 1.5);
  auto const order = s.perm(static_cast<int>(KNOWN.size()));
  int const n = s.irange(1, 9);
  std::vector<double> w;
  double sum = 0;
  for (int i = 0; i < n; ++i) {
    w.push_back(s.real(0.01, 1));
    sum += w.back();
  }
  um2::Material by_wt;
  um2::Material by_at;
  by_wt.setDensity(rho);
  by_at.setDensity(rho);
  um2::Vector<um2::String> sym;
  um2::Vector<Float> pc;
  c.desc << "density " << rho << ":";
  for (int i = 0; i < n; ++i) {
    auto const & x = KNOWN[static_cast<size_t>(order[static_cast<size_t>(i)])];
    auto & f = w[static_cast<size_t>(i)];
    f /= sum;
    by_wt.addNuclideWt(um2::String(x.name), f);
    sym.emplace_back(um2::String(x.name));
    pc.emplace_back(f);
    c.desc << " " << x.name << " " << f;
  }
  by_at.addNuclidesAtomPercent(sym, pc);
  REQUIRE(!errorLogged(), um2::logger::buffer);
  double total_wt = 0;
  double total_at = 0;
  double atoms = 0;
  double slack_wt = 0;
  double slack_at = 0;
  for (int i = 0; i < n; ++i) {
    auto const & x = KNOWN[static_cast<size_t>(order[static_cast<size_t>(i)])];
    double const f = w[static_cast<size_t>(i)];
    double const part = by_wt.numDensity(i) * x.mass / NAVO;
    double const slack = by_wt.numDensity(i) * x.tol / NAVO;
    REQUIRE(std::fabs(part - f * rho) <= slack, x.name, " makes up ", part / rho, " of the mass, expected ", f);
    total_wt += part;
    slack_wt += slack;
    total_at += by_at.numDensity(i) * x.mass / NAVO;
    slack_at += by_at.numDensity(i) * x.tol / NAVO;
    atoms += by_at.numDensity(i);
  }
  REQUIRE(std::fabs(total_wt - rho) <= slack_wt, "weight fractions give the density ", total_wt);
  REQUIRE(std::fabs(total_at - rho) <= slack_at, "atom fractions give the density ", total_at);
  for (int i = 0; i < n; ++i) {
    REQUIRE(std::fabs(by_at.numDensity(i) / atoms - w[static_cast<size_t>(i)]) <= 1e-13, "atom fraction of ", i,
            " is ", by_at.numDensity(i) / atoms, ", expected ", w[static_cast<size_t>(i)]);
  }
  c.nontrivial(n > 1);
}

// Every nuclide with a known mass: the mass must fit the identifier, whose last two digits are
// those of the mass number also for lumped and metastable nuclides.
PBT_SUB(mass_table, 600, 6000, "element with several known nuclides")
{
  um2::settings::logger::level = 0;
  um2::settings::logger::exit_on_error = false;
  Int const z = s.irange(1, 100);
  c.desc << ELEM[z - 1] << ":";
  int known = 0;
  for (Int a = 0; a < 1000; ++a) {
    um2::Material m;
    m.setDensity(1);
    m.addNuclideWt(1000 * z + a, 1);
    if (m.numNuclides() == 0) {
      continue;
    }
    ++known;
    double const mass = NAVO / m.numDensity(0);
    c.desc << " " << a;
    REQUIRE(z == 1 || (mass > 1.4 * z && mass < 2.7 * z), "mass of ", 1000 * z + a, " is ", mass);
    double const off = mass - std::round(mass);
    if (a > 1 && 1000 * z + a != 1006 && 1000 * z + a != 1040) {
      REQUIRE(static_cast<int>(std::round(mass)) % 100 == a % 100 && std::fabs(off) < 0.13, "mass of ", 1000 * z + a,
              " is ", mass);
    }
  }
  for (auto const & x : KNOWN) {
    if (x.z / 1000 == z) {
      um2::Material m;
      m.setDensity(1);
      m.addNuclideWt(x.z, 1);
      REQUIRE(m.numNuclides() == 1, "the mass of ", x.name, " is not known");
    }
  }
  c.nontrivial(known > 1);
}

PBT_SUB(uranium_oxide, 60000, 1500000, "with gadolinia")
{
  armLogger();
  double const rho = s.real(1, 12);
  double const enr = s.oneIn(3) ? s.mag(-5, -1) : s.real(0.001, 0.98);
  double const gad = s.coin() ? 0 : s.oneIn(3) ? s.mag(-5, -1) : s.real(0.001, 0.99);
  um2::Material m;
  m.setDensity(rho);
  if (gad > 0 || s.coin()) {
    m.setUO2(enr, gad);
  } else {
    m.setUO2(enr);
  }
  c.desc << "density " << rho << ", enrichment " << enr << ", gadolinia " << gad;
  REQUIRE(!errorLogged(), um2::logger::buffer);
  std::map<Int, double> n;
  for (Int i = 0; i < m.numNuclides(); ++i) {
    REQUIRE(n.count(m.zaid(i)) == 0, "nuclide ", m.zaid(i), " appears twice");
    REQUIRE(m.numDensity(i) > 0, "nuclide ", m.zaid(i), " has density ", m.numDensity(i));
    n[m.zaid(i)] = m.numDensity(i);
  }
  std::vector<Int> expected = {8016, 92234, 92235, 92236, 92238};
  if (gad > 0) {
    expected.insert(expected.end(), {64152, 64154, 64155, 64156, 64157, 64158, 64160});
  }
  REQUIRE(n.size() == expected.size(), n.size(), " nuclides");
  for (Int const z : expected) {
    REQUIRE(n.count(z) == 1, "nuclide ", z, " is missing");
  }
  // atomic masses (AME), six figures
  std::map<Int, double> const mass = {{8016, 15.99491},  {92234, 234.0410}, {92235, 235.0439}, {92236, 236.0456},
                                      {92238, 238.0508}, {64152, 151.9198}, {64154, 153.9209}, {64155, 154.9226},
                                      {64156, 155.9221}, {64157, 156.9240}, {64158, 157.9241}, {64160, 159.9271}};
  double total = 0;
  double u = 0;
  double u_atoms = 0;
  double gd_atoms = 0;
  double oxide_gd = 0;
  for (auto const & [z, d] : n) {
    double const g = d * mass.at(z) / NAVO;
    total += g;
    u += z > 92000 ? g : 0;
    u_atoms += z > 92000 ? d : 0;
    gd_atoms += z > 64000 && z < 65000 ? d : 0;
    oxide_gd += z > 64000 && z < 65000 ? g : 0;
  }
  double const near = 3e-6;
  REQUIRE(std::fabs(total - rho) <= near * rho, "the nuclides weigh ", total, ", expected ", rho);
  REQUIRE(std::fabs(n[8016] - (2 * u_atoms + 1.5 * gd_atoms)) <= 1e-12 * n[8016], "oxygen ", n[8016], " for uranium ",
          u_atoms, " and gadolinium ", gd_atoms);
  oxide_gd += 1.5 * gd_atoms * mass.at(8016) / NAVO;
  REQUIRE(std::fabs(oxide_gd / total - gad) <= near, "gadolinia makes up ", oxide_gd / total, ", expected ", gad);
  auto share = [&](Int z, double want) {
    double const got = n[z] * mass.at(z) / NAVO / u;
    REQUIRE(std::fabs(got - want) <= 1e-6 + 1e-5 * want, "nuclide ", z, " makes up ", got, " of the uranium, expected ",
            want);
  };
  share(92235, enr);
  share(92234, 0.0089 * enr);
  share(92236, 0.0046 * enr);
  share(92238, 1 - enr * 1.0135);
  if (gad > 0) {
    std::map<Int, double> const natural = {{64152, 0.20},  {64154, 2.18},  {64155, 14.80}, {64156, 20.47},
                                           {64157, 15.65}, {64158, 24.84}, {64160, 21.86}};
    for (auto const & [z, pc] : natural) {
      REQUIRE(std::fabs(n[z] / gd_atoms - pc / 100) <= 1e-4 * pc, "gadolinium ", z, " has share ", n[z] / gd_atoms);
    }
  }
  c.nontrivial(gad > 0);
}

PBT_SUB(properties, 40000, 1000000, "one rule is violated")
{
  armLogger();
  um2::Material m;
  bool named = true;
  int const kind = s.irange(0, 7);
  named = kind != 1;
  if (named) {
    m.setName(um2::String("Fuel"));
  }
  m.setTemperature(kind == 2 ? -s.real(0, 300) : s.real(1, 3000));
  m.setDensity(kind == 3 ? -s.real(0, 3) : s.real(0.001, 20));
  int const n = kind == 4 ? 0 : s.irange(1, 5);
  for (int i = 0; i < n; ++i) {
    m.zaids().emplace_back(1001 + i);
    m.numDensities().emplace_back(s.oneIn(4) ? 0.0 : s.mag(-8, 0));
  }
  Int const k = n > 0 ? s.irange(0, n - 1) : 0;
  if (kind == 5) {
    m.numDensity(k) = -s.mag(-8, 0);
  } else if (kind == 6) {
    m.zaid(k) = -s.irange(0, 99999);
  } else if (kind == 7) {
    if (s.coin()) {
      m.zaids().emplace_back(92235);
    } else {
      m.numDensities().emplace_back(0.1);
    }
  }
  c.desc << "rule " << kind << " broken, " << n << " nuclides, temperature " << m.getTemperature() << ", density "
         << m.getDensity();
  m.validateProperties();
  REQUIRE(errorLogged() == (kind > 0), kind > 0 ? "no error is given" : um2::logger::buffer);
  um2::logger::buffer[0] = '\0';
  // cross sections must be macroscopic
  Mat const x = genMat(s, "M", s.irange(1, 3));
  m.xsec() = toMaterial(x).xsec();
  m.validateXSec();
  REQUIRE(!errorLogged() && m.hasXSec(), "macroscopic cross sections are refused: ", um2::logger::buffer);
  m.xsec().isMacro() = false;
  m.validateXSec();
  REQUIRE(errorLogged() && !m.hasXSec(), "microscopic cross sections are accepted");
  c.nontrivial(kind > 0);
}

} // namespace

auto
main(int argc, char ** argv) -> int
{
  pbt::Options o;
  o.leak_check = true;
  o.assumptions = {"fractions and densities are positive, enrichment is inside the open interval",
                   "masses are known to 0.13 u from the mass number, or 0.05 u for natural elements",
                   "a refused nuclide does not enter the composition; others in the same list may"};
  return pbt::run("C28", "material compositions against stated densities and fractions", o, argc, argv);
}

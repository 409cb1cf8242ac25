// C27: cross-section totals, averages, interpolation, mixing, validation.
// Oracle: the defining sums in extended precision.
#include "c5g7.hpp"
#include "reactor.hpp"

#include <um2/physics/cross_section_library.hpp>

namespace
{

using namespace reactor;
using um2::XSec;

auto
toXSec(Mat const & m, bool macro) -> XSec
{
  XSec xs = toMaterial(m).xsec();
  xs.isMacro() = macro;
  return xs;
}

struct Sum { // the ideal cross section being accumulated
  int ng;
  std::vector<L> a, f, nuf, tr, s, ss;
  std::vector<L> scale; // size of the largest term, for the tolerance
  explicit Sum(int n)
      : ng(n)
  {
    auto const k = static_cast<size_t>(n);
    a.assign(k, 0);
    f = nuf = tr = s = a;
    ss.assign(k * k, 0);
  }
  void
  add(Mat const & m, L w)
  {
    auto go = [&](std::vector<L> & to, std::vector<double> const & from) {
      for (size_t i = 0; i < to.size(); ++i) {
        to[i] += w * from[i];
      }
    };
    go(a, m.a);
    go(f, m.f);
    go(nuf, m.nuf);
    go(tr, m.tr);
    go(s, m.s);
    go(ss, m.ss);
  }
};

void
expectXS(XSec const & xs, Sum const & want, double rel, std::string const & what)
{
  REQUIRE(xs.numGroups() == want.ng, what, ": ", xs.numGroups(), " groups");
  auto same = [&](char const * part, Float got, L w, Int g) {
    L const tol = (part[0] == 't' && part[1] == 'o' ? rel + 1e-15L : L(rel)) * std::fabs(w);
    REQUIRE(std::fabs(got - w) <= tol, what, ": ", part, " of group ", g, " is ", got, ", expected ", double(w));
  };
  for (Int g = 0; g < want.ng; ++g) {
    auto const k = static_cast<size_t>(g);
    same("absorption", xs.a()[g], want.a[k], g);
    same("fission", xs.f()[g], want.f[k], g);
    same("production", xs.nuf()[g], want.nuf[k], g);
    same("transport", xs.tr()[g], want.tr[k], g);
    same("scattering", xs.s()[g], want.s[k], g);
    for (Int to = 0; to < want.ng; ++to) {
      same("scattering matrix", xs.ss()(to, g), want.ss[static_cast<size_t>(to * want.ng + g)], g);
    }
    L const t = want.a[k] + want.s[k];
    same("total", xs.t(g), t, g);
  }
}

PBT_SUB(one_group, 40000, 900000, "more than one group")
{
  armLogger();
  um2::settings::logger::level = 2;
  int const ng = s.irange(1, 12);
  Mat const m = genMat(s, "M", ng);
  bool const macro = s.coin();
  XSec const xs = toXSec(m, macro);
  c.desc << ng << " groups, " << (m.fissile ? "fissile" : "not fissile") << ", first absorption " << m.a[0];
  for (Int g = 0; g < ng; ++g) {
    auto const k = static_cast<size_t>(g);
    L const t = L(m.a[k]) + m.s[k];
    REQUIRE(std::fabs(xs.t(g) - t) <= 1e-15L * t * 4, "total of group ", g, " is ", xs.t(g));
  }
  XSec const one = xs.collapseTo1GroupAvg();
  REQUIRE(one.isMacro() == macro && one.isFissile() == m.fissile, "flags of the average");
  Sum want(1);
  for (size_t g = 0; g < static_cast<size_t>(ng); ++g) {
    want.a[0] += L(m.a[g]) / ng;
    want.f[0] += L(m.f[g]) / ng;
    want.nuf[0] += L(m.nuf[g]) / ng;
    want.tr[0] += L(m.tr[g]) / ng;
    want.s[0] += L(m.s[g]) / ng;
  }
  want.ss[0] = want.s[0];
  expectXS(one, want, 1e-13, "average");
  REQUIRE(!errorLogged(), "message: ", um2::logger::buffer);
  c.nontrivial(ng > 1);
}

struct Nuc {
  std::vector<double> t;
  std::vector<Mat> xs;
  bool fissile = false;
  um2::Nuclide obj;
  Int zaid = 0;
};

auto
genNuc(pbt::Src & s, int ng, Int zaid) -> Nuc
{
  Nuc n;
  n.zaid = zaid;
  int const nt = ng <= 5 && s.oneIn(25) ? s.irange(7, 40) : s.irange(1, 6);
  double t = s.real(200, 600);
  for (int i = 0; i < nt; ++i) {
    n.t.push_back(t);
    t += s.oneIn(4) ? s.real(0.01, 2) : s.real(20, 500);
  }
  bool const fissile = s.coin();
  bool const mixed = s.oneIn(6); // fission appears at some temperatures only
  for (int i = 0; i < nt; ++i) {
    Mat m = genMat(s, "N", ng);
    if (!fissile || (mixed && s.coin())) {
      std::fill(m.f.begin(), m.f.end(), 0);
      std::fill(m.nuf.begin(), m.nuf.end(), 0);
    } else if (!m.fissile) {
      m.f[0] = s.mag(-3, 1);
      m.nuf[0] = 2.4 * m.f[0];
    }
    m.fissile = *std::max_element(m.f.begin(), m.f.end()) > 0;
    n.fissile = n.fissile || m.fissile;
    n.xs.push_back(m);
  }
  auto & o = n.obj;
  o.zaid() = zaid;
  o.mass() = s.real(1, 250);
  o.isFissile() = n.fissile;
  for (int i = 0; i < nt; ++i) {
    o.temperatures().emplace_back(n.t[static_cast<size_t>(i)]);
    o.xs().emplace_back(toXSec(n.xs[static_cast<size_t>(i)], false));
  }
  return n;
}

auto
genTemp(pbt::Src & s, Nuc const & n) -> double
{
  switch (s.below(6)) {
  case 0:
    return s.pick(n.t);
  case 1:
    return n.t[0] - s.real(0.001, 150);
  case 2:
    return n.t.back() + s.real(0.001, 3000);
  case 3: {
    auto const i = s.below(n.t.size());
    return std::nextafter(n.t[i], s.coin() ? 0 : 1e9);
  }
  default: {
    auto const i = s.below(n.t.size());
    double const hi = i + 1 < n.t.size() ? n.t[i + 1] : n.t[i] + 1;
    return n.t[i] + s.real(0, 1) * (hi - n.t[i]);
  }
  }
}

// Adds w times the interpolated value. Returns whether it is fissile: 0, 1, or 2 where either is right.
auto
interp(Nuc const & n, double temp, Sum & to, L w) -> int
{
  if (temp <= n.t.front()) {
    to.add(n.xs.front(), w);
    return n.xs.front().fissile ? 1 : 0;
  }
  if (temp >= n.t.back()) {
    to.add(n.xs.back(), w);
    return n.xs.back().fissile ? 1 : 0;
  }
  size_t i = 0;
  while (n.t[i + 1] < temp) {
    ++i;
  }
  L const r0 = std::sqrt(L(n.t[i]));
  L const r1 = std::sqrt(L(n.t[i + 1]));
  L const d = (std::sqrt(L(temp)) - r0) / (r1 - r0);
  to.add(n.xs[i], w * (1 - d));
  to.add(n.xs[i + 1], w * d);
  if (d > 1e-9L && d < 1 - 1e-9L) {
    return n.xs[i].fissile || n.xs[i + 1].fissile ? 1 : 0;
  }
  // at a table temperature
  size_t const k = d < 0.5L ? i : i + 1;
  bool neighbour = n.xs[i].fissile || n.xs[i + 1].fissile;
  neighbour = neighbour || (k + 1 < n.xs.size() && n.xs[k + 1].fissile);
  return n.xs[k].fissile ? 1 : neighbour ? 2 : 0;
}

// Relative error of the weight (sqrt(t) - r0) / (r1 - r0) in double precision
auto
spread(Nuc const & n, double temp) -> double
{
  for (size_t i = 0; i + 1 < n.t.size(); ++i) {
    if (n.t[i] <= temp && temp <= n.t[i + 1]) {
      return 1e-15 * std::sqrt(n.t[i + 1]) / (std::sqrt(n.t[i + 1]) - std::sqrt(n.t[i]));
    }
  }
  return 0;
}

// As expectXS, with an absolute tolerance from the size of the table entries
void
expectInterp(XSec const & xs, Sum const & want, Sum const & size, double rel, std::string const & what)
{
  REQUIRE(xs.numGroups() == want.ng, what, ": ", xs.numGroups(), " groups");
  auto same = [&](char const * part, Float got, L w, L z, Int g) {
    REQUIRE(std::fabs(got - w) <= rel * z + 1e-300L, what, ": ", part, " of group ", g, " is ", got, ", expected ",
            double(w));
  };
  for (Int g = 0; g < want.ng; ++g) {
    auto const k = static_cast<size_t>(g);
    same("absorption", xs.a()[g], want.a[k], size.a[k], g);
    same("fission", xs.f()[g], want.f[k], size.f[k], g);
    same("production", xs.nuf()[g], want.nuf[k], size.nuf[k], g);
    same("transport", xs.tr()[g], want.tr[k], size.tr[k], g);
    same("scattering", xs.s()[g], want.s[k], size.s[k], g);
    for (Int to = 0; to < want.ng; ++to) {
      auto const j = static_cast<size_t>(to * want.ng + g);
      same("scattering matrix", xs.ss()(to, g), want.ss[j], size.ss[j], g);
    }
  }
}

void
sizes(Nuc const & n, Sum & size, L w)
{
  for (auto const & m : n.xs) {
    size.add(m, w);
  }
}

PBT_SUB(interpolation, 40000, 900000, "the temperature lies strictly between table entries")
{
  armLogger();
  um2::settings::logger::level = 2;
  int const ng = s.oneIn(20) ? s.irange(6, 50) : s.irange(1, 5);
  auto const n = genNuc(s, ng, 92235);
  n.obj.validate();
  REQUIRE(!errorLogged(), "a consistent nuclide is reported: ", um2::logger::buffer);
  for (int k = 0; k < 3; ++k) {
    double const temp = genTemp(s, n);
    c.desc << (k == 0 ? "temperatures" : "");
    for (double const t : n.t) {
      c.desc << (k == 0 ? " " + std::to_string(t) : "");
    }
    c.desc << "; at " << temp;
    Sum want(ng);
    Sum size(ng);
    int const fissile = interp(n, temp, want, 1);
    sizes(n, size, 1);
    XSec const xs = n.obj.interpXS(temp);
    expectInterp(xs, want, size, 4e-15 + 4 * spread(n, temp), "at " + std::to_string(temp));
    REQUIRE(!xs.isMacro(), "interpolated microscopic data is called macroscopic");
    REQUIRE(fissile == 2 || xs.isFissile() == (fissile == 1), "at ", temp, " the nuclide is ",
            xs.isFissile() ? "fissile" : "not fissile");
    for (size_t i = 0; i < n.t.size(); ++i) { // exact on the table
      if (temp == n.t[i]) {
        Sum exact(ng);
        exact.add(n.xs[i], 1);
        expectXS(xs, exact, 0, "at a table temperature");
      }
    }
    if (temp > n.t.front() && temp < n.t.back()) {
      c.nontrivial();
    }
  }
  REQUIRE(!errorLogged(), "message: ", um2::logger::buffer);
  // a cleared nuclide can hold another
  auto const other = genNuc(s, ng, 8016);
  um2::Nuclide reused = n.obj;
  reused.clear();
  reused.zaid() = other.zaid;
  reused.mass() = 16;
  reused.temperatures() = other.obj.temperatures();
  reused.xs() = other.obj.xs();
  if (other.fissile) {
    reused.isFissile() = true;
  }
  reused.validate();
  REQUIRE(!errorLogged(), "a cleared and refilled nuclide is reported: ", um2::logger::buffer);
}

PBT_SUB(mixture, 20000, 450000, "at least two nuclides")
{
  armLogger();
  um2::settings::logger::level = 2;
  int const ng = s.oneIn(20) ? s.irange(6, 50) : s.irange(1, 5);
  int const nn = ng <= 5 && s.oneIn(20) ? s.irange(9, 60) : s.irange(1, 8);
  std::vector<Nuc> lib;
  um2::XSLibrary xs;
  double e = 2e7;
  for (int g = 0; g < ng; ++g) {
    xs.groupBounds().emplace_back(e);
    xs.chi().emplace_back(1.0 / ng);
    e *= 0.1;
  }
  for (int i = 0; i < nn; ++i) {
    lib.push_back(genNuc(s, ng, 1001 + 997 * i));
    xs.nuclides().emplace_back(lib.back().obj);
  }
  auto const order = s.perm(nn);
  int const used = s.irange(1, nn);
  um2::Material m;
  m.setName("Mix");
  m.setDensity(s.real(0.1, 20));
  double const temp = genTemp(s, lib[static_cast<size_t>(order[0])]);
  pbt::discardUnless(temp > 0);
  m.setTemperature(temp);
  Sum want(ng);
  Sum size(ng);
  bool sure = false;
  bool maybe = false;
  double rel = 1e-14;
  c.desc << "temperature " << temp << ", densities";
  for (int i = 0; i < used; ++i) {
    auto const & n = lib[static_cast<size_t>(order[static_cast<size_t>(i)])];
    double const d = s.mag(-8, 0);
    m.addNuclide(n.zaid, d);
    c.desc << " " << n.zaid << ":" << d;
    int const f = interp(n, temp, want, d);
    sizes(n, size, d);
    sure = sure || f == 1;
    maybe = maybe || f == 2;
    rel = std::max(rel, 8 * spread(n, temp));
  }
  if (s.oneIn(3)) { // earlier contents are replaced
    m.xsec() = toXSec(genMat(s, "Old", s.irange(1, 5)), true);
  }
  REQUIRE(!errorLogged(), "error: ", um2::logger::buffer);
  m.populateXSec(xs);
  REQUIRE(maybe || !errorLogged(), "message: ", um2::logger::buffer);
  expectInterp(m.xsec(), want, size, rel, "mixture");
  REQUIRE(m.xsec().isMacro() && m.hasXSec(), "the mixture is not macroscopic");
  REQUIRE((maybe && !sure) || m.xsec().isFissile() == sure, "the mixture is ",
          m.xsec().isFissile() ? "fissile" : "not fissile");
  for (int i = 0; i < nn; ++i) {
    auto const & n = lib[static_cast<size_t>(i)];
    REQUIRE(xs.getNuclide(n.zaid).zaid() == n.zaid, "lookup of ", n.zaid);
  }
  um2::logger::buffer[0] = '\0';
  m.addNuclide(98252, 0.1);
  m.populateXSec(xs);
  REQUIRE(errorLogged(), "a nuclide missing from the library is not reported");
  c.nontrivial(used > 1);
}

PBT_SUB(validation, 40000, 900000, "one rule is violated")
{
  armLogger();
  int const ng = s.irange(1, 6);
  Mat const m = genMat(s, "M", ng);
  bool const macro = s.coin();
  XSec xs = toXSec(m, macro);
  um2::settings::logger::level = 2;
  xs.validate();
  REQUIRE(!errorLogged(), "a consistent cross section is reported: ", um2::logger::buffer);
  int const kind = s.irange(0, macro ? 8 : 2);
  Int const g = s.irange(0, ng - 1);
  Int const to = s.irange(0, ng - 1);
  double const neg = -s.mag(-6, 1);
  c.desc << (macro ? "macroscopic" : "microscopic") << ", " << ng << " groups, rule " << kind << " broken in group "
         << g;
  bool error = false;
  switch (kind) {
  case 0: {
    error = true;
    um2::Vector<Float> * const part[] = {&xs.a(), &xs.f(), &xs.nuf(), &xs.tr(), &xs.s()};
    auto & v = *part[s.below(5)];
    if (s.coin()) {
      v.resize(ng - 1);
    } else {
      v.emplace_back(0.0);
    }
    break;
  }
  case 1:
    xs.isFissile() = false;
    xs.f()[g] = -neg;
    error = !macro;
    break;
  case 2:
    xs.isFissile() = false;
    xs.nuf()[g] = -neg;
    error = !macro;
    break;
  case 3:
    xs.a()[g] = neg;
    break;
  case 4:
    xs.f()[g] = neg;
    break;
  case 5:
    xs.nuf()[g] = neg;
    break;
  case 6:
    xs.tr()[g] = neg;
    break;
  case 7:
    xs.s()[g] = neg;
    break;
  default:
    xs.ss()(to, g) = neg;
  }
  um2::settings::logger::level = error ? 1 : 2;
  um2::logger::buffer[0] = '\0';
  xs.validate();
  REQUIRE(errorLogged(), "no ", error ? "error" : "warning", " is given");
  c.nontrivial();
}

PBT_SUB(nuclide_validation, 8000, 200000, "one rule is violated")
{
  armLogger();
  int const ng = s.irange(1, 3);
  auto n = genNuc(s, ng, 94239);
  auto & o = n.obj;
  auto const nt = o.temperatures().size();
  switch (int const kind = s.irange(0, 6); kind) {
  case 0:
    o.zaid() = -s.irange(0, 100000);
    c.desc << "zaid " << o.zaid();
    break;
  case 1:
    o.mass() = -s.real(0, 10);
    c.desc << "mass " << o.mass();
    break;
  case 2:
    o.isFissile() = !n.fissile;
    c.desc << "fissile flag";
    break;
  case 3:
    o.xs()[s.irange(0, nt - 1)].isMacro() = true;
    c.desc << "macroscopic entry";
    break;
  case 4:
    o.temperatures()[s.irange(0, nt - 1)] = -s.real(0, 300);
    c.desc << "negative temperature";
    break;
  case 5: {
    pbt::discardUnless(nt > 1);
    Int const k = s.irange(0, nt - 2);
    std::swap(o.temperatures()[k], o.temperatures()[k + 1]);
    c.desc << "temperatures " << k << " and " << k + 1 << " swapped";
    break;
  }
  default:
    if (s.coin()) {
      o.temperatures().emplace_back(5000.0);
    } else {
      o.xs().emplace_back(o.xs()[0]);
    }
    c.desc << "list lengths";
  }
  o.validate();
  REQUIRE(errorLogged(), "no error is given");
  c.nontrivial();
}

PBT_SUB(benchmark_data, 400, 2000, "fissile material")
{
  armLogger();
  um2::settings::logger::level = 2;
  auto const mats = um2::getC5G7Materials();
  auto const xsecs = um2::getC5G7XSecs();
  REQUIRE(mats.size() == 7 && xsecs.size() == 7, "number of materials");
  REQUIRE(!errorLogged(), "message: ", um2::logger::buffer);
  int const k = s.irange(0, 6);
  Int const g = s.irange(0, 6);
  c.desc << c5g7::NAME[k] << " group " << g + 1;
  auto const & b = c5g7::BASE[k][g];
  REQUIRE(std::string(mats[k].getName().data()) == c5g7::NAME[k], "material ", k, " is ", mats[k].getName().data());
  for (auto const * xs : {&xsecs[k], &mats[k].xsec()}) {
    auto same = [&](char const * part, double got, double want) {
      REQUIRE(std::fabs(got - want) <= 1e-12 * std::fabs(want), c5g7::NAME[k], " ", part, " of group ", g + 1, " is ",
              got, ", expected ", want);
    };
    REQUIRE(xs->numGroups() == 7 && xs->isMacro() && xs->isFissile() == (k < 5), c5g7::NAME[k], " flags");
    same("transport", xs->tr()[g], b[1]);
    same("absorption", xs->a()[g], b[2]);
    same("fission", xs->f()[g], b[3]);
    same("production", xs->nuf()[g], b[3] * b[4]);
    double sum = 0;
    for (Int to = 0; to < 7; ++to) {
      same("scattering", xs->ss()(to, g), c5g7::SCATTER[k][g][to]);
      sum += c5g7::SCATTER[k][g][to];
    }
    same("total scattering", xs->s()[g], sum);
    REQUIRE(std::fabs(xs->t(g) - xs->tr()[g]) < 1e-4, c5g7::NAME[k],
            ": the transport value is not absorption plus scattering in group ", g + 1);
  }
  c.nontrivial(k < 5);
}

} // namespace

auto
main(int argc, char ** argv) -> int
{
  pbt::Options o;
  o.leak_check = true;
  o.assumptions = {"table temperatures are distinct and increasing",
                   "homogenisation over cells is decided with C24"};
  return pbt::run("C27", "cross sections equal their defining sums", o, argc, argv);
}

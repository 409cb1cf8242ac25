// C35: one workload in several configurations of the library.
// Oracle: the reference configuration, compared value by value.
#include "pbt.hpp"

#include <cmath>
#include <dlfcn.h>
#include <unistd.h>

namespace
{

using Fn = int (*)(int, uint64_t, int, char const *, double *, int);

struct Config {
  char const * name;
  double tol;
  Fn fn = nullptr;
};

Config g_configs[] = {{"ref", 0}, {"nosimd", 1e-12}, {"nobmi", 1e-12}, {"noassert", 1e-12}, {"noblas", 1e-12}, {"float", 2e-6}};
char const * const KINDS[] = {"vectors",    "Morton codes", "matrices",      "triangle mesh", "quadrilateral mesh", "quadratic triangle mesh",
                              "quadratic quadrilateral mesh", "grids", "roots", "cross sections", "pin cells", "mesh files"};

void
load()
{
  char exe[4096];
  auto const n = readlink("/proc/self/exe", exe, sizeof(exe) - 1);
  exe[n > 0 ? n : 0] = '\0';
  for (auto & cf : g_configs) {
    std::string const so = std::string(exe) + "_" + cf.name + ".so";
    void * const h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (h != nullptr) {
      cf.fn = reinterpret_cast<Fn>(dlsym(h, "work"));
    }
    if (cf.fn == nullptr) {
      fprintf(stderr, "%s: %s\n", so.c_str(), dlerror());
      _exit(77);
    }
  }
}

void
compare(pbt::Src & s, pbt::Case & c, int kind)
{
  constexpr int CAP = 1 << 16;
  uint64_t const seed = s.bits();
  int const size = 1 + static_cast<int>(s.below(10));
  c.desc << KINDS[kind] << ", workload " << seed << ", size " << size;
  std::vector<double> ref(CAP);
  std::vector<double> alt(CAP);
  int const n = g_configs[0].fn(kind, seed, size, c.dir().c_str(), ref.data(), CAP);
  REQUIRE(n > 0, "no results");
  for (auto const & cf : g_configs) {
    if (cf.tol == 0) {
      continue;
    }
    int const k = cf.fn(kind, seed, size, c.dir().c_str(), alt.data(), CAP);
    REQUIRE(k == n, cf.name, " gives ", k / 2, " answers, the reference ", n / 2);
    for (int i = 0; i < n; i += 2) {
      auto const j = static_cast<size_t>(i);
      double const scale = std::max(ref[j + 1], alt[j + 1]);
      REQUIRE(std::fabs(ref[j] - alt[j]) <= cf.tol * scale, cf.name, ": answer ", i / 2, " is ", alt[j], ", the reference says ",
              ref[j]);
    }
  }
  c.label(KINDS[kind]);
  c.nontrivial(size > 1);
}

PBT_SUB(arithmetic, 40000, 600000, "size above one")
{
  static int const K[] = {0, 1, 2, 7, 8, 9};
  compare(s, c, K[s.below(6)]);
}

PBT_SUB(meshes, 4000, 60000, "size above one")
{
  compare(s, c, 3 + static_cast<int>(s.below(4)));
}

PBT_SUB(models, 1200, 20000, "size above one")
{
  compare(s, c, 10 + static_cast<int>(s.below(2)));
}

} // namespace

auto
main(int argc, char ** argv) -> int
{
  load();
  pbt::Options o;
  o.assumptions = {"inputs are representable in single precision", "points near an edge and rays nearly along one are compared loosely"};
  return pbt::run("C35", "answers of five other configurations against the reference", o, argc, argv);
}

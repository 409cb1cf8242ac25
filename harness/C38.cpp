// C38: the library's gmsh wrapper.
// Every gmsh function is replaced, in this executable, by a stand-in that records its name
// and arguments and makes up outputs. Oracle: calling the wrapper must record the same and
// hand back the same as calling the gmsh function of that name with the same arguments.
// Nothing of the real gmsh runs, so calls that would write or remove files do nothing.
#include "pbt.hpp"

#include <gmsh.h>
#include <um2/gmsh/base_gmsh_api.hpp>

#include <functional>
#include <stdexcept>

using Pairs = std::vector<std::pair<int, int>>;

namespace rec
{

std::ostringstream log;
uint64_t seed = 0;
bool throws = false;

void
begin(char const * name)
{
  log.precision(17);
  log << name << "(";
}

template <class T>
void
put(T const & v)
{
  log << v << ";";
}
inline void
put(std::string const & v)
{
  log << v.size() << ":" << v << ";";
}
inline void
put(std::pair<int, int> const & v)
{
  log << v.first << "," << v.second << ";";
}
inline void
put(std::function<double(int, int, double, double, double, double)> const & f)
{
  log << (f ? f(1, 2, 0.5, 0.25, 0.125, 3) : -1e30) << ";";
}
template <class T>
void
put(std::vector<T> const & v)
{
  log << "[";
  for (auto const & e : v) {
    put(e);
  }
  log << "]";
}

// Outputs made up from the seed of the case and the position of the argument
auto
next(uint64_t & h) -> uint64_t
{
  h ^= h << 13;
  h ^= h >> 7;
  h ^= h << 17;
  return h;
}
template <class T>
  requires(std::is_arithmetic_v<T>)
void
fillIn(T & v, uint64_t & h)
{
  v = static_cast<T>(next(h) % 100000);
}
inline void
fillIn(std::string & v, uint64_t & h)
{
  v.assign(next(h) % 30, static_cast<char>('a' + next(h) % 26));
}
inline void
fillIn(std::pair<int, int> & v, uint64_t & h)
{
  fillIn(v.first, h);
  fillIn(v.second, h);
}
template <class T>
void
fillIn(std::vector<T> & v, uint64_t & h)
{
  v.resize(next(h) % 5);
  for (auto & e : v) {
    fillIn(e, h);
  }
}
template <class T>
void
make(T & v, int i)
{
  uint64_t h = (seed + static_cast<uint64_t>(i) + 1) * 0x9E3779B97F4A7C15ULL | 1;
  fillIn(v, h);
}
template <class T>
auto
result() -> T
{
  log << ")";
  T v{};
  make(v, 77);
  return v;
}
void
mayThrow()
{
  if (throws) {
    throw std::runtime_error("stand-in");
  }
}

} // namespace rec

namespace
{

template <class T>
struct Gen {
  static auto
  get(pbt::Src & s) -> T
  {
    return static_cast<T>(s.irange(-1000, 1000));
  }
};
template <>
struct Gen<std::size_t> {
  static auto
  get(pbt::Src & s) -> std::size_t
  {
    return static_cast<std::size_t>(s.below(1000000));
  }
};
template <>
struct Gen<bool> {
  static auto
  get(pbt::Src & s) -> bool
  {
    return s.coin();
  }
};
template <>
struct Gen<double> {
  static auto
  get(pbt::Src & s) -> double
  {
    return s.fine(-10, 10);
  }
};
template <>
struct Gen<std::string> {
  static auto
  get(pbt::Src & s) -> std::string
  {
    std::string t;
    for (int i = s.irange(0, 12); i > 0; --i) {
      t.push_back(static_cast<char>('a' + s.below(26)));
    }
    return t;
  }
};
template <class A, class B>
struct Gen<std::pair<A, B>> {
  static auto
  get(pbt::Src & s) -> std::pair<A, B>
  {
    A const a = Gen<A>::get(s);
    return {a, Gen<B>::get(s)};
  }
};
template <class T>
struct Gen<std::vector<T>> {
  static auto
  get(pbt::Src & s) -> std::vector<T>
  {
    std::vector<T> v;
    for (int i = s.irange(0, 4); i > 0; --i) {
      v.push_back(Gen<T>::get(s));
    }
    return v;
  }
};
template <>
struct Gen<std::function<double(int, int, double, double, double, double)>> {
  static auto
  get(pbt::Src & s) -> std::function<double(int, int, double, double, double, double)>
  {
    double const k = s.fine(-5, 5);
    return [k](int a, int b, double x, double y, double z, double lc) {
      return k + a + 10 * b + 3 * x + 5 * y + 7 * z + 11 * lc;
    };
  }
};
char TARGETS[16];
template <>
struct Gen<void *> {
  static auto
  get(pbt::Src & s) -> void *
  {
    return TARGETS + s.below(16);
  }
};
template <>
struct Gen<char **> {
  static auto
  get(pbt::Src & s) -> char **
  {
    static char * argv[16];
    return argv + s.below(16);
  }
};

template <class T>
auto
gen(pbt::Src & s, pbt::Case & /*c*/) -> T
{
  return Gen<T>::get(s);
}

void
compare(pbt::Src & s, pbt::Case & c, char const * name, int k, std::function<void(bool)> const & f)
{
  rec::seed = s.bits() >> 1;
  rec::throws = s.oneIn(10);
  std::string got[2];
  for (int w = 0; w < 2; ++w) {
    rec::log.str("");
    try {
      f(w == 1);
    } catch (std::runtime_error const & e) {
      rec::log << " threw " << e.what();
    }
    got[w] = rec::log.str();
  }
  c.desc << name << " with " << k << " arguments: " << got[0];
  c.nontrivial(k >= 2);
  REQUIRE(got[1] == got[0], "the wrapper did or returned: ", got[1]);
}

} // namespace

#include "gmsh_calls.inc"

namespace
{

pbt::Reg const r1("calls", 300000, 4000000, "at least two arguments", [](pbt::Src & s, pbt::Case & c) {
  CALLS[s.below(sizeof(CALLS) / sizeof(CALLS[0]))](s, c);
});

} // namespace

auto
main(int argc, char ** argv) -> int
{
  pbt::Options o;
  o.assumptions = {"the gmsh functions are stand-ins that record their arguments"};
  return pbt::run("C38", "random arguments for every function that gmsh and the wrapper share", o, argc, argv);
}

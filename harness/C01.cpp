// C01: the growable array is a value sequence under every operation history.
#include "pbt.hpp"

#include <um2/stdlib/vector.hpp>

#include <vector>

namespace
{

// --- element types -----------------------------------------------------------

int64_t live = 0;
int lifetime_errors = 0;

// Non-trivial everything; owns heap memory (double destruction and use after
// destruction become sanitizer reports) and knows its own address (bitwise relocation
// becomes a lifetime error).
struct Tracked {
  int * p;
  Tracked const * self;
  Tracked() noexcept : p(new int(0)), self(this) { ++live; }
  Tracked(int v) noexcept : p(new int(v)), self(this) { ++live; }
  Tracked(Tracked const & o) noexcept : p(new int(o.get())), self(this) { ++live; }
  Tracked(Tracked && o) noexcept : p(new int(o.get())), self(this)
  {
    ++live;
    *o.p = -999;
  }
  auto
  operator=(Tracked const & o) noexcept -> Tracked &
  {
    check();
    *p = o.get();
    return *this;
  }
  auto
  operator=(Tracked && o) noexcept -> Tracked &
  {
    check();
    if (this != &o) {
      *p = o.get();
      *o.p = -999;
    }
    return *this;
  }
  ~Tracked()
  {
    check();
    --live;
    delete p;
    p = nullptr;
    self = nullptr;
  }
  void
  check() const
  {
    if (self != this) {
      ++lifetime_errors;
    }
  }
  auto
  get() const -> int
  {
    check();
    return *p;
  }
  auto
  operator==(Tracked const & o) const -> bool
  {
    return get() == o.get();
  }
  auto
  operator<(Tracked const & o) const -> bool
  {
    return get() < o.get();
  }
};

// Trivial but over-aligned
struct alignas(64) Aligned {
  int v = 0;
  auto
  operator==(Aligned const & o) const -> bool
  {
    return v == o.v;
  }
  auto
  operator<(Aligned const & o) const -> bool
  {
    return v < o.v;
  }
};

// Trivially copyable/movable, non-trivially destructible
struct DtorOnly {
  int v = 0;
  DtorOnly() noexcept { ++live; }
  DtorOnly(int x) noexcept : v(x) { ++live; }
  DtorOnly(DtorOnly const & o) noexcept : v(o.v) { ++live; }
  auto
  operator=(DtorOnly const & o) noexcept -> DtorOnly & = default;
  ~DtorOnly() { --live; }
  auto
  operator==(DtorOnly const & o) const -> bool
  {
    return v == o.v;
  }
  auto
  operator<(DtorOnly const & o) const -> bool
  {
    return v < o.v;
  }
};

template <class T>
struct Tr;
template <>
struct Tr<int> {
  static constexpr char const * name = "int";
  static auto
  make(int v) -> int
  {
    return v;
  }
  static auto
  get(int const & t) -> int
  {
    return t;
  }
  static constexpr bool has_default = false;
};
template <>
struct Tr<int8_t> {
  static constexpr char const * name = "int8";
  static auto
  make(int v) -> int8_t
  {
    return static_cast<int8_t>(v);
  }
  static auto
  get(int8_t const & t) -> int
  {
    return t;
  }
  static constexpr bool has_default = false;
};
template <>
struct Tr<Tracked> {
  static constexpr char const * name = "tracked";
  static auto
  make(int v) -> Tracked
  {
    return {v};
  }
  static auto
  get(Tracked const & t) -> int
  {
    return t.get();
  }
  static constexpr bool has_default = true;
};
template <>
struct Tr<Aligned> {
  static constexpr char const * name = "aligned64";
  static auto
  make(int v) -> Aligned
  {
    Aligned a;
    a.v = v;
    return a;
  }
  static auto
  get(Aligned const & t) -> int
  {
    return t.v;
  }
  static constexpr bool has_default = true;
};
template <>
struct Tr<DtorOnly> {
  static constexpr char const * name = "dtor-only";
  static auto
  make(int v) -> DtorOnly
  {
    return {v};
  }
  static auto
  get(DtorOnly const & t) -> int
  {
    return t.v;
  }
  static constexpr bool has_default = true;
};
// Nested vectors: element value v is a vector of (v mod 5) + 1 ints equal to v
using Nested = um2::Vector<int>;
template <>
struct Tr<Nested> {
  static constexpr char const * name = "nested";
  static auto
  make(int v) -> Nested
  {
    if (v == 0) {
      return {};
    }
    return Nested(v % 5 + 1, v);
  }
  static auto
  get(Nested const & t) -> int
  {
    if (t.empty()) {
      return 0;
    }
    for (int i = 0; i < t.size(); ++i) {
      if (t[i] != t[0] || t.size() != t[0] % 5 + 1) {
        return -12345;
      }
    }
    return t[0];
  }
  static constexpr bool has_default = true;
};

template <class T>
struct Machine {
  using V = um2::Vector<T>;
  static constexpr int K = 4;
  std::vector<V> v;
  std::vector<std::vector<int>> m;
  std::vector<int> reserved;
  pbt::Src & s;
  pbt::Case & c;
  bool grew = false;
  bool shrank = false;
  bool aliased = false;

  Machine(pbt::Src & src, pbt::Case & cs) : v(K), m(K), reserved(K, 0), s(src), c(cs) {}

  auto
  val() -> int
  {
    return s.irange(0, 100);
  }

  void
  compare(int i, char const * op)
  {
    V const & x = v[i];
    auto const & y = m[i];
    REQUIRE(x.size() == static_cast<Int>(y.size()), "after ", op, ": size ", x.size(),
            " expected ", y.size());
    REQUIRE(x.empty() == y.empty(), op);
    REQUIRE(x.capacity() >= x.size(), op);
    REQUIRE(x.end() - x.begin() == x.size() && x.cend() - x.cbegin() == x.size(), op);
    for (int k = 0; k < x.size(); ++k) {
      REQUIRE(Tr<T>::get(x[k]) == y[k], "after ", op, ": element ", k, " is ",
              Tr<T>::get(x[k]), " expected ", y[k]);
      REQUIRE(reinterpret_cast<uintptr_t>(&x[k]) % alignof(T) == 0, op);
      REQUIRE(&x[k] == x.begin() + k && &x[k] == x.data() + k, op);
    }
    if (!y.empty()) {
      REQUIRE(&x.front() == &x[0] && &x.back() == &x[x.size() - 1], op);
    }
  }

  void
  compareAll(char const * op)
  {
    int64_t total = 0;
    for (int i = 0; i < K; ++i) {
      compare(i, op);
      total += static_cast<int64_t>(m[i].size());
    }
    for (int i = 0; i < K; ++i) {
      for (int j = i + 1; j < K; ++j) {
        REQUIRE(v[i].data() == nullptr || v[i].data() != v[j].data(),
                "storage shared after ", op);
      }
    }
    if constexpr (std::is_same_v<T, Tracked> || std::is_same_v<T, DtorOnly>) {
      REQUIRE(live == total, "live elements ", live, " expected ", total, " after ", op);
    }
    REQUIRE(lifetime_errors == 0, "element lifetime error in ", op);
  }

  void
  fillNew(int i, int from)
  {
    // Elements appended by size-only growth: default value where the type defines one,
    // otherwise unspecified, so write them.
    for (int k = from; k < v[i].size(); ++k) {
      if constexpr (!Tr<T>::has_default) {
        v[i][k] = Tr<T>::make(0);
      }
      m[i][k] = 0;
    }
  }

  void
  step()
  {
    int const i = s.irange(0, K - 1);
    V & x = v[i];
    auto & y = m[i];
    int const cap0 = x.capacity();
    T const * const data0 = x.data();
    int const size0 = x.size();
    char const * op = "?";
    switch (s.below(18)) {
    case 0: {
      op = "push_back(copy)";
      int const a = val();
      T const t = Tr<T>::make(a);
      x.push_back(t);
      y.push_back(a);
      break;
    }
    case 1: {
      op = "push_back(move)";
      int const a = val();
      x.push_back(Tr<T>::make(a));
      y.push_back(a);
      break;
    }
    case 2: {
      op = "emplace_back(value)";
      int const a = val();
      if constexpr (std::is_same_v<T, Aligned>) {
        x.emplace_back(Tr<T>::make(a));
        y.push_back(a);
      } else if constexpr (std::is_same_v<T, Nested>) {
        x.emplace_back(a % 5 + 1, a);
        y.push_back(a);
      } else {
        x.emplace_back(static_cast<int8_t>(a));
        y.push_back(a);
      }
      break;
    }
    case 3: {
      op = "emplace_back()";
      if constexpr (Tr<T>::has_default) {
        x.emplace_back();
        y.push_back(0);
      }
      break;
    }
    case 4: {
      op = "push_back(own element)";
      if (size0 > 0) {
        int const k = s.irange(0, size0 - 1);
        x.push_back(x[k]);
        y.push_back(int(y[k]));
        aliased = aliased || size0 == cap0;
      }
      break;
    }
    case 5: {
      op = "emplace_back(own element)";
      if (size0 > 0) {
        int const k = s.irange(0, size0 - 1);
        x.emplace_back(x[k]);
        y.push_back(int(y[k]));
        aliased = aliased || size0 == cap0;
      }
      break;
    }
    case 6: {
      op = "pop_back";
      if (size0 > 0) {
        x.pop_back();
        y.pop_back();
        shrank = true;
      }
      break;
    }
    case 7: {
      op = "resize";
      int const n = s.oneIn(300) ? s.irange(41, 5000) : s.size(0, 40);
      x.resize(n);
      y.resize(static_cast<size_t>(n));
      if (n > size0) {
        fillNew(i, size0);
      } else {
        shrank = true;
      }
      break;
    }
    case 8: {
      op = "reserve";
      int const n = s.oneIn(300) ? s.irange(61, 5000) : s.size(0, 60);
      x.reserve(n);
      REQUIRE(x.capacity() >= n, "reserve ", n);
      break;
    }
    case 9: {
      op = "clear";
      if (s.coin()) {
        x.clear();
        y.clear();
        REQUIRE(x.capacity() == cap0, "clear changed capacity");
        shrank = true;
      }
      break;
    }
    case 10: {
      op = "copy assign";
      int const j = s.irange(0, K - 1);
      V const & src = v[j];
      x = src;
      y = std::vector<int>(m[j]);
      break;
    }
    case 11: {
      op = "move assign";
      int const j = s.irange(0, K - 1);
      if (i == j) {
        break;
      }
      x = um2::move(v[j]);
      y = m[j];
      v[j].clear(); // a moved-from array is valid but unspecified
      m[j].clear();
      break;
    }
    case 12: {
      op = "copy construct + swap in by move";
      V tmp(v[i]);
      REQUIRE(tmp == v[i], "copy not equal");
      int const j = s.irange(0, K - 1);
      v[j] = um2::move(tmp);
      m[j] = std::vector<int>(m[i]);
      break;
    }
    case 13: {
      op = "move construct";
      V tmp(um2::move(x));
      x.clear();
      int const j = s.irange(0, K - 1);
      auto const keep = y;
      y.clear();
      v[j] = um2::move(tmp);
      m[j] = keep;
      break;
    }
    case 14: {
      op = "assign range of other";
      int const j = s.irange(0, K - 1);
      if (i == j) {
        break;
      }
      int const n = v[j].size();
      int const a = s.irange(0, n);
      int const b = s.irange(a, n);
      V const & src = v[j];
      x.assign(src.begin() + a, src.begin() + b);
      y.assign(m[j].begin() + a, m[j].begin() + b);
      break;
    }
    case 15: {
      op = "construct from range";
      int const j = s.irange(0, K - 1);
      int const n = v[j].size();
      int const a = s.irange(0, n);
      int const b = s.irange(a, n);
      V const & src = v[j];
      V tmp(src.begin() + a, src.begin() + b);
      std::vector<int> const keep(m[j].begin() + a, m[j].begin() + b);
      x = um2::move(tmp);
      y = keep;
      break;
    }
    case 16: {
      op = "construct n / n values / list";
      int const n = s.size(1, 30);
      int const a = val();
      switch (s.below(3)) {
      case 0: {
        V tmp(n);
        x = um2::move(tmp);
        y.assign(static_cast<size_t>(n), 0);
        fillNew(i, 0);
        break;
      }
      case 1: {
        T const t = Tr<T>::make(a);
        V tmp(n, t);
        x = um2::move(tmp);
        y.assign(static_cast<size_t>(n), a);
        break;
      }
      default: {
        if (s.coin()) {
          x = {Tr<T>::make(a), Tr<T>::make(a + 1), Tr<T>::make(3)};
        } else {
          V tmp{Tr<T>::make(a), Tr<T>::make(a + 1), Tr<T>::make(3)};
          x = um2::move(tmp);
        }
        y = {a, a + 1, 3};
        break;
      }
      }
      break;
    }
    default: {
      op = "write element / compare";
      if (size0 > 0) {
        int const k = s.irange(0, size0 - 1);
        int const a = val();
        x[k] = Tr<T>::make(a);
        y[k] = a;
        if (s.coin()) {
          x.back() = Tr<T>::make(7);
          y.back() = 7;
        } else {
          x.front() = Tr<T>::make(8);
          y.front() = 8;
        }
      }
      int const j = s.irange(0, K - 1);
      REQUIRE((v[i] == v[j]) == (m[i] == m[j]), "==");
      REQUIRE((v[i] != v[j]) == (m[i] != m[j]), "!=");
      if constexpr (!std::is_same_v<T, Nested>) {
        REQUIRE((v[i] < v[j]) == (m[i] < m[j]), "<");
        REQUIRE((v[i] > v[j]) == (m[i] > m[j]), ">");
        REQUIRE((v[i] <= v[j]) == (m[i] <= m[j]), "<=");
        REQUIRE((v[i] >= v[j]) == (m[i] >= m[j]), ">=");
      }
      break;
    }
    }
    c.desc << op << "#" << i << "(n=" << v[i].size() << ");";
    grew = grew || v[i].capacity() > cap0;
    // Pushing within capacity must not move the elements
    if (std::strncmp(op, "push", 4) == 0 || std::strncmp(op, "emplace", 7) == 0) {
      REQUIRE(size0 == cap0 || x.data() == data0, "reallocated within capacity in ", op);
    }
    compareAll(op);
  }
};

template <class T>
void
histories(pbt::Src & s, pbt::Case & c)
{
  live = 0;
  lifetime_errors = 0;
  c.desc << Tr<T>::name << ": ";
  {
    Machine<T> mach(s, c);
    int const n = s.size(1, 60);
    for (int k = 0; k < n; ++k) {
      mach.step();
    }
    c.nontrivial(mach.grew && (mach.shrank || mach.aliased));
    if (mach.aliased) {
      c.label("aliased-growth");
    }
    if (mach.grew) {
      c.label("grew");
    }
  }
  REQUIRE(live == 0, "elements alive after destruction of all arrays: ", live);
  REQUIRE(lifetime_errors == 0, "lifetime errors");
}

char const * const rule =
    "history of 1-60 operations over 4 arrays mirrored in std::vector";

pbt::Reg const r1("history_int", 60000, 600000, rule, histories<int>);
pbt::Reg const r2("history_tracked", 120000, 1200000, rule, histories<Tracked>);
pbt::Reg const r3("history_aligned", 40000, 400000, rule, histories<Aligned>);
pbt::Reg const r4("history_dtor_only", 40000, 400000, rule, histories<DtorOnly>);
pbt::Reg const r5("history_nested", 60000, 600000, rule, histories<Nested>);
pbt::Reg const r6("history_int8", 15000, 300000, rule, histories<int8_t>);

} // namespace

auto
main(int argc, char ** argv) -> int
{
  pbt::Options opt;
  opt.leak_check = true;
  opt.assumptions = {
      "assigning a range of an array to itself is excluded: the code documents it as "
      "unsupported",
      "a moved-from array is only required to be valid (it is cleared before reuse)",
      "elements created by size-only growth of trivial types have unspecified value"};
  return pbt::run("C01",
                  "random operation histories on four arrays, each mirrored by an ideal "
                  "sequence; non-trivial: storage was reallocated and the history also "
                  "shrank an array or pushed an element of the array into itself at full "
                  "capacity",
                  opt, argc, argv);
}

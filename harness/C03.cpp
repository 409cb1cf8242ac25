// C03: number text and lattice maps are parsed to exactly the values written.
// Oracle: the values the generator wrote (numbers are printed so that they denote the
// value exactly).
#include "pbt.hpp"

#include <um2/common/string_to_lattice.hpp>
#include <um2/common/strto.hpp>

#include <cinttypes>
#include <limits>
#include <memory>
#include <string>
#include <type_traits>

namespace
{

template <class T>
auto
genValue(pbt::Src & s) -> T
{
  if constexpr (std::is_floating_point_v<T>) {
    switch (s.below(5)) {
    case 0:
      return static_cast<T>(s.irange(0, 20));
    case 1:
      return static_cast<T>(s.sign() * s.real(0, 100));
    case 2:
      return static_cast<T>(s.sign() * s.mag(-30, 30));
    case 3:
      return s.sign() * s.pick<T>({std::numeric_limits<T>::max(),
                                   std::numeric_limits<T>::min(), T(0), T(0.1),
                                   std::numeric_limits<T>::epsilon()});
    default:
      return static_cast<T>(s.irange(-999, 999)) / 8;
    }
  } else {
    switch (s.below(4)) {
    case 0:
      return static_cast<T>(s.irange(0, 20));
    case 1:
      return s.pick<T>({std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), T(0)});
    case 2:
      return static_cast<T>(std::is_signed_v<T> ? s.irange(-1000, 1000)
                                                : s.irange(0, 1000));
    default:
      return static_cast<T>(s.bits()) >> s.below(8 * sizeof(T));
    }
  }
}

// Text that denotes exactly v.
template <class T>
auto
print(pbt::Src & s, T v) -> std::string
{
  char b[400];
  if constexpr (std::is_floating_point_v<T>) {
    int const digits = std::is_same_v<T, float> ? 9 : 17;
    auto const d = static_cast<double>(v);
    switch (s.below(4)) {
    case 0:
      snprintf(b, sizeof b, "%.*g", digits, d);
      break;
    case 1:
      snprintf(b, sizeof b, "%.*e", digits, d);
      break;
    case 2:
      snprintf(b, sizeof b, "%.*E", digits, d);
      break;
    default:
      if (std::abs(d) > 1e-3 && std::abs(d) < 1e10) {
        snprintf(b, sizeof b, "%.*f", digits + 3, d);
      } else {
        snprintf(b, sizeof b, "%.*g", digits, d);
      }
      break;
    }
    return b;
  } else {
    std::string t = std::to_string(v);
    if (v >= 0 && s.oneIn(8)) {
      t = "+" + t;
    }
    if (s.oneIn(8)) {
      auto const at = (t[0] == '-' || t[0] == '+') ? 1U : 0U;
      t.insert(at, std::string(1 + s.below(3), '0'));
    }
    return t;
  }
}

template <class T>
void
number(pbt::Src & s, pbt::Case & c)
{
  T const v = genValue<T>(s);
  std::string const lead(s.oneIn(3) ? s.below(4) : 0, ' ');
  std::string const num = print<T>(s, v);
  std::string const tail = s.pick<std::string>({"", " ", ",", " 7", "\n", ";3", ")"});
  std::string const text = lead + num + tail;
  c.desc << "'" << text << "' ";
  c.nontrivial(num.size() > 1 || !tail.empty());
  std::unique_ptr<char[]> buf(new char[text.size() + 1]);
  memcpy(buf.get(), text.c_str(), text.size() + 1);
  char * end = nullptr;
  T const r = um2::strto<T>(buf.get(), &end);
  REQUIRE(r == v, "parsed ", r, " expected ", v);
  REQUIRE(end == buf.get() + lead.size() + num.size(), "parsing stopped at ",
          end - buf.get(), " expected ", lead.size() + num.size());
}

template <class T>
void
lattice(pbt::Src & s, pbt::Case & c)
{
  int const rows = s.oneIn(200) ? s.irange(13, 150) : s.size(1, 12);
  bool const rect = s.below(4) != 3;
  int const cols = s.oneIn(200) ? s.irange(13, 150) : s.size(1, 12);
  char const delim = s.pick<char>({' ', ',', ';', '|'});
  bool const blank_delim = delim == ' ';
  std::vector<std::vector<T>> want;
  std::string text;
  // A possibly blank first line, as left by a raw string literal.
  if (s.coin()) {
    text += std::string(s.below(4), ' ') + "\n";
  }
  bool odd = false;
  for (int i = 0; i < rows; ++i) {
    int const n = rect ? cols : s.size(1, 12);
    std::vector<T> row;
    text += std::string(s.below(4), ' ');
    for (int j = 0; j < n; ++j) {
      T const v = genValue<T>(s);
      row.push_back(v);
      text += print<T>(s, v);
      bool const last = j + 1 == n;
      if (!last) {
        if (blank_delim) {
          auto const k = s.oneIn(3) ? 1 + s.below(4) : 1;
          odd = odd || k > 1;
          text += std::string(k, ' ');
        } else {
          auto const k = s.oneIn(5) ? 2U : 1U;
          odd = odd || k > 1;
          text += std::string(k, delim) + std::string(s.below(3), ' ');
        }
      } else if (s.oneIn(3)) { // trailing delimiter and/or blanks
        odd = true;
        text += std::string(1, delim) + std::string(s.below(3), ' ');
      }
    }
    want.push_back(row);
    if (i + 1 < rows) {
      // Directly repeated line ends are blank lines and are skipped.
      auto const k = s.oneIn(6) ? 2U : 1U;
      odd = odd || k > 1;
      text += std::string(k, '\n');
    }
  }
  if (s.coin()) { // final line end, and blanks before a closing quote
    text += "\n" + std::string(s.below(5), ' ');
    odd = true;
  }
  c.desc << "delim '" << delim << "' text <<<" << text << ">>>";
  c.nontrivial(rows > 1 && odd);
  um2::String const us(text.c_str());
  auto const got = blank_delim && s.coin() ? um2::stringToLattice<T>(us)
                                           : um2::stringToLattice<T>(us, delim);
  REQUIRE(static_cast<size_t>(got.size()) == want.size(), "rows ", got.size(),
          " expected ", want.size());
  for (size_t i = 0; i < want.size(); ++i) {
    auto const & row = got[static_cast<Int>(i)];
    REQUIRE(static_cast<size_t>(row.size()) == want[i].size(), "row ", i, " has ",
            row.size(), " values, expected ", want[i].size());
    for (size_t j = 0; j < want[i].size(); ++j) {
      REQUIRE(row[static_cast<Int>(j)] == want[i][j], "value (", i, ",", j, ") = ",
              row[static_cast<Int>(j)], " expected ", want[i][j]);
    }
  }
  REQUIRE(std::string(us.data()) == text, "the source text changed");
}

pbt::Reg const r1("number", 200000, 2000000,
                  "more than one digit or trailing text",
                  [](pbt::Src & s, pbt::Case & c) {
                    switch (s.below(6)) {
                    case 0:
                      return number<int32_t>(s, c);
                    case 1:
                      return number<int64_t>(s, c);
                    case 2:
                      return number<uint32_t>(s, c);
                    case 3:
                      return number<uint64_t>(s, c);
                    case 4:
                      return number<float>(s, c);
                    default:
                      return number<double>(s, c);
                    }
                  });
pbt::Reg const r2("lattice", 100000, 1000000,
                  "several rows, and repeated or trailing delimiters or a final blank line",
                  [](pbt::Src & s, pbt::Case & c) {
                    switch (s.below(6)) {
                    case 0:
                      return lattice<int32_t>(s, c);
                    case 1:
                      return lattice<int64_t>(s, c);
                    case 2:
                      return lattice<uint32_t>(s, c);
                    case 3:
                      return lattice<uint64_t>(s, c);
                    case 4:
                      return lattice<float>(s, c);
                    default:
                      return lattice<double>(s, c);
                    }
                  });

} // namespace

auto
main(int argc, char ** argv) -> int
{
  pbt::Options o;
  o.leak_check = true;
  o.assumptions = {"values are representable in the requested type",
                   "at most one blank-only line at the start and one at the end; "
                   "blank-only lines between rows are not generated (the code asserts "
                   "against them)"};
  return pbt::run("C03",
                  "random numbers of every supported type in several spellings, and random "
                  "lattices written with random spacing; see the per-check rules",
                  o, argc, argv);
}

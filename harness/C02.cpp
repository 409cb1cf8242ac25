// C02: strings and views act as plain character sequences under any history.
// Oracle: std::string / std::string_view (and snprintf/strtod for numbers).
#include "pbt.hpp"

#include <um2/stdlib/string.hpp>
#include <um2/stdlib/string_view.hpp>

#include <cfloat>
#include <cmath>
#include <memory>
#include <string>
#include <string_view>

using um2::String;
using um2::StringView;

namespace
{

auto
sgn(int x) -> int
{
  return (x > 0) - (x < 0);
}

auto
ascii(std::string_view a) -> bool
{
  for (char const ch : a) {
    if (static_cast<unsigned char>(ch) > 127) {
      return false;
    }
  }
  return true;
}

// Lengths concentrated around the inline capacity and its multiples.
auto
genLen(pbt::Src & s) -> size_t
{
  switch (s.below(6)) {
  case 0:
    return s.below(4);
  case 1:
    return 20 + s.below(6);
  case 2:
    return 43 + s.below(6);
  case 3:
    return s.below(23);
  case 4:
    return s.below(64);
  default:
    return s.oneIn(8) ? s.below(s.oneIn(20) ? 5000 : 1000) : s.below(130);
  }
}

auto
genChars(pbt::Src & s, size_t n, bool nul = false) -> std::string
{
  std::string r(n, 'a');
  auto const mode = s.below(4);
  for (auto & ch : r) {
    if (mode == 0) {
      ch = static_cast<char>('a' + s.below(2));
    } else if (mode == 1) {
      ch = static_cast<char>('a' + s.below(26));
    } else if (mode == 2) {
      ch = " ,a\n"[s.below(4)];
    } else {
      auto const v = s.below(256);
      ch = (v == 0 && !nul) ? 'z' : static_cast<char>(v);
    }
  }
  return r;
}

auto
q(std::string const & t) -> std::string
{
  std::string r = "\"";
  for (unsigned char const ch : t) {
    if (ch >= 32 && ch < 127) {
      r += static_cast<char>(ch);
    } else {
      char b[8];
      snprintf(b, sizeof b, "\\x%02x", ch);
      r += b;
    }
  }
  return r + "\"";
}

auto
str(String const & u) -> std::string
{
  return {u.data(), static_cast<size_t>(u.size())};
}

void
same(String const & u, std::string const & m, char const * what)
{
  REQUIRE(static_cast<size_t>(u.size()) == m.size(), what, ": size ", u.size(),
          " expected ", m.size());
  REQUIRE(str(u) == m, what, ": got ", q(str(u)), " expected ", q(m));
  REQUIRE(u.data()[m.size()] == '\0', what, ": not terminated");
  REQUIRE(u.empty() == m.empty(), what, ": empty()");
  REQUIRE(u.capacity() >= u.size(), what, ": capacity ", u.capacity(), " < size");
  REQUIRE(u.begin() == u.data() && u.end() == u.data() + u.size() &&
              u.cbegin() == u.begin() && u.cend() == u.end(),
          what, ": iterators");
  if (!m.empty()) {
    REQUIRE(u.front() == m.front() && u.back() == m.back(), what, ": front/back");
  }
}

void
compareAll(String const & a, std::string const & ma, String const & b,
           std::string const & mb)
{
  bool const eq = ma == mb;
  REQUIRE((a == b) == eq && (a != b) == !eq && (a.compare(b) == 0) == eq,
          "equality of ", q(ma), " and ", q(mb));
  int const c1 = sgn(a.compare(b));
  int const c2 = sgn(b.compare(a));
  REQUIRE(c1 == -c2, "comparison is not antisymmetric for ", q(ma), " and ", q(mb));
  REQUIRE((a < b) == (c1 < 0) && (a <= b) == (c1 <= 0) && (a > b) == (c1 > 0) &&
              (a >= b) == (c1 >= 0),
          "relational operators disagree with compare for ", q(ma), " and ", q(mb));
  if (ascii(ma) && ascii(mb)) {
    REQUIRE(c1 == sgn(ma.compare(mb)), "order of ", q(ma), " and ", q(mb));
  }
}

PBT_SUB(string_history, 150000, 1500000,
        "at least 3 operations, and some string crosses or reaches the inline capacity")
{
  static constexpr int K = 4;
  String u[K];
  std::string m[K];
  bool const big = s.oneIn(60);
  size_t const cap = big ? 150000 : 4000;
  auto length = [&]() -> size_t { return big && s.coin() ? s.below(3000) : genLen(s); };
  int const nops = s.size(1, 40);
  bool crossed = false;
  for (int op = 0; op < nops; ++op) {
    auto const i = s.below(K);
    auto const j = s.below(K);
    auto const kind = s.below(20);
    c.desc << "op" << kind << "(" << i << "," << j << ") ";
    switch (kind) {
    case 0: { // construct from characters
      auto const t = genChars(s, length());
      c.desc << q(t) << " ";
      u[i] = String(t.c_str());
      m[i] = t;
      break;
    }
    case 1: { // append literal text
      auto const t = genChars(s, length());
      c.desc << q(t) << " ";
      u[i] += t.c_str();
      m[i] += t;
      break;
    }
    case 2: // append another (or itself)
      if (m[i].size() + m[j].size() < cap) {
        u[i] += u[j];
        m[i] += std::string(m[j]);
      }
      break;
    case 3: // copy assign
      u[i] = u[j];
      m[i] = std::string(m[j]);
      break;
    case 4: // move assign
      u[i] = um2::move(u[j]);
      if (i != j) {
        m[i] = m[j];
        m[j].clear();
      }
      break;
    case 5: { // copy construct, modify the source, compare the copy
      String cp(u[j]);
      auto const mc = m[j];
      u[j] += "x";
      m[j] += "x";
      same(cp, mc, "copy");
      break;
    }
    case 6: { // move construct
      String mv(um2::move(u[j]));
      same(mv, m[j], "moved");
      same(u[j], "", "moved-from");
      m[i] = m[j];
      if (i != j) {
        m[j].clear();
      }
      u[i] = um2::move(mv);
      break;
    }
    case 7: { // substring
      auto const pos = s.below(m[j].size() + 1);
      auto const cnt = s.oneIn(3) ? uint64_t(String::npos) : s.below(m[j].size() + 5);
      c.desc << pos << "," << cnt << " ";
      String sub = cnt == uint64_t(String::npos) && s.coin()
                       ? u[j].substr(static_cast<Int>(pos))
                       : u[j].substr(static_cast<Int>(pos), static_cast<Int>(cnt));
      auto const ms = m[j].substr(pos, cnt);
      same(sub, ms, "substr");
      String sub2(u[j], static_cast<Int>(pos), static_cast<Int>(cnt));
      same(sub2, ms, "substring constructor");
      u[i] = um2::move(sub);
      m[i] = ms;
      break;
    }
    case 8: { // from a view with explicit length
      auto const t = genChars(s, length(), true);
      c.desc << q(t) << " ";
      std::unique_ptr<char[]> buf(new char[t.size() + 1]);
      memcpy(buf.get(), t.data(), t.size() + 1);
      StringView const sv(buf.get(), t.size());
      u[i] = String(sv);
      m[i] = t;
      break;
    }
    case 9: { // assign from a view of foreign characters
      auto const t = genChars(s, length(), true);
      c.desc << q(t) << " ";
      std::unique_ptr<char[]> buf(new char[t.size() + 1]);
      memcpy(buf.get(), t.data(), t.size() + 1);
      u[i].assign(StringView(buf.get(), t.size()));
      m[i] = t;
      break;
    }
    case 10: { // assign a view of another string
      if (i != j) {
        auto const pos = s.below(m[j].size() + 1);
        auto const cnt = s.below(m[j].size() - pos + 1);
        StringView const sv = StringView(u[j]).substr(pos, cnt);
        u[i].assign(sv);
        m[i] = m[j].substr(pos, cnt);
      }
      break;
    }
    case 11: { // append counted, possibly a part of itself
      auto const pos = s.below(m[j].size() + 1);
      auto const cnt = s.below(m[j].size() - pos + 1);
      c.desc << pos << "," << cnt << " ";
      if (m[i].size() + cnt < cap) {
        auto const t = m[j].substr(pos, cnt);
        u[i].append(u[j].data() + pos, static_cast<Int>(cnt));
        m[i] += t;
      }
      break;
    }
    case 12: { // concatenation
      if (m[i].size() + m[j].size() < cap) {
        String r = u[i] + u[j];
        same(r, m[i] + m[j], "concatenation");
        auto const t = genChars(s, length());
        String r2 = u[i] + t.c_str();
        same(r2, m[i] + t, "concatenation with text");
        auto const k = s.below(K);
        auto const mm = m[i] + m[j];
        u[k] = um2::move(r);
        m[k] = mm;
      }
      break;
    }
    case 13: // write through
      if (!m[i].empty()) {
        auto const p = s.below(m[i].size());
        auto const ch = static_cast<char>('A' + s.below(26));
        u[i].data()[p] = ch;
        m[i][p] = ch;
        u[i].front() = ch;
        m[i].front() = ch;
        u[i].back() = ch;
        m[i].back() = ch;
      }
      break;
    case 14: { // prefix/suffix tests
      auto const cnt = s.below(m[j].size() + 1);
      std::string t = s.coin() ? m[j].substr(0, cnt) : m[j].substr(m[j].size() - cnt);
      if (s.oneIn(4)) {
        t += 'q';
      }
      REQUIRE(u[i].starts_with(StringView(t.data(), t.size())) == m[i].starts_with(t),
              "starts_with ", q(m[i]), " ", q(t));
      REQUIRE(u[i].ends_with(StringView(t.data(), t.size())) == m[i].ends_with(t),
              "ends_with ", q(m[i]), " ", q(t));
      if (!t.empty() && t.find('\0') == std::string::npos) {
        REQUIRE(u[i].starts_with(t.c_str()) == m[i].starts_with(t), "starts_with text");
        REQUIRE(u[i].ends_with(t.c_str()) == m[i].ends_with(t), "ends_with text");
        char const ch = t[0];
        REQUIRE(u[i].starts_with(ch) == m[i].starts_with(ch), "starts_with char");
        REQUIRE(u[i].ends_with(ch) == m[i].ends_with(ch), "ends_with char");
        REQUIRE((u[i].compare(t.c_str()) == 0) == (m[i] == t), "compare with text");
      }
      break;
    }
    case 15: { // search from the back
      char const ch = m[i].empty() || s.oneIn(4) ? 'a' : m[i][s.below(m[i].size())];
      auto const pos = s.below(m[i].size() + 3);
      auto const r = m[i].find_last_of(ch, pos);
      REQUIRE(u[i].find_last_of(ch, static_cast<Int>(pos)) ==
                  (r == std::string::npos ? String::npos : static_cast<Int>(r)),
              "find_last_of in ", q(m[i]), " from ", pos);
      auto const r2 = m[i].find_last_of(ch);
      REQUIRE(u[i].find_last_of(ch) ==
                  (r2 == std::string::npos ? String::npos : static_cast<Int>(r2)),
              "find_last_of in ", q(m[i]));
      break;
    }
    case 16:
      compareAll(u[i], m[i], u[j], m[j]);
      break;
    case 17: { // near-equal comparison
      std::string t = m[i];
      if (!t.empty()) {
        t[s.below(t.size())] ^= 1;
      }
      if (s.coin()) {
        t.resize(s.below(t.size() + 1));
      }
      String const ut(StringView(t.data(), t.size()));
      compareAll(u[i], m[i], ut, t);
      break;
    }
    case 18: { // whole number to text
      auto const v = static_cast<int64_t>(s.bits()) >> s.below(64);
      if (s.coin()) {
        u[i] = String(v);
        m[i] = std::to_string(v);
      } else {
        auto const w = static_cast<int32_t>(v);
        u[i] = String(w);
        m[i] = std::to_string(w);
      }
      break;
    }
    case 19: { // empty again
      u[i] = String();
      m[i].clear();
      break;
    }
    default:
      break;
    }
    for (int k = 0; k < K; ++k) {
      same(u[k], m[k], pbt::cat("string ", k, " after op ", op).c_str());
      crossed = crossed || m[k].size() >= 22;
    }
  }
  c.nontrivial(crossed && nops >= 3);
}

PBT_SUB(number_text, 100000, 1000000, "magnitude at least 1000 or a non-integer")
{
  double const mag = s.oneIn(6) ? s.pick<double>({DBL_MAX, DBL_MIN, DBL_TRUE_MIN, 0.0,
                                                   1e22, 1e23, 1e24, 1e25, 0.5e-6})
                                : s.mag(-9, 308);
  double const v = mag * s.sign();
  c.desc << pbt::cat(v);
  c.nontrivial(std::abs(v) >= 1000 || v != std::floor(v));
  String const t(v);
  double const back = strtod(t.data(), nullptr);
  REQUIRE(t.data()[t.size()] == 0 && strlen(t.data()) == size_t(t.size()), "termination");
  REQUIRE(std::abs(back - v) <= 5.0001e-7 + 1e-15 * std::abs(v), "double ", v,
          " printed as ", t.data());
  double const fm = s.oneIn(6) ? s.pick<double>({FLT_MAX, FLT_MIN, 0.0}) : s.mag(-9, 38);
  auto const f = static_cast<float>(fm * s.sign());
  String const tf(f);
  double const backf = strtod(tf.data(), nullptr);
  REQUIRE(std::abs(backf - double(f)) <= 5.0001e-7 + 1e-15 * std::abs(double(f)),
          "float ", f, " printed as ", tf.data());
  REQUIRE(tf.data()[tf.size()] == 0 && strlen(tf.data()) == size_t(tf.size()),
          "termination");
}

void
sameView(StringView a, std::string_view b, char const * what)
{
  REQUIRE(a.size() == b.size(), what, ": size ", a.size(), " expected ", b.size());
  REQUIRE(a.empty() == b.empty(), what, ": empty()");
  REQUIRE(b.empty() || memcmp(a.data(), b.data(), b.size()) == 0, what, ": got ",
          q(std::string(a.data(), a.size())), " expected ", q(std::string(b)));
  REQUIRE(uint64_t(a.end() - a.begin()) == b.size(), what, ": iterators");
  if (!b.empty()) {
    REQUIRE(a.front() == b.front() && a.back() == b.back(), what, ": front/back");
    REQUIRE(a[0] == b[0] && a[Int(b.size() - 1)] == b.back(), what, ": index");
  }
}

PBT_SUB(view_history, 200000, 2000000, "text of at least 4 characters and 3 operations")
{
  auto const t = genChars(s, 1 + s.below(60), true);
  c.desc << q(t) << ": ";
  // Exactly sized heap buffer: any read beyond the text is a sanitizer report.
  std::unique_ptr<char[]> buf(new char[t.size()]);
  memcpy(buf.get(), t.data(), t.size());
  StringView v = s.coin() ? StringView(buf.get(), t.size())
                          : StringView(buf.get(), buf.get() + t.size());
  std::string_view m(buf.get(), t.size());
  sameView(v, m, "construct");
  int const nops = s.size(1, 12);
  c.nontrivial(t.size() >= 4 && nops >= 3);
  auto conv = [](size_t r) { return r == std::string_view::npos ? StringView::npos : r; };
  for (int op = 0; op < nops; ++op) {
    auto kind = s.below(11);
    if (v.data() == nullptr && (kind == 5 || kind == 6)) {
      kind = 1; // sub-views of an exhausted view are a precondition violation
    }
    c.desc << "op" << kind << " ";
    char const ch = m.empty() || s.oneIn(4) ? " ,a\n"[s.below(4)] : m[s.below(m.size())];
    auto const pos = s.below(m.size() + 3);
    switch (kind) {
    case 0: {
      auto const n = s.below(m.size() + 1);
      v.remove_prefix(n);
      m.remove_prefix(n);
      break;
    }
    case 1:
      REQUIRE(v.find_first_of(ch, pos) == conv(m.find_first_of(ch, pos)),
              "find_first_of(char)");
      REQUIRE(v.find_first_of(ch) == conv(m.find_first_of(ch)), "find_first_of(char)");
      break;
    case 2:
      REQUIRE(v.find_first_not_of(ch, pos) == conv(m.find_first_not_of(ch, pos)),
              "find_first_not_of");
      break;
    case 3:
      REQUIRE(v.find_last_of(ch, pos) == conv(m.find_last_of(ch, pos)), "find_last_of");
      REQUIRE(v.find_last_of(ch) == conv(m.find_last_of(ch)), "find_last_of");
      break;
    case 4: { // search for text
      if (m.empty()) {
        break;
      }
      auto const a = s.below(m.size());
      auto const n = 1 + s.below(m.size() - a);
      std::string pat(m.substr(a, n));
      if (s.oneIn(3)) {
        pat.back() ^= 1;
      }
      if (s.oneIn(5)) {
        pat += 'a';
      }
      auto const e = conv(m.find(pat, pos));
      REQUIRE(v.find_first_of(StringView(pat.data(), pat.size()), pos) == e,
              "search for text ", q(pat), " from ", pos);
      REQUIRE(v.find_first_of(pat.data(), pos, pat.size()) == e, "counted search");
      if (pat.find('\0') == std::string::npos) {
        REQUIRE(v.find_first_of(pat.c_str(), pos) == e, "text search");
      }
      break;
    }
    case 5: { // sub-view
      auto const a = s.below(m.size() + 1);
      auto const n = s.below(m.size() - a + 1);
      sameView(v.substr(a, n), m.substr(a, n), "substr");
      if (s.oneIn(3)) {
        v = v.substr(a, n);
        m = m.substr(a, n);
      }
      break;
    }
    case 6: { // compare with a mutated copy
      std::string o(m);
      if (!o.empty() && s.coin()) {
        o[s.below(o.size())] ^= 1;
      }
      if (s.coin()) {
        o.resize(s.below(o.size() + 1));
      } else if (s.coin()) {
        o += 'b';
      }
      StringView const vo(o.data(), o.size());
      bool const eq = m == o;
      REQUIRE((v == vo) == eq && (v != vo) == !eq && (v.compare(vo) == 0) == eq,
              "equality with ", q(o));
      int const c1 = sgn(v.compare(vo));
      REQUIRE(c1 == -sgn(vo.compare(v)), "antisymmetry with ", q(o));
      if (ascii(m) && ascii(o)) {
        REQUIRE(c1 == sgn(m.compare(o)), "order with ", q(o));
      }
      REQUIRE((v < vo) == (c1 < 0) && (v <= vo) == (c1 <= 0) && (v > vo) == (c1 > 0) &&
                  (v >= vo) == (c1 >= 0),
              "relational operators with ", q(o));
      REQUIRE(v.starts_with(vo) == m.starts_with(o), "starts_with ", q(o));
      REQUIRE(v.ends_with(vo) == m.ends_with(o), "ends_with ", q(o));
      if (!o.empty() && o.find('\0') == std::string::npos) {
        REQUIRE(v.starts_with(o.c_str()) == m.starts_with(o), "starts_with ", q(o));
        REQUIRE(v.ends_with(o.c_str()) == m.ends_with(o), "ends_with ", q(o));
      }
      auto const a = s.below(m.size() + 1);
      auto const n = s.below(m.size() - a + 1);
      REQUIRE((v.compare(a, n, vo) == 0) == (m.compare(a, n, o) == 0), "partial compare");
      break;
    }
    case 7: {
      v.removeLeadingSpaces();
      auto const n = m.find_first_not_of(' ');
      m = n == std::string_view::npos ? std::string_view() : m.substr(n);
      break;
    }
    case 8:
    case 9: { // tokens
      char const d = kind == 8 ? ch : ' ';
      StringView const tok = kind == 8 ? v.getTokenAndShrink(d) : v.getTokenAndShrink();
      auto const n = m.find_first_not_of(d);
      if (n == std::string_view::npos) {
        REQUIRE(tok.empty(), "token of an all-delimiter view");
      } else {
        auto const e = m.find(d, n);
        if (e == std::string_view::npos) {
          sameView(tok, m.substr(n), "last token");
          m = std::string_view();
        } else {
          sameView(tok, m.substr(n, e - n), "token");
          m = m.substr(e + 1);
        }
      }
      break;
    }
    case 10: { // owned copy of the view
      if (!m.empty()) {
        String const o(v);
        same(o, std::string(m), "string from view");
        REQUIRE(StringView(o) == v, "view of string from view");
      }
      break;
    }
    default:
      break;
    }
    sameView(v, m, pbt::cat("view after op ", op).c_str());
  }
}

} // namespace

auto
main(int argc, char ** argv) -> int
{
  pbt::Options o;
  o.leak_check = true;
  o.assumptions = {
      "order is compared with the reference only for characters below 128 (the library "
      "compares plain char); equality and antisymmetry for all characters",
      "assigning a string a view of its own characters is excluded (documented "
      "non-aliasing precondition)"};
  return pbt::run("C02", "see per-sub rules", o, argc, argv);
}

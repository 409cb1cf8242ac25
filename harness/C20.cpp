// C20: editing an element soup.
// Oracle: an ideal model stepped alongside.
#include "soup.hpp"

namespace
{

using namespace soup;

struct Pair {
  um2::PolytopeSoup p;
  Model m;
};

auto
sortedNames(Model const & m) -> bool
{
  for (size_t i = 1; i < m.s.size(); ++i) {
    if (m.s[i].name < m.s[i - 1].name) {
      return false;
    }
  }
  return true;
}

void
append(Model & a, Model const & b)
{
  auto const nv = static_cast<int>(a.v.size());
  auto const ne = static_cast<int>(a.e.size());
  a.v.insert(a.v.end(), b.v.begin(), b.v.end());
  for (auto e : b.e) {
    for (auto & x : e.conn) {
      x += nv;
    }
    a.e.push_back(e);
  }
  for (auto t : b.s) {
    for (auto & x : t.ids) {
      x += ne;
    }
    auto const it = std::find_if(a.s.begin(), a.s.end(),
                                 [&](Set const & u) { return u.name == t.name; });
    if (it == a.s.end()) {
      a.s.push_back(t);
    } else {
      it->ids.insert(it->ids.end(), t.ids.begin(), t.ids.end());
      it->data.insert(it->data.end(), t.data.begin(), t.data.end());
    }
  }
  if (!b.s.empty()) {
    sortSets(a);
  }
}

void
checkSubset(Pair const & a, size_t which)
{
  um2::PolytopeSoup sub;
  a.p.getSubset(lib(a.m.s[which].name), sub);
  auto const & ids = a.m.s[which].ids;
  REQUIRE(sub.numElements() == static_cast<Int>(ids.size()), "subset ", a.m.s[which].name, " has ",
          sub.numElements(), " elements, expected ", ids.size());
  std::set<int> used;
  std::map<int, Int> to; // old vertex -> new vertex
  um2::Vector<Int> conn;
  for (size_t i = 0; i < ids.size(); ++i) {
    auto const & e = a.m.e[static_cast<size_t>(ids[i])];
    um2::VTKElemType t{};
    sub.getElement(static_cast<Int>(i), t, conn);
    REQUIRE((t == e.type) && conn.size() == static_cast<Int>(e.conn.size()), "subset element ", i);
    for (size_t k = 0; k < e.conn.size(); ++k) {
      Int const nw = conn[static_cast<Int>(k)];
      REQUIRE(nw >= 0 && nw < sub.numVertices(), "subset element ", i, " refers to vertex ", nw);
      auto const it = to.emplace(e.conn[k], nw).first;
      REQUIRE(it->second == nw, "vertex ", e.conn[k], " became ", it->second, " and ", nw);
      used.insert(nw);
      for (Int d = 0; d < 3; ++d) {
        REQUIRE(sub.getVertex(nw)[d] == a.m.v[static_cast<size_t>(e.conn[k])][static_cast<size_t>(d)],
                "position of vertex ", k, " of subset element ", i);
      }
    }
  }
  REQUIRE(sub.numVertices() == static_cast<Int>(used.size()) && used.size() == to.size(),
          "subset has ", sub.numVertices(), " vertices, its elements use ", to.size());
  // the other sets, restricted
  std::vector<Set> want;
  for (size_t j = 0; j < a.m.s.size(); ++j) {
    if (j == which) {
      continue;
    }
    Set r{a.m.s[j].name, {}, {}};
    for (size_t k = 0; k < ids.size(); ++k) {
      auto const & of = a.m.s[j].ids;
      auto const it = std::find(of.begin(), of.end(), ids[k]);
      if (it != of.end()) {
        r.ids.push_back(static_cast<int>(k));
        if (!a.m.s[j].data.empty()) {
          r.data.push_back(a.m.s[j].data[static_cast<size_t>(it - of.begin())]);
        }
      }
    }
    if (!r.ids.empty()) {
      want.push_back(r);
    }
  }
  REQUIRE(sub.numElsets() == static_cast<Int>(want.size()), "subset has ", sub.numElsets(),
          " sets, expected ", want.size());
  for (auto const & w : want) {
    um2::Vector<Int> got;
    um2::Vector<Float> data;
    sub.getElset(lib(w.name), got, data);
    std::vector<int> const gi(got.begin(), got.end());
    std::vector<double> const gd(data.begin(), data.end());
    REQUIRE(gi == w.ids, "members of ", w.name, " in the subset");
    REQUIRE(gd == w.data, "values of ", w.name, " in the subset");
  }
}

void
history(pbt::Src & s, pbt::Case & c)
{
  quiet();
  std::vector<Pair> pool(2);
  auto const steps = static_cast<uint64_t>(s.size(6, 60));
  size_t merges = 0;
  size_t subsets = 0;
  for (uint64_t step = 0; step < steps; ++step) {
    auto & a = pool[s.below(pool.size())];
    auto const op = s.below(16);
    switch (op) {
    case 0:
    case 1: {
      auto const n = 1 + s.below(s.oneIn(500) ? 1500 : 6);
      c.desc << "+" << n << "v ";
      for (uint64_t i = 0; i < n; ++i) {
        std::array<double, 3> const v{genValue(s), genValue(s), s.coin() ? 0.0 : genValue(s)};
        Int id = -1;
        if (s.coin()) {
          id = a.p.addVertex(v[0], v[1], v[2]);
        } else {
          id = a.p.addVertex(um2::Point3F(v[0], v[1], v[2]));
        }
        REQUIRE(id == static_cast<Int>(a.m.v.size()), "addVertex returned ", id);
        a.m.v.push_back(v);
      }
      break;
    }
    case 2:
    case 3:
    case 4: {
      if (a.m.v.empty()) {
        break;
      }
      auto const n = 1 + s.below(s.oneIn(500) ? 1000 : 4);
      for (uint64_t i = 0; i < n; ++i) {
        auto const e = genElement(s, s.pick(allTypes()), a.m.v.size());
        c.desc << "+e" << int(e.type) << " ";
        Int const id = a.p.addElement(e.type, lib(std::vector<Int>(e.conn.begin(), e.conn.end())));
        REQUIRE(id == static_cast<Int>(a.m.e.size()), "addElement returned ", id);
        a.m.e.push_back(e);
      }
      break;
    }
    case 5:
    case 6:
    case 7: {
      if (a.m.e.empty()) {
        break;
      }
      Set t{genName(s), genSubset(s, a.m.e.size()), {}};
      bool const taken = std::any_of(a.m.s.begin(), a.m.s.end(),
                                     [&](Set const & u) { return u.name == t.name; });
      if (t.name[0] == 'd') {
        for (size_t i = 0; i < t.ids.size(); ++i) {
          t.data.push_back(genValue(s));
        }
      }
      bool bad = taken;
      if (!taken && s.oneIn(8)) {
        // requests that must be refused
        bad = true;
        if (s.coin()) {
          t.ids.clear();
          t.data.clear();
        } else {
          t.data.assign(t.ids.size() + 1, 1.0);
        }
      }
      c.desc << "+set " << t.name << "[" << t.ids.size() << "]" << (bad ? "! " : " ");
      Int const id = a.p.addElset(lib(t.name), lib(std::vector<Int>(t.ids.begin(), t.ids.end())),
                                  lib(t.data));
      if (bad) {
        REQUIRE(id == -1, "a refused set returned ", id);
      } else {
        REQUIRE(id == static_cast<Int>(a.m.s.size()), "addElset returned ", id);
        a.m.s.push_back(t);
      }
      break;
    }
    case 8: {
      std::array<double, 3> const d{double(s.irange(-4, 4)), double(s.irange(-4, 4)),
                                    double(s.irange(-1, 1))};
      c.desc << "move ";
      a.p.translate(um2::Point3F(d[0], d[1], d[2]));
      for (auto & v : a.m.v) {
        for (size_t k = 0; k < 3; ++k) {
          v[k] += d[k];
        }
      }
      break;
    }
    case 9:
      c.desc << "sort ";
      a.p.sortElsets();
      sortSets(a.m);
      break;
    case 10:
    case 11: { // append one soup (possibly itself) to another
      auto & b = pool[s.below(pool.size())];
      if (a.m.e.size() + b.m.e.size() > 60) {
        break;
      }
      if (!b.m.s.empty()) {
        // appending sets needs sorted names
        if (!sortedNames(a.m)) {
          a.p.sortElsets();
          sortSets(a.m);
        }
        if (!sortedNames(b.m)) {
          b.p.sortElsets();
          sortSets(b.m);
        }
      }
      c.desc << (&a == &b ? "+=self " : "+= ");
      Model const bm = b.m;
      auto & r = (a.p += b.p);
      REQUIRE(&r == &a.p, "the result is not the soup appended to");
      append(a.m, bm);
      if (&a != &b) {
        expectSame(b.p, b.m, "the appended soup");
      }
      ++merges;
      break;
    }
    case 12:
      if (!a.m.s.empty()) {
        auto const k = s.below(a.m.s.size());
        c.desc << "subset " << a.m.s[k].name << " ";
        checkSubset(a, k);
        ++subsets;
      }
      break;
    case 13:
      c.desc << "reserve ";
      a.p.reserveMoreVertices(static_cast<Int>(s.below(30)));
      a.p.reserveMoreElements(s.pick(allTypes()), static_cast<Int>(s.below(30)));
      break;
    case 14: { // copy, then compare with variations
      um2::PolytopeSoup q = a.p;
      expectSame(q, a.m, "a copy");
      REQUIRE(q.compare(a.p) == 0 && a.p.compare(q) == 0, "a copy compares different");
      Model v = a.m;
      bool changed = true;
      switch (s.below(6)) {
      case 0:
        if (v.v.empty()) {
          changed = false;
        } else {
          auto & x = v.v[s.below(v.v.size())][s.below(3)];
          x += s.sign() * (s.mag(-5, 2) + 1e-3 * std::fabs(x));
        }
        break;
      case 1:
        v.v.push_back({0, 0, 0});
        break;
      case 2: {
        changed = false;
        for (auto & e : v.e) {
          if (!changed && e.conn.size() > 1 && e.conn[0] != e.conn[1]) {
            std::swap(e.conn[0], e.conn[1]);
            changed = true;
          }
        }
        break;
      }
      case 3: {
        changed = false;
        for (auto & t : v.s) {
          if (!changed && !t.data.empty() && s.coin()) {
            auto & x = t.data[s.below(t.data.size())];
            x += s.sign() * (s.mag(-5, 2) + 1e-3 * std::fabs(x));
            changed = true;
          }
        }
        break;
      }
      case 4:
        if (v.s.empty()) {
          changed = false;
        } else {
          auto & t = v.s[s.below(v.s.size())];
          if (t.ids.size() > 1) {
            auto const k = s.below(t.ids.size());
            t.ids.erase(t.ids.begin() + static_cast<long>(k));
            if (!t.data.empty()) {
              t.data.erase(t.data.begin() + static_cast<long>(k));
            }
          } else {
            t.name += "x";
            changed = std::none_of(a.m.s.begin(), a.m.s.end(),
                                   [&](Set const & u) { return u.name == t.name; });
          }
        }
        break;
      default:
        if (v.e.empty()) {
          changed = false;
        } else {
          v.e.push_back(v.e[0]);
        }
        break;
      }
      c.desc << "compare ";
      if (changed) {
        auto const w = build(v);
        REQUIRE(w.compare(a.p) != 0 && a.p.compare(w) != 0,
                "soups that differ compare the same");
      }
      if (s.coin()) {
        a.p = std::move(q);
      }
      break;
    }
    default:
      if (pool.size() < 4) {
        pool.push_back(pool[s.below(pool.size())]);
      }
      break;
    }
  }
  for (auto const & a : pool) {
    expectSame(a.p, a.m, "at the end");
    auto const fresh = build(a.m);
    REQUIRE(fresh.compare(a.p) == 0 && a.p.compare(fresh) == 0,
            "the soup differs from one built from scratch with the same content: ",
            a.p.compare(fresh));
    for (size_t k = 0; k < a.m.s.size(); ++k) {
      checkSubset(a, k);
      ++subsets;
    }
  }
  c.label(merges > 0 ? "with appends" : "without appends");
  c.nontrivial(merges > 0 && subsets > 0);
}

pbt::Reg const r1("history", 180000, 1500000, "a soup was appended and a set was extracted", history);

} // namespace

auto
main(int argc, char ** argv) -> int
{
  pbt::Options o;
  o.leak_check = true;
  o.assumptions = {"set members are given sorted and without repetition",
                   "sets of the same name in appended soups both carry data or neither does",
                   "set names are sorted before appending, as the library demands",
                   "subsets are extracted into an empty soup"};
  return pbt::run("C20", "histories of edits over up to four soups", o, argc, argv);
}

#include "pbt.hpp"

#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <set>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#  include <sanitizer/lsan_interface.h>
#endif

namespace pbt
{

namespace
{

using Clock = std::chrono::steady_clock;

constexpr size_t tape_cap = size_t(1) << 17;
constexpr int exit_fail = 77;
constexpr int exit_leak = 78;
constexpr int exit_discard = 79;

// One per worker, in shared memory
struct Shared {
  uint64_t volatile index;
  uint64_t volatile len;
  double volatile started; // monotonic seconds of the current case, 0 if idle
  char msg[8192];
  char desc[65536];
  uint64_t tape[tape_cap];
};

std::string g_property;
std::string g_scratch_root;
std::set<std::string> g_known_keys;
std::map<std::string, std::string> g_known_text;

auto
now() -> double
{
  return std::chrono::duration<double>(Clock::now().time_since_epoch()).count();
}

auto
fnv(std::string const & s, uint64_t h = 1469598103934665603ULL) -> uint64_t
{
  for (unsigned char const ch : s) {
    h ^= ch;
    h *= 1099511628211ULL;
  }
  return h;
}

auto
newShared() -> Shared *
{
  void * p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                  MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(2);
  }
  return static_cast<Shared *>(p);
}

void
setStr(char * dst, size_t cap, std::string const & s)
{
  size_t const n = std::min(cap - 1, s.size());
  memcpy(dst, s.data(), n);
  dst[n] = 0;
}

// Directory helpers confined to the scratch root this process created.
void
removeTree(std::string const & path)
{
  if (g_scratch_root.empty() || path.rfind(g_scratch_root, 0) != 0 ||
      g_scratch_root.rfind("/tmp/um2verif.", 0) != 0) {
    return;
  }
  std::string const cmd = "rm -rf -- '" + path + "'";
  if (system(cmd.c_str()) != 0) {
  }
}

struct CaseOutcome {
  enum Kind { Pass, Failed, Discarded } kind = Pass;
  std::string msg;
};

auto
runBody(Sub const & sub, Src & src, Case & c) -> CaseOutcome
{
  c.desc.precision(17);
  try {
    sub.body(src, c);
  } catch (Fail const & f) {
    return {CaseOutcome::Failed, f.msg};
  } catch (Discard const &) {
    return {CaseOutcome::Discarded, ""};
  } catch (std::exception const & e) {
    return {CaseOutcome::Failed, std::string("exception: ") + e.what()};
  }
  return {CaseOutcome::Pass, ""};
}

void
quietOutput(int fd)
{
  fflush(nullptr);
  int const devnull = open("/dev/null", O_WRONLY);
  dup2(devnull, 1);
  dup2(fd >= 0 ? fd : devnull, 2);
}

auto
readTail(int fd) -> std::string
{
  std::string out;
  off_t const end = lseek(fd, 0, SEEK_END);
  // Keep head and tail: sanitizer reports have the essential line at the head.
  size_t const keep = 3000;
  std::string buf(keep, 0);
  ssize_t n = pread(fd, buf.data(), keep, 0);
  if (n > 0) {
    out.append(buf, 0, static_cast<size_t>(n));
  }
  if (end > static_cast<off_t>(2 * keep)) {
    out += "\n...\n";
  }
  if (end > static_cast<off_t>(keep)) {
    off_t const from = std::max<off_t>(static_cast<off_t>(keep), end - static_cast<off_t>(keep));
    n = pread(fd, buf.data(), keep, from);
    if (n > 0) {
      out.append(buf, 0, static_cast<size_t>(n));
    }
  }
  return out;
}

auto
describeExit(int status, int errfd) -> std::string
{
  std::string m;
  if (WIFSIGNALED(status)) {
    m = cat("killed by signal ", WTERMSIG(status));
  } else {
    m = cat("process exited with status ", WEXITSTATUS(status),
            " (assertion or sanitizer abort in the code under test)");
  }
  std::string const t = readTail(errfd);
  if (!t.empty()) {
    m += "\n" + t;
  }
  return m;
}

struct Failure {
  bool failed = false;
  bool hang = false;
  std::string msg;
  std::string desc;
  std::vector<uint64_t> tape; // as drawn
};

Options g_opt;
Shared * g_probe = nullptr;

void
initWorker()
{
  if (g_opt.worker_init) {
    g_opt.worker_init();
  }
}

// Keep the description of a case that ends the process.
Case * g_dying = nullptr;
void
saveDesc()
{
  if (g_dying != nullptr) {
    setStr(g_probe->desc, sizeof(g_probe->desc), g_dying->desc.str());
    g_dying = nullptr;
  }
}

// Run one tape in a forked child; returns its failure, if any.
auto
probe(Sub const & sub, std::vector<uint64_t> const & tape, double hang_s, bool leak)
    -> Failure
{
  Failure f;
  if (tape.size() > tape_cap) {
    return f;
  }
  Shared * sh = g_probe;
  sh->len = 0;
  sh->msg[0] = 0;
  sh->desc[0] = 0;
  int const errfd = memfd_create("err", 0);
  fflush(nullptr);
  pid_t const pid = fork();
  if (pid == 0) {
    quietOutput(errfd);
    dup2(errfd, 1); // assertions of the code under test print to stdout
    setpgid(0, 0);
    initWorker();
    memcpy(sh->tape, tape.data(), tape.size() * sizeof(uint64_t));
    Src src;
    src.tape = sh->tape;
    src.cap = tape_cap;
    src.given = tape.size();
    src.replay = true;
    src.shared_len = &sh->len;
    CaseOutcome o;
    {
      Case c;
      c.scratch = "";
      c.replaying = true;
      g_dying = &c;
      atexit(saveDesc);
#if defined(__SANITIZE_ADDRESS__)
      __sanitizer_set_death_callback(saveDesc);
#endif
      o = runBody(sub, src, c);
      g_dying = nullptr;
      setStr(sh->desc, sizeof(sh->desc), c.desc.str());
    }
    if (o.kind == CaseOutcome::Failed) {
      setStr(sh->msg, sizeof(sh->msg), o.msg);
      _exit(exit_fail);
    }
#if defined(__SANITIZE_ADDRESS__)
    if (leak && __lsan_do_recoverable_leak_check() != 0) {
      setStr(sh->msg, sizeof(sh->msg), "memory leaked by this case");
      _exit(exit_leak);
    }
#else
    (void)leak;
#endif
    _exit(o.kind == CaseOutcome::Discarded ? exit_discard : 0);
  }
  double const t0 = now();
  int status = 0;
  useconds_t nap = 200;
  while (true) {
    pid_t const r = waitpid(pid, &status, WNOHANG);
    if (r == pid) {
      break;
    }
    if (now() - t0 > hang_s) {
      kill(-pid, SIGKILL);
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      f.failed = true;
      f.hang = true;
      f.msg = cat("no result within ", hang_s, " s (hang)");
      break;
    }
    usleep(nap);
    nap = std::min<useconds_t>(nap * 2, 5000);
  }
  if (!f.hang) {
    if (WIFEXITED(status) &&
        (WEXITSTATUS(status) == 0 || WEXITSTATUS(status) == exit_discard)) {
      close(errfd);
      return f;
    }
    f.failed = true;
    if (WIFEXITED(status) &&
        (WEXITSTATUS(status) == exit_fail || WEXITSTATUS(status) == exit_leak)) {
      f.msg = sh->msg;
    } else {
      f.msg = describeExit(status, errfd);
    }
  }
  f.desc = sh->desc;
  f.tape.assign(sh->tape, sh->tape + std::min<uint64_t>(uint64_t(sh->len), tape_cap));
  close(errfd);
  return f;
}

auto
shrink(Sub const & sub, Failure best, double budget_s, bool leak) -> Failure
{
  double const t0 = now();
  double const hang = best.hang ? 5 : sub.hang_s;
  int attempts = 0;
  auto tryTape = [&](std::vector<uint64_t> const & t) -> bool {
    if (now() - t0 > budget_s || attempts > 6000) {
      return false;
    }
    ++attempts;
    Failure f = probe(sub, t, hang, leak);
    if (!f.failed) {
      return false;
    }
    // Strictly simpler: shorter, or same length and lexicographically smaller.
    if (f.tape.size() < best.tape.size() ||
        (f.tape.size() == best.tape.size() && f.tape < best.tape)) {
      best = std::move(f);
      return true;
    }
    return false;
  };
  bool improved = true;
  while (improved && now() - t0 < budget_s) {
    improved = false;
    // Delete blocks
    for (size_t k = std::max<size_t>(1, best.tape.size() / 2); k >= 1; k /= 2) {
      for (size_t i = 0; i + k <= best.tape.size() && now() - t0 < budget_s;) {
        auto t = best.tape;
        t.erase(t.begin() + static_cast<std::ptrdiff_t>(i),
                t.begin() + static_cast<std::ptrdiff_t>(i + k));
        if (tryTape(t)) {
          improved = true;
        } else {
          i += k;
        }
      }
      if (k == 1) {
        break;
      }
    }
    // Zero blocks
    for (size_t k : {size_t(8), size_t(4), size_t(2)}) {
      for (size_t i = 0; i + k <= best.tape.size() && now() - t0 < budget_s; i += k) {
        auto t = best.tape;
        bool any = false;
        for (size_t j = i; j < i + k; ++j) {
          any = any || t[j] != 0;
          t[j] = 0;
        }
        if (any && tryTape(t)) {
          improved = true;
        }
      }
    }
    // Minimise single values
    for (size_t i = 0; i < best.tape.size() && now() - t0 < budget_s; ++i) {
      if (best.tape[i] == 0) {
        continue;
      }
      auto t = best.tape;
      t[i] = 0;
      if (tryTape(t)) {
        improved = true;
        continue;
      }
      uint64_t lo = 0;
      if (i >= best.tape.size()) {
        break;
      }
      uint64_t hi = best.tape[i];
      while (hi - lo > 1 && now() - t0 < budget_s) {
        uint64_t const mid = lo + (hi - lo) / 2;
        t = best.tape;
        if (i >= t.size()) {
          break;
        }
        t[i] = mid;
        if (tryTape(t)) {
          improved = true;
          if (i >= best.tape.size()) {
            break;
          }
          hi = std::min(mid, best.tape[i]);
        } else {
          lo = mid;
        }
      }
    }
  }
  return best;
}

struct Stats {
  uint64_t evals = 0;
  uint64_t discards = 0;
  std::map<std::string, uint64_t> labels;
  std::map<std::string, uint64_t> knowns;
  std::vector<std::string> samples;
  std::set<uint64_t> distinct;
};

auto
jsonEscape(std::string const & s) -> std::string
{
  std::string o;
  for (unsigned char const ch : s) {
    switch (ch) {
    case '"':
      o += "\\\"";
      break;
    case '\\':
      o += "\\\\";
      break;
    case '\n':
      o += "\\n";
      break;
    case '\t':
      o += "\\t";
      break;
    default:
      if (ch < 0x20 || ch >= 0x7f) {
        char b[8];
        snprintf(b, sizeof(b), "\\u%04x", ch);
        o += b;
      } else {
        o += static_cast<char>(ch);
      }
    }
  }
  return o;
}

void
putU64(std::string & o, uint64_t v)
{
  o.append(reinterpret_cast<char const *>(&v), 8);
}
void
putStr(std::string & o, std::string const & s)
{
  putU64(o, s.size());
  o += s;
}
struct Reader {
  std::string const & b;
  size_t p = 0;
  auto
  u64() -> uint64_t
  {
    uint64_t v = 0;
    if (p + 8 <= b.size()) {
      memcpy(&v, b.data() + p, 8);
    }
    p += 8;
    return v;
  }
  auto
  str() -> std::string
  {
    uint64_t const n = u64();
    std::string s = b.substr(std::min(p, b.size()), n);
    p += n;
    return s;
  }
};

struct Job {
  size_t sub;
  uint64_t first;
  uint64_t count;
};

auto
caseRng(uint64_t seed, Sub const & sub, uint64_t i) -> std::mt19937_64
{
  uint64_t const h = fnv(sub.name, fnv(g_property));
  std::seed_seq sq{static_cast<uint32_t>(seed),    static_cast<uint32_t>(seed >> 32),
                   static_cast<uint32_t>(h),       static_cast<uint32_t>(h >> 32),
                   static_cast<uint32_t>(i),       static_cast<uint32_t>(i >> 32)};
  return std::mt19937_64(sq);
}

// Runs in the worker process. Returns by _exit.
[[noreturn]] void
workerMain(Sub const & sub, Job const & job, uint64_t seed, Shared * sh, int resfd)
{
  initWorker();
  Stats st;
  for (uint64_t i = job.first; i < job.first + job.count; ++i) {
    auto rng = caseRng(seed, sub, i);
    sh->index = i;
    sh->len = 0;
    sh->started = now();
    Src src;
    src.tape = sh->tape;
    src.cap = tape_cap;
    src.rng = &rng;
    src.shared_len = &sh->len;
    Case c;
    CaseOutcome const o = runBody(sub, src, c);
    sh->started = 0;
    if (o.kind == CaseOutcome::Failed) {
      setStr(sh->msg, sizeof(sh->msg), o.msg);
      setStr(sh->desc, sizeof(sh->desc), c.desc.str());
      _exit(exit_fail);
    }
    if (o.kind == CaseOutcome::Discarded) {
      ++st.discards;
      continue;
    }
    st.evals += 1 + c.extra_evals;
    if (c.is_nontrivial) {
      uint64_t h = 1469598103934665603ULL;
      for (size_t k = 0; k < src.len && k < tape_cap; ++k) {
        uint64_t v = sh->tape[k];
        for (int b = 0; b < 8; ++b) {
          h ^= v & 255;
          h *= 1099511628211ULL;
          v >>= 8;
        }
      }
      st.distinct.insert(h);
    }
    for (auto const & l : c.labels) {
      ++st.labels[l];
    }
    for (auto const & l : c.knowns) {
      ++st.knowns[l];
    }
    if (st.samples.size() < 2 && c.is_nontrivial) {
      std::string d = c.desc.str();
      if (d.size() > 700) {
        d = d.substr(0, 700) + " ...";
      }
      st.samples.push_back(d);
    }
  }
#if defined(__SANITIZE_ADDRESS__)
  if (g_opt.leak_check && __lsan_do_recoverable_leak_check() != 0) {
    _exit(exit_leak);
  }
#endif
  std::string out;
  putU64(out, st.evals);
  putU64(out, st.discards);
  putU64(out, st.labels.size());
  for (auto const & [k, v] : st.labels) {
    putStr(out, k);
    putU64(out, v);
  }
  putU64(out, st.knowns.size());
  for (auto const & [k, v] : st.knowns) {
    putStr(out, k);
    putU64(out, v);
  }
  putU64(out, st.samples.size());
  for (auto const & k : st.samples) {
    putStr(out, k);
  }
  putU64(out, st.distinct.size());
  for (auto const v : st.distinct) {
    putU64(out, v);
  }
  size_t off = 0;
  while (off < out.size()) {
    ssize_t const n = write(resfd, out.data() + off, out.size() - off);
    if (n <= 0) {
      _exit(2);
    }
    off += static_cast<size_t>(n);
  }
  _exit(0);
}

void
loadKnown(std::string const & path)
{
  // Lines: "known: property=<id> key=<key> <description>"
  std::ifstream in(path);
  std::string line;
  while (std::getline(in, line)) {
    if (line.rfind("known:", 0) != 0) {
      continue;
    }
    auto const p = line.find("property=");
    auto const k = line.find("key=");
    if (p == std::string::npos || k == std::string::npos) {
      continue;
    }
    std::string const id = line.substr(p + 9, line.find(' ', p) - p - 9);
    auto const ke = line.find(' ', k);
    std::string const key = line.substr(k + 4, ke == std::string::npos ? ke : ke - k - 4);
    if (id == g_property) {
      g_known_keys.insert(key);
      g_known_text[key] = ke == std::string::npos ? "" : line.substr(ke + 1);
    }
  }
}

} // namespace

auto
subs() -> std::vector<Sub> &
{
  static std::vector<Sub> v;
  return v;
}

auto
Src::below(uint64_t n) -> uint64_t
{
  if (len >= cap) {
    throw Discard{};
  }
  uint64_t v = 0;
  if (replay) {
    if (len < given) {
      v = tape[len];
    }
    if (n != 0 && v >= n) {
      v = n - 1;
    }
  } else if (n == 0) {
    v = (*rng)();
  } else {
    v = std::uniform_int_distribution<uint64_t>(0, n - 1)(*rng);
  }
  tape[len] = v;
  ++len;
  if (shared_len != nullptr) {
    *shared_len = len;
  }
  return v;
}

void
Case::known(std::string const & key, std::string const & msg)
{
  if (g_known_keys.count(key) == 0) {
    fail(cat("[", key, "] ", msg));
  }
  knowns.push_back(key);
}

auto
Case::dir() -> std::string const &
{
  if (scratch.empty()) {
    scratch = cat(g_scratch_root, "/w", getpid());
    mkdir(scratch.c_str(), 0700);
  }
  return scratch;
}

auto
run(char const * property, char const * rule, Options const & opt, int argc, char ** argv)
    -> int
{
  g_property = property;
  g_opt = opt;
  setvbuf(stdout, nullptr, _IOLBF, 0);

  std::string tier = getenv("VERIF_TIER") != nullptr ? getenv("VERIF_TIER") : "quick";
  if (tier != "thorough") {
    tier = "quick";
  }
  uint64_t seed = 1;
  if (char const * e = getenv("VERIF_SEED")) {
    seed = strtoull(e, nullptr, 10);
  }
  std::string root = "/verif";
  std::string replay_file;
  std::string only;
  double scale = 1;
  for (int i = 1; i < argc; ++i) {
    std::string const a = argv[i];
    if (a == "--root" && i + 1 < argc) {
      root = argv[++i];
    } else if (a == "--replay" && i + 1 < argc) {
      replay_file = argv[++i];
    } else if (a == "--only" && i + 1 < argc) {
      only = argv[++i];
    } else if (a == "--scale" && i + 1 < argc) {
      scale = atof(argv[++i]);
    } else if (a == "--list") {
      for (auto const & s : subs()) {
        printf("%s %d %d\n", s.name.c_str(), s.quick_n, s.thorough_n);
      }
      return 0;
    }
  }
  loadKnown(root + "/known_findings.txt");
  {
    char tmpl[] = "/tmp/um2verif.XXXXXX";
    if (mkdtemp(tmpl) == nullptr) {
      perror("mkdtemp");
      return 2;
    }
    g_scratch_root = tmpl;
  }
  g_probe = newShared();
  bool const thorough = tier == "thorough";
  double const t0 = now();

  if (!replay_file.empty()) {
    std::ifstream in(replay_file);
    std::string word;
    std::string sub_name;
    std::vector<uint64_t> tape;
    while (in >> word) {
      if (word == "sub") {
        in >> sub_name;
      } else if (word == "tape") {
        size_t n = 0;
        in >> n;
        tape.resize(n);
        for (auto & v : tape) {
          in >> v;
        }
        break;
      }
    }
    int rc = 2;
    for (auto const & s : subs()) {
      if (s.name == sub_name) {
        Failure const f = probe(s, tape, s.hang_s, opt.leak_check);
        printf("case: %s\n", f.desc.c_str());
        printf("%s\n", f.failed ? f.msg.c_str() : "passes");
        rc = f.failed ? 1 : 0;
      }
    }
    removeTree(g_scratch_root);
    return rc;
  }

  long ncpu = sysconf(_SC_NPROCESSORS_ONLN);
  ncpu = std::clamp<long>(ncpu, 1, 8);
  if (opt.max_workers > 0) {
    ncpu = std::min<long>(ncpu, opt.max_workers);
  }
  double const cap_s = thorough ? opt.thorough_cap_s : opt.quick_cap_s;

  // Jobs: each sub in at least `ncpu` chunks, interleaved over subs so that a time cap
  // thins all subs evenly.
  std::vector<Job> jobs;
  std::vector<uint64_t> planned(subs().size(), 0);
  {
    std::vector<std::vector<Job>> per(subs().size());
    size_t rounds = 0;
    for (size_t k = 0; k < subs().size(); ++k) {
      auto const & s = subs()[k];
      if (!only.empty() && s.name != only) {
        continue;
      }
      auto const n = static_cast<uint64_t>(
          std::max(1.0, scale * (thorough ? s.thorough_n : s.quick_n)));
      planned[k] = n;
      uint64_t const nch = std::max<uint64_t>(
          1, std::min<uint64_t>(n, static_cast<uint64_t>(ncpu) * (thorough ? 12 : 3)));
      uint64_t const len = (n + nch - 1) / nch;
      for (uint64_t i = 0; i < n; i += len) {
        per[k].push_back({k, i, std::min(len, n - i)});
      }
      rounds = std::max(rounds, per[k].size());
    }
    for (size_t r = 0; r < rounds; ++r) {
      for (auto & p : per) {
        if (r < p.size()) {
          jobs.push_back(p[r]);
        }
      }
    }
  }

  struct Slot {
    pid_t pid = 0;
    Job job{};
    Shared * sh = nullptr;
    int resfd = -1;
    int errfd = -1;
  };
  std::vector<Slot> slots(static_cast<size_t>(ncpu));
  for (auto & sl : slots) {
    sl.sh = newShared();
  }
  std::vector<Stats> stats(subs().size());
  size_t next = 0;
  bool found = false;
  Failure failure;
  Job fail_job{};
  uint64_t fail_index = 0;
  bool leak_failure = false;
  size_t skipped = 0;

  auto launch = [&](Slot & sl, Job const & job) {
    sl.job = job;
    sl.sh->len = 0;
    sl.sh->index = job.first;
    sl.sh->started = 0;
    sl.sh->msg[0] = 0;
    sl.sh->desc[0] = 0;
    sl.resfd = memfd_create("res", 0);
    sl.errfd = memfd_create("err", 0);
    fflush(nullptr);
    pid_t const pid = fork();
    if (pid == 0) {
      setpgid(0, 0);
      quietOutput(sl.errfd);
      workerMain(subs()[job.sub], job, seed, sl.sh, sl.resfd);
    }
    sl.pid = pid;
  };

  while (true) {
    size_t busy = 0;
    for (auto & sl : slots) {
      if (sl.pid == 0 && next < jobs.size() && !found) {
        if (now() - t0 > cap_s) {
          skipped = jobs.size() - next;
          next = jobs.size();
          continue;
        }
        launch(sl, jobs[next++]);
      }
      busy += sl.pid != 0 ? 1 : 0;
    }
    if (busy == 0) {
      break;
    }
    bool any = false;
    for (auto & sl : slots) {
      if (sl.pid == 0) {
        continue;
      }
      int status = 0;
      pid_t const r = waitpid(sl.pid, &status, WNOHANG);
      Sub const & sub = subs()[sl.job.sub];
      bool hang = false;
      if (r == 0) {
        double const st = sl.sh->started;
        if (st > 0 && now() - st > sub.hang_s) {
          kill(-sl.pid, SIGKILL);
          kill(sl.pid, SIGKILL);
          waitpid(sl.pid, &status, 0);
          hang = true;
        } else {
          continue;
        }
      }
      any = true;
      sl.pid = 0;
      if (!hang && WIFEXITED(status) && WEXITSTATUS(status) == 0) {
        std::string buf;
        off_t const end = lseek(sl.resfd, 0, SEEK_END);
        buf.resize(static_cast<size_t>(end));
        if (pread(sl.resfd, buf.data(), buf.size(), 0) != end) {
          fprintf(stderr, "cannot read worker result\n");
          return 2;
        }
        Reader rd{buf};
        Stats & st = stats[sl.job.sub];
        st.evals += rd.u64();
        st.discards += rd.u64();
        for (uint64_t n = rd.u64(); n > 0; --n) {
          auto const k = rd.str();
          st.labels[k] += rd.u64();
        }
        for (uint64_t n = rd.u64(); n > 0; --n) {
          auto const k = rd.str();
          st.knowns[k] += rd.u64();
        }
        for (uint64_t n = rd.u64(); n > 0; --n) {
          auto k = rd.str();
          if (st.samples.size() < 2) {
            st.samples.push_back(std::move(k));
          }
        }
        for (uint64_t n = rd.u64(); n > 0; --n) {
          st.distinct.insert(rd.u64());
        }
      } else if (!found) {
        found = true;
        fail_job = sl.job;
        fail_index = sl.sh->index;
        if (!hang && WIFEXITED(status) && WEXITSTATUS(status) == exit_leak) {
          leak_failure = true;
          failure.msg = "memory leaked in a batch of cases";
        } else if (!hang && WIFEXITED(status) && WEXITSTATUS(status) == exit_fail) {
          failure.msg = sl.sh->msg;
          failure.desc = sl.sh->desc;
        } else if (hang) {
          failure.msg = "hang";
          failure.hang = true;
        } else {
          failure.msg = describeExit(status, sl.errfd);
        }
        failure.failed = true;
        failure.tape.assign(sl.sh->tape,
                            sl.sh->tape + std::min<uint64_t>(uint64_t(sl.sh->len), tape_cap));
      }
      close(sl.resfd);
      close(sl.errfd);
    }
    if (found) {
      for (auto & sl : slots) {
        if (sl.pid != 0) {
          kill(-sl.pid, SIGKILL);
          kill(sl.pid, SIGKILL);
          waitpid(sl.pid, nullptr, 0);
          sl.pid = 0;
        }
      }
    }
    if (!any) {
      usleep(1000);
    }
  }

  int rc = 0;
  int violations = 0;
  std::string replay_path;
  if (found) {
    Sub const & sub = subs()[fail_job.sub];
    fprintf(stderr, "[%s] sub %s case %llu failed: %s\n", property, sub.name.c_str(),
            static_cast<unsigned long long>(fail_index), failure.msg.c_str());
    if (leak_failure) {
      // Find the leaking case of the batch
      bool located = false;
      for (uint64_t i = fail_job.first; i < fail_job.first + fail_job.count; ++i) {
        auto rng = caseRng(seed, sub, i);
        // Regenerate the tape by running the case in a child that records it
        std::vector<uint64_t> tape;
        {
          Shared * sh = slots[0].sh;
          sh->len = 0;
          fflush(nullptr);
          pid_t const pid = fork();
          if (pid == 0) {
            quietOutput(-1);
            initWorker();
            Src src;
            src.tape = sh->tape;
            src.cap = tape_cap;
            src.rng = &rng;
            src.shared_len = &sh->len;
            Case c;
            runBody(sub, src, c);
            _exit(0);
          }
          waitpid(pid, nullptr, 0);
          tape.assign(sh->tape, sh->tape + sh->len);
        }
        Failure f = probe(sub, tape, sub.hang_s, true);
        if (f.failed) {
          failure = f;
          fail_index = i;
          located = true;
          break;
        }
      }
      if (!located) {
        fprintf(stderr, "leak not attributable to a single case\n");
      }
    }
    // Confirm three times
    int confirmed = 0;
    Failure last = failure;
    for (int k = 0; k < 3; ++k) {
      Failure f = probe(sub, failure.tape, failure.hang ? sub.hang_s : 2 * sub.hang_s,
                        leak_failure);
      if (f.failed) {
        ++confirmed;
        last = f;
      }
    }
    std::string mode = "case";
    if (confirmed == 3) {
      last.hang = failure.hang;
      failure = shrink(sub, last, thorough ? 120 : 40, leak_failure);
    } else {
      // The failure may depend on earlier cases of the batch: replay the batch prefix.
      int batch = 0;
      for (int k = 0; k < 3; ++k) {
        Job j = fail_job;
        j.count = fail_index - j.first + 1;
        launch(slots[0], j);
        int status = 0;
        double const tb = now();
        while (waitpid(slots[0].pid, &status, WNOHANG) == 0) {
          if (now() - tb > 300) {
            kill(slots[0].pid, SIGKILL);
          }
          usleep(2000);
        }
        if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
          ++batch;
        }
        close(slots[0].resfd);
        close(slots[0].errfd);
        slots[0].pid = 0;
      }
      mode = cat("batch first=", fail_job.first, " last=", fail_index, " seed=", seed);
      if (batch < 3) {
        fprintf(stderr, "failure did not reproduce (case %d/3, batch %d/3)\n", confirmed,
                batch);
        removeTree(g_scratch_root);
        return 2;
      }
    }
    violations = 1;
    std::string const rdir = root + "/replays";
    mkdir(rdir.c_str(), 0755);
    uint64_t h = fnv(sub.name);
    for (auto v : failure.tape) {
      h = fnv(std::to_string(v), h);
    }
    char hex[32];
    snprintf(hex, sizeof(hex), "%016llx", static_cast<unsigned long long>(h));
    replay_path = rdir + "/" + property + "-" + sub.name + "-" + hex + ".txt";
    std::ofstream out(replay_path);
    out << "property " << property << "\nsub " << sub.name << "\nmode " << mode
        << "\nreplay-command ./check.sh " << property << " --replay " << replay_path
        << "\ntape " << failure.tape.size();
    for (auto v : failure.tape) {
      out << ' ' << v;
    }
    out << "\n--- case\n" << failure.desc << "\n--- failure\n" << failure.msg << "\n";
    out.close();
    fprintf(stderr, "shrunk case: %s\nfailure: %s\n", failure.desc.c_str(),
            failure.msg.c_str());
    printf("VIOLATION property=%s replay=%s\n", property, replay_path.c_str());
    rc = 1;
  }

  // Evidence
  uint64_t evals = 0;
  uint64_t distinct = 0;
  uint64_t discards = 0;
  std::string samples;
  std::string subs_json;
  std::string rules;
  std::map<std::string, uint64_t> knowns;
  for (size_t k = 0; k < subs().size(); ++k) {
    auto const & s = subs()[k];
    auto const & st = stats[k];
    if (planned[k] == 0) {
      continue;
    }
    evals += st.evals;
    distinct += st.distinct.size();
    discards += st.discards;
    for (auto const & sm : st.samples) {
      samples += cat(samples.empty() ? "" : ",\n   ", "\"", jsonEscape(s.name + ": " + sm),
                     "\"");
    }
    std::string labels;
    for (auto const & [l, v] : st.labels) {
      labels += cat(labels.empty() ? "" : ", ", "\"", jsonEscape(l), "\": ", v);
    }
    for (auto const & [l, v] : st.knowns) {
      knowns[l] += v;
    }
    subs_json += cat(subs_json.empty() ? "" : ",\n   ", "{\"name\": \"", s.name,
                     "\", \"rule\": \"", jsonEscape(s.rule), "\", \"planned\": ", planned[k],
                     ", \"evaluations\": ", st.evals, ", \"discarded\": ", st.discards,
                     ", \"distinct_nontrivial\": ", st.distinct.size(), ", \"labels\": {",
                     labels, "}}");
  }
  std::string assumptions;
  for (auto const & a : opt.assumptions) {
    assumptions += cat(assumptions.empty() ? "" : ", ", "\"", jsonEscape(a), "\"");
  }
  for (auto const & [k, v] : knowns) {
    printf("KNOWN-FINDING: property=%s %s: %s (%llu cases)\n", property, k.c_str(),
           g_known_text[k].c_str(), static_cast<unsigned long long>(v));
  }
  double const wall = now() - t0;
  {
    std::string const edir = root + "/evidence";
    mkdir(edir.c_str(), 0755);
    std::ofstream ev(edir + "/" + property + ".json");
    ev << "{\n \"property\": \"" << property << "\",\n \"tier\": \"" << tier
       << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n"
       << "  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << distinct
       << ",\n  \"discarded\": " << discards << ",\n  \"batches_skipped_by_time_cap\": "
       << skipped << ",\n  \"rule\": \"" << jsonEscape(rule) << "\",\n  \"samples\": [\n   "
       << samples << "\n  ],\n  \"checks\": [\n   " << subs_json << "\n  ]\n },\n"
       << " \"assumptions\": [" << assumptions << "],\n \"violations\": " << violations
       << ",\n \"wall_s\": " << wall << "\n}\n";
  }
  fprintf(stderr, "[%s] %s seed %llu: %llu evaluations, %llu distinct non-trivial, %llu "
                  "discarded, %.1f s%s\n",
          property, tier.c_str(), static_cast<unsigned long long>(seed),
          static_cast<unsigned long long>(evals), static_cast<unsigned long long>(distinct),
          static_cast<unsigned long long>(discards), wall,
          skipped != 0 ? " (time cap reached)" : "");
  removeTree(g_scratch_root);
  if (rc == 0 && evals == 0) {
    fprintf(stderr, "no case was evaluated\n");
    return 2;
  }
  return rc;
}

} // namespace pbt

#if defined(__SANITIZE_ADDRESS__)
extern "C" auto
__asan_default_options() -> char const *
{
  return "detect_leaks=1:leak_check_at_exit=0:allocator_may_return_null=1:"
         "detect_odr_violation=0:handle_segv=1:exitcode=99:print_summary=1";
}
extern "C" auto
__ubsan_default_options() -> char const *
{
  return "halt_on_error=1:print_stacktrace=1:exitcode=99";
}
extern "C" auto
__lsan_default_options() -> char const *
{
  return "report_objects=0:print_suppressions=0";
}
#endif

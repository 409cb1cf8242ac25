// C34: logging.
// Oracle: a model of the settings and of the text, compared with what a separate process printed.
#include "pbt.hpp"

#include <um2.hpp>
#include <um2/common/logger.hpp>
#include <um2/common/settings.hpp>
#include <um2c.h>

#include <gmsh.h>

#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

#include <chrono>
#include <cmath>
#include <fstream>
#include <sstream>
#include <variant>

namespace
{

namespace logger = um2::logger;

struct Text { // a character array argument
  std::string s;
};
using Any = std::variant<Text, char, int8_t, int32_t, int64_t, uint32_t, uint64_t, double, float, bool, um2::String, um2::StringView>;

struct Box { // one argument of any kind
  Any v;
  std::string keep; // for views
};

} // namespace

namespace um2::logger
{
template <>
auto
toBuffer(char * pos, Box const & b) noexcept -> char *
{
  return std::visit(
      [&](auto const & x) -> char * {
        if constexpr (std::is_same_v<std::decay_t<decltype(x)>, Text>) {
          char const * const p = x.s.c_str();
          return toBuffer(pos, p);
        } else {
          return toBuffer(pos, x);
        }
      },
      b.v);
}
} // namespace um2::logger

namespace
{

// What the text of an argument must be; numbers with a fraction are compared by value
struct Piece {
  std::string text;
  bool real = false;
  double value = 0;
};

struct Op {
  int kind = 0; // 0 message, 1 level, 2 timestamps, 3 colours, 4 exit on error, 5 reset, 6 clock
  int level = 0;
  bool via_settings = false;
  bool flag = false;
  double seconds = 0;
  int form = 0; // of a message: 0 boxed, else a fixed list of kinds
  std::vector<Box> args;
  std::vector<Piece> want;
};

auto
genText(pbt::Src & s, int most) -> std::string
{
  std::string t;
  for (int i = s.irange(0, most); i > 0; --i) {
    t += s.oneIn(12) ? "%s%d\\{}\t"[s.below(8)] : static_cast<char>(s.irange(32, 126));
  }
  return t;
}

// one argument, with its text
void
genArg(pbt::Src & s, Op & op, bool lengthy)
{
  Box b;
  Piece w;
  int const most = lengthy && s.coin() ? 150 : 12;
  switch (s.below(12)) {
  case 0:
    b.v = Text{genText(s, most)};
    w.text = std::get<Text>(b.v).s;
    break;
  case 1: {
    char const ch = static_cast<char>(s.irange(33, 126));
    b.v = ch;
    w.text = std::string(1, ch);
    break;
  }
  case 2: {
    auto const v = static_cast<int8_t>(s.irange(-128, 127));
    b.v = v;
    w.text = std::to_string(v);
    break;
  }
  case 3: {
    auto const v = s.oneIn(4) ? std::numeric_limits<int32_t>::min() : static_cast<int32_t>(s.bits()) >> s.below(32);
    b.v = v;
    w.text = std::to_string(v);
    break;
  }
  case 4: {
    auto const v = s.oneIn(4) ? std::numeric_limits<int64_t>::min() : static_cast<int64_t>(s.bits()) >> s.below(64);
    b.v = v;
    w.text = std::to_string(v);
    break;
  }
  case 5: {
    auto const v = s.oneIn(4) ? std::numeric_limits<uint32_t>::max() : static_cast<uint32_t>(s.bits()) >> s.below(32);
    b.v = v;
    w.text = std::to_string(v);
    break;
  }
  case 6: {
    auto const v = s.oneIn(4) ? std::numeric_limits<uint64_t>::max() : s.bits() >> s.below(64);
    b.v = v;
    w.text = std::to_string(v);
    break;
  }
  case 7:
  case 8: {
    w.real = true;
    double v = s.sign() * (s.oneIn(5) ? static_cast<double>(s.irange(0, 20)) : s.mag(-8, lengthy ? 100 : 15));
    if (s.coin()) {
      b.v = v;
    } else {
      v = std::clamp(v, -1e30, 1e30);
      b.v = static_cast<float>(v);
      v = static_cast<double>(static_cast<float>(v));
    }
    w.value = v;
    break;
  }
  case 9: {
    bool const v = s.coin();
    b.v = v;
    w.text = v ? "true" : "false";
    break;
  }
  case 10:
    w.text = genText(s, most);
    b.v = um2::String(w.text.c_str());
    break;
  default:
    w.text = genText(s, most);
    b.keep = w.text + "tail"; // the view ends before the text it points into
    b.v = um2::StringView();
  }
  op.args.push_back(b);
  op.want.push_back(w);
  if (w.real) { // so that the end of the number is plain
    Box sep;
    sep.v = Text{" cm"};
    op.args.push_back(sep);
    op.want.push_back({" cm", false, 0});
  }
}

void
send(int level, auto const &... a)
{
  switch (level) {
  case 1:
    logger::error(a...);
    break;
  case 2:
    logger::warn(a...);
    break;
  case 3:
    logger::info(a...);
    break;
  default:
    logger::debug(a...);
  }
}

// Views point into the argument they belong to
void
settle(Op & op)
{
  for (size_t i = 0; i < op.args.size(); ++i) {
    auto & b = op.args[i];
    if (std::holds_alternative<um2::StringView>(b.v)) {
      b.v = um2::StringView(b.keep.data(), static_cast<uint64_t>(b.keep.size() - 4));
    }
  }
}

void
perform(Op & op)
{
  settle(op);
  switch (op.kind) {
  case 0:
    if (op.form == 1) {
      send(op.level, "count ", int32_t{-7}, ' ', true, " of ", uint64_t{18446744073709551615U});
      return;
    }
    if (op.form == 2) {
      send(op.level, um2::String("a string that is longer than the small one"), um2::StringView("/view"), int8_t{-128}, 'x',
           false);
      return;
    }
    switch (op.args.size()) {
    case 0:
      send(op.level);
      break;
    case 1:
      send(op.level, op.args[0]);
      break;
    case 2:
      send(op.level, op.args[0], op.args[1]);
      break;
    case 3:
      send(op.level, op.args[0], op.args[1], op.args[2]);
      break;
    case 4:
      send(op.level, op.args[0], op.args[1], op.args[2], op.args[3]);
      break;
    case 5:
      send(op.level, op.args[0], op.args[1], op.args[2], op.args[3], op.args[4]);
      break;
    default:
      op.args.resize(6);
      send(op.level, op.args[0], op.args[1], op.args[2], op.args[3], op.args[4], op.args[5]);
    }
    break;
  case 1:
    (op.via_settings ? um2::settings::logger::level : logger::level) = op.level;
    break;
  case 2:
    (op.via_settings ? um2::settings::logger::timestamped : logger::timestamped) = op.flag;
    break;
  case 3:
    (op.via_settings ? um2::settings::logger::colorized : logger::colorized) = op.flag;
    break;
  case 4:
    (op.via_settings ? um2::settings::logger::exit_on_error : logger::exit_on_error) = op.flag;
    break;
  case 5:
    logger::reset();
    break;
  default:
    logger::start_time =
        logger::Clock::now() - std::chrono::duration_cast<logger::Clock::duration>(std::chrono::duration<double>(op.seconds));
  }
}

struct State {
  int level = 3;
  bool stamp = true;
  bool colour = true;
  bool fatal = true;
  double clock = 0; // seconds since the start, at least
};

auto
slurp(std::string const & f) -> std::string
{
  std::ifstream in(f, std::ios::binary);
  std::stringstream ss;
  ss << in.rdbuf();
  return ss.str();
}

// Checks that text, from at, begins with the message; returns where it ends
auto
matchMessage(std::string const & line, State const & st, Op const & op, double slack) -> std::string
{
  size_t at = 0;
  auto eat = [&](std::string const & w) {
    if (line.compare(at, w.size(), w) != 0) {
      return false;
    }
    at += w.size();
    return true;
  };
  static char const * const NAMES[] = {"", "ERROR", "WARN", "INFO", "DEBUG"};
  static char const * const COLOURS[] = {"", "\033[1;31m", "\033[1;33m", "", "\033[1;35m"};
  if (st.colour && !eat(COLOURS[op.level])) {
    return "does not begin with the colour";
  }
  if (st.stamp) {
    int h = 0;
    int m = 0;
    int sec = 0;
    int ms = 0;
    int used = 0;
    if (sscanf(line.c_str() + at, "[%2d:%2d:%2d.%3d]%n", &h, &m, &sec, &ms, &used) != 4 || used != 14) {
      return "has no time";
    }
    if (m > 59 || sec > 59) {
      return "has an impossible time";
    }
    double const t = h * 3600 + m * 60 + sec + ms / 1000.0;
    if (t < st.clock - 0.01 || t > st.clock + slack) {
      return pbt::cat("tells the time ", t, ", expected ", st.clock, " or up to ", slack, " later");
    }
    at += 14;
    if (!eat(" ")) {
      return "has no space after the time";
    }
  }
  if (!eat(std::string(NAMES[op.level]) + " - ")) {
    return "has no level";
  }
  std::string const tail = st.colour ? "\033[0m" : "";
  if (line.size() < at + tail.size() || line.compare(line.size() - tail.size(), tail.size(), tail) != 0) {
    return "does not reset the colour";
  }
  std::string const body = line.substr(at, line.size() - tail.size() - at);
  size_t k = 0;
  bool const full = line.size() >= 240; // long messages may be cut there
  for (auto const & w : op.want) {
    if (w.real) {
      if (full && body.find_first_not_of("0123456789+-.einfa", k) == std::string::npos) {
        return ""; // cut within the number
      }
      // the text of a number that ends before the end of the message
      char * end = nullptr;
      double const v = std::strtod(body.c_str() + k, &end);
      auto const e = static_cast<size_t>(end - body.c_str());
      if (e >= body.size()) {
        return full ? "" : "ends with a number, which should be followed by its unit";
      }
      if (e == k) {
        return pbt::cat("has no number at ", k);
      }
      if (std::fabs(v - w.value) > 1e-6 + 1e-5 * std::fabs(w.value)) {
        return pbt::cat("tells ", v, " for ", w.value);
      }
      k = e;
      continue;
    }
    size_t const n = std::min(w.text.size(), body.size() - k);
    if (body.compare(k, n, w.text, 0, n) != 0) {
      return pbt::cat("differs from \"", w.text, "\" at ", k);
    }
    if (n < w.text.size()) {
      return full ? "" : pbt::cat("ends before \"", w.text, "\"");
    }
    k += n;
  }
  return k == body.size() ? "" : "has more text than its arguments";
}

auto
lines(std::string const & t) -> std::vector<std::string>
{
  std::vector<std::string> v;
  std::string cur;
  for (char const ch : t) {
    if (ch == '\n') {
      v.push_back(cur);
      cur.clear();
    } else {
      cur += ch;
    }
  }
  if (!cur.empty()) {
    v.push_back(cur + " (no newline)");
  }
  return v;
}

void
session(pbt::Src & s, pbt::Case & c, bool lengthy)
{
  std::vector<Op> ops;
  int const n = s.irange(1, 25);
  bool const starts = s.oneIn(150); // with the library's own initialisation
  bool const harmless = s.coin();   // errors do not stop the program at first
  if (harmless) {
    Op op;
    op.kind = 4;
    op.flag = false;
    ops.push_back(op);
  }
  for (int i = 0; i < n; ++i) {
    Op op;
    op.via_settings = s.coin();
    op.flag = s.coin();
    if (s.below(3) != 0) {
      op.level = s.irange(1, 4);
      op.form = s.oneIn(6) ? s.irange(1, 2) : 0;
      if (op.form == 1) {
        op.want = {{"count -7 true of 18446744073709551615", false, 0}};
      } else if (op.form == 2) {
        op.want = {{"a string that is longer than the small one/view-128xfalse", false, 0}};
      } else {
        for (int k = s.irange(0, 6); k > 0 && op.args.size() < 6; --k) {
          genArg(s, op, lengthy);
        }
        if (op.args.size() > 6) { // the last unit did not fit
          op.args.resize(5);
          op.want.resize(5);
        }
        // too long for the buffer only when asked for
        size_t len = 40;
        for (auto const & w : op.want) {
          len += w.real ? static_cast<size_t>(12 + std::max(0.0, std::log10(std::fabs(w.value) + 1))) : w.text.size();
        }
        if (!lengthy && len > 230) {
          op.args.clear();
          op.want.clear();
        }
        if (len > 256) {
          c.label("a message longer than the buffer");
        }
      }
    } else {
      op.kind = s.irange(1, 6);
      op.level = s.irange(0, 4);
      op.seconds = s.oneIn(3) ? s.irange(0, 70) : s.irange(0, 99 * 3600);
      op.seconds += s.irange(0, 999) / 1000.0;
    }
    ops.push_back(op);
  }
  c.desc << ops.size() << " operations";
  for (auto const & op : ops) {
    c.desc << "; " << op.kind << " " << op.level << " " << op.flag;
    if (op.kind == 0) {
      for (auto const & w : op.want) {
        c.desc << " [" << (w.real ? pbt::cat(w.value) : w.text) << "]";
      }
    }
  }
  //------------------------------------------------------------------ run
  std::string const out = c.dir() + "/out";
  std::string const err = c.dir() + "/err";
  std::string const rep = c.dir() + "/report";
  fflush(stdout);
  fflush(stderr);
  auto const t0 = std::chrono::steady_clock::now();
  pid_t const pid = fork();
  if (pid == 0) {
    int const fo = open(out.c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_APPEND, 0600);
    int const fe = open(err.c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_APPEND, 0600);
    FILE * const fr = fopen(rep.c_str(), "w");
    dup2(fo, 1);
    dup2(fe, 2);
    logger::reset();
    if (starts) {
      um2::initialize();
    }
    for (auto & op : ops) {
      perform(op);
      fprintf(fr, "%d %d %d %d %s\n", um2::settings::logger::level, int(um2::settings::logger::timestamped),
              int(um2::settings::logger::colorized), int(um2::settings::logger::exit_on_error),
              logger::buffer[0] == '\0' ? "" : logger::getLastMessage().data());
      fflush(fr);
    }
    fflush(stdout);
    fflush(stderr);
    _exit(77);
  }
  int status = 0;
  REQUIRE(pid > 0 && waitpid(pid, &status, 0) == pid, "no separate process");
  double const slack = 0.05 + std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  //------------------------------------------------------------------ the model
  State st;
  auto const o = lines(slurp(out));
  auto const e = lines(slurp(err));
  auto const r = lines(slurp(rep));
  size_t io = 0;
  size_t ie = 0;
  if (starts) {
    st.colour = false;
    REQUIRE(!o.empty() && o[0].ends_with("INFO - Initializing UM2"), "initialisation printed ", o.empty() ? "nothing" : o[0]);
    io = 1;
    c.label("initialised");
  }
  int printed = 0;
  int held = 0;
  bool stopped = false;
  std::string last;
  bool any = starts;
  for (size_t i = 0; i < ops.size() && !stopped; ++i) {
    auto const & op = ops[i];
    std::string what;
    switch (op.kind) {
    case 0: {
      if (op.level > st.level) {
        ++held;
        break;
      }
      ++printed;
      auto const & from = op.level == 1 ? e : o;
      size_t & k = op.level == 1 ? ie : io;
      REQUIRE(k < from.size(), "operation ", i, ": a message at level ", op.level, " with the level at ", st.level,
              " was not printed");
      last = from[k];
      any = true;
      ++k;
      auto const wrong = matchMessage(last, st, op, slack);
      REQUIRE(wrong.empty(), "operation ", i, ": the message \"", last, "\" ", wrong);
      stopped = op.level == 1 && st.fatal;
      break;
    }
    case 1:
      st.level = op.level;
      break;
    case 2:
      st.stamp = op.flag;
      break;
    case 3:
      st.colour = op.flag;
      break;
    case 4:
      st.fatal = op.flag;
      break;
    case 5:
      st = State();
      break;
    default:
      st.clock = op.seconds;
    }
    if (!stopped) {
      REQUIRE(i < r.size(), "operation ", i, ": the process ended");
      std::string const set = pbt::cat(st.level, " ", int(st.stamp), " ", int(st.colour), " ", int(st.fatal), " ");
      REQUIRE(r[i].starts_with(set), "operation ", i, ": settings and last message ", r[i], ", expected ", set);
      if (any && !starts) {
        REQUIRE(r[i].substr(set.size()) == last, "operation ", i, ": recorded \"", r[i].substr(set.size()), "\", printed \"",
                last, "\"");
      }
    } else {
      REQUIRE(r.size() <= i, "operation ", i, ": the process went on after an error that should stop it");
    }
  }
  REQUIRE(io == o.size() && ie == e.size(), "more was printed than asked for: ", io < o.size() ? o[io] : e[ie]);
  REQUIRE(WIFEXITED(status), "the process ended with signal ", WTERMSIG(status));
  REQUIRE(WEXITSTATUS(status) == (stopped ? 1 : 77), "the process ended with ", WEXITSTATUS(status),
          stopped ? ", expected 1" : ", expected to go on");
  c.label(stopped ? "stopped by an error" : "ran to the end");
  c.nontrivial(printed > 1 && held > 0);
}

PBT_SUB(messages, 5000, 100000, "messages both printed and held back")
{
  session(s, c, false);
}

PBT_SUB(long_messages, 2500, 50000, "messages both printed and held back")
{
  session(s, c, true);
}

// Starting and ending the library, with output to terminals or files
PBT_SUB(lifecycle, 120, 3000, "several starts or ends")
{
  bool const tty_out = s.coin();
  bool const tty_err = s.coin();
  struct Step {
    int kind; // 0 start, 1 end, 2 settings changed
    bool via_c;
    int level;
  };
  std::vector<Step> steps;
  for (int i = s.irange(1, 5); i > 0; --i) {
    steps.push_back({s.irange(0, 2), s.coin(), s.irange(0, 4)});
  }
  c.desc << "output to a " << (tty_out ? "terminal" : "file") << ", errors to a " << (tty_err ? "terminal" : "file") << ":";
  for (auto const & st : steps) {
    c.desc << (st.kind == 0 ? " start" : st.kind == 1 ? " end" : pbt::cat(" level ", st.level)) << (st.via_c ? "(C)" : "");
  }
  std::string const rep = c.dir() + "/report";
  fflush(stdout);
  fflush(stderr);
  pid_t const pid = fork();
  if (pid == 0) {
    int fd[2];
    int master[2] = {-1, -1};
    for (int i = 0; i < 2; ++i) {
      if (i == 0 ? tty_out : tty_err) {
        master[i] = posix_openpt(O_RDWR | O_NOCTTY);
        grantpt(master[i]);
        unlockpt(master[i]);
        fd[i] = open(ptsname(master[i]), O_RDWR | O_NOCTTY);
        if (fd[i] < 0) {
          _exit(78);
        }
      } else {
        fd[i] = open((c.dir() + (i == 0 ? "/out" : "/err")).c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
      }
    }
    dup2(fd[0], 1);
    dup2(fd[1], 2);
    FILE * const fr = fopen(rep.c_str(), "w");
    logger::reset();
    for (auto const & st : steps) {
      if (st.kind == 0) {
        st.via_c ? um2Initialize() : um2::initialize();
      } else if (st.kind == 1) {
        st.via_c ? um2Finalize() : um2::finalize();
      } else {
        logger::level = st.level;
        logger::timestamped = st.via_c;
        logger::exit_on_error = !st.via_c;
      }
      std::string last = logger::buffer;
      if (auto const at = last.find("INFO"); at != std::string::npos) {
        last = last.substr(at);
      }
      fprintf(fr, "%d %d %d %d %d %s\n", um2::settings::logger::level, int(um2::settings::logger::timestamped),
              int(um2::settings::logger::colorized), int(um2::settings::logger::exit_on_error), gmsh::isInitialized(),
              last.c_str());
      fflush(fr);
    }
    _exit(77);
  }
  int status = 0;
  REQUIRE(pid > 0 && waitpid(pid, &status, 0) == pid, "no separate process");
  pbt::discardUnless(!WIFEXITED(status) || WEXITSTATUS(status) != 78); // no terminals to be had
  auto const r = lines(slurp(rep));
  State st;
  bool running = false;
  std::string last;
  for (size_t i = 0; i < steps.size(); ++i) {
    REQUIRE(i < r.size(), "step ", i, ": the process ended");
    if (steps[i].kind == 0) {
      st = State();
      st.colour = tty_out && tty_err;
      running = true;
      last = "INFO - Initializing UM2";
    } else if (steps[i].kind == 1) {
      running = false;
      last = st.level >= 3 ? "INFO - Finalizing UM2" : last;
    } else {
      st.level = steps[i].level;
      st.stamp = steps[i].via_c;
      st.fatal = !steps[i].via_c;
    }
    std::string const want =
        pbt::cat(st.level, " ", int(st.stamp), " ", int(st.colour), " ", int(st.fatal), " ", int(running), " ", last);
    REQUIRE(r[i].starts_with(want), "step ", i, ": level, times, colours, stopping, CAD running, message ", r[i], ", expected ",
            want);
  }
  REQUIRE(WIFEXITED(status) && WEXITSTATUS(status) == 77, "the process ended with status ", status);
  c.label(tty_out && tty_err ? "both terminals" : "a file");
  c.nontrivial(steps.size() > 1);
}

} // namespace

auto
main(int argc, char ** argv) -> int
{
  pbt::Options o;
  o.assumptions = {"numbers with a fraction are compared by value to 1e-6", "times are compared to the run time of the case",
                   "text holds no line breaks or null characters"};
  return pbt::run("C34", "printed and recorded messages against a model of the settings and the text", o, argc, argv);
}

#include "engine.hpp"
#include <algorithm>
#include <chrono>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>

namespace mc {

bool logging = false;
static std::string log_text;
static bool thorough_tier = false;
bool is_thorough() { return thorough_tier; }

void logf(const char *fmt, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  log_text += "  ";
  log_text += buf;
  log_text += "\n";
  // keep what was logged even if the library crashes next
  fprintf(stderr, "LOG   %s\n", buf);
}

void fail(const std::string &msg, const std::string &key) {
  throw Violation{msg, key};
}

uint64_t hash_bytes(uint64_t h, const void *p, size_t n) {
  auto c = static_cast<const unsigned char *>(p);
  for (size_t i = 0; i < n; ++i)
    h = (h ^ c[i]) * 0x100000001b3ull;
  return hash_u64(h, n);
}

std::vector<Space> &spaces() {
  static std::vector<Space> s;
  return s;
}

// ---------------------------------------------------------------- statistics
class HashSet { // open addressing, 64-bit keys
  std::vector<uint64_t> t;
  size_t n = 0;

public:
  HashSet() : t(1024, 0) {}
  void add(uint64_t h) {
    if (h == 0)
      h = 1;
    if (n * 2 > t.size()) {
      std::vector<uint64_t> o(t.size() * 2, 0);
      o.swap(t);
      n = 0;
      for (auto v : o)
        if (v)
          add(v);
    }
    size_t i = h & (t.size() - 1);
    while (t[i]) {
      if (t[i] == h)
        return;
      i = (i + 1) & (t.size() - 1);
    }
    t[i] = h;
    ++n;
  }
  std::vector<uint64_t> all() const {
    std::vector<uint64_t> r;
    for (auto v : t)
      if (v)
        r.push_back(v);
    return r;
  }
};
static HashSet states_, outcomes_;
static uint64_t transitions_ = 0;

// ------------------------------------------------------------ shared memory
constexpr int MAXSP = 256;
struct Slot {
  volatile uint64_t heartbeat;
  volatile int space;
  volatile int npicks;
  int picks[240];
  volatile uint64_t executions;
  volatile uint64_t per_space[MAXSP];
  double secs[MAXSP], longest[MAXSP];
  volatile int first_n[MAXSP]; // picks of the first execution of each space
  int first[MAXSP][60];
  volatile int failed;
  char msg[8000];
  char key[1000];
};
static Slot *slots = nullptr;
static Slot *my_slot = nullptr;

int Chooser::pick(int n) {
  if (n <= 0)
    throw Prune{};
  if (pos < picks.size()) {
    if (picks[pos] >= n || (!replaying && lims[pos] != n)) {
      fprintf(stderr, "HARNESS: divergence while replaying a prefix\n");
      _exit(97);
    }
    if (replaying && pos >= lims.size())
      lims.push_back(n);
    return picks[pos++];
  }
  picks.push_back(0);
  lims.push_back(n);
  ++pos;
  if (my_slot) {
    if (picks.size() > 230) {
      fprintf(stderr, "HARNESS: too many picks\n");
      _exit(97);
    }
    my_slot->picks[picks.size() - 1] = 0;
    my_slot->npicks = static_cast<int>(picks.size());
  }
  return 0;
}

// The shard decision is kept in the pick stack as a pseudo pick (limit -1), so
// that siblings below the shard point belong to the same worker.
void Chooser::shard() {
  sharded = true;
  if (replaying)
    return;
  if (pos < picks.size()) {
    if (lims[pos] != -1) {
      fprintf(stderr, "HARNESS: shard divergence\n");
      _exit(97);
    }
    ++pos;
    return;
  }
  bool mine = (shard_counter++ % nworkers) == static_cast<uint64_t>(worker);
  if (!mine)
    throw Skip{};
  picks.push_back(0);
  lims.push_back(-1);
  ++pos;
  if (my_slot) {
    my_slot->picks[picks.size() - 1] = -1;
    my_slot->npicks = static_cast<int>(picks.size());
  }
}

void Chooser::state(uint64_t h) { states_.add(h); }
void Chooser::outcome(uint64_t h) { outcomes_.add(h); }
void Chooser::step(uint64_t n) { transitions_ += n; }

static bool run_body(const Space &sp, Chooser &ch, bool &counted,
                     Violation &v) {
  counted = false;
  try {
    sp.body(ch);
    counted = true;
    return true;
  } catch (Skip &) {
    return true;
  } catch (Prune &) {
    return true;
  } catch (Violation &x) {
    v = x;
    return false;
  } catch (std::exception &e) {
    v = Violation{std::string("unexpected exception from the library: ") +
                      e.what(),
                  ""};
    return false;
  } catch (...) {
    v = Violation{"unexpected non-standard exception from the library", ""};
    return false;
  }
}

int world = 0;
#ifdef MC_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static void fill_hook(const volatile void *p, size_t n) {
  memset(const_cast<void *>(p), world ? 0x3d : 0xa5, n);
}
static void free_hook(const volatile void *) {}
#endif
// The sanitizer build decides memory safety only.  A wrong value in one of the
// functional spaces is a memory error exactly if it depends on bytes that
// belong to no tensor: the execution is repeated in the other world.
static bool only_functional(const Space &sp, const Chooser &ch,
                            const Violation &v) {
  if (!is_asan() || sp.name.rfind("c16", 0) == 0)
    return false;
  Chooser c2;
  c2.thorough = ch.thorough;
  c2.replaying = true;
  for (size_t i = 0; i < ch.picks.size(); ++i)
    if (ch.lims[i] != -1)
      c2.picks.push_back(ch.picks[i]);
  bool counted;
  Violation v2;
  world = 1;
  bool ok = run_body(sp, c2, counted, v2);
  world = 0;
  return !ok && v2.msg == v.msg;
}
static std::map<std::string, std::string> known; // key -> text
static std::set<std::string> known_hit;

static void copy_str(char *dst, size_t n, const std::string &s) {
  size_t m = std::min(n - 1, s.size());
  memcpy(dst, s.data(), m);
  dst[m] = 0;
}

static void worker_main(int w, int n, const std::string &dir,
                        const std::vector<int> &which) {
  my_slot = &slots[w];
#ifdef MC_ASAN
  __sanitizer_install_malloc_and_free_hooks(fill_hook, free_hook);
#endif
  for (int si : which) {
    const Space &sp = spaces()[si];
    Chooser ch;
    ch.thorough = thorough_tier;
    ch.worker = w;
    ch.nworkers = n;
    my_slot->space = si;
    my_slot->npicks = 0;
    while (true) {
      ch.pos = 0;
      ch.sharded = false;
      ++my_slot->heartbeat;
      bool counted;
      Violation v;
      auto e0 = std::chrono::steady_clock::now();
      bool ok = run_body(sp, ch, counted, v);
      double es = std::chrono::duration<double>(
                      std::chrono::steady_clock::now() - e0)
                      .count();
      my_slot->secs[si] += es;
      my_slot->longest[si] = std::max(my_slot->longest[si], es);
      if (!ok) {
        if (!v.key.empty() && known.count(v.key)) {
          known_hit.insert(v.key);
          counted = true;
        } else if (only_functional(sp, ch, v)) {
          counted = true; // the functional checks report it
        } else {
          copy_str(my_slot->msg, sizeof my_slot->msg, v.msg);
          copy_str(my_slot->key, sizeof my_slot->key, v.key);
          my_slot->failed = 1;
          _exit(1);
        }
      }
      if (counted) {
        ++my_slot->executions;
        if (my_slot->per_space[si]++ == 0 && ch.picks.size() < 60) {
          int k = 0;
          for (size_t i = 0; i < ch.picks.size(); ++i)
            if (ch.lims[i] != -1)
              my_slot->first[si][k++] = ch.picks[i];
          my_slot->first_n[si] = k;
        }
        if (!ch.sharded) {
          fprintf(stderr, "HARNESS: space %s did not shard\n",
                  sp.name.c_str());
          _exit(97);
        }
      }
      // backtrack
      while (!ch.picks.empty() &&
             (ch.lims.back() == -1 || ch.picks.back() + 1 >= ch.lims.back())) {
        ch.picks.pop_back();
        ch.lims.pop_back();
      }
      if (ch.picks.empty())
        break;
      ++ch.picks.back();
      my_slot->picks[ch.picks.size() - 1] = ch.picks.back();
      my_slot->npicks = static_cast<int>(ch.picks.size());
    }
  }
  auto dump = [&](const HashSet &h, const char *nm) {
    auto a = h.all();
    std::ofstream o(dir + "/" + nm + "." + std::to_string(w),
                    std::ios::binary);
    o.write(reinterpret_cast<const char *>(a.data()), a.size() * 8);
  };
  dump(states_, "states");
  dump(outcomes_, "outcomes");
  std::ofstream o(dir + "/count." + std::to_string(w));
  o << transitions_ << "\n";
  for (auto &k : known_hit)
    o << k << "\n";
  o.close();
  _exit(0);
}

static std::string jesc(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c == '\n')
      r += "\\n";
    else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else
      r += c;
  }
  return r + "\"";
}

// Runs one execution alone in a child. Returns "" when it passes.
static std::string run_alone(int si, const std::vector<int> &picks,
                             int timeout_s, std::string &log,
                             const std::string &dir) {
  std::string lf = dir + "/replay.log";
  fflush(stdout);
  fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    FILE *f = freopen(lf.c_str(), "w", stderr);
    (void)f;
    setvbuf(stderr, nullptr, _IONBF, 0);
    // sanitizer runtimes write to fd 2, which freopen redirected
#ifdef MC_ASAN
    __sanitizer_install_malloc_and_free_hooks(fill_hook, free_hook);
#endif
    logging = true;
    my_slot = nullptr;
    Chooser ch;
    ch.thorough = thorough_tier;
    ch.replaying = true;
    ch.picks = picks;
    bool counted;
    Violation v;
    bool ok = run_body(spaces()[si], ch, counted, v);
    if (ok)
      _exit(0);
    fprintf(stderr, "FAIL  %s\n", v.msg.c_str());
    _exit(1);
  }
  int st = 0;
  bool hang = false;
  auto t0 = std::chrono::steady_clock::now();
  while (true) {
    pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p)
      break;
    if (std::chrono::steady_clock::now() - t0 >
        std::chrono::seconds(timeout_s)) {
      kill(p, SIGKILL);
      waitpid(p, &st, 0);
      hang = true;
      break;
    }
    usleep(2000);
  }
  std::ifstream in(lf);
  std::stringstream ss;
  ss << in.rdbuf();
  log = ss.str();
  if (hang)
    return "does not terminate (no result after " + std::to_string(timeout_s) +
           " s)";
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
    return "";
  if (WIFEXITED(st) && WEXITSTATUS(st) == 97)
    return "HARNESS";
  if (WIFEXITED(st) && WEXITSTATUS(st) == 1) {
    auto i = log.rfind("FAIL  ");
    if (i != std::string::npos)
      return log.substr(i + 6, 4000);
  }
  std::string what = WIFSIGNALED(st)
                         ? "killed by signal " + std::to_string(WTERMSIG(st))
                         : "exit status " + std::to_string(WEXITSTATUS(st));
  auto i = log.find("ERROR: AddressSanitizer");
  if (i != std::string::npos)
    what += "; " + log.substr(i, log.find('\n', i) - i);
  return "the library crashed: " + what;
}

} // namespace mc

using namespace mc;

static void usage() {
  fprintf(stderr, "mc [--tier quick|thorough] [--workers N] [--dir D] "
                  "[--known FILE] [--out FILE] [--only SPACE] | --replay FILE | "
                  "--list\n");
  _exit(2);
}

namespace mc {
void (*child)() = nullptr;
}
int main(int argc, char **argv) {
  int nworkers = 8;
  std::string dir = "/tmp", out = "/dev/stdout", known_file, only, replay;
  bool list = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() -> std::string {
      if (++i >= argc)
        usage();
      return argv[i];
    };
    if (a == "--tier")
      thorough_tier = next() == "thorough";
    else if (a == "--workers")
      nworkers = std::stoi(next());
    else if (a == "--dir")
      dir = next();
    else if (a == "--known")
      known_file = next();
    else if (a == "--out")
      out = next();
    else if (a == "--only")
      only = next();
    else if (a == "--replay")
      replay = next();
    else if (a == "--list")
      list = true;
    else if (a == "--child") {
      if (mc::child)
        mc::child();
      return 0;
    }
    else
      usage();
  }
  if (list) {
    for (auto &s : spaces())
      printf("%s: %s\n", s.name.c_str(), s.bound.c_str());
    return 0;
  }
  if (!replay.empty()) { // plain, single-process replay of one execution
    std::ifstream in(replay);
    std::string line, space;
    std::vector<int> picks;
    while (std::getline(in, line)) {
      if (line.rfind("space ", 0) == 0)
        space = line.substr(6);
      if (line.rfind("tier ", 0) == 0)
        thorough_tier = line.substr(5) == "thorough";
      if (line.rfind("picks", 0) == 0) {
        std::stringstream ss(line.substr(5));
        int v;
        while (ss >> v)
          picks.push_back(v);
      }
    }
    for (auto &sp : spaces())
      if (sp.name == space) {
        logging = true;
        Chooser ch;
        ch.thorough = thorough_tier;
        ch.replaying = true;
        ch.picks = picks;
        bool counted;
        Violation v;
        if (run_body(sp, ch, counted, v)) {
          printf("replay: property holds on this execution\n");
          return 0;
        }
        printf("replay: VIOLATED: %s\n", v.msg.c_str());
        return 1;
      }
    fprintf(stderr, "no such space: %s\n", space.c_str());
    return 2;
  }
  if (!known_file.empty()) {
    std::ifstream in(known_file);
    std::string line;
    while (std::getline(in, line))
      if (!line.empty())
        known[line] = line;
  }
  if (spaces().size() > MAXSP) {
    fprintf(stderr, "HARNESS: too many spaces\n");
    return 3;
  }
  auto t0 = std::chrono::steady_clock::now();
  std::vector<int> which;
  for (size_t i = 0; i < spaces().size(); ++i)
    if (only.empty() || spaces()[i].name == only)
      which.push_back(static_cast<int>(i));
  slots = static_cast<Slot *>(mmap(nullptr, sizeof(Slot) * nworkers,
                                   PROT_READ | PROT_WRITE,
                                   MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::vector<pid_t> pids(nworkers, 0);
  std::vector<uint64_t> last(nworkers, 0);
  std::vector<std::chrono::steady_clock::time_point> when(
      nworkers, std::chrono::steady_clock::now());
  std::vector<int> alive;
  fflush(stdout);
  for (int w = 0; w < nworkers; ++w) {
    slots[w].space = which.empty() ? 0 : which[0];
    pid_t p = fork();
    if (p == 0) {
      std::string lf = dir + "/worker." + std::to_string(w) + ".log";
      FILE *f = freopen(lf.c_str(), "w", stderr);
      (void)f;
      worker_main(w, nworkers, dir, which);
    }
    pids[w] = p;
    alive.push_back(w);
  }
  int bad = -1;
  bool hang = false, harness = false, crashed = false;
  const int hang_s = getenv("MC_HANG") ? atoi(getenv("MC_HANG")) : 40;
  while (!alive.empty() && bad < 0) {
    usleep(5000);
    for (size_t k = 0; k < alive.size(); ++k) {
      int w = alive[k];
      int st;
      pid_t r = waitpid(pids[w], &st, WNOHANG);
      if (r == pids[w]) {
        alive.erase(alive.begin() + k);
        --k;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
          bad = w;
          if (WIFEXITED(st) && WEXITSTATUS(st) == 97)
            harness = true;
          crashed = WIFSIGNALED(st) ? WTERMSIG(st) != SIGKILL
                                    : WEXITSTATUS(st) != 1;
          break;
        }
        continue;
      }
      uint64_t hb = slots[w].heartbeat;
      auto now = std::chrono::steady_clock::now();
      if (hb != last[w]) {
        last[w] = hb;
        when[w] = now;
      } else if (now - when[w] > std::chrono::seconds(hang_s)) {
        bad = w;
        hang = true;
        break;
      }
    }
  }
  for (int w : alive) {
    kill(pids[w], SIGKILL);
    int st;
    waitpid(pids[w], &st, 0);
  }
  (void)hang;
  std::string vmsg, vlog, vspace, vpicks;
  if (bad >= 0) {
    Slot &s = slots[bad];
    std::vector<int> picks;
    for (int i = 0; i < s.npicks; ++i)
      if (s.picks[i] != -1)
        picks.push_back(s.picks[i]);
    vspace = spaces()[s.space].name;
    for (int p : picks)
      vpicks += " " + std::to_string(p);
    if (harness) {
      fprintf(stderr, "harness error in space %s, picks%s\n", vspace.c_str(),
              vpicks.c_str());
      return 3;
    }
    // replay before report: the same execution, alone, twice
    std::string l1, l2;
    std::string m1 = run_alone(s.space, picks, 90, l1, dir);
    std::string m2 = run_alone(s.space, picks, 90, l2, dir);
    if (m1 == "HARNESS" || m2 == "HARNESS") {
      fprintf(stderr, "harness error in space %s, picks%s\n", vspace.c_str(),
              vpicks.c_str());
      return 3;
    }
    if (m1.empty() || m2.empty()) {
      // Alone the execution passes, so the violation depends on the executions
      // that the worker ran before it.  Re-run the whole shard to confirm.
      std::string why = s.failed ? s.msg : "the library crashed or hung";
      bool observed = s.failed || crashed;
      int sidx = s.space;
      memset(&slots[bad], 0, sizeof(Slot));
      slots[bad].space = sidx;
      pid_t p = fork();
      if (p == 0) {
        std::string lf = dir + "/worker.again.log";
        FILE *f = freopen(lf.c_str(), "w", stderr);
        (void)f;
        worker_main(bad, nworkers, dir, which);
      }
      int st;
      uint64_t hb = 0;
      auto t = std::chrono::steady_clock::now();
      while (waitpid(p, &st, WNOHANG) != p) {
        usleep(5000);
        if (slots[bad].heartbeat != hb) {
          hb = slots[bad].heartbeat;
          t = std::chrono::steady_clock::now();
        } else if (std::chrono::steady_clock::now() - t >
                   std::chrono::seconds(90)) {
          kill(p, SIGKILL);
          waitpid(p, &st, 0);
          break;
        }
      }
      // A wrong value or a crash was observed; code under which the property
      // holds cannot produce one, so it counts even if it does not come back.
      // A hang or a kill from outside could be the machine's doing.
      bool again = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
      if (!again && !observed && !getenv("MC_HANG")) {
        // a stalled machine: explore everything again, with more patience
        setenv("MC_HANG", "300", 1);
        execv("/proc/self/exe", argv);
      }
      if (!again && !observed) {
        fprintf(stderr, "violation in space %s did not reproduce: %s\n",
                vspace.c_str(), why.c_str());
        return 4;
      }
      m1 = why + (again ? "" : " (not on every run)") + " (only after the executions that precede it in shard " +
           std::to_string(bad) + " of " + std::to_string(nworkers) + ")";
      l1 = "";
    }
    vmsg = m1;
    vlog = l1;
  }
  // ------------------------------------------------------------- summary
  auto merge = [&](const char *nm) {
    std::vector<uint64_t> all;
    for (int w = 0; w < nworkers; ++w) {
      std::ifstream in(dir + "/" + nm + "." + std::to_string(w),
                       std::ios::binary);
      uint64_t v;
      while (in.read(reinterpret_cast<char *>(&v), 8))
        all.push_back(v);
    }
    std::sort(all.begin(), all.end());
    all.erase(std::unique(all.begin(), all.end()), all.end());
    return all.size();
  };
  uint64_t trans = 0, exec = 0;
  std::set<std::string> hits;
  std::vector<std::string> samples;
  // one execution of each space, written out by replaying it with the log on
  if (bad < 0)
    for (int si : which)
      for (int w = nworkers - 1; w >= 0; --w)
        if (slots[w].per_space[si] && slots[w].first_n[si] > 0) {
          std::vector<int> pk(slots[w].first[si],
                              slots[w].first[si] + slots[w].first_n[si]);
          std::string lg;
          run_alone(si, pk, 90, lg, dir);
          std::string one;
          for (size_t i = 0; i < lg.size(); ++i)
            if (lg.compare(i, 6, "LOG   ") == 0)
              i += 5;
            else
              one += lg[i] == '\n' ? ';' : lg[i];
          samples.push_back(spaces()[si].name + ": " + one.substr(0, 700));
          break;
        }
  for (int w = 0; w < nworkers; ++w) {
    std::ifstream in(dir + "/count." + std::to_string(w));
    uint64_t t = 0;
    if (in >> t)
      trans += t;
    std::string line;
    std::getline(in, line);
    while (std::getline(in, line))
      if (!line.empty())
        hits.insert(line);
    exec += slots[w].executions;
  }
  size_t nstates = merge("states"), nout = merge("outcomes");
  double wall = std::chrono::duration<double>(
                    std::chrono::steady_clock::now() - t0)
                    .count();
  std::ofstream o(out);
  o << "{\n \"executions\": " << exec << ",\n \"states\": " << nstates
    << ",\n \"transitions\": " << trans << ",\n \"outcomes\": " << nout
    << ",\n \"wall_s\": " << wall << ",\n \"spaces\": [";
  bool first = true;
  for (int i : which) {
    uint64_t n = 0;
    double cpu = 0, longest = 0;
    for (int w = 0; w < nworkers; ++w) {
      n += slots[w].per_space[i];
      cpu += slots[w].secs[i];
      longest = std::max(longest, slots[w].longest[i]);
    }
    if (getenv("MC_TIMES"))
      fprintf(stderr, "%8.1f s, longest %6.2f s, %9llu executions  %s\n", cpu, longest,
              static_cast<unsigned long long>(n), spaces()[i].name.c_str());
    o << (first ? "" : ", ") << "{\"name\": " << jesc(spaces()[i].name)
      << ", \"bound\": " << jesc(spaces()[i].bound) << ", \"executions\": " << n
      << "}";
    first = false;
  }
  o << "],\n \"samples\": [";
  first = true;
  for (auto &s : samples) {
    o << (first ? "" : ", ") << jesc(s);
    first = false;
  }
  o << "],\n \"known_hit\": [";
  first = true;
  for (auto &s : hits) {
    o << (first ? "" : ", ") << jesc(s);
    first = false;
  }
  o << "],\n \"violation\": ";
  if (bad < 0)
    o << "null\n}\n";
  else
    o << "{\"space\": " << jesc(vspace) << ", \"picks\": " << jesc(vpicks)
      << ", \"key\": " << jesc(slots[bad].key) << ", \"msg\": " << jesc(vmsg)
      << ", \"log\": " << jesc(vlog) << "}\n}\n";
  return bad < 0 ? 0 : 1;
}

// Bounded exhaustive explorer.
//
// A Space is a body that asks the Chooser for every nondeterministic decision
// (pick).  The explorer enumerates the complete decision tree depth first: each
// leaf is one execution of the real library next to the reference model.  The
// tree is sharded over forked worker processes, so that a crash, a sanitizer
// report or a hang of the library is an observation about one execution and
// not the end of the check.  No sampling, no time cap: a run either covers the
// whole tree or stops at a violation.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <stdexcept>
#include <string>
#include <vector>

namespace mc {

struct Skip {};                    // execution belongs to another shard
struct Prune {};                   // execution is outside of the space
struct Violation {                 // property violated in this execution
  std::string msg;
  std::string key;                 // identity for the known-findings file
};

extern bool logging;               // true only while replaying one execution
void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define LOG(...)                                                               \
  do {                                                                         \
    if (mc::logging)                                                           \
      mc::logf(__VA_ARGS__);                                                   \
  } while (0)

[[noreturn]] void fail(const std::string &msg, const std::string &key = "");

uint64_t hash_bytes(uint64_t h, const void *p, size_t n);
inline uint64_t hash_u64(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  return h;
}

class Chooser {
public:
  int pick(int n);                         // 0..n-1
  template <typename T> const T &of(const std::vector<T> &v) {
    return v[pick(static_cast<int>(v.size()))];
  }
  bool flip() { return pick(2) != 0; }
  void shard();                            // call once per execution
  void prune() { throw Prune{}; }
  void state(uint64_t h);                  // a distinct model state was reached
  void outcome(uint64_t h);                // a distinct observation was made
  void step(uint64_t n = 1);               // transitions executed on the library
  bool thorough = false;

  // engine side
  std::vector<int> picks, lims;
  size_t pos = 0;
  bool replaying = false;
  int worker = 0, nworkers = 1;
  uint64_t shard_counter = 0;
  bool sharded = false;
};

using Body = std::function<void(Chooser &)>;
struct Space {
  std::string name;
  std::string bound;                       // what the space covers, for evidence
  Body body;
};
std::vector<Space> &spaces();
struct Reg {
  Reg(const char *file, const char *name, const char *bound, Body b) {
    std::string f = file; // the unit's name makes the space's name unique
    f = f.substr(f.rfind('/') + 1);
    spaces().push_back({f.substr(0, f.find('.')) + ": " + name, bound, std::move(b)});
  }
};
#define SPACE_CAT2(a, b) a##b
#define SPACE_CAT(a, b) SPACE_CAT2(a, b)
#define SPACE(name, bound)                                                     \
  static void SPACE_CAT(space_, __LINE__)(mc::Chooser &);                      \
  static mc::Reg SPACE_CAT(reg_, __LINE__)(__FILE__, name, bound,                       \
                                           SPACE_CAT(space_, __LINE__));       \
  static void SPACE_CAT(space_, __LINE__)(mc::Chooser & ch)

// What this program does, instead of exploring, when it is started with --child.
extern void (*child)();

bool is_thorough(); // tier of this run, constant
// The sanitizer build only looks for invalid accesses and leaks; the deepest
// functional spaces are one level shallower there in the quick tier.
#ifdef MC_ASAN
inline bool is_asan() { return true; }
#else
inline bool is_asan() { return false; }
#endif

// Everything that is not part of a tensor (fresh heap memory in the sanitizer
// build, storage around a view) holds other bytes in world 1 than in world 0.
extern int world;

} // namespace mc

// Small property-based testing engine: every random decision of a case is a
// bounded draw recorded in shared memory, so a case (also one that crashed the
// process) is its list of draws. Shrinking and replay work on that list.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace pbt {

struct Fail {
  std::string msg;
};
struct Discard {};

// --- draws (0 is always the simplest outcome) -------------------------------
uint64_t draw(uint64_t bound); // uniform in [0, bound)
inline int64_t range(int64_t lo, int64_t hi) {
  return lo + (int64_t)draw((uint64_t)(hi - lo) + 1);
}
// true with probability num/den; shrinks to false
inline bool chance(unsigned num, unsigned den) {
  return draw(den) >= den - num;
}
// 0..max, smaller values more likely; bounded by the size of the case
size_t sized(size_t max);
inline uint64_t bits64() {
  uint64_t hi = draw(1ull << 32);
  return hi << 32 | draw(1ull << 32);
}
template <class C> auto &pick(C &c) { return c[draw(c.size())]; }
// index drawn according to weights; shrinks to index 0
size_t weighted(std::initializer_list<unsigned> w);
unsigned size(); // 0..100, grows over the run

template <class T> void shuffle(std::vector<T> &v) {
  for (size_t i = v.size(); i > 1; i--) {
    size_t j = i - 1 - draw(i);
    std::swap(v[i - 1], v[j]);
  }
}

// Writes a file with holes: each part is followed by that many absent bytes.
// false if the file system does not support it
struct Part {
  std::string text;
  uint64_t hole;
};
bool write_sparse(const std::string &path, const std::vector<Part> &parts);

// --- reporting ---------------------------------------------------------------
void label(const char *name); // class of the case, counted once per call
inline void label_if(bool b, const char *name) {
  if (b)
    label(name);
}
void nontrivial();                   // by the rule stated with the property
void sample(const std::string &s);   // description of the case
bool verbose();                      // replaying with notes
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail(const char *fmt, ...)
    __attribute__((format(printf, 1, 2)));
[[noreturn]] void discard();
bool thorough();
std::string fmt(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

#define REQUIRE(cond, ...)                                                     \
  do {                                                                         \
    if (!(cond))                                                               \
      pbt::fail(__VA_ARGS__);                                                  \
  } while (0)

// --- environment ---------------------------------------------------------------
// An empty directory of this case (created on first use, removed afterwards).
const std::string &dir();
void write_file(const std::string &path, const void *data, size_t n);
inline void write_file(const std::string &path, const std::string &s) {
  write_file(path, s.data(), s.size());
}
std::string read_file(const std::string &path);
// choices of the running case so far / replay them in a helper
std::vector<uint64_t> choices();

// --- leak accounting ------------------------------------------------------------
// Runs f and returns the number of heap blocks and file descriptors that were
// acquired by it and are still held (measured three times, the minimum wins, so
// that one-time initialisation in libc is not counted). f has to be repeatable.
struct Leaks {
  long blocks;
  long fds;
  std::string where;
};
Leaks leaks_of(const std::function<void()> &f);
void alloc_hooks_install();

// --- registration ---------------------------------------------------------------
struct Property {
  const char *id;
  void (*fn)();
  unsigned long quick_cases, thorough_cases;
  const char *rule;
};
struct Register {
  Register(Property p);
};
// the check of another property in the same binary
void (*check_of(const char *id))();
#define PROPERTY(id, quick, thorough_, rule)                                   \
  static void prop_##id();                                                     \
  static pbt::Register reg_##id({#id, prop_##id, quick, thorough_, rule});     \
  static void prop_##id()

// A property that compares with another build talks to it through this.
// Returns the transcript the peer binary (started with --serve) computes for
// the current case's draws.
std::string peer_transcript(const char *env_with_path, const char *fn);
struct Transcript {
  Transcript(const char *name, std::string (*fn)());
};
std::string run_transcript_fresh(std::string (*fn)()); // re-run draws locally

std::string hexdump(const void *p, size_t n);

} // namespace pbt

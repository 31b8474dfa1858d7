#include "pbt.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <poll.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define PBT_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
#endif
#if __has_feature(thread_sanitizer)
#define PBT_TSAN 1
#endif
#endif
#ifdef PBT_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*malloc_hook)(const volatile void *, size_t),
    void (*free_hook)(const volatile void *));
extern "C" size_t __asan_get_alloc_stack(void *addr, void **trace, size_t size,
                                         int *thread_id);
extern "C" void __sanitizer_symbolize_pc(void *pc, const char *fmt,
                                         char *out_buf, size_t out_buf_size);
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:"
         "exitcode=99:max_malloc_fill_size=4096:malloc_fill_byte=165:"
         "detect_stack_use_after_return=0:quarantine_size_mb=8:"
         "handle_abort=1:max_allocation_size_mb=3000";
}
extern "C" const char *__ubsan_default_options() {
  return "print_stacktrace=1:halt_on_error=1:exitcode=98";
}
#endif
#ifdef PBT_TSAN
extern "C" const char *__tsan_default_options() {
  return "exitcode=97:halt_on_error=1:report_signal_unsafe=0";
}
#endif

namespace pbt {

static const size_t MAXC = 1 << 18;
static const size_t MAXH = 1 << 18;
static const size_t NLABEL = 200;
static const size_t NSAMPLE = 3;

struct Shm {
  volatile uint64_t case_index;
  volatile uint64_t cases_done, nontrivial_cases, discarded;
  volatile uint64_t progress;
  volatile int stop;
  volatile int in_case;
  volatile int cur_nontrivial;
  char msg[8192];
  struct {
    char name[56];
    uint64_t n;
  } labels[NLABEL];
  volatile uint32_t nlabels;
  char samples[NSAMPLE][3000];
  volatile uint32_t nsamples;
  volatile uint64_t nhash;
  uint64_t hash[MAXH];
  volatile uint32_t nchoices;
  uint64_t choices[MAXC];
};

static Shm *shm;
static uint64_t rng_state;
static bool replaying = false;
static std::vector<uint64_t> replay;
static unsigned cur_size;
static bool g_verbose = false, g_thorough = false;
static std::string base_dir, case_dir_path;
static bool case_dir_made = false;
static bool in_property = false;

static std::vector<Property> &props() {
  static std::vector<Property> p;
  return p;
}
Register::Register(Property p) { props().push_back(p); }
void (*check_of(const char *id))() {
  for (auto &p : props())
    if (!strcmp(p.id, id))
      return p.fn;
  return nullptr;
}
static std::map<std::string, std::string (*)()> &transcripts() {
  static std::map<std::string, std::string (*)()> t;
  return t;
}
Transcript::Transcript(const char *name, std::string (*fn)()) {
  transcripts()[name] = fn;
}

static uint64_t splitmix(uint64_t &s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static uint64_t hash_str(const char *s) {
  uint64_t h = 1469598103934665603ull;
  for (; *s; s++)
    h = (h ^ (unsigned char)*s) * 1099511628211ull;
  return h;
}

uint64_t draw(uint64_t bound) {
  if (bound <= 1)
    return 0;
  uint64_t v;
  uint32_t n = shm->nchoices;
  if (replaying)
    v = n < replay.size() ? std::min(replay[n], bound - 1) : 0;
  else
    v = n < MAXC ? splitmix(rng_state) % bound : 0;
  if (n < MAXC) {
    shm->choices[n] = v;
    shm->nchoices = n + 1;
  }
  return v;
}
unsigned size() { return cur_size; }
size_t sized(size_t max) {
  // mostly small, sometimes up to the size-scaled maximum
  size_t cap = std::max<size_t>(std::min<size_t>(max, 2),
                                max * (cur_size + 5) / 105);
  cap = std::min(cap, max);
  switch (draw(4)) {
  case 0:
    return draw(std::min<size_t>(cap, 1) + 1);
  case 1:
    return draw(std::min<size_t>(cap, 4) + 1);
  case 2:
    return draw(std::max<size_t>(cap / 3, std::min<size_t>(cap, 2)) + 1);
  default:
    return draw(cap + 1);
  }
}
size_t weighted(std::initializer_list<unsigned> w) {
  uint64_t sum = 0;
  for (unsigned x : w)
    sum += x;
  uint64_t d = draw(sum);
  size_t i = 0;
  for (unsigned x : w) {
    if (d < x)
      return i;
    d -= x;
    i++;
  }
  return 0;
}

bool verbose() { return g_verbose; }
bool thorough() { return g_thorough; }
void label(const char *name) {
  uint32_t n = shm->nlabels;
  for (uint32_t i = 0; i < n; i++)
    if (!strncmp(shm->labels[i].name, name, 55)) {
      shm->labels[i].n++;
      return;
    }
  if (n < NLABEL) {
    strncpy(shm->labels[n].name, name, 55);
    shm->labels[n].n = 1;
    shm->nlabels = n + 1;
  }
}
void nontrivial() { shm->cur_nontrivial = 1; }
void sample(const std::string &s) {
  if (g_verbose)
    fprintf(stderr, "case: %s\n", s.c_str());
  uint32_t n = shm->nsamples;
  // take cases of different sizes: early, middle, late
  if (n < NSAMPLE && shm->cases_done >= n * 40) {
    snprintf(shm->samples[n], sizeof(shm->samples[n]), "%s", s.c_str());
    shm->nsamples = n + 1;
  }
}
std::string fmt(const char *f, ...) {
  va_list a;
  va_start(a, f);
  char *p = nullptr;
  int n = vasprintf(&p, f, a);
  va_end(a);
  std::string s = n >= 0 ? std::string(p, n) : std::string();
  free(p);
  return s;
}
void note(const char *f, ...) {
  if (!g_verbose)
    return;
  va_list a;
  va_start(a, f);
  vfprintf(stderr, f, a);
  fputc('\n', stderr);
  va_end(a);
}
void fail(const char *f, ...) {
  va_list a;
  va_start(a, f);
  char *p = nullptr;
  int n = vasprintf(&p, f, a);
  va_end(a);
  std::string s = n >= 0 ? std::string(p, n) : std::string("?");
  free(p);
  throw Fail{s};
}
void discard() { throw Discard{}; }

static void rm_tree(const std::string &p) {
  struct stat st;
  if (lstat(p.c_str(), &st) != 0)
    return;
  if (S_ISDIR(st.st_mode)) {
    DIR *d = opendir(p.c_str());
    if (d) {
      std::vector<std::string> names;
      while (dirent *e = readdir(d)) {
        std::string n = e->d_name;
        if (n != "." && n != "..")
          names.push_back(n);
      }
      closedir(d);
      for (auto &n : names)
        rm_tree(p + "/" + n);
    }
    rmdir(p.c_str());
  } else
    unlink(p.c_str());
}
const std::string &dir() {
  if (!case_dir_made) {
    mkdir(case_dir_path.c_str(), 0700);
    case_dir_made = true;
  }
  return case_dir_path;
}
static void clean_case_dir() {
  if (case_dir_made) {
    rm_tree(case_dir_path);
    case_dir_made = false;
  }
}
bool write_sparse(const std::string &path, const std::vector<Part> &parts) {
  rlimit old;
  getrlimit(RLIMIT_FSIZE, &old);
  rlimit more{old.rlim_max, old.rlim_max};
  setrlimit(RLIMIT_FSIZE, &more);
  int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  bool ok = fd >= 0;
  uint64_t at = 0;
  for (auto &p : parts) {
    if (!ok)
      break;
    ok = pwrite(fd, p.text.data(), p.text.size(), (off_t)at) ==
         (ssize_t)p.text.size();
    at += p.text.size() + p.hole;
  }
  ok = ok && ftruncate(fd, (off_t)at) == 0;
  if (fd >= 0)
    close(fd);
  setrlimit(RLIMIT_FSIZE, &old);
  return ok;
}
void write_file(const std::string &path, const void *data, size_t n) {
  int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd < 0) {
    fprintf(stderr, "harness: cannot write %s: %s\n", path.c_str(),
            strerror(errno));
    _exit(50);
  }
  const char *p = (const char *)data;
  while (n) {
    ssize_t k = write(fd, p, n);
    if (k <= 0) {
      fprintf(stderr, "harness: short write %s\n", path.c_str());
      _exit(50);
    }
    p += k;
    n -= k;
  }
  close(fd);
}
std::string read_file(const std::string &path) {
  std::string r;
  int fd = open(path.c_str(), O_RDONLY);
  if (fd < 0)
    return r;
  char b[65536];
  ssize_t k;
  while ((k = read(fd, b, sizeof b)) > 0)
    r.append(b, k);
  close(fd);
  return r;
}
std::vector<uint64_t> choices() {
  return std::vector<uint64_t>(shm->choices, shm->choices + shm->nchoices);
}
std::string hexdump(const void *p, size_t n) {
  std::string s;
  for (size_t i = 0; i < n && i < 4096; i++)
    s += fmt("%02x", ((const unsigned char *)p)[i]);
  if (n > 4096)
    s += "...";
  return s;
}

// --- leak accounting -----------------------------------------------------------
struct Slot {
  const volatile void *p;
};
static const size_t SLOTS = 1 << 19;
static Slot *slots;
static volatile long live_blocks;
static volatile bool counting;
static volatile pid_t counting_lock;

static size_t slot_of(const volatile void *p) {
  uint64_t h = (uint64_t)(uintptr_t)p * 0x9e3779b97f4a7c15ull;
  return h >> 45;
}
#ifdef PBT_ASAN
static const volatile void *const TOMB = (const volatile void *)1;
static void on_malloc(const volatile void *p, size_t) {
  if (!counting || !p)
    return;
  size_t i = slot_of(p);
  for (size_t k = 0; k < 4096; k++, i = (i + 1) % SLOTS)
    if (!slots[i].p || slots[i].p == TOMB) {
      slots[i].p = p;
      live_blocks++;
      return;
    }
}
static void on_free(const volatile void *p) {
  if (!counting || !p)
    return;
  size_t i = slot_of(p);
  for (size_t k = 0; k < 4096; k++, i = (i + 1) % SLOTS) {
    if (slots[i].p == p) {
      slots[i].p = TOMB;
      live_blocks--;
      return;
    }
    if (!slots[i].p)
      return;
  }
}
#endif
void alloc_hooks_install() {
#ifdef PBT_ASAN
  if (!slots) {
    slots = (Slot *)mmap(nullptr, SLOTS * sizeof(Slot), PROT_READ | PROT_WRITE,
                         MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
  }
#endif
}
static long count_fds() {
  long n = 0;
  DIR *d = opendir("/proc/self/fd");
  if (!d)
    return 0;
  while (readdir(d))
    n++;
  closedir(d);
  return n;
}
Leaks leaks_of(const std::function<void()> &f) {
  alloc_hooks_install();
  Leaks best{1L << 60, 1L << 60, ""};
  for (int round = 0; round < 3; round++) {
    if (slots)
      memset((void *)slots, 0, SLOTS * sizeof(Slot));
    long fd0 = count_fds();
    live_blocks = 0;
    counting = true;
    try {
      f();
    } catch (...) {
      counting = false;
      throw;
    }
    counting = false;
    long blocks = live_blocks;
    long fds = count_fds() - fd0;
    best.fds = std::min(best.fds, fds);
    if (blocks < best.blocks) {
      best.blocks = blocks;
      best.where.clear();
#ifdef PBT_ASAN
      if (blocks > 0) {
        int shown = 0;
        for (size_t i = 0; i < SLOTS && shown < 3; i++)
          if (slots[i].p && slots[i].p != TOMB) {
            void *tr[12];
            int tid;
            size_t n =
                __asan_get_alloc_stack((void *)slots[i].p, tr, 12, &tid);
            best.where += "\n  leaked block allocated at:";
            for (size_t k = 1; k < n && k < 7; k++) {
              char buf[512] = "";
              if (g_verbose)
                __sanitizer_symbolize_pc(tr[k], "%f %s:%l", buf, sizeof buf);
              best.where += fmt("\n    %s", buf);
            }
            shown++;
          }
      }
#endif
    }
    if (best.blocks <= 0 && best.fds <= 0)
      break;
  }
  return best;
}

// --- running one case -----------------------------------------------------------
enum Outcome { PASS = 0, FAILED = 77, DISCARDED = 78 };

static void begin_case(uint64_t seed, const char *id, uint64_t index,
                       uint64_t total) {
  shm->nchoices = 0;
  shm->cur_nontrivial = 0;
  shm->case_index = index;
  shm->msg[0] = 0;
  rng_state = seed * 0x9e3779b97f4a7c15ull ^ hash_str(id) ^
              (index + 1) * 0xd1342543de82ef95ull;
  splitmix(rng_state);
  // size of the case: sweeps 0..100 repeatedly with growing tendency
  uint64_t hint = std::min<uint64_t>(100, total ? (index * 130 / total) : 100);
  uint64_t d = draw(101);
  cur_size = replaying ? (unsigned)d : 0;
  if (!replaying) {
    d = (d * (hint + 15)) / 115;
    if (d > 100)
      d = 100;
    shm->choices[0] = d;
    cur_size = (unsigned)d;
  }
}

static unsigned cpu_limit_s = 30;
static volatile unsigned cpu_ticks;
static void on_prof(int) {
  // every 0.2 s of CPU time of one case
  int saved = errno;
  int fd = open("/proc/self/statm", O_RDONLY);
  if (fd >= 0) {
    char b[128];
    ssize_t n = read(fd, b, sizeof b - 1);
    close(fd);
    b[n > 0 ? n : 0] = 0;
    const char *c = strchr(b, ' ');
    unsigned long pages = 0;
    for (c = c ? c + 1 : ""; *c >= '0' && *c <= '9'; c++)
      pages = pages * 10 + (*c - '0');
    if (pages > (3ul << 30) / 4096) {
      const char m[] = "case exceeded its memory budget\n";
      strcpy(shm->msg, "the case used more memory than any case needs");
      (void)!write(2, m, sizeof m - 1);
      _exit(75);
    }
  }
  errno = saved;
  if (++cpu_ticks < cpu_limit_s * 5)
    return;
  const char m[] = "case exceeded its CPU budget (hang)\n";
  strcpy(shm->msg, "hang: the case used more CPU time than any case needs");
  (void)!write(2, m, sizeof m - 1);
  _exit(76);
}
static void arm_timer(bool on) {
  itimerval it{};
  cpu_ticks = 0;
  if (on)
    it.it_value.tv_usec = it.it_interval.tv_usec = 200000;
  setitimer(ITIMER_PROF, &it, nullptr);
}

static Outcome run_case(const Property &p) {
  Outcome o = PASS;
  arm_timer(true);
  shm->in_case = 1;
  try {
    p.fn();
  } catch (const Fail &f) {
    snprintf(shm->msg, sizeof shm->msg, "%s", f.msg.c_str());
    o = FAILED;
  } catch (const Discard &) {
    o = DISCARDED;
  } catch (const std::exception &e) {
    snprintf(shm->msg, sizeof shm->msg, "unexpected C++ exception: %s",
             e.what());
    o = FAILED;
  }
  arm_timer(false);
  shm->in_case = 0;
  clean_case_dir();
  return o;
}

static double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static Shm *new_shm() {
  void *m = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED) {
    perror("mmap");
    exit(2);
  }
  return (Shm *)m;
}
static void child_setup(const std::string &err_file) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  signal(SIGPROF, on_prof);
  signal(SIGPIPE, SIG_IGN);
  rlimit core{0, 0};
  setrlimit(RLIMIT_CORE, &core);
  rlimit fsz{1ull << 31, 1ull << 35}; // sparse files may raise it
  setrlimit(RLIMIT_FSIZE, &fsz);
  int fd = open(err_file.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd >= 0) {
    dup2(fd, 2);
    dup2(fd, 1);
    close(fd);
  }
}

struct Result {
  bool failed;
  bool harness_error;
  std::string why;
};
static const int WALL_HANG_S = 120;
static Result classify(int status, bool killed_for_hang) {
  Result r{false, false, ""};
  if (killed_for_hang) {
    r.failed = true;
    r.why = "hang: no progress (deadlock or blocked call)";
    return r;
  }
  if (WIFEXITED(status)) {
    int c = WEXITSTATUS(status);
    if (c == 0 || c == DISCARDED)
      return r;
    if (c == 50) {
      r.harness_error = true;
      r.why = "harness error";
      return r;
    }
    r.failed = true;
    r.why = c == FAILED ? "property failed"
            : c == 99   ? "memory error (AddressSanitizer)"
            : c == 98   ? "undefined behaviour (UBSan)"
            : c == 97   ? "data race (ThreadSanitizer)"
            : c == 75   ? "memory budget exceeded"
            : c == 76   ? "hang (CPU budget exceeded)"
                        : fmt("unexpected exit with code %d", c);
  } else if (WIFSIGNALED(status)) {
    if (WTERMSIG(status) == SIGKILL) {
      r.harness_error = true;
      r.why = "killed (out of memory?)";
      return r;
    }
    r.failed = true;
    r.why = fmt("crashed with signal %d", WTERMSIG(status));
  }
  return r;
}

static std::string g_err; // stderr file of the last candidate
static Result run_candidate(const Property &p, const std::vector<uint64_t> &c,
                            bool verb, int wall_s) {
  shm->in_case = 0;
  shm->msg[0] = 0;
  pid_t pid = fork();
  if (pid == 0) {
    child_setup(g_err);
    replaying = true;
    replay = c;
    g_verbose = verb;
    case_dir_path = base_dir + "/shrink";
    rm_tree(case_dir_path);
    begin_case(0, p.id, 0, 0);
    Outcome o = run_case(p);
    _exit(o);
  }
  double t0 = now();
  int status = 0;
  bool hang = false;
  useconds_t nap = 200;
  while (waitpid(pid, &status, WNOHANG) == 0) {
    if (now() - t0 > wall_s) {
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      hang = true;
      break;
    }
    usleep(nap);
    if (nap < 5000)
      nap += 200;
  }
  return classify(status, hang);
}

static std::vector<uint64_t> shrink(const Property &p,
                                    std::vector<uint64_t> best, double budget_s,
                                    const std::string &why) {
  double end = now() + budget_s;
  unsigned execs = 0;
  bool hangish = why.find("hang") == 0;
  int wall = hangish ? 40 : 60;
  if (hangish)
    end = now() + std::min(budget_s, 100.0);
  auto fails = [&](const std::vector<uint64_t> &c) {
    if (now() > end || execs > 6000)
      return false;
    execs++;
    Result r = run_candidate(p, c, false, wall);
    if (r.failed) {
      // what was actually drawn (clamped, truncated)
      best.assign(shm->choices, shm->choices + shm->nchoices);
      while (!best.empty() && best.back() == 0)
        best.pop_back();
      if (best.size() > c.size())
        best = c;
      return true;
    }
    return false;
  };
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    // delete spans
    for (size_t len = std::max<size_t>(best.size() / 2, 1); len >= 1;
         len /= 2) {
      for (size_t at = best.size(); at-- > 0;) {
        if (now() > end)
          break;
        if (at + len > best.size())
          continue;
        std::vector<uint64_t> c = best;
        c.erase(c.begin() + at, c.begin() + at + len);
        if (fails(c)) {
          progress = true;
          if (at > best.size())
            at = best.size();
        } else if (len > 8 && at >= len / 2)
          at -= len / 2 - 1; // coarse steps for long spans
      }
    }
    // zero spans
    for (size_t len : {(size_t)16, (size_t)4}) {
      for (size_t at = 0; at + len <= best.size(); at += len) {
        if (now() > end)
          break;
        bool any = false;
        for (size_t i = at; i < at + len; i++)
          any |= best[i] != 0;
        if (!any)
          continue;
        std::vector<uint64_t> c = best;
        std::fill(c.begin() + at, c.begin() + at + len, 0);
        progress |= fails(c);
      }
    }
    // lower single values
    for (size_t i = 0; i < best.size(); i++) {
      if (best[i] == 0)
        continue;
      if (now() > end)
        break;
      std::vector<uint64_t> c = best;
      c[i] = 0;
      if (fails(c)) {
        progress = true;
        continue;
      }
      uint64_t lo = 0, hi = best[i];
      while (hi - lo > 1 && i < best.size()) {
        uint64_t mid = lo + (hi - lo) / 2;
        c = best;
        c[i] = mid;
        if (fails(c)) {
          progress = true;
          hi = mid;
        } else
          lo = mid;
      }
    }
  }
  return best;
}

static std::string json_str(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\')
      r += '\\', r += (char)c;
    else if (c == '\n')
      r += "\\n";
    else if (c < 32 || c > 126)
      r += fmt("\\u%04x", c);
    else
      r += (char)c;
  }
  return r + "\"";
}

// --- serving transcripts to another build ---------------------------------------
static std::string run_transcript(std::string (*fn)(),
                                  const std::vector<uint64_t> &c) {
  std::vector<uint64_t> saved(shm->choices, shm->choices + shm->nchoices);
  bool was = replaying;
  auto old = replay;
  unsigned osize = cur_size;
  replaying = true;
  replay = c;
  shm->nchoices = 0;
  cur_size = (unsigned)draw(101);
  std::string out = fn();
  replaying = was;
  replay = old;
  cur_size = osize;
  if (!saved.empty())
    memcpy(shm->choices, saved.data(), saved.size() * 8);
  shm->nchoices = saved.size();
  return out;
}
static void serve(int in, int out) {
  auto rd = [&](void *p, size_t n) {
    char *q = (char *)p;
    while (n) {
      ssize_t k = read(in, q, n);
      if (k <= 0)
        _exit(0);
      q += k;
      n -= k;
    }
  };
  auto wr = [&](const void *p, size_t n) {
    const char *q = (const char *)p;
    while (n) {
      ssize_t k = write(out, q, n);
      if (k <= 0)
        _exit(0);
      q += k;
      n -= k;
    }
  };
  while (true) {
    uint64_t len, n;
    rd(&len, 8);
    std::string name(len, 0), d;
    rd(&name[0], len);
    rd(&len, 8);
    d.resize(len);
    rd(&d[0], len);
    rd(&n, 8);
    std::vector<uint64_t> c(n);
    if (n)
      rd(c.data(), n * 8);
    case_dir_path = d;
    case_dir_made = true;
    auto it = transcripts().find(name);
    std::string r = it == transcripts().end() ? "no such transcript"
                                              : run_transcript(it->second, c);
    uint64_t m = r.size();
    wr(&m, 8);
    wr(r.data(), m);
  }
}
static int peer_in = -1, peer_out = -1;
static pid_t peer_pid = -1;
std::string peer_transcript(const char *env, const char *fn) {
  const char *path = getenv(env);
  if (!path) {
    fprintf(stderr, "harness: %s is not set\n", env);
    _exit(50);
  }
  if (peer_pid < 0) {
    int a[2], b[2];
    if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC))
      _exit(50);
    peer_pid = fork();
    if (peer_pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      dup2(a[0], 0);
      dup2(b[1], 3);
      execl(path, path, "--serve", (char *)nullptr);
      _exit(50);
    }
    close(a[0]);
    close(b[1]);
    peer_out = a[1];
    peer_in = b[0];
  }
  auto dead = [&]() -> std::string {
    int st = 0;
    waitpid(peer_pid, &st, 0);
    peer_pid = -1;
    close(peer_in);
    close(peer_out);
    return fmt("<peer build died: %s>", classify(st, false).why.c_str());
  };
  auto wr = [&](const void *p, size_t n) {
    const char *q = (const char *)p;
    while (n) {
      ssize_t k = write(peer_out, q, n);
      if (k <= 0)
        return false;
      q += k;
      n -= k;
    }
    return true;
  };
  auto rd = [&](void *p, size_t n) {
    char *q = (char *)p;
    while (n) {
      ssize_t k = read(peer_in, q, n);
      if (k <= 0)
        return false;
      q += k;
      n -= k;
    }
    return true;
  };
  std::string name = fn, d = dir() + "/peer";
  mkdir(d.c_str(), 0700);
  auto c = choices();
  uint64_t l = name.size(), dl = d.size(), n = c.size();
  if (!wr(&l, 8) || !wr(name.data(), l) || !wr(&dl, 8) || !wr(d.data(), dl) ||
      !wr(&n, 8) || (n && !wr(c.data(), n * 8)))
    return dead();
  uint64_t m;
  if (!rd(&m, 8))
    return dead();
  std::string r(m, 0);
  if (m && !rd(&r[0], m))
    return dead();
  return r;
}

static void usage() {
  fprintf(stderr,
          "usage: harness --prop ID --seed N [--thorough] [--cases N] [--time S]"
          " [--workers N] --json FILE --out DIR | --prop ID --replay FILE | "
          "--list | --serve\n");
  exit(2);
}

static int real_main(int argc, char **argv) {
  std::string id, json, out = "out", replay_file;
  uint64_t seed = 1, cases = 0;
  double time_s = 200;
  unsigned workers = 8;
  bool list = false, server = false, dump_labels = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() -> std::string {
      if (++i >= argc)
        usage();
      return argv[i];
    };
    if (a == "--prop")
      id = next();
    else if (a == "--seed")
      seed = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--cases")
      cases = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--time")
      time_s = atof(next().c_str());
    else if (a == "--workers")
      workers = atoi(next().c_str());
    else if (a == "--json")
      json = next();
    else if (a == "--out")
      out = next();
    else if (a == "--replay")
      replay_file = next();
    else if (a == "--thorough")
      g_thorough = true;
    else if (a == "--labels")
      dump_labels = true;
    else if (a == "--list")
      list = true;
    else if (a == "--serve")
      server = true;
    else
      usage();
  }
  if (list) {
    for (auto &p : props())
      printf("%s quick=%lu thorough=%lu\n", p.id, p.quick_cases,
             p.thorough_cases);
    return 0;
  }
  shm = new_shm();
  if (server) {
    int o = 3;
    signal(SIGPIPE, SIG_IGN);
    serve(0, o);
    return 0;
  }
  const Property *p = nullptr;
  for (auto &x : props())
    if (id == x.id)
      p = &x;
  if (!p) {
    fprintf(stderr, "no property %s in this harness\n", id.c_str());
    return 2;
  }
  const char *tmp = getenv("TMPDIR");
  std::string templ = std::string(tmp && *tmp ? tmp : "/tmp") + "/pbt.XXXXXX";
  std::vector<char> tb(templ.begin(), templ.end());
  tb.push_back(0);
  if (!mkdtemp(tb.data())) {
    perror("mkdtemp");
    return 2;
  }
  base_dir = tb.data();
  struct Cleanup {
    ~Cleanup() { rm_tree(base_dir); }
  } cleanup;
  g_err = base_dir + "/stderr";
  mkdir(out.c_str(), 0755);

  if (!replay_file.empty()) {
    std::string t = read_file(replay_file);
    std::vector<uint64_t> c;
    size_t at = t.find("choices:");
    if (at == std::string::npos) {
      fprintf(stderr, "bad replay file %s\n", replay_file.c_str());
      return 2;
    }
    if (t.find("tier: thorough") != std::string::npos)
      g_thorough = true;
    const char *q = t.c_str() + at + 8;
    char *e;
    while (true) {
      while (*q == ' ')
        q++;
      if (*q < '0' || *q > '9')
        break;
      c.push_back(strtoull(q, &e, 10));
      q = e;
    }
    Result r = run_candidate(*p, c, true, WALL_HANG_S);
    printf("%s\n%s\n%s\n", read_file(g_err).c_str(),
           r.failed ? r.why.c_str() : "held", shm->msg);
    if (r.failed)
      printf("VIOLATION property=%s replay=%s\n", p->id, replay_file.c_str());
    return r.failed ? 1 : 0;
  }

  uint64_t total = cases ? cases
                         : (g_thorough ? p->thorough_cases : p->quick_cases);
  double t0 = now();
  std::vector<Shm *> shms(workers);
  std::vector<pid_t> pids(workers, -1);
  std::vector<double> last(workers, now());
  std::vector<uint64_t> lastprog(workers, 0);
  std::vector<uint64_t> next_case(workers);
  bool found = false;
  uint64_t unreproduced = 0, crashes = 0;
  std::vector<uint64_t> bad;
  std::string why, msg, first_stderr;
  Shm *super = shm;
  for (unsigned w = 0; w < workers; w++) {
    shms[w] = new_shm();
    next_case[w] = w;
  }
  auto start = [&](unsigned w) {
    pid_t pid = fork();
    if (pid == 0) {
      shm = shms[w];
      child_setup(base_dir + fmt("/err%u", w));
      case_dir_path = base_dir + fmt("/w%u", w);
      rm_tree(case_dir_path);
      for (uint64_t i = next_case[w]; i < total; i += workers) {
        if (shm->stop)
          break;
        if (ftell(stderr) > (1 << 20))
          (void)!ftruncate(2, 0);
        begin_case(seed, p->id, i, total);
        Outcome o = run_case(*p);
        if (o == FAILED)
          _exit(FAILED);
        shm->progress++;
        if (o == DISCARDED) {
          shm->discarded++;
          continue;
        }
        shm->cases_done++;
        if (shm->cur_nontrivial) {
          shm->nontrivial_cases++;
          uint64_t h = 1469598103934665603ull;
          for (uint32_t k = 0; k < shm->nchoices; k++)
            h = (h ^ shm->choices[k]) * 1099511628211ull, h ^= h >> 29;
          if (shm->nhash < MAXH)
            shm->hash[shm->nhash++] = h;
        }
      }
      _exit(0);
    }
    pids[w] = pid;
    last[w] = now();
  };
  for (unsigned w = 0; w < workers; w++)
    start(w);
  bool harness_error = false;
  bool timed_out = false;
  while (true) {
    bool alive = false;
    for (unsigned w = 0; w < workers; w++) {
      if (pids[w] < 0)
        continue;
      int st;
      bool hang = false;
      pid_t r = waitpid(pids[w], &st, WNOHANG);
      if (r == 0) {
        alive = true;
        if (shms[w]->progress != lastprog[w]) {
          lastprog[w] = shms[w]->progress;
          last[w] = now();
        } else if (now() - last[w] > WALL_HANG_S && shms[w]->in_case) {
          kill(pids[w], SIGKILL);
          waitpid(pids[w], &st, 0);
          hang = true;
        } else
          continue;
        if (!hang)
          continue;
      }
      pids[w] = -1;
      if (found)
        continue;
      Result res = classify(st, hang);
      if (res.harness_error) {
        fprintf(stderr, "worker %u: %s\n%s\n", w, res.why.c_str(),
                read_file(base_dir + fmt("/err%u", w)).c_str());
        if (res.why == "harness error") {
          harness_error = true;
          continue;
        }
        // killed from outside: continue after that case
        next_case[w] = shms[w]->case_index + workers;
        start(w);
        alive = true;
        continue;
      }
      if (!res.failed)
        continue;
      crashes++;
      std::vector<uint64_t> c(shms[w]->choices,
                              shms[w]->choices + shms[w]->nchoices);
      // reproduce before believing it
      int repro = 0;
      if (!found) {
        shm = super;
        for (int k = 0; k < 5 && repro < 3; k++)
          repro += run_candidate(*p, c, false, WALL_HANG_S).failed;
      }
      if (found)
        continue;
      if (repro == 0) {
        unreproduced++;
        fprintf(stderr,
                "worker %u case %llu: %s -- did not reproduce in 5 replays, "
                "ignored: %s\n%.3000s\n",
                w, (unsigned long long)shms[w]->case_index, res.why.c_str(),
                shms[w]->msg,
                read_file(base_dir + fmt("/err%u", w)).c_str());
        next_case[w] = shms[w]->case_index + workers;
        if (unreproduced < 50) {
          start(w);
          alive = true;
        }
        continue;
      }
      found = true;
      bad = c;
      why = res.why;
      msg = shms[w]->msg;
      for (unsigned v = 0; v < workers; v++)
        shms[v]->stop = 1;
      for (unsigned v = 0; v < workers; v++)
        if (pids[v] >= 0)
          kill(pids[v], SIGKILL);
    }
    if (!alive)
      break;
    if (now() - t0 > time_s && !timed_out) {
      timed_out = true;
      for (unsigned v = 0; v < workers; v++)
        shms[v]->stop = 1;
    }
    usleep(3000);
  }
  double search_s = now() - t0;
  std::string replay_path;
  if (found) {
    shm = super;
    fprintf(stderr, "%s: %s: %s\nshrinking %zu choices...\n", p->id,
            why.c_str(), msg.c_str(), bad.size());
    bad = shrink(*p, bad, 60, why);
    Result r{};
    for (int k = 0; k < 5 && !r.failed; k++)
      r = run_candidate(*p, bad, true, WALL_HANG_S);
    std::string err = read_file(g_err);
    if (r.failed)
      why = r.why, msg = shm->msg;
    uint64_t h = 1469598103934665603ull;
    for (auto x : bad)
      h = (h ^ x) * 1099511628211ull, h ^= h >> 29;
    replay_path = out + "/" + p->id + fmt("-%012llx.replay",
                                          (unsigned long long)(h >> 16));
    std::string text = std::string("property: ") + p->id + "\ntier: " +
                       (g_thorough ? "thorough" : "quick") + "\nchoices:";
    for (auto x : bad)
      text += fmt(" %llu", (unsigned long long)x);
    text += "\nwhy: " + why + "\nmessage: " + msg + "\n--- output ---\n" +
            err.substr(0, 60000) + "\n";
    write_file(replay_path, text);
    printf("%s: %s: %s\n", p->id, why.c_str(), msg.c_str());
    size_t shown = std::min<size_t>(err.size(), 3000);
    printf("%.*s\n", (int)shown, err.c_str());
  }
  // statistics
  uint64_t evals = 0, nontriv = 0, disc = 0;
  std::set<uint64_t> distinct;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
  for (auto s : shms) {
    evals += s->cases_done;
    nontriv += s->nontrivial_cases;
    disc += s->discarded;
    for (uint64_t i = 0; i < s->nhash; i++)
      distinct.insert(s->hash[i]);
    for (uint32_t i = 0; i < s->nlabels; i++)
      labels[s->labels[i].name] += s->labels[i].n;
  }
  for (uint32_t k = 0; k < NSAMPLE; k++)
    for (auto s : shms)
      if (s->nsamples > k && samples.size() < 4)
        samples.push_back(s->samples[k]);
  if (dump_labels)
    for (auto &l : labels)
      fprintf(stderr, "  %-48s %llu\n", l.first.c_str(),
              (unsigned long long)l.second);
  std::string j = "{\"property\":" + json_str(p->id) +
                  fmt(",\"evaluations\":%llu,\"planned\":%llu,"
                      "\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,"
                      "\"discarded\":%llu,\"unreproduced\":%llu,"
                      "\"search_s\":%.2f,\"timed_out\":%s,\"violations\":%d",
                      (unsigned long long)evals, (unsigned long long)total,
                      (unsigned long long)nontriv,
                      (unsigned long long)distinct.size(),
                      (unsigned long long)disc,
                      (unsigned long long)unreproduced, search_s,
                      timed_out ? "true" : "false", found ? 1 : 0);
  j += ",\"rule\":" + json_str(p->rule) + ",\"samples\":[";
  for (size_t i = 0; i < samples.size(); i++)
    j += (i ? "," : "") + json_str(samples[i]);
  j += "],\"labels\":{";
  bool first = true;
  for (auto &l : labels) {
    j += (first ? "" : ",") + json_str(l.first) +
         fmt(":%llu", (unsigned long long)l.second);
    first = false;
  }
  j += "},\"replay\":" + json_str(replay_path) + "}\n";
  if (!json.empty())
    write_file(json, j);
  fprintf(stderr,
          "%s: %llu/%llu cases, %llu nontrivial, %zu distinct, %llu discarded, "
          "%.1f s%s\n",
          p->id, (unsigned long long)evals, (unsigned long long)total,
          (unsigned long long)nontriv, distinct.size(),
          (unsigned long long)disc, search_s, timed_out ? " (time cap)" : "");
  if (found) {
    printf("VIOLATION property=%s replay=%s\n", p->id, replay_path.c_str());
    return 1;
  }
  if (harness_error)
    return 2;
  return 0;
}
} // namespace pbt

int main(int argc, char **argv) { return pbt::real_main(argc, argv); }

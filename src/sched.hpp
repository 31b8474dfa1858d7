// Schedules as data: threads run one at a time and change over where the case
// says so. A place is the number of an event (a lock, an unlock or a file
// operation) and a number of steps (edges of the instrumented library) behind it.
// The hand-over is invisible to ThreadSanitizer, so accesses that only this
// scheduler keeps apart are still reported. Include it in one source of a binary.
#pragma once
#include "pbt.hpp"
#include <cerrno>
#include <cstdio>
#include <ctime>
#include <dlfcn.h>
#include <functional>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <thread>
#include <unistd.h>
#include <vector>

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define SCH_TSAN 1
#endif
#endif
extern "C" {
#ifdef SCH_TSAN
int __interceptor_pthread_mutex_lock(pthread_mutex_t *);
int __interceptor_pthread_mutex_trylock(pthread_mutex_t *);
int __interceptor_pthread_mutex_unlock(pthread_mutex_t *);
#endif
FILE *__interceptor_fopen(const char *, const char *);
size_t __interceptor_fread(void *, size_t, size_t, FILE *);
}
#define SCH_QUIET __attribute__((disable_sanitizer_instrumentation, noinline))

namespace sch {
struct Switch {
  unsigned long event, steps;
  int to;
};
enum { MAX = 8 };
struct State {
  int n;               // threads
  volatile int running; // the one that may run; -1: none
  volatile int done[MAX];
  void *volatile waits_for[MAX]; // the lock
  volatile int away[MAX];        // held up by something unknown
  const Switch *sw;
  size_t num_sw, next_sw;
  volatile unsigned long events, steps, since, progress;
  volatile int deadlock;
  unsigned long switches; // that took place
  bool counting;          // of the events of the main thread
};
inline State st;
inline __thread int self = -1;

SCH_QUIET inline void wake() {
  syscall(SYS_futex, &st.running, FUTEX_WAKE, 1000, nullptr, nullptr, 0);
}
SCH_QUIET inline void wait_for_turn() {
  while (true) {
    int r = st.running;
    if (r == self)
      break;
    timespec t{0, 50000000};
    syscall(SYS_futex, &st.running, FUTEX_WAIT, r, &t, nullptr, 0);
  }
  st.away[self] = 0;
  st.progress++;
}
// the first one from 'to' on that can run
SCH_QUIET inline int other(int to, int not_this) {
  for (int i = 0; i < st.n; i++) {
    int t = (to + i) % st.n;
    if (t != not_this && !st.done[t] && !st.waits_for[t] && !st.away[t])
      return t;
  }
  return -1;
}
SCH_QUIET inline void hand_over(int to) {
  int t = other(to, self);
  if (t < 0)
    return;
  st.since = 0;
  st.switches++;
  st.running = t;
  wake();
  wait_for_turn();
}
SCH_QUIET inline void point(bool event) {
  if (self < 0) {
    if (st.counting) {
      if (event)
        st.events++;
      else
        st.steps++;
    }
    return;
  }
  if (st.running != self) // it was held up and the others went on
    wait_for_turn();
  if (event) {
    st.events++;
    st.steps = 0;
  } else
    st.steps++;
  st.progress++;
  if (st.next_sw < st.num_sw) {
    const Switch &s = st.sw[st.next_sw];
    if (st.events > s.event || (st.events == s.event && st.steps >= s.steps)) {
      st.next_sw++;
      hand_over(s.to);
      return;
    }
  }
  if (++st.since > 3000000) // waits actively for another one?
    hand_over(self + 1);
}
SCH_QUIET inline void locked_out(void *m) {
  st.waits_for[self] = m;
  int t = other(self + 1, self);
  if (t < 0) {
    for (int i = 0; i < st.n; i++)
      if (st.away[i])
        t = i;
    if (t < 0) {
      st.deadlock = 1;
      st.running = -1;
      wake();
      while (true)
        pause();
    }
  }
  st.since = 0;
  st.switches++;
  st.running = t;
  wake();
  wait_for_turn();
}
SCH_QUIET inline void unlocked(void *m) {
  for (int i = 0; i < st.n; i++)
    if (st.waits_for[i] == m)
      st.waits_for[i] = nullptr;
}
SCH_QUIET inline void begin(int i) {
  self = i;
  wait_for_turn();
}
SCH_QUIET inline void end() {
  if (st.running != self)
    wait_for_turn();
  st.done[self] = 1;
  int t = other(self + 1, self);
  if (t < 0)
    for (int i = 0; i < st.n; i++)
      if (st.away[i] && !st.done[i])
        t = i;
  if (t < 0) {
    for (int i = 0; i < st.n; i++)
      if (!st.done[i])
        st.deadlock = 1; // it waits for a lock that is never released
  }
  self = -1;
  st.progress++;
  st.running = t;
  wake();
}
SCH_QUIET inline bool all_done() {
  for (int i = 0; i < st.n; i++)
    if (!st.done[i])
      return false;
  return true;
}
// returns true if the threads never finish
SCH_QUIET inline bool supervise() {
  unsigned long last = ~0ul;
  int idle = 0, rounds = 0;
  while (!all_done()) {
    if (st.deadlock)
      return true;
    timespec t{0, 20000000};
    int r = st.running;
    if (r >= 0 || st.n == 0)
      syscall(SYS_futex, &st.running, FUTEX_WAIT, r, &t, nullptr, 0);
    if (st.progress != last) {
      last = st.progress;
      idle = 0;
      continue;
    }
    if (++idle < 50)
      continue;
    // about a second without a step
    idle = 0;
    if (++rounds > 40)
      return true;
    int now = st.running;
    if (now < 0)
      continue;
    st.away[now] = 1;
    int next = other(now + 1, now);
    if (next < 0) {
      for (int i = 0; i < st.n; i++)
        if (!st.waits_for[i])
          st.away[i] = 0;
      next = other(now + 1, -1);
    }
    if (next >= 0) {
      st.running = next;
      wake();
    }
  }
  return false;
}
SCH_QUIET inline void count(bool on) {
  if (on)
    st.events = st.steps = 0;
  st.counting = on;
}
SCH_QUIET inline unsigned long events() { return st.events; }
SCH_QUIET inline unsigned long steps() { return st.steps; }
SCH_QUIET inline void reset(int n, const Switch *sw, size_t num, int first) {
  st = State();
  st.n = n;
  st.sw = sw;
  st.num_sw = num;
  st.running = first;
}
// runs the bodies, starting with 'first', and changes over at 'sw' (in order)
inline void run(const std::vector<std::function<void()>> &bodies, int first,
                const std::vector<Switch> &sw) {
  reset((int)bodies.size(), sw.data(), sw.size(), first);
  std::vector<std::thread> ts;
  for (size_t i = 0; i < bodies.size(); i++)
    ts.emplace_back([&bodies, i] {
      begin((int)i);
      bodies[i]();
      end();
    });
  if (supervise()) {
    for (auto &t : ts)
      t.detach();
    new std::vector<std::thread>(std::move(ts));
    pbt::fail("the threads wait for each other for ever");
  }
  for (auto &t : ts)
    t.join();
}
} // namespace sch

extern "C" {
SCH_QUIET void __sanitizer_cov_trace_pc_guard(uint32_t *) { sch::point(false); }
SCH_QUIET void __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *) {}

#ifdef SCH_TSAN
#define REAL_MUTEX(f) __interceptor_pthread_mutex_##f
#else
static int (*sch_real(const char *name))(pthread_mutex_t *) {
  return (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, name);
}
#define REAL_MUTEX(f)                                                          \
  ([] {                                                                        \
    static auto p = sch_real("pthread_mutex_" #f);                             \
    return p;                                                                  \
  }())
#endif
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (sch::self < 0)
    return REAL_MUTEX(lock)(m);
  sch::point(true);
  while (true) {
    int e = REAL_MUTEX(trylock)(m);
    if (e != EBUSY)
      return e;
    sch::locked_out(m);
  }
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  sch::point(true);
  return REAL_MUTEX(trylock)(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  int e = REAL_MUTEX(unlock)(m);
  if (sch::self >= 0) {
    sch::unlocked(m);
    sch::point(true);
  }
  return e;
}
FILE *fopen(const char *name, const char *mode) {
  sch::point(true);
  FILE *f = __interceptor_fopen(name, mode);
  sch::point(true);
  return f;
}
size_t fread(void *p, size_t size, size_t n, FILE *f) {
  sch::point(true);
  size_t r = __interceptor_fread(p, size, n, f);
  sch::point(true);
  return r;
}
int fseek(FILE *f, long at, int whence) {
  static auto real = (int (*)(FILE *, long, int))dlsym(RTLD_NEXT, "fseek");
  sch::point(true);
  int r = real(f, at, whence);
  sch::point(true);
  return r;
}
}

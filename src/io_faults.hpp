// Failing file operations: the functions of stdio the library uses are replaced
// by ones that fail when they are told to. Include it in one source of a binary.
#pragma once
#include "pbt.hpp"
#include <cerrno>
#include <cstdio>
#include <dlfcn.h>

extern "C" {
FILE *__interceptor_fopen(const char *, const char *);
size_t __interceptor_fread(void *, size_t, size_t, FILE *);
}
namespace io {
// every operation has a number, counted since start()
struct Plan {
  bool on = false;
  size_t from = ~(size_t)0, to = ~(size_t)0; // these fail
  unsigned kinds = 15;                       // of these kinds
};
enum { OPEN = 1, READ = 2, SEEK = 4, TELL = 8 };
inline Plan plan;
inline size_t counted, failed;
inline void start(const Plan &p) {
  plan = p;
  plan.on = true;
  counted = failed = 0;
}
inline void stop() { plan.on = false; }
inline bool fails(unsigned kind) {
  if (!plan.on || !(plan.kinds & kind))
    return false;
  size_t k = counted++;
  if (k < plan.from || k >= plan.to)
    return false;
  failed++;
  return true;
}
struct During {
  explicit During(const Plan &p) { start(p); }
  During(const During &) = delete;
  ~During() { stop(); }
};
} // namespace io

extern "C" {
FILE *fopen(const char *name, const char *mode) {
  if (io::fails(io::OPEN)) {
    errno = EMFILE;
    return nullptr;
  }
  return __interceptor_fopen(name, mode);
}
size_t fread(void *p, size_t size, size_t n, FILE *f) {
  if (io::fails(io::READ)) {
    // a part of the data may have been read before
    size_t got = n > 1 ? __interceptor_fread(p, size, n / 2, f) : 0;
    f->_flags |= 0x20; // what ferror looks at
    errno = EIO;
    return got;
  }
  return __interceptor_fread(p, size, n, f);
}
int fseek(FILE *f, long at, int whence) {
  static auto real = (int (*)(FILE *, long, int))dlsym(RTLD_NEXT, "fseek");
  if (io::fails(io::SEEK)) {
    errno = EIO;
    return -1;
  }
  return real(f, at, whence);
}
long ftell(FILE *f) {
  static auto real = (long (*)(FILE *))dlsym(RTLD_NEXT, "ftell");
  if (io::fails(io::TELL)) {
    errno = EIO;
    return -1;
  }
  return real(f);
}
}

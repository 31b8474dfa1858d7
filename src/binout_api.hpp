// Uniform access to the binout C API
#pragma once
#include "pbt.hpp"
#include <binout.h>
#include <cstdlib>
#include <string>
#include <vector>

namespace ba {
struct Handle {
  binout_file f;
  bool open_ = false;
  Handle(const std::string &pattern) {
    f = binout_open(pattern.c_str());
    open_ = true;
  }
  Handle(const Handle &) = delete;
  ~Handle() { close(); }
  void close() {
    if (open_)
      binout_close(&f);
    open_ = false;
  }
  binout_file *p() { return &f; }
  std::string open_error(bool *is_null = nullptr) {
    char *e = binout_open_error(&f);
    if (is_null)
      *is_null = e == nullptr;
    std::string s = e ? e : "";
    free(e);
    return s;
  }
};
struct Read {
  bool ok = false;
  size_t n = 0, steps = 0;
  std::string data;
  std::string error; // error string after the call
  bool has_error = false;
};
template <class T>
inline void take(Read &r, T *p, size_t n) {
  if (p) {
    r.ok = true;
    r.data.assign((const char *)p, n * sizeof(T));
  }
  free(p);
}
// error strings may only be looked at while no other thread uses the handle
inline void err_of(Read &r, binout_file *f) {
  r.has_error = f->error_string != nullptr;
  if (f->error_string)
    r.error = f->error_string;
}
inline Read read(binout_file *f, const std::string &path, int type,
                 bool err = true) {
  Read r;
  size_t n = 0xdeadbeef;
  const char *p = path.c_str();
  switch (type) {
#define C(k, fn)                                                               \
  case k: {                                                                    \
    auto *q = fn(f, p, &n);                                                    \
    take(r, q, n);                                                             \
    break;                                                                     \
  }
    C(1, binout_read_i8)
    C(2, binout_read_i16)
    C(3, binout_read_i32)
    C(4, binout_read_i64)
    C(5, binout_read_u8)
    C(6, binout_read_u16)
    C(7, binout_read_u32)
    C(8, binout_read_u64)
    C(9, binout_read_f32)
    C(10, binout_read_f64)
#undef C
  }
  r.n = r.ok ? n : 0;
  if (err)
    err_of(r, f);
  return r;
}
inline Read read_timed(binout_file *f, const std::string &path, int type,
                       bool err = true) {
  Read r;
  size_t n = 0xdeadbeef, s = 0xdeadbeef;
  const char *p = path.c_str();
  switch (type) {
#define C(k, fn)                                                               \
  case k: {                                                                    \
    auto *q = fn(f, p, &n, &s);                                                \
    take(r, q, n *s);                                                          \
    break;                                                                     \
  }
    C(1, binout_read_timed_i8)
    C(2, binout_read_timed_i16)
    C(3, binout_read_timed_i32)
    C(4, binout_read_timed_i64)
    C(5, binout_read_timed_u8)
    C(6, binout_read_timed_u16)
    C(7, binout_read_timed_u32)
    C(8, binout_read_timed_u64)
    C(9, binout_read_timed_f32)
    C(10, binout_read_timed_f64)
#undef C
  }
  if (r.ok)
    r.n = n, r.steps = s;
  if (err)
    err_of(r, f);
  return r;
}
struct Children {
  bool null = false;
  size_t n = 0;
  std::vector<std::string> names;
};
inline Children children(binout_file *f, const std::string &path) {
  Children c;
  size_t n = 0xdeadbeef;
  char **ch = binout_get_children(f, path.c_str(), &n);
  c.null = ch == nullptr;
  c.n = n;
  if (ch)
    for (size_t i = 0; i < n; i++)
      c.names.push_back(ch[i]);
  binout_free_children(ch);
  return c;
}
struct Simple {
  bool ok = false;
  std::string path;
  int type = 0;
  bool timed = false;
};
inline Simple simple(binout_file *f, const std::string &s) {
  Simple r;
  uint8_t t = 77;
  int timed = 77;
  char *p = binout_simple_path_to_real(f, s.c_str(), &t, &timed);
  r.ok = p != nullptr;
  if (p)
    r.path = p;
  free(p);
  r.type = t;
  r.timed = timed != 0;
  return r;
}
} // namespace ba

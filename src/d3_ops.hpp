// Random d3plot families on disk, possibly damaged.
#pragma once
#include "d3_api.hpp"
#include <sys/stat.h>
#include <unistd.h>

namespace dops {
using namespace dg;
using da::Call;
using da::Val;
using std::string;
using std::vector;

struct Family {
  Model m;
  vector<string> files; // contents
  string root;          // path
  bool damaged = false;
  string what; // damage, for people
};

inline u64 nasty(u64 cur, int ws) {
  static const u64 v[] = {0,
                          1,
                          2,
                          3,
                          7,
                          100,
                          255,
                          256,
                          1000,
                          65535,
                          1 << 20,
                          0x7fffffff,
                          0x80000000ull,
                          0xffffffffull,
                          0xfffffffeull,
                          0xffffd8f0ull, // -10000
                          0x100000000ull,
                          0x2000000000000000ull,
                          0x7fffffffffffffffull,
                          0x8000000000000000ull,
                          ~0ull,
                          ~0ull - 1,
                          ~0ull - 9999};
  switch (draw(4)) {
  case 0:
    return v[draw(sizeof v / sizeof *v)];
  case 1:
    return cur + 1;
  case 2:
    return cur - 1;
  default:
    return pbt::bits64() >> draw(64);
  }
}
inline void poke(string &b, size_t at, u64 v, int w) {
  for (int i = 0; i < w && at + i < b.size(); i++)
    b[at + i] = (char)(v >> (8 * i));
}
inline u64 peek(const string &b, size_t at, int w) {
  u64 v = 0;
  if (at + w <= b.size())
    memcpy(&v, b.data() + at, w);
  return v;
}
enum Style { WHOLE, CUT_TAIL, WILD };

inline Family gen_family(const Limits &lim, const string &dir, Style style) {
  Family f;
  f.m = gen_model(lim);
  f.root = dir + "/d3plot";
  Layout lay;
  string root = write_root(f.m, &lay);
  const int ws = f.m.ws;
  if (style == WILD) {
    f.damaged = true;
    size_t n = pbt::weighted({3, 4, 2});
    for (size_t i = 0; i < n; i++) {
      auto it = lay.word.begin();
      std::advance(it, draw(lay.word.size()));
      size_t at = it->second * ws;
      u64 v = nasty(peek(root, at, ws), ws);
      poke(root, at, v, ws);
      f.what += it->first + pbt::fmt("=%llu ", (unsigned long long)v);
    }
  }
  f.files = split(f.m, chance(1, 3), &root);
  if (style == CUT_TAIL) {
    f.damaged = true;
    size_t keep = f.files.size() - draw(std::min<size_t>(f.files.size(), 3));
    f.files.resize(keep);
    string &b = f.files.back();
    size_t by = 1 + (chance(1, 3) ? draw(b.size())
                                  : draw(std::min<size_t>(b.size(), 60 * ws)));
    b.resize(b.size() - std::min(by, b.size()));
    f.what = pbt::fmt("cut %zu bytes from file %zu", by, keep - 1);
  }
  if (style == WILD) {
    size_t n = f.what.empty() ? 1 + pbt::sized(3) : pbt::sized(2);
    for (size_t i = 0; i < n && !f.files.empty(); i++) {
      size_t k = draw(f.files.size());
      string &b = f.files[k];
      f.what += pbt::fmt("file %zu ", k);
      switch (draw(9)) {
      case 0:
        f.what += "truncated ";
        b.resize(draw(b.size() + 1));
        break;
      case 1:
        f.what += "removed ";
        f.files.erase(f.files.begin() + k);
        break;
      case 2:
        f.what += "grown ";
        b += string(1 + draw(100), (char)draw(256));
        break;
      case 3: {
        f.what += "noise ";
        size_t c = 1 + draw(4);
        for (size_t j = 0; j < c && !b.empty(); j++)
          b[draw(b.size())] = (char)draw(256);
        break;
      }
      case 4:
      case 5: { // a nasty word anywhere
        size_t w = b.size() / ws;
        if (w) {
          size_t at = draw(w) * ws;
          poke(b, at, nasty(peek(b, at, ws), ws), ws);
          f.what += "word ";
        }
        break;
      }
      case 6: { // end markers come or go
        size_t w = b.size() / ws;
        Words e(ws);
        e.f(-999999.0);
        vector<size_t> at;
        for (size_t j = 0; j < w; j++)
          if (b.compare(j * ws, ws, e.b) == 0)
            at.push_back(j);
        if (!at.empty() && chance(1, 2)) {
          poke(b, at[draw(at.size())] * ws, 0, ws);
          f.what += "end marker removed ";
        } else if (w) {
          b.replace(draw(w) * ws, ws, e.b);
          f.what += "end marker added ";
        }
        break;
      }
      case 7: { // words removed or doubled
        size_t w = b.size() / ws;
        if (w) {
          size_t at = draw(w), c = 1 + draw(std::min<size_t>(w - at, 20));
          if (chance(1, 2))
            b.erase(at * ws, c * ws);
          else
            b.insert(at * ws, b.substr(at * ws, c * ws));
          f.what += "words moved ";
        }
        break;
      }
      default:
        f.what += "replaced ";
        b.clear();
        for (size_t j = 0, c = draw(600); j < c; j++)
          b += (char)draw(256);
      }
    }
  }
  write_family(f.root, f.files);
  if (style == WILD && chance(1, 30) && f.files.size() > 1) {
    string p = member(f.root, draw(f.files.size()));
    unlink(p.c_str());
    if (chance(1, 2))
      mkdir(p.c_str(), 0700);
    f.what += "member missing or a folder ";
  }
  return f;
}
inline string describe(const Family &f) {
  return describe(f.m) + pbt::fmt(" files=%zu ", f.files.size()) + f.what;
}
inline string state_of(const Model &m) {
  return pbt::fmt("%zu states", m.states.size());
}
// error messages name the file
inline string scrub(const string &s, const string &dir) {
  string r;
  size_t from = 0, at;
  while ((at = s.find(dir, from)) != string::npos) {
    r.append(s, from, at - from).append("<DIR>");
    from = at + dir.size();
  }
  return r.append(s, from);
}
} // namespace dops

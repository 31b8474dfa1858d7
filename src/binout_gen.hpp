// Generator and reference model for binout files, written from the format
// description (header, LENGTH/COMMAND records, CD, DATA), not from the library.
#pragma once
#include "pbt.hpp"
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace bg {
using std::string;
using std::vector;

enum Type { I8 = 1, I16, I32, I64, U8, U16, U32, U64, F32, F64 };
inline size_t tsize(int t) {
  static const size_t s[] = {0, 1, 2, 4, 8, 1, 2, 4, 8, 4, 8};
  return t >= 1 && t <= 10 ? s[t] : 0;
}

struct Node {
  bool folder = true;
  std::map<string, std::unique_ptr<Node>> ch; // std::string compares as bytes
  int type = 0;
  string data;
  bool doubtful = false; // recorded (also) in a file that failed
  Node *sub(const string &n) const {
    auto it = ch.find(n);
    return it == ch.end() ? nullptr : it->second.get();
  }
};
typedef vector<string> Path;
inline string join(const Path &p) {
  string s;
  for (auto &c : p)
    s += "/" + c;
  return s.empty() ? "/" : s;
}
inline Node *mkfolder(Node *root, const Path &p) {
  Node *n = root;
  for (auto &c : p) {
    auto &x = n->ch[c];
    if (!x)
      x = std::make_unique<Node>();
    n = x.get();
  }
  return n;
}
inline Node *lookup(const Node *root, const Path &p) {
  Node *n = const_cast<Node *>(root);
  for (auto &c : p) {
    if (!n->folder)
      return nullptr;
    n = n->sub(c);
    if (!n)
      return nullptr;
  }
  return n;
}
inline bool is_d(const string &s) {
  if (s.size() < 2 || s[0] != 'd')
    return false;
  for (size_t i = 1; i < s.size(); i++)
    if (s[i] < '0' || s[i] > '9')
      return false;
  return true;
}

struct Widths {
  int len = 8, off = 8, cmd = 1, typ = 1;
};
inline void put(string &o, uint64_t v, int w) {
  for (int i = 0; i < w; i++)
    o += (char)(i < 8 ? v >> (8 * i) : 0);
}
inline void header(string &o, const Widths &w) {
  o += (char)8;
  o += (char)w.len;
  o += (char)w.off;
  o += (char)w.cmd;
  o += (char)w.typ;
  o += (char)1; // little endian
  o += (char)0; // IEEE
  o += (char)0;
}
inline bool record(string &o, const Widths &w, uint64_t cmd,
                   const string &body) {
  uint64_t len = w.len + w.cmd + body.size();
  if (w.len < 8 && len >> (8 * w.len))
    return false;
  put(o, len, w.len);
  put(o, cmd, w.cmd);
  o += body;
  return true;
}
inline string data_body(const Widths &w, int type, const string &name,
                        const string &data) {
  string b;
  put(b, type, w.typ);
  b += (char)(unsigned char)name.size();
  b += name;
  b += data;
  return b;
}

// --- one variable recording --------------------------------------------------
struct Rec {
  Path folder;
  string name;
  int type;
  string data;
};

inline string gen_data(int type, size_t n) {
  string d;
  if (n > 64) { // few draws for many values
    uint64_t x = pbt::draw(1u << 30);
    d.resize(n * tsize(type));
    for (size_t i = 0; i < d.size(); i++) {
      x = x * 6364136223846793005ull + 1442695040888963407ull;
      d[i] = (char)(x >> 56);
    }
    return d;
  }
  for (size_t i = 0; i < n; i++) {
    uint64_t v;
    switch (pbt::draw(4)) {
    case 0:
      v = pbt::draw(256);
      break;
    case 1:
      v = i + 1;
      break;
    case 2:
      v = ~0ull - pbt::draw(3);
      break;
    default:
      v = pbt::bits64();
    }
    if (type == F32) {
      float f = pbt::draw(5) == 4 ? 0 : (float)(int64_t)v / 7;
      if (pbt::draw(8) == 7)
        memcpy(&f, &v, 4);
      d.append((const char *)&f, 4);
    } else if (type == F64) {
      double f = (double)(int64_t)v / 7;
      if (pbt::draw(8) == 7)
        memcpy(&f, &v, 8);
      d.append((const char *)&f, 8);
    } else
      d.append((const char *)&v, tsize(type));
  }
  return d;
}
inline string gen_name() {
  static const vector<string> common = {
      "x",      "ids",    "title", "time",  "x_displacement", "x_disp",
      "nodout", "glstat", "a",     "b",     "aa",             "ab",
      "legend", "legend_ids",      "cycle", "revision",       "rcforc",
      "elout",  "shell",  "z",     "m",     "metadat",        "metadata1",
      "d",      "d00000x", "data", "D000001", "master_1", "slave_1", "ncforc"};
  switch (pbt::weighted({8, 3, 1, 2})) {
  case 0:
    return common[pbt::draw(common.size())];
  case 3: { // names that differ late
    static const char *const starts[] = {"displacement", "displacement_",
                                         "internal_energy_of_part", "longname"};
    static const char *const ends[] = {"", "x", "y", "z", "_x", "_y", "_old", "1", "10", "2", "X", "~"};
    return string(starts[pbt::draw(4)]) + ends[pbt::draw(12)];
  }
  case 1: {
    string s;
    size_t n = 1 + pbt::sized(12);
    for (size_t i = 0; i < n; i++)
      s += (char)("abcdefghijklmnopqrstuvwxyz_0123456789ABCXYZ -.#+"[pbt::draw(
          48)]);
    if (s == "." || s == ".." || is_d(s))
      s += "q";
    return s;
  }
  default: {
    string s;
    size_t n = 1 + (pbt::chance(1, 6) ? pbt::draw(255) : pbt::sized(20));
    for (size_t i = 0; i < n; i++) {
      unsigned char c = 1 + pbt::draw(255);
      if (c == '/')
        c = '_';
      s += (char)c;
    }
    if (pbt::chance(1, 20))
      s.resize(255, 'n'); // the longest name there is
    if (s == "." || s == ".." || is_d(s))
      s[s.size() - 1] = 'q';
    return s;
  }
  }
}

inline string named(const char *prefix) { // room for a suffix is left
  return prefix + gen_name().substr(0, 240);
}

struct TreeOpts {
  bool huge = false; // also thousands of steps
  bool dsteps = true;
  bool meta = true;
  size_t max_top = 4;
  size_t max_steps = 8;
  size_t max_values = 12;
  bool disagree = false; // steps may disagree
  bool empties = true;   // variables of size 0
};

// Number of values of a variable; rarely more than a byte or two bytes can count
inline size_t gen_count(const TreeOpts &o) {
  if (pbt::chance(1, 400)) {
    pbt::label("variable of hundreds to thousands of values");
    switch (pbt::draw(8)) {
    case 0:
      return 65530 + pbt::draw(5000);
    case 1:
    case 2:
      return 1000 + pbt::draw(9000);
    default:
      return 250 + pbt::draw(300);
    }
  }
  return pbt::sized(o.max_values);
}
inline int gen_type() { return 1 + (int)pbt::draw(10); }

inline void gen_vars(vector<Rec> &out, const Path &folder, size_t n,
                     const TreeOpts &o) {
  std::set<string> used;
  for (size_t i = 0; i < n; i++) {
    Rec r;
    r.folder = folder;
    r.name = gen_name();
    if (r.name == "metadata" || !used.insert(r.name).second)
      continue;
    r.type = gen_type();
    size_t k = gen_count(o);
    if (k == 0 && !o.empties)
      k = 1;
    r.data = gen_data(r.type, k);
    out.push_back(r);
  }
}
inline string dname(size_t i, int width) {
  return pbt::fmt("d%0*zu", width, i);
}

// A folder with time steps: per step the same variables (possibly in sub
// folders), optionally a metadata folder
inline void gen_timed(vector<Rec> &out, const Path &folder, const TreeOpts &o) {
  struct V {
    Path sub;
    string name;
    int type;
    size_t n;
  };
  vector<V> vars;
  std::set<string> used, usedsub;
  size_t nv = 1 + pbt::sized(4);
  Path sub;
  if (pbt::chance(1, 3)) {
    size_t depth = 1 + pbt::draw(2);
    for (size_t i = 0; i < depth; i++)
      sub.push_back(named("sub_"));
  }
  for (size_t i = 0; i < nv; i++) {
    V v;
    v.name = gen_name();
    if (!sub.empty() && pbt::chance(2, 3)) {
      v.sub = sub;
      if (sub.size() > 1 && pbt::chance(1, 3))
        v.sub.pop_back();
      if (pbt::chance(1, 3))
        v.sub.back() += "2";
    }
    if (!used.insert(join(v.sub) + "/" + v.name).second)
      continue;
    v.type = gen_type();
    v.n = 1 + gen_count(o);
    if (o.empties && pbt::chance(1, 20))
      v.n = 0;
    vars.push_back(v);
  }
  size_t steps = 1 + pbt::sized(o.max_steps);
  if (pbt::chance(1, 40))
    steps = 90 + pbt::draw(40);
  if (pbt::chance(1, 300)) {
    pbt::label("more than 255 time steps");
    steps = 256 + pbt::draw(300);
    if (vars.size() > 1)
      vars.resize(1);
    if (o.huge && pbt::chance(1, 30)) {
      pbt::label("thousands of time steps");
      steps = 2000 + pbt::draw(3000);
      vars[0].sub.clear();
      vars[0].n = std::min<size_t>(vars[0].n, 2);
    }
  } else
    for (auto &v : vars)
      if (v.n * steps > 300000)
        v.n = 300;
  size_t first = pbt::chance(1, 3) ? pbt::draw(200) : 1;
  int width = pbt::chance(1, 8) ? 4 : 6;
  bool disagreeing = o.disagree && pbt::chance(1, 2);
  for (size_t s = 0; s < steps; s++) {
    Path d = folder;
    d.push_back(dname(first + s, width));
    for (auto &v : vars) {
      Rec r;
      r.folder = d;
      r.folder.insert(r.folder.end(), v.sub.begin(), v.sub.end());
      r.name = v.name;
      r.type = v.type;
      size_t n = v.n;
      if (disagreeing && pbt::chance(1, 6)) {
        switch (pbt::draw(3)) {
        case 0:
          if (vars.size() > 1)
            continue; // the step lacks the variable
          break;
        case 1:
          n = pbt::draw(2) ? n + 1 + pbt::draw(3) : n - (n ? 1 : 0);
          break;
        default:
          r.type = gen_type();
        }
      }
      r.data = gen_data(r.type, n);
      out.push_back(r);
    }
    if (o.disagree && pbt::chance(1, 10)) {
      // an additional variable or folder in this step only
      Rec r;
      r.folder = d;
      if (pbt::chance(1, 3))
        r.folder.push_back(named("extra_"));
      r.name = named("only_");
      r.type = gen_type();
      r.data = gen_data(r.type, 1 + pbt::draw(3));
      out.push_back(r);
    }
  }
  if (o.meta && pbt::chance(2, 3)) {
    Path m = folder;
    m.push_back("metadata");
    gen_vars(out, m, 1 + pbt::sized(5), o);
    if (pbt::chance(1, 6)) {
      m.push_back(named("sub_"));
      gen_vars(out, m, 1 + pbt::draw(2), o);
    }
    if (pbt::chance(1, 5) && !vars.empty()) {
      // the same name in the metadata and in the time steps
      Rec r;
      r.folder = Path(folder);
      r.folder.push_back("metadata");
      r.name = vars[0].sub.empty() ? vars[0].name : vars[0].sub[0];
      r.type = gen_type();
      r.data = gen_data(r.type, 1 + pbt::draw(4));
      out.push_back(r);
    }
  }
}

// Drops recordings that would make a name both a folder and a variable
inline void make_consistent(vector<Rec> &recs) {
  Node root;
  vector<Rec> ok;
  for (auto &r : recs) {
    Node *n = &root;
    bool bad = false;
    for (auto &c : r.folder) {
      Node *x = n->sub(c);
      if (!x) {
        n->ch[c] = std::make_unique<Node>();
        x = n->sub(c);
      }
      if (!x->folder) {
        bad = true;
        break;
      }
      n = x;
    }
    if (bad)
      continue;
    Node *x = n->sub(r.name);
    if (x && x->folder)
      continue;
    if (!x) {
      n->ch[r.name] = std::make_unique<Node>();
      n->sub(r.name)->folder = false;
    }
    ok.push_back(r);
  }
  recs = ok;
}

inline vector<Rec> gen_recs(const TreeOpts &o) {
  vector<Rec> recs;
  size_t tops = 1 + pbt::sized(o.max_top);
  for (size_t t = 0; t < tops; t++) {
    Path f;
    f.push_back(gen_name());
    if (f[0] == "metadata")
      f[0] = "meta";
    if (pbt::chance(1, 4)) {
      size_t depth = 1 + pbt::draw(3);
      for (size_t i = 0; i < depth; i++)
        f.push_back(gen_name());
      if (pbt::chance(1, 20))
        for (size_t i = 0; i < 6; i++)
          f.push_back(string(60 + pbt::draw(60), (char)('p' + i)));
    }
    if (o.dsteps && pbt::chance(2, 3))
      gen_timed(recs, f, o);
    else
      gen_vars(recs, f, 1 + pbt::sized(6), o);
    if (pbt::chance(1, 8) && !recs.empty()) { // recorded again, other data
      Rec r = recs[pbt::draw(recs.size())];
      if (pbt::chance(1, 2))
        r.type = gen_type();
      r.data = gen_data(r.type, 1 + pbt::draw(4));
      recs.push_back(r);
    }
  }
  if (recs.empty()) {
    Rec r;
    r.folder = {"a"};
    r.name = "b";
    r.type = I8;
    r.data = "1";
    recs.push_back(r);
  }
  if (!o.disagree) {
    // a second recording inside a time step could make steps disagree; keep
    // only same-shape repetitions
    std::map<string, std::pair<int, size_t>> shape;
    for (auto &r : recs) {
      string k = join(r.folder) + "/" + r.name;
      auto it = shape.find(k);
      bool timed = false;
      for (auto &c : r.folder)
        timed |= is_d(c);
      if (it == shape.end())
        shape[k] = {r.type, r.data.size()};
      else if (timed && (it->second.first != r.type ||
                         it->second.second != r.data.size())) {
        r.type = it->second.first;
        r.data = gen_data(r.type, it->second.second / tsize(r.type));
      }
    }
  }
  make_consistent(recs);
  return recs;
}

// Recording order: as generated, shuffled, or by folder; the relative order of
// two recordings of the same variable decides which one counts
inline void reorder(vector<Rec> &recs) {
  switch (pbt::draw(3)) {
  case 0:
    break;
  case 1:
    pbt::shuffle(recs);
    break;
  default:
    std::reverse(recs.begin(), recs.end());
  }
}

struct Mark { // record boundaries, for structured corruption
  size_t at, len;
  int kind; // 2 CD, 3 DATA, else other
};

// Serialises the recordings; applies the file's records to the model
struct Writer {
  Widths w;
  string out;
  vector<Mark> marks;
  Path cur;
  bool ok = true;
  std::map<string, unsigned> stats;
  void rec(uint64_t cmd, const string &body) {
    size_t at = out.size();
    if (!record(out, w, cmd, body)) {
      ok = false;
      return;
    }
    marks.push_back({at, out.size() - at, (int)cmd});
  }
  void junk() {
    static const int kinds[] = {1, 4, 5, 6, 7, 8, 100, 255};
    int k = kinds[pbt::draw(8)];
    string b;
    size_t n = pbt::sized(20);
    for (size_t i = 0; i < n; i++)
      b += (char)pbt::draw(256);
    rec(k, b);
    stats["other record kinds"]++;
  }
  void cd(const Path &to) {
    size_t common = 0;
    while (common < cur.size() && common < to.size() && cur[common] == to[common])
      common++;
    string p;
    bool rel = pbt::chance(1, 2);
    if (rel) {
      size_t ups = cur.size() - common;
      size_t from = common;
      if (pbt::chance(1, 6) && common > 0) { // climb further than needed
        ups++;
        from--;
      }
      if (from == 0 && pbt::chance(1, 8)) // nothing is above the root folder
        ups += 1 + pbt::draw(2);
      for (size_t i = 0; i < ups; i++)
        p += string(p.empty() ? "" : "/") + "..";
      for (size_t i = from; i < to.size(); i++)
        p += string(p.empty() ? "" : "/") + to[i];
      if (p.empty() && pbt::chance(1, 2)) {
        stats["empty CD"]++; // stays where it is
      } else if (p.empty()) {
        rel = false;
      } else {
        stats["relative CD"]++;
        if (ups)
          stats["CD with .."]++;
        if (pbt::chance(1, 12))
          p += "/";
      }
    }
    if (!rel) {
      p = join(to);
      if (pbt::chance(1, 12))
        p += "/";
      if (pbt::chance(1, 16))
        p = "/" + p;
      stats["absolute CD"]++;
    }
    // the format's readers keep 1 KB for a path
    if (p.size() >= 1000 || join(to).size() >= 1000) {
      ok = false;
      return;
    }
    rec(2, p);
    cur = to;
  }
  void data(const Rec &r) {
    if (pbt::chance(1, 24))
      cd({});
    if (cur != r.folder || pbt::chance(1, 12))
      cd(r.folder);
    rec(3, data_body(w, r.type, r.name, r.data));
  }
};

inline Widths gen_widths() {
  Widths w;
  if (pbt::chance(1, 2))
    return w;
  w.len = 1 + (int)pbt::draw(8);
  if (w.len == 1 && pbt::chance(2, 3))
    w.len = 8;
  w.off = (int)pbt::draw(9);
  w.cmd = 1 + (int)pbt::draw(8);
  w.typ = 1 + (int)pbt::draw(8);
  return w;
}

struct File {
  string bytes;
  vector<Mark> marks;
  Widths w;
  vector<Rec> recs; // what it records
  std::map<string, unsigned> stats;
};
// recordings that do not fit the field widths are dropped from the file
inline File serialise(const vector<Rec> &recs, bool junk = true) {
  File f;
  Writer wr;
  wr.w = gen_widths();
  header(wr.out, wr.w);
  for (auto &r : recs) {
    if (junk && pbt::chance(1, 10))
      wr.junk();
    size_t bytes = wr.out.size(), marks = wr.marks.size();
    Path cur = wr.cur;
    auto stats = wr.stats;
    wr.ok = true;
    wr.data(r);
    if (!wr.ok) {
      wr.out.resize(bytes);
      wr.marks.resize(marks);
      wr.cur = cur;
      wr.stats = stats;
      wr.ok = true;
      continue;
    }
    f.recs.push_back(r);
  }
  if (junk && pbt::chance(1, 3))
    wr.junk();
  f.bytes = wr.out;
  f.marks = wr.marks;
  f.w = wr.w;
  f.stats = wr.stats;
  return f;
}
inline void apply(Node *root, const File &f) {
  for (auto &r : f.recs) {
    Node *n = mkfolder(root, r.folder);
    auto &x = n->ch[r.name];
    x = std::make_unique<Node>();
    x->folder = false;
    x->type = r.type;
    x->data = r.data;
  }
}
inline void all_paths(const Node *n, Path &at, vector<Path> &vars,
                      vector<Path> &folders) {
  for (auto &c : n->ch) {
    at.push_back(c.first);
    if (c.second->folder) {
      folders.push_back(at);
      all_paths(c.second.get(), at, vars, folders);
    } else
      vars.push_back(at);
    at.pop_back();
  }
}

// --- reference semantics of simple paths and timed reads -----------------------
inline const Node *first_d(const Node *n) {
  for (auto &c : n->ch)
    if (is_d(c.first) && c.second->folder)
      return c.second.get();
  return nullptr;
}
struct Resolved {
  bool found = false;
  Path path;
  bool timed = false;
  const Node *node = nullptr;
};
inline Resolved resolve_simple(const Node *root, const Path &p) {
  Resolved r;
  const Node *n = root;
  for (size_t i = 0; i < p.size(); i++) {
    if (!n->folder)
      return r;
    if (const Node *x = n->sub(p[i])) {
      r.path.push_back(p[i]);
      n = x;
      continue;
    }
    if (i == 0)
      return r;
    const Node *m = n->sub("metadata");
    if (m && m->folder && m->sub(p[i])) {
      r.path.push_back("metadata");
      r.path.push_back(p[i]);
      n = m->sub(p[i]);
      continue;
    }
    const Node *d = first_d(n);
    if (d && d->sub(p[i])) {
      r.path.push_back(p[i]);
      r.timed = true;
      n = d->sub(p[i]);
      continue;
    }
    return r;
  }
  r.found = true;
  r.node = n;
  return r;
}
struct Timed {
  bool ok = false;
  size_t values = 0, steps = 0;
  string data;
  int type = 0;
  const char *why = "";
};
// The folder with the time steps is the deepest one reached by direct children
inline Timed read_timed(const Node *root, const Path &p) {
  Timed t;
  const Node *n = root;
  size_t i = 0;
  while (i < p.size() && n->folder && n->sub(p[i])) {
    n = n->sub(p[i]);
    i++;
  }
  if (i == p.size() || i == 0 || !n->folder) {
    t.why = "not timed";
    return t;
  }
  Path rest(p.begin() + i, p.end());
  size_t size = 0;
  for (auto &c : n->ch) {
    if (!is_d(c.first) || !c.second->folder)
      continue;
    const Node *v = lookup(c.second.get(), rest);
    if (!v || v->folder) {
      t.why = "a step lacks it";
      return t;
    }
    if (t.steps == 0) {
      t.type = v->type;
      size = v->data.size();
    } else if (v->type != t.type) {
      t.why = "types differ";
      return t;
    } else if (v->data.size() != size) {
      t.why = "sizes differ";
      return t;
    }
    t.data += v->data;
    t.steps++;
  }
  if (t.steps == 0) {
    t.why = "no steps";
    return t;
  }
  if (size == 0) {
    t.why = "empty";
    return t;
  }
  t.values = size / tsize(t.type);
  t.ok = true;
  return t;
}

// A path as a user may write it: extra separators are accepted
inline string spell(const Path &p) {
  if (!pbt::chance(1, 6))
    return join(p);
  string s;
  for (auto &c : p)
    s += string(pbt::chance(1, 4) ? "//" : "/") + c;
  if (pbt::chance(1, 3))
    s += "/";
  return s;
}
inline string describe(const vector<Rec> &recs, size_t max = 12) {
  string s;
  for (size_t i = 0; i < recs.size() && i < max; i++)
    s += pbt::fmt("%s/%s:%d[%zu] ", join(recs[i].folder).c_str(),
                  recs[i].name.c_str(), recs[i].type,
                  recs[i].data.size() / tsize(recs[i].type));
  if (recs.size() > max)
    s += pbt::fmt("... (%zu recordings)", recs.size());
  return s;
}
} // namespace bg

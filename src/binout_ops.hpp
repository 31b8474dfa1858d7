// Random files (several, possibly damaged) and operation sequences for binout
#pragma once
#include "binout_api.hpp"
#include "binout_gen.hpp"
#include <sys/stat.h>
#include <unistd.h>

namespace bo {
using namespace bg;

// --- corruption ---------------------------------------------------------------
inline void poke(string &b, size_t at, uint64_t v, int w) {
  for (int i = 0; i < w && at + i < b.size(); i++)
    b[at + i] = (char)(v >> (8 * i));
}
inline uint64_t nasty() {
  static const uint64_t v[] = {0,
                               1,
                               2,
                               8,
                               9,
                               10,
                               16,
                               255,
                               256,
                               1023,
                               1024,
                               1025,
                               0x7fffffff,
                               0x80000000ull,
                               0xffffffffull,
                               0x100000000ull,
                               0x7fffffffffffffffull,
                               0x8000000000000000ull,
                               ~0ull,
                               ~0ull - 7,
                               ~0ull - 8,
                               ~0ull - 20};
  switch (pbt::draw(3)) {
  case 0:
    return v[pbt::draw(sizeof v / sizeof *v)];
  case 1:
    return pbt::draw(64);
  default:
    return pbt::bits64() >> pbt::draw(64);
  }
}
inline string mutate(const File &f) {
  string b = f.bytes;
  size_t n = 1 + pbt::sized(4);
  const Widths &w = f.w;
  for (size_t i = 0; i < n; i++) {
    const Mark *m = f.marks.empty() ? nullptr : &f.marks[pbt::draw(f.marks.size())];
    switch (pbt::draw(10)) {
    case 0: // random byte
      if (!b.empty())
        b[pbt::draw(b.size())] = (char)pbt::draw(256);
      break;
    case 1: // header field
      if (b.size() >= 8)
        b[pbt::draw(8)] = (char)(pbt::chance(1, 2) ? pbt::draw(12)
                                                   : pbt::draw(256));
      break;
    case 2: // record length
      if (m) {
        uint64_t v = pbt::chance(1, 2) ? nasty() : m->len + pbt::draw(17) - 8;
        poke(b, m->at, v, w.len);
      }
      break;
    case 3: // command
      if (m)
        poke(b, m->at + w.len, pbt::chance(2, 3) ? 2 + pbt::draw(2) : nasty(),
             w.cmd);
      break;
    case 4: // type id / name length
      if (m) {
        if (pbt::chance(1, 2))
          poke(b, m->at + w.len + w.cmd, nasty(), w.typ);
        else
          poke(b, m->at + w.len + w.cmd + w.typ, pbt::draw(256), 1);
      }
      break;
    case 5: // truncate
      if (!b.empty())
        b.resize(pbt::draw(b.size()));
      break;
    case 6: { // insert a record
      string body, r;
      switch (pbt::draw(6)) {
      case 0:
        body = string("..") + (pbt::chance(1, 2) ? "/.." : "");
        break;
      case 1:
        body = string(pbt::draw(3000), "ab/."[pbt::draw(4)]);
        break;
      case 2:
        body = "";
        break;
      case 3:
        body = "/";
        break;
      case 4:
        body = "/" + gen_name();
        break;
      default:
        for (size_t k = pbt::draw(40); k > 0; k--)
          body += "/.a\0d1"[pbt::draw(6)];
      }
      uint64_t cmd = 2;
      if (pbt::chance(1, 3)) {
        cmd = 3;
        body = data_body(w, (int)pbt::draw(12), pbt::chance(1, 4) ? "" : gen_name().substr(0, 200), "12345678");
      }
      record(r, w, cmd, body);
      size_t at = m ? m->at : b.size();
      if (at <= b.size())
        b.insert(at, r);
      break;
    }
    case 7: // delete a piece
      if (b.size() > 9) {
        size_t at = pbt::draw(b.size());
        b.erase(at, 1 + pbt::draw(12));
      }
      break;
    case 8: // repeat a record at the end
      if (m && m->at + m->len <= b.size())
        b += b.substr(m->at, m->len);
      break;
    default: // variable named like a folder and the other way round
      if (m) {
        const Rec &r = f.recs.empty() ? Rec{{"a"}, "b", 1, ""}
                                      : f.recs[pbt::draw(f.recs.size())];
        string o;
        Path parent = r.folder;
        if (pbt::chance(1, 2)) {
          string name = parent.back();
          parent.pop_back();
          record(o, w, 2, join(parent));
          record(o, w, 3, data_body(w, 1 + (int)pbt::draw(10), name.substr(0, 255), "abcdefgh"));
        } else {
          parent.push_back(r.name);
          record(o, w, 2, join(parent));
          record(o, w, 3, data_body(w, 1 + (int)pbt::draw(10), "child", "abcdefgh"));
        }
        b += o;
      }
    }
  }
  if (pbt::chance(1, 60)) {
    b.clear();
    for (size_t k = pbt::draw(64); k > 0; k--)
      b += (char)pbt::draw(256);
  }
  return b;
}

// --- a scene: files on disk plus what they should contain -----------------------
struct Scene {
  string pattern;
  string dirname;
  vector<File> files;
  vector<string> names;
  std::unique_ptr<Node> model{new Node};
  vector<Path> vars, folders;
  bool damaged = false;
  string contents; // of all files
};
enum Damage { NONE = 0, SOME = 1 };
inline Scene gen_scene(Damage dmg, const string &d) {
  Scene s;
  s.dirname = d;
  TreeOpts o;
  o.disagree = pbt::chance(1, 3);
  size_t nf = pbt::chance(1, 3) ? 1 + pbt::draw(4) : 1;
  auto recs = gen_recs(o);
  reorder(recs);
  vector<vector<Rec>> parts(nf);
  for (auto &r : recs)
    parts[pbt::draw(nf)].push_back(r);
  for (size_t i = 0; i < nf; i++) {
    File f = serialise(parts[i]);
    apply(s.model.get(), f);
    string bytes = f.bytes;
    if (dmg == SOME && pbt::chance(1, 2)) {
      bytes = mutate(f);
      s.damaged = true;
    }
    string name = d + "/" + pbt::fmt("binout%04zu", i);
    pbt::write_file(name, bytes);
    s.names.push_back(name);
    s.contents += bytes;
    s.files.push_back(std::move(f));
  }
  s.pattern = d + "/binout*";
  Path at;
  all_paths(s.model.get(), at, s.vars, s.folders);
  return s;
}

// --- operations -----------------------------------------------------------------
struct Op {
  int kind; // 0 read 1 timed 2 type 3 exists 4 children 5 steps 6 simple 7 open error
  string path;
  int type = 1;
};
inline Path strip(const Path &p) {
  Path q;
  for (auto &c : p)
    if (c != "metadata" && !is_d(c))
      q.push_back(c);
  return q;
}
inline Path gen_query(const Scene &s) {
  Path p;
  if (s.vars.empty())
    return {"a", "b"};
  switch (pbt::weighted({6, 4, 2, 2, 1})) {
  case 0:
    return s.vars[pbt::draw(s.vars.size())];
  case 1:
    return strip(s.vars[pbt::draw(s.vars.size())]);
  case 2:
    return s.folders[pbt::draw(s.folders.size())];
  case 3:
    p = s.vars[pbt::draw(s.vars.size())];
    p.back() += "x";
    return p;
  default:
    p = s.vars[pbt::draw(s.vars.size())];
    if (pbt::chance(1, 2))
      p.insert(p.begin() + pbt::draw(p.size()), gen_name());
    else
      p.push_back(gen_name());
    return p;
  }
}
inline int type_at(const Scene &s, const Path &p) {
  if (const Node *n = lookup(s.model.get(), p))
    if (!n->folder)
      return n->type;
  Resolved r = resolve_simple(s.model.get(), p);
  if (r.found && !r.node->folder)
    return r.node->type;
  return 0;
}
inline Op gen_op(const Scene &s, bool only_reads = false) {
  Op o;
  o.kind = (int)(only_reads ? pbt::draw(2)
                            : pbt::weighted({6, 5, 2, 1, 1, 1, 2, 1}));
  Path p = gen_query(s);
  if (o.kind == 1 && pbt::chance(2, 3))
    p = strip(p);
  if (p.empty())
    p = {"x"};
  o.type = type_at(s, p);
  if (o.type == 0 || pbt::chance(1, 6))
    o.type = gen_type();
  o.path = spell(p);
  return o;
}
inline string scrub(const string &s, const string &dir) {
  string r;
  size_t from = 0, at;
  while ((at = s.find(dir, from)) != string::npos) {
    r.append(s, from, at - from).append("<DIR>");
    from = at + dir.size();
  }
  return r.append(s, from);
}
inline string show(const ba::Read &r) {
  string s = r.ok ? pbt::fmt("ok n=%zu steps=%zu ", r.n, r.steps) +
                        pbt::hexdump(r.data.data(), r.data.size())
                  : "failed";
  if (r.has_error)
    s += " error: " + r.error;
  return s;
}
inline string do_op(binout_file *f, const Op &o, bool err = true) {
  switch (o.kind) {
  case 0:
    return show(ba::read(f, o.path, o.type, err));
  case 1:
    return show(ba::read_timed(f, o.path, o.type, err));
  case 2: {
    int t = binout_get_type_id(f, o.path.c_str());
    string s = pbt::fmt("type %d", t);
    if (err && f->error_string)
      s += string(" error: ") + f->error_string;
    return s;
  }
  case 3:
    return pbt::fmt("exists %d", binout_variable_exists(f, o.path.c_str()) != 0);
  case 4: {
    auto c = ba::children(f, o.path);
    string s = pbt::fmt("children %d %zu", c.null, c.n);
    for (auto &n : c.names)
      s += " [" + n + "]";
    return s;
  }
  case 5:
    return pbt::fmt("steps %zu", binout_get_num_timesteps(f, o.path.c_str()));
  case 6: {
    string q = o.path;
    auto r = ba::simple(f, q);
    return pbt::fmt("simple %d %s %d %d", r.ok, r.path.c_str(), r.type,
                    r.timed);
  }
  default: {
    // depends on the error string by definition: only call it
    char *e = binout_open_error(f);
    free(e);
    return "open error called";
  }
  }
}
inline string show_op(const Op &o) {
  static const char *k[] = {"read", "read_timed", "type", "exists",
                            "children", "num_timesteps", "simple", "open_error"};
  return pbt::fmt("%s(%s, type %d)", k[o.kind], o.path.c_str(), o.type);
}
// Touches everything a handle offers (for damaged files)
inline void walk(binout_file *f, const string &path, unsigned depth,
                 vector<string> &out) {
  auto c = ba::children(f, path);
  if (c.null || depth > 60)
    return;
  for (auto &n : c.names) {
    string p = (path == "/" ? "" : path) + "/" + n;
    out.push_back(p);
    if (out.size() > 400)
      return;
    walk(f, p, depth + 1, out);
  }
}
} // namespace bo

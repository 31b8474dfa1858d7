// T02: the build without thread safety against the default one. Both builds run
// the same draws; what they report is compared as text.
#include "binout_ops.hpp"
#include "d3_ops.hpp"
#include "key_gen.hpp"
#include "peer_calls.hpp"
#include <climits>
#include <memory>
using pbt::chance;
using pbt::draw;
using std::string;
using std::vector;

namespace {
struct Cwd {
  char old[PATH_MAX];
  Cwd() {
    if (!getcwd(old, sizeof old))
      old[0] = 0;
  }
  ~Cwd() {
    if (chdir(old)) {
    }
  }
};
string &desc = peer::description;
size_t &calls = peer::calls, &failing = peer::failing;
// what is drawn may depend on the length of the path, which is the same in both builds
string base() {
  string d = pbt::dir();
  if (d.size() > 5 && d.compare(d.size() - 5, 5, "/peer") == 0)
    return d;
  mkdir((d + "/self").c_str(), 0700);
  return d + "/self";
}
void called(string &t) {
  calls++;
  if (peer::after_call)
    t += peer::after_call();
}

// A file that can not be reached (any more) is noticed when it is opened in one
// build and when it is used in the other one.
string same_wording(const string &s) {
  for (const char *w : {"Failed to access file of ", "Failed to access the file of ",
                        "Failed to seek to the position of ", "Failed to seek to the data of "}) {
    size_t at = s.find(w);
    if (at != string::npos)
      return s.substr(0, at) + "file not reachable";
  }
  return s;
}
// the same path written in another way; the working directory is changed for it
string spelled(const string &path) {
  size_t k = path.rfind('/');
  string folder = path.substr(0, k), name = path.substr(k + 1);
  switch (draw(6)) {
  case 1:
    if (chdir(folder.c_str()) == 0)
      return name;
    break;
  case 2:
    if (chdir(folder.c_str()) == 0)
      return "./" + name;
    break;
  case 3:
    mkdir((folder + "/sub").c_str(), 0700);
    if (chdir((folder + "/sub").c_str()) == 0)
      return "../" + name;
    break;
  case 4:
    mkdir((folder + "/sub").c_str(), 0700);
    return folder + "/sub/../" + name;
  }
  return path;
}
void elsewhere() {
  if (chance(1, 2) && chdir(chance(1, 2) ? "/" : base().c_str())) {
  }
}

string t02_binout() {
  pbt::label("binout");
  Cwd back;
  const string d = base();
  auto s = bo::gen_scene((decltype(bo::NONE))pbt::weighted({3, 1}) ? bo::SOME : bo::NONE, d);
  string t;
  struct H {
    std::unique_ptr<ba::Handle> h;
  };
  vector<H> hs;
  auto open = [&](H &h) {
    string p = spelled(s.pattern);
    h.h.reset();
    called(t);
    h.h.reset(new ba::Handle(p));
    elsewhere();
    t += "open: " + h.h->open_error() + "\n";
    called(t);
  };
  size_t k = 1 + draw(3);
  for (size_t i = 0; i < k; i++) {
    hs.emplace_back();
    open(hs.back());
  }
  size_t n = 4 + pbt::sized(40);
  desc = "binout: ";
  for (size_t i = 0; i < n; i++) {
    H &h = hs[draw(hs.size())];
    if (chance(1, 20)) {
      open(h);
      continue;
    }
    bo::Op o = bo::gen_op(s);
    string r = same_wording(bo::do_op(h.h->p(), o));
    string w = bo::show_op(o);
    if (i < 6)
      desc += w + "; ";
    t += w + " -> " + r + "\n";
    called(t);
    failing += r.find("error:") != string::npos;
  }
  return bo::scrub(t, d);
}

string t02_d3plot() {
  pbt::label("d3plot");
  using namespace dops;
  Cwd back;
  const string d = base();
  auto st = (Style)pbt::weighted({3, 1, 1});
  Family f = gen_family(Limits{10, 5, 5, 4}, d, st);
  string t;
  vector<std::unique_ptr<da::Handle>> hs;
  auto open = [&](std::unique_ptr<da::Handle> &h) {
    string p = spelled(f.root);
    h.reset();
    called(t);
    h.reset(new da::Handle(p));
    elsewhere();
    t += "open: " + (h->ok() ? pbt::fmt("%zu states", h->f.num_states) : h->error()) + "\n";
    called(t);
  };
  size_t k = 1 + draw(3);
  for (size_t i = 0; i < k; i++) {
    hs.emplace_back();
    open(hs.back());
  }
  size_t n = 4 + pbt::sized(40);
  desc = describe(f) + " calls: ";
  for (size_t i = 0; i < n; i++) {
    auto &h = hs[draw(hs.size())];
    if (chance(1, 20)) {
      open(h);
      continue;
    }
    Call c = da::gen_call(f.m, (int)draw(da::NUM_OPS));
    if (!h->ok())
      continue;
    Val v = da::call(h->p(), c);
    string w = da::text_of(c);
    if (i < 6)
      desc += w + "; ";
    t += w + " -> " + da::text_of(v) + "\n";
    called(t);
    failing += v.err;
  }
  return scrub(t, d);
}
string of_keywords(const vector<kg::Kw> &ks) {
  string t;
  for (auto &k : ks) {
    t += "  *" + k.name + "\n";
    for (auto &c : k.cards)
      t += "    " + c + "\n";
  }
  return t;
}
string t02_key() {
  pbt::label("key file");
  const string d = base();
  kg::Tree tr = kg::gen_tree(6, d, true);
  kg::Cwd cd(tr.cwd);
  kg::Evaluator ev(tr); // discards trees that are too big
  kg::CConfig cfg(tr.cfg);
  desc = pbt::fmt("key files: %zu files", tr.files.size());
  string t;
  for (size_t i = 0, n = 2 + draw(3); i < n; i++) {
    if (chance(1, 2)) {
      kg::Parsed p = kg::parse(tr.root_arg, &cfg.c);
      t += "parse: " + p.error + p.warning + "\n" + of_keywords(p.kws);
      called(t);
      failing += p.has_error;
      if (!p.kws.empty() && !p.has_error) {
        // what is found in the keywords by the other functions
        key_parse_config_t c2 = cfg.c;
        char *e = nullptr, *w = nullptr;
        size_t m = 0;
        keyword_t *kw = key_file_parse(tr.root_arg.c_str(), &m, &c2, &e, &w);
        called(t);
        for (size_t k = 0; k < 3 && m; k++) {
          const string name = kw[draw(m)].name;
          size_t sz = 0;
          keyword_t *s = key_file_get_slice(kw, m, name.c_str(), &sz);
          called(t);
          keyword_t *g = key_file_get(kw, m, name.c_str(), draw(3));
          called(t);
          t += pbt::fmt("slice of %s: %zd %zu, get %zd\n", name.c_str(), s ? s - kw : -1, sz,
                        g ? g - kw : -1);
        }
        for (size_t k = 0; k < m && k < 12; k++) {
          include_transform_t it = key_parse_include_transform(&kw[k]);
          called(t);
          t += pbt::fmt("transform %s\n", it.file_name ? it.file_name : "(none)");
          key_free_include_transform(&it);
          called(t);
          define_transformation_t dt = key_parse_define_transformation(&kw[k], (int)draw(2));
          called(t);
          t += pbt::fmt("transformation %s %zu options\n", dt.title ? dt.title : "(none)",
                        dt.num_options);
          key_free_define_transformation(&dt);
          called(t);
        }
        key_file_free(kw, m);
        called(t);
        free(e);
        free(w);
      }
    } else {
      kg::Called c = kg::call(tr.root_arg, &cfg.c);
      t += "call: " + c.error + c.warning + "\n";
      for (size_t k = 0; k < c.ev.size(); k++)
        t += pbt::fmt("  %s:%zu in %s: %s %zu %s\n", c.ev[k].file.c_str(), c.ev[k].line_lo,
                      c.roots[k].c_str(), c.ev[k].keyword.c_str(), c.ev[k].index,
                      c.ev[k].has_card ? c.ev[k].card.c_str() : "(no card)");
      called(t);
      failing += c.has_error;
    }
  }
  return bo::scrub(t, d);
}
} // namespace

namespace peer {
string description;
size_t calls, failing;
string (*after_call)();
string run() {
  calls = failing = 0;
  switch (pbt::weighted({5, 5, 2})) {
  case 0:
    return t02_binout();
  case 1:
    return t02_d3plot();
  }
  return t02_key();
}
void compare(const char *own_name, const string &own, const char *other_name, const string &other) {
  if (own == other)
    return;
  size_t i = 0;
  while (i < own.size() && i < other.size() && own[i] == other[i])
    i++;
  size_t k = i ? own.rfind('\n', i - 1) : string::npos;
  k = k == string::npos ? 0 : k + 1;
  pbt::fail("%s reports\n  %.600s\n%s\n  %.600s", own_name, own.substr(k).c_str(), other_name,
            other.substr(std::min(k, other.size())).c_str());
}
} // namespace peer
// the same draws come before it in T03
static string t03() {
  draw(3);
  draw(1000);
  return peer::run();
}
static pbt::Transcript reg("t02", peer::run), reg3("t03", t03);

#ifndef HARNESS_prof
PROPERTY(T02, 40000, 1500000,
         "random binouts, d3plot families (a third damaged) and trees of key "
         "files; one to three handles opened by differently spelled paths and "
         "after changes of the working directory, random calls and reopening on "
         "all of them, made in the default build and in the build without thread "
         "safety; non-trivial: at least 4 calls, one of them successful") {
  string own = peer::run();
  pbt::sample(desc);
  pbt::label_if(failing > 0, "some call fails");
  if (calls >= 4 && failing < calls)
    pbt::nontrivial();
  peer::compare("the default build", own, "the build without thread safety",
                pbt::peer_transcript("PBT_PEER_NTS", "t02"));
}
#endif

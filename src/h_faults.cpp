// R01: file operations that fail. Whatever can not be opened, read or
// positioned, and at whichever point: the call reports it or gives the same
// results as without the failure, and later calls are not affected.
#include "binout_ops.hpp"
#include "d3_ops.hpp"
#include "io_faults.hpp"
#include "key_gen.hpp"
#include "cpp_api.hpp"
#include "cpp_key.hpp"
#include <memory>
#include <sys/stat.h>
#include <unistd.h>

using pbt::chance;
using pbt::draw;
using std::string;
using std::vector;

namespace {
unsigned long hit, reported;

struct Fault {
  io::Plan plan;
  int file = -1; // this one is shortened to 'size' bytes, or missing
  long size = -1;
  bool any() const { return plan.from != ~(size_t)0 || file >= 0; }
};
Fault gen_fault(const vector<string> &files, bool opening) {
  Fault f;
  if (!chance(1, 2))
    return f;
  if (!opening && !files.empty() && chance(1, 5)) {
    f.file = (int)draw(files.size());
    if (chance(3, 4)) {
      size_t n = pbt::read_file(files[f.file]).size();
      f.size = (long)(chance(1, 2) ? draw(n + 1) : n - std::min(n, (size_t)draw(40)));
    }
    return f;
  }
  f.plan.from = chance(1, 2) ? draw(4) : pbt::sized(opening ? 200 : 40);
  f.plan.to = chance(1, 3) ? ~(size_t)0 : f.plan.from + 1 + draw(3);
  if (chance(2, 3))
    f.plan.kinds = 1u << draw(4);
  return f;
}
// the fault is there while this lives
struct Faulty {
  const Fault &f;
  const vector<string> &files;
  string old;
  Faulty(const Fault &f, const vector<string> &files) : f(f), files(files) {
    if (f.file >= 0) {
      const string &p = files[f.file];
      if (f.size < 0)
        rename(p.c_str(), (p + ".away").c_str());
      else {
        old = pbt::read_file(p);
        if (truncate(p.c_str(), f.size) != 0)
          pbt::fail("can not shorten %s", p.c_str());
      }
    }
    io::start(f.plan);
  }
  ~Faulty() {
    io::stop();
    if (f.file < 0)
      return;
    const string &p = files[f.file];
    if (f.size < 0)
      rename((p + ".away").c_str(), p.c_str());
    else if (FILE *o = fopen(p.c_str(), "r+b")) { // the same file
      fwrite(old.data(), 1, old.size(), o);
      fclose(o);
    }
  }
};
string show(const Fault &f) {
  if (f.file >= 0)
    return f.size < 0 ? pbt::fmt("file %d missing", f.file)
                      : pbt::fmt("file %d shortened to %ld bytes", f.file, f.size);
  if (f.plan.from == ~(size_t)0)
    return "no failure";
  string k;
  if (f.plan.kinds & io::OPEN)
    k += " open";
  if (f.plan.kinds & io::READ)
    k += " read";
  if (f.plan.kinds & io::SEEK)
    k += " seek";
  if (f.plan.kinds & io::TELL)
    k += " tell";
  return pbt::fmt("operations %zu to %zd (of%s) fail", f.plan.from,
                  (ssize_t)f.plan.to - 1, k.c_str());
}
void judge(const string &what, const Fault &f, bool happened, const string &want,
           const string &got, bool error) {
  hit += happened;
  if (want == got)
    return;
  if (error && happened) {
    reported++;
    return;
  }
  pbt::fail("%s with %s gives\n  %.400s\ninstead of\n  %.400s\nor an error",
            what.c_str(), show(f).c_str(), got.c_str(), want.c_str());
}

// ------------------------------------------------------------------ binout
// a handle of either API
struct Binout {
  std::unique_ptr<ba::Handle> c;
  std::unique_ptr<dro::Binout> x;
  string error;
  Binout(const string &pattern, bool cpp) {
    if (!cpp) {
      c.reset(new ba::Handle(pattern));
      error = c->open_error();
      return;
    }
    try {
      x.reset(new dro::Binout(pattern));
    } catch (const dro::Binout::Exception &e) {
      error = e.what();
    }
  }
  bool usable() const { return c || x; }
  string op(const bo::Op &o) {
    return c ? bo::do_op(c->p(), o) : x && o.kind < 7 ? xa::do_op(*x, o) : "";
  }
};
void r_binout() {
  bool cpp = chance(1, 3);
  pbt::label(cpp ? "Binout" : "binout");
  auto s = bo::gen_scene(chance(3, 4) ? bo::NONE : bo::SOME, pbt::dir());
  size_t n = 1 + pbt::sized(20);
  vector<bo::Op> ops;
  for (size_t i = 0; i < n; i++)
    ops.push_back(bo::gen_op(s));
  vector<string> want;
  string open;
  {
    Binout h(s.pattern, cpp);
    open = h.error;
    for (auto &o : ops)
      want.push_back(h.op(o));
  }
  Fault at_open = chance(1, 3) ? gen_fault(s.names, true) : Fault();
  std::unique_ptr<Binout> h;
  size_t happened;
  {
    Faulty now(at_open, s.names);
    h.reset(new Binout(s.pattern, cpp));
    happened = io::failed;
  }
  string got = h->error;
  judge("opening", at_open, happened > 0, "open error: " + open,
        "open error: " + got, !got.empty());
  string desc = "binout: open with " + show(at_open) + "; ";
  if (!got.empty() && happened) { // what could be read of it can still be used
    for (auto &o : ops)
      h->op(o);
    pbt::sample(desc);
    return;
  }
  for (size_t i = 0; i < n; i++) {
    Fault f = gen_fault(s.names, false);
    string r, what = bo::show_op(ops[i]);
    {
      Faulty now(f, s.names);
      r = h->op(ops[i]);
      happened = io::failed + (f.file >= 0);
    }
    if (i < 5)
      desc += what + " with " + show(f) + "; ";
    judge(what, f, happened > 0, want[i], r, r.find("error:") != string::npos);
  }
  pbt::sample(desc);
}

// ------------------------------------------------------------------ d3plot
struct D3plot {
  std::unique_ptr<da::Handle> c;
  std::optional<dro::D3plot> x;
  string opened;
  D3plot(const string &root, bool cpp) {
    if (!cpp) {
      c.reset(new da::Handle(root));
      opened = c->ok() ? pbt::fmt("%zu states", c->f.num_states) : "error: " + c->error();
      if (!c->ok())
        c.reset();
      return;
    }
    try {
      x.emplace(root);
      opened = pbt::fmt("%zu states", x->num_time_steps());
    } catch (const dro::D3plot::Exception &e) {
      opened = string("error: ") + e.what();
    }
  }
  bool ok() const { return c || x; }
  da::Val op(const da::Call &k) { return c ? da::call(c->p(), k) : xa::call(*x, k); }
};
void r_d3plot() {
  bool cpp = chance(1, 3);
  pbt::label(cpp ? "D3plot" : "d3plot");
  using namespace dops;
  auto st = (Style)pbt::weighted({4, 1, 1});
  Family f = gen_family(Limits{10, 5, 5, 4}, pbt::dir(), st);
  vector<string> names;
  for (size_t i = 0; i < f.files.size(); i++) {
    string p = dg::member(f.root, i);
    struct stat sb;
    if (stat(p.c_str(), &sb) == 0 && S_ISREG(sb.st_mode))
      names.push_back(p);
  }
  size_t n = 1 + pbt::sized(20);
  vector<Call> calls;
  for (size_t i = 0; i < n; i++) {
    Call c = da::gen_call(f.m, (int)draw(da::NUM_OPS));
    if (cpp && (c.op == da::EPOCH || c.op == da::RUN_TIME))
      continue; // a time point can not hold every run time
    calls.push_back(c);
  }
  n = calls.size();
  vector<Val> want;
  string open;
  {
    D3plot h(f.root, cpp);
    open = h.opened;
    if (h.ok())
      for (auto &c : calls)
        want.push_back(h.op(c));
  }
  Fault at_open = chance(1, 3) ? gen_fault(names, true) : Fault();
  std::unique_ptr<D3plot> h;
  size_t happened;
  {
    Faulty now(at_open, names);
    h.reset(new D3plot(f.root, cpp));
    happened = io::failed;
  }
  string desc = describe(f) + ": open with " + show(at_open) + "; ";
  judge(desc, at_open, happened > 0, open, h->opened, !h->ok());
  if (!h->ok()) {
    pbt::sample(desc);
    return;
  }
  for (size_t i = 0; i < n; i++) {
    Fault flt = gen_fault(names, false);
    Val v;
    string what = da::text_of(calls[i]);
    {
      Faulty now(flt, names);
      v = h->op(calls[i]);
      happened = io::failed + (flt.file >= 0);
    }
    if (i < 5)
      desc += what + " with " + show(flt) + "; ";
    judge(what, flt, happened > 0, da::text_of(want[i]), da::text_of(v), v.err);
  }
  pbt::sample(desc);
}

// ------------------------------------------------------------------ key files
void r_key() {
  pbt::label("key");
  string file, cwd = pbt::dir();
  kg::Config cfg;
  if (chance(1, 3)) {
    file = pbt::dir() + "/a.k";
    auto t = kg::gen_text(14, file, true, 0);
    pbt::write_file(file, t.text);
  } else {
    auto t = kg::gen_tree(6, pbt::dir(), true, false);
    file = t.root_arg;
    cwd = t.cwd;
    cfg = t.cfg;
    kg::Cwd there(cwd);
    kg::Evaluator few(t); // discards trees of very many includes
  }
  kg::Cwd cd(cwd);
  kg::CConfig cc(cfg);
  kg::Called want = kg::call(file, &cc.c);
  string xwant = xk::all_of(file, cfg);
  kg::Parsed pwant = kg::parse(file, &cc.c);
  string desc = "key file " + file + ": ";
  size_t n = 1 + pbt::sized(6);
  for (size_t i = 0; i < n; i++) {
    Fault f = gen_fault({}, true);
    if (i < 5)
      desc += show(f) + "; ";
    size_t how = draw(3);
    if (how == 2) {
      string x;
      {
        Faulty now(f, {});
        x = xk::all_of(file, cfg);
      }
      judge(desc, f, io::failed > 0, xwant, x,
            x.find("error: ") != string::npos || x.find("warning: ") != string::npos);
      continue;
    }
    if (how == 1) {
      kg::Called c;
      {
        Faulty now(f, {});
        c = kg::call(file, &cc.c);
      }
      judge(desc, f, io::failed > 0, xk::text_of(want), xk::text_of(c),
            c.has_error || c.has_warning);
      continue;
    }
    kg::Parsed p;
    {
      Faulty now(f, {});
      p = kg::parse(file, &cc.c);
    }
    auto all = [](const kg::Parsed &p) {
      string s = p.warning + "\n";
      for (auto &k : p.kws) {
        s += "*" + k.name + "\n";
        for (auto &c : k.cards)
          s += c + "\n";
      }
      return p.null ? "null: " + p.error : s + p.error;
    };
    judge(desc, f, io::failed > 0, all(pwant), all(p), p.has_error || p.has_warning);
  }
  pbt::sample(desc);
}
} // namespace

PROPERTY(R01, 30000, 1500000,
         "random binouts, d3plot families and trees of key files; while they are "
         "opened or during single calls one to all of the file operations from a "
         "random one on fail (opening, reading, positioning), or a file is missing "
         "or shortened; compared with the results without failures; non-trivial: "
         "at least one operation failed during a call") {
  hit = reported = 0;
  switch (pbt::weighted({4, 5, 3})) {
  case 0:
    r_binout();
    break;
  case 1:
    r_d3plot();
    break;
  default:
    r_key();
  }
  pbt::label_if(reported > 0, "reported");
  pbt::label_if(hit > reported, "without effect on the result");
  if (hit)
    pbt::nontrivial();
}

// T01: threads reading from one handle, and threads with handles of their own,
// get what they get alone. The schedule is part of the generated case.
#include "binout_ops.hpp"
#include "sched.hpp"
#include "key_gen.hpp"
#include "cpp_api.hpp"
#include "cpp_key.hpp"
#include "d3_ops.hpp"
#include <memory>
#include <optional>

using pbt::chance;
using pbt::draw;
using std::string;
using std::vector;

namespace {
typedef vector<vector<string>> Results;

bool failing(const string &s) {
  return s.find("error:") != string::npos || s.compare(0, 6, "failed") == 0;
}

// What thread i does as its k-th operation, on what is set up with it
struct Work {
  vector<vector<std::function<string()>>> ops;
  vector<vector<string>> names;
};
// 'again' makes the same operations on objects not used before
void compare(const string &desc, const Work &alone, const Work &together,
             bool shared) {
  size_t n = alone.ops.size();
  Results want(n), got(n);
  vector<vector<char>> use(n);
  sch::count(true);
  size_t used = 0;
  for (size_t i = 0; i < n; i++)
    for (auto &o : alone.ops[i]) {
      want[i].push_back(o());
      // failing calls share the error string of the handle
      use[i].push_back(!shared || !failing(want[i].back()));
      used += use[i].back();
    }
  sch::count(false);
  unsigned long events = sch::events(), steps = sch::steps();
  unsigned long each = events ? steps / events + 1 : steps + 1;
  vector<sch::Switch> sw;
  int first = (int)draw(n);
  // each thread stops within its first operations, one after the other
  const bool queue = chance(1, n > 3 ? 2 : 6);
  pbt::label_if(queue, "the threads stop one after the other");
  if (queue) {
    unsigned long e = 0, step = used ? 2 * events / used + 2 : 2;
    int to = first;
    for (size_t i = n - 1 + draw(n); i; i--) {
      e += 1 + draw(chance(1, 2) ? 4 : step);
      to = (to + 1) % (int)n;
      sw.push_back({e, chance(1, 2) ? draw(12) : 0, to});
    }
  }
  size_t m = chance(7, 8) && !(queue && chance(3, 4)) ? 1 + pbt::sized(8) : 0;
  for (size_t i = 0; i < m; i++) {
    unsigned long e = draw(events + 1);
    unsigned long s = chance(1, 2) ? draw(12) : chance(1, 2) ? 0 : draw(2 * each);
    sw.push_back({e, s, (int)draw(n)});
  }
  std::sort(sw.begin(), sw.end(), [](const sch::Switch &a, const sch::Switch &b) {
    return a.event != b.event ? a.event < b.event : a.steps < b.steps;
  });
  string plan = pbt::fmt("thread %d first", first);
  for (auto &s : sw)
    plan += pbt::fmt(", to %d at %lu+%lu", s.to, s.event, s.steps);
  pbt::sample(desc + plan);
  pbt::note("%s%s", desc.c_str(), plan.c_str());
  vector<std::function<void()>> bodies;
  for (size_t i = 0; i < n; i++) {
    got[i].resize(want[i].size());
    bodies.push_back([&, i] {
      for (size_t k = 0; k < together.ops[i].size(); k++)
        if (use[i][k])
          got[i][k] = together.ops[i][k]();
    });
  }
  sch::run(bodies, first, sw);
  for (size_t i = 0; i < n; i++)
    for (size_t k = 0; k < want[i].size(); k++)
      if (use[i][k] && got[i][k] != want[i][k])
        pbt::fail("thread %zu: %s gives\n  %.400s\ninstead of\n  %.400s\n(%s%s)", i,
                  together.names[i][k].c_str(), got[i][k].c_str(),
                  want[i][k].c_str(), desc.c_str(), plan.c_str());
  pbt::label_if(used == 0, "no usable operation");
  if (used > 1 && sch::st.switches > 0)
    pbt::nontrivial();
}
string plan_of(const char *what, const Work &w) {
  string s = what;
  for (size_t i = 0; i < w.names.size(); i++) {
    s += pbt::fmt(" [%zu:", i);
    for (size_t k = 0; k < w.names[i].size() && k < 4; k++)
      s += " " + w.names[i][k];
    s += "]";
  }
  return s + "; ";
}
size_t num_threads() {
  return chance(1, 10) ? 4 + draw(3) : 2 + pbt::sized(2);
}
size_t num_ops() { return 1 + pbt::sized(6); }

// --------------------------------------------------------------- one handle
void t_binout(bool cpp) {
  auto s = bo::gen_scene(chance(5, 6) ? bo::NONE : bo::SOME, pbt::dir());
  Work a, b;
  std::unique_ptr<ba::Handle> h1, h2;
  std::unique_ptr<dro::Binout> x1, x2;
  try {
    if (cpp) {
      x1.reset(new dro::Binout(s.pattern));
      x2.reset(new dro::Binout(s.pattern));
    } else {
      h1.reset(new ba::Handle(s.pattern));
      h2.reset(new ba::Handle(s.pattern));
      if (!h1->open_error().empty()) // kept until the first call
        pbt::discard();
    }
  } catch (const dro::Binout::Exception &) {
    pbt::discard();
  }
  size_t n = num_threads();
  bo::Op first_op;
  const bool same_op = chance(1, 4); // all threads do the same
  for (size_t i = 0; i < n; i++) {
    a.ops.emplace_back();
    b.ops.emplace_back();
    b.names.emplace_back();
    for (size_t k = num_ops(); k; k--) {
      bo::Op o = bo::gen_op(s, chance(1, 2));
      if (same_op && i)
        o = first_op;
      first_op = o;
      if (o.kind > 6)
        continue;
      b.names[i].push_back(bo::show_op(o));
      if (cpp) {
        a.ops[i].push_back([&x1, o] { return xa::do_op(*x1, o); });
        b.ops[i].push_back([&x2, o] { return xa::do_op(*x2, o); });
      } else {
        a.ops[i].push_back([&h1, o] { return bo::do_op(h1->p(), o); });
        b.ops[i].push_back([&h2, o] { return bo::do_op(h2->p(), o); });
      }
    }
  }
  pbt::label(cpp ? "one Binout" : "one binout");
  compare(plan_of("binout:", b), a, b, true);
}
void t_d3plot(bool cpp) {
  using namespace dops;
  Family f = gen_family(Limits{10, 5, 5, 4}, pbt::dir(),
                        (Style)pbt::weighted({8, 1, 1}));
  Work a, b;
  std::unique_ptr<da::Handle> h1, h2;
  std::optional<dro::D3plot> x1, x2;
  try {
    if (cpp) {
      x1.emplace(f.root);
      x2.emplace(f.root);
    } else {
      h1.reset(new da::Handle(f.root));
      h2.reset(new da::Handle(f.root));
      if (!h1->ok())
        pbt::discard();
    }
  } catch (const dro::D3plot::Exception &) {
    pbt::discard();
  }
  size_t n = num_threads();
  for (size_t i = 0; i < n; i++) {
    a.ops.emplace_back();
    b.ops.emplace_back();
    b.names.emplace_back();
    for (size_t k = num_ops(); k; k--) {
      Call c = da::gen_call(f.m, (int)draw(da::NUM_OPS));
      // the run time is in a buffer of the C library, and may be out of the
      // range of a time point
      if (c.op == da::RUN_TIME || (cpp && c.op == da::EPOCH))
        continue;
      b.names[i].push_back(da::text_of(c));
      if (cpp) {
        a.ops[i].push_back([&x1, c] { return da::text_of(xa::call(*x1, c)); });
        b.ops[i].push_back([&x2, c] { return da::text_of(xa::call(*x2, c)); });
      } else {
        a.ops[i].push_back([&h1, c] { return da::text_of(da::call(h1->p(), c)); });
        b.ops[i].push_back([&h2, c] { return da::text_of(da::call(h2->p(), c)); });
      }
    }
  }
  pbt::label(cpp ? "one D3plot" : "one d3plot");
  compare(plan_of((describe(f) + ":").c_str(), b), a, b, true);
}

// ------------------------------------------------------------ own handles
void t_own() {
  auto s = bo::gen_scene(chance(1, 2) ? bo::NONE : bo::SOME, pbt::dir());
  dops::Family f = dops::gen_family(dops::Limits{6, 3, 3, 3}, pbt::dir(),
                                    (dops::Style)pbt::weighted({2, 1, 1}));
  auto t = kg::gen_tree(4, pbt::dir(), true, false);
  {
    kg::Cwd there(t.cwd);
    kg::Evaluator few(t); // discards trees of very many includes
  }
  kg::Cwd cd(t.cwd);
  kg::CConfig cc(t.cfg);
  Work a, b;
  size_t n = num_threads();
  for (size_t i = 0; i < n; i++) {
    a.ops.emplace_back();
    b.names.emplace_back();
    for (size_t k = 1 + pbt::sized(2); k; k--) {
      size_t kind = draw(5);
      bool cpp = chance(1, 2);
      if (kind == 0) {
        vector<bo::Op> ops;
        for (size_t j = num_ops(); j; j--)
          ops.push_back(bo::gen_op(s));
        b.names[i].push_back(cpp ? "a Binout" : "a binout");
        a.ops[i].push_back([&s, ops, cpp] {
          string r;
          if (cpp) {
            try {
              dro::Binout x(s.pattern);
              for (auto &o : ops)
                if (o.kind < 7)
                  r += xa::do_op(x, o) + "\n";
            } catch (const dro::Binout::Exception &e) {
              r += string("error: ") + e.what();
            }
            return r;
          }
          ba::Handle h(s.pattern);
          r = h.open_error() + "\n";
          for (auto &o : ops)
            r += bo::do_op(h.p(), o) + "\n";
          return r;
        });
      } else if (kind == 1) {
        vector<da::Call> calls;
        for (size_t j = num_ops(); j; j--)
          calls.push_back(da::gen_call(f.m, (int)draw(da::NUM_OPS)));
        b.names[i].push_back(cpp ? "a D3plot" : "a d3plot");
        a.ops[i].push_back([&f, calls, cpp] {
          string r;
          if (cpp) {
            try {
              dro::D3plot x(f.root);
              for (auto &c : calls)
                if (c.op != da::RUN_TIME && c.op != da::EPOCH)
                  r += da::text_of(xa::call(x, c)) + "\n";
            } catch (const dro::D3plot::Exception &e) {
              r += string("error: ") + e.what();
            }
            return r;
          }
          da::Handle h(f.root);
          if (!h.ok())
            return "error: " + h.error();
          for (auto &c : calls)
            if (c.op != da::RUN_TIME)
              r += da::text_of(da::call(h.p(), c)) + "\n";
          return r;
        });
      } else if (kind == 2 || !cpp) {
        b.names[i].push_back("key file with callback");
        a.ops[i].push_back([&] { return xk::text_of(kg::call(t.root_arg, &cc.c)); });
      } else {
        b.names[i].push_back("a KeyFile");
        a.ops[i].push_back([&] { return xk::all_of(t.root_arg, t.cfg); });
      }
    }
  }
  b.ops = a.ops;
  pbt::label("handles of their own");
  compare(plan_of("own handles:", b), a, b, false);
}
} // namespace

PROPERTY(T01, 24000, 600000,
         "random binouts, d3plot families and key files; two to six threads make "
         "random calls on one handle (C or C++) or on handles of their own under a "
         "random schedule of up to nine changes placed at edges of the library's "
         "code; results compared with those of the calls made alone; non-trivial: "
         "more than one call compared and at least one change before a thread was finished") {
  switch (pbt::weighted({3, 2, 3, 2, 3})) {
  case 0:
    t_binout(false);
    break;
  case 1:
    t_binout(true);
    break;
  case 2:
    t_d3plot(false);
    break;
  case 3:
    t_d3plot(true);
    break;
  default:
    t_own();
  }
}

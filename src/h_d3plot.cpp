#include "d3_ops.hpp"
#include <sys/stat.h>
#include <memory>
using namespace dops;
using da::Handle;

static void classify(const Model &m) {
  pbt::label(m.ws == 4 ? "4 byte words" : "8 byte words");
  pbt::label_if(m.user_ids, "stored ids");
  pbt::label_if(!m.user_ids, "consecutive ids");
  pbt::label_if(m.titles, "part titles");
  pbt::label_if(m.states.empty(), "no states");
  pbt::label_if(!m.sol.empty(), "solids");
  pbt::label_if(!m.tsh.empty(), "thick shells");
  pbt::label_if(!m.beam.empty(), "beams");
  pbt::label_if(!m.shell.empty(), "shells");
}
static int kinds(const Model &m) {
  return !m.sol.empty() + !m.tsh.empty() + !m.beam.empty() + !m.shell.empty();
}
static void require_open(Handle &h, const Model &m) {
  REQUIRE(h.ok(), "opening a well-formed plot fails: %s", h.error().c_str());
  REQUIRE(h.f.num_states == m.states.size(), "%zu states found, %zu written",
          h.f.num_states, m.states.size());
}
static void check(Handle &h, const Model &m, const Call &c) {
  Val want = da::expect(m, c), got = da::call(h.p(), c);
  string d = da::diff(got, want);
  REQUIRE(d.empty(), "%s %s", da::text_of(c).c_str(), d.c_str());
}

// ---------------------------------------------------------------------------------
PROPERTY(D01, 60000, 1500000,
         "random plots (word size, element kinds, id sections, header blocks, "
         "file splits); non-trivial: at least two element kinds and stored ids "
         "or part titles") {
  Family f = gen_family(Limits{60, 20, 2, 8, false, 120}, pbt::dir(), WHOLE);
  const Model &m = f.m;
  classify(m);
  pbt::sample(describe(f));
  if (kinds(m) >= 2 && (m.user_ids || m.titles))
    pbt::nontrivial();
  Handle h(f.root);
  require_open(h, m);
  for (int op = da::NODE_IDS; op <= da::SHELL_CON; op++) {
    Call c;
    c.op = op;
    check(h, m, c);
  }
}

// ---------------------------------------------------------------------------------
PROPERTY(D02, 50000, 1000000,
         "random plots with every subset of nodal quantities, displacements "
         "included, states requested in random order; non-trivial: at least two "
         "states, one node and one nodal quantity present") {
  Family f = gen_family(Limits{60, 4, 12, 3, false, 120}, pbt::dir(), WHOLE);
  const Model &m = f.m;
  pbt::sample(describe(f));
  classify(m);
  pbt::label_if(m.iu == 2, "displacements");
  pbt::label_if(m.iu == 0, "no coordinates");
  if (m.states.size() >= 2 && m.nn && (m.iu || m.iv || m.ia))
    pbt::nontrivial();
  Handle h(f.root);
  require_open(h, m);
  vector<Call> calls;
  for (int op = da::COORDS; op <= da::TIME32; op++)
    for (size_t s = 0; s < m.states.size(); s++) {
      Call c;
      c.op = op;
      c.arg = s;
      calls.push_back(c);
    }
  for (int op = da::ALL_COORDS; op <= da::ALL_TIME32; op++) {
    Call c;
    c.op = op;
    calls.push_back(c);
  }
  pbt::shuffle(calls);
  for (auto &c : calls)
    check(h, m, c);
}

// ---------------------------------------------------------------------------------
// States that are gigabytes apart: the words of the globals in front of the nodal
// data are a hole in a sparse file
static void far_states() {
  Model m = gen_model(Limits{6, 2, 5, 2});
  const size_t ws = (size_t)m.ws;
  // words of the hole; the total passes 2 GB and usually 4 GB, sometimes 2^32 words
  u64 hole = ((300ull << 20) + draw(900ull << 20)) / ws;
  if (chance(1, 3))
    hole = (4000ull << 20) / ws + draw((3000ull << 20) / ws);
  u64 bytes = hole * ws;
  pbt::label_if(hole * m.states.size() > 1ull << 32, "states 2^32 words apart");
  pbt::label("states gigabytes apart");
  pbt::sample(describe(m) + pbt::fmt(", %llu words between",
                                     (unsigned long long)hole));
  if (m.states.size() >= 2)
    pbt::nontrivial();
  size_t front = 1 + m.nglbv();
  Model w = m;
  w.rw += hole; // only for the header
  string root = write_root(w);
  // per file: parts of text, each followed by a hole of words or nothing
  typedef pbt::Part Part;
  vector<vector<Part>> a(1), b;
  Words eof(m.ws);
  eof.f(-999999.0);
  for (auto &s : m.states) {
    Words x(m.ws);
    for (double d : s.w)
      x.f(d);
    Part head{x.b.substr(0, front * ws), bytes}, tail{x.b.substr(front * ws), 0};
    a[0].push_back(head);
    a[0].push_back(tail);
    if (chance(1, 3)) { // continued in the next file, cut inside of the hole
      u64 first = 1 + draw(hole - 2);
      b.push_back({Part{head.text, first * ws}});
      b.push_back({Part{"", (hole - first) * ws}, tail, Part{eof.b, 0}});
    } else
      b.push_back({head, tail, Part{eof.b, 0}});
  }
  a[0].push_back({eof.b, 0});
  if (b.empty())
    b.push_back({Part{eof.b, 0}});
  auto put_files = [&](const string &r, const vector<vector<Part>> &files) {
    pbt::write_file(r, root);
    for (size_t i = 0; i < files.size(); i++) {
      string name = member(r, i + 1);
      if (!pbt::write_sparse(name, files[i]))
        pbt::discard();
    }
  };
  mkdir((pbt::dir() + "/a").c_str(), 0700);
  mkdir((pbt::dir() + "/b").c_str(), 0700);
  string ra = pbt::dir() + "/a/d3plot", rb = pbt::dir() + "/b/d3plot";
  put_files(ra, a);
  put_files(rb, b);
  Handle ha(ra), hb(rb);
  for (Handle *h : {&ha, &hb}) {
    REQUIRE(h->ok(), "opening fails: %s", h->error().c_str());
    REQUIRE(h->f.num_states == m.states.size(), "%zu states found, %zu written",
            h->f.num_states, m.states.size());
  }
  for (int op = 0; op < da::NUM_OPS; op++) {
    size_t reps = da::per_state(op) ? m.states.size() : 1;
    for (size_t i = 0; i < reps; i++) {
      Call c = da::gen_call(m, op);
      if (da::per_state(op))
        c.arg = i;
      for (Handle *h : {&ha, &hb}) {
        string d = da::diff(da::call(h->p(), c), da::expect(m, c));
        REQUIRE(d.empty(), "%s %s, states gigabytes apart, %s",
                da::text_of(c).c_str(), d.c_str(),
                h == &ha ? "one file" : "several files");
      }
    }
  }
}

PROPERTY(D03, 20000, 400000,
         "two random distributions of one random plot over files, compared with "
         "each other and with the plot for every call; occasionally more than "
         "100 files, or files of several to dozens of GB; non-trivial: at least two states "
         "and the two families differ in their number of files") {
  if (chance(1, 80)) {
    far_states();
    return;
  }
  bool many = chance(1, 40);
  Limits lim{many ? 3u : 20u, many ? 2u : 5u, many ? 1u : 8u, 3};
  Model m = gen_model(lim);
  if (many && !m.states.empty()) {
    size_t n = 95 + draw(40);
    if (pbt::thorough() && chance(1, 10))
      n = 900 + draw(90);
    State st = m.states[0];
    while (m.states.size() < n) {
      st.w[0] = (double)m.states.size();
      m.states.push_back(st);
    }
  }
  pbt::sample(describe(m));
  vector<string> fa, fb;
  fa = split(m, chance(1, 2));
  fb = split(m, false);
  if (many) { // one state per file
    fb.resize(1);
    fb[0] = write_root(m);
    for (auto &s : m.states) {
      Words w(m.ws);
      for (double d : s.w)
        w.f(d);
      w.f(-999999.0);
      fb.push_back(w.b);
    }
    if (m.states.empty())
      fb.push_back(split(m, true).back());
  }
  if (fa.size() > 990 || fb.size() > 990)
    pbt::discard();
  pbt::label_if(fb.size() > 100, "more than 100 files");
  pbt::label_if(fb.size() - 1 < m.states.size(), "several states per file");
  pbt::label_if(fb.size() - 1 > m.states.size(), "a state or root over files");
  if (m.states.size() >= 2 && fa.size() != fb.size())
    pbt::nontrivial();
  mkdir((pbt::dir() + "/a").c_str(), 0700);
  mkdir((pbt::dir() + "/b").c_str(), 0700);
  // any root name will do, also one that ends with digits
  static const char *names[] = {"d3plot", "d3plot01", "a b.ptf", "d3part"};
  string ra = pbt::dir() + "/a/" + names[draw(4)];
  string rb = pbt::dir() + "/b/" + names[draw(4)];
  write_family(ra, fa);
  write_family(rb, fb);
  Handle a(ra), b(rb);
  REQUIRE(a.ok() && b.ok(), "opening fails: '%s' '%s'", a.error().c_str(),
          b.error().c_str());
  REQUIRE(a.f.num_states == m.states.size() &&
              b.f.num_states == m.states.size(),
          "%zu and %zu states found, %zu written", a.f.num_states,
          b.f.num_states, m.states.size());
  for (int op = 0; op < da::NUM_OPS; op++) {
    size_t reps = da::per_state(op) ? std::min<size_t>(m.states.size(), 6)
                  : da::per_part(op) ? 2
                                     : 1;
    for (size_t i = 0; i < reps; i++) {
      Call c = da::gen_call(m, op);
      Val va = da::call(a.p(), c), vb = da::call(b.p(), c);
      string d = da::diff(vb, va);
      REQUIRE(d.empty(),
              "%s with %zu files %s (that is what %zu files give)",
              da::text_of(c).c_str(), fb.size(), d.c_str(), fa.size());
      d = da::diff(vb, da::expect(m, c));
      REQUIRE(d.empty(), "%s %s", da::text_of(c).c_str(), d.c_str());
    }
  }
}

// ---------------------------------------------------------------------------------
PROPERTY(D04, 50000, 1000000,
         "random plots with every combination of stress/plastic strain/force/"
         "thickness flags, history variables, 0 to 32 integration points, beam "
         "points, explicit or derived strain flag; non-trivial: at least one "
         "element and one state, and history variables, strains, missing "
         "stresses or other than three integration points") {
  Family f = gen_family(Limits{12, 8, 4, 3, false, 120}, pbt::dir(), WHOLE);
  const Model &m = f.m;
  pbt::sample(describe(f));
  classify(m);
  pbt::label_if(m.istrn, "strains");
  pbt::label_if(m.maxint > 3, "additional integration points");
  pbt::label_if(m.maxint < 3, "less than three integration points");
  pbt::label_if(m.mdlopt != 0, "deletion data");
  pbt::label_if(!m.beam.empty() && m.beamip, "beam integration points");
  if (kinds(m) && !m.states.empty() &&
      (m.istrn || m.neips || m.neiph || m.neipb || m.maxint != 3 || !m.io(0)))
    pbt::nontrivial();
  Handle h(f.root);
  require_open(h, m);
  vector<Call> calls;
  for (int op = da::SOLIDS; op <= da::SHELLS; op++)
    for (size_t s = 0; s < m.states.size(); s++) {
      Call c;
      c.op = op;
      c.arg = s;
      calls.push_back(c);
    }
  pbt::shuffle(calls);
  for (auto &c : calls)
    check(h, m, c);
}

// ---------------------------------------------------------------------------------
static void put(vector<double> &v, const d3plot_surface &s, size_t nh) {
  v.insert(v.end(), {s.sigma.x, s.sigma.y, s.sigma.z, s.sigma.xy, s.sigma.yz,
                     s.sigma.xz, s.effective_plastic_strain});
  for (size_t i = 0; i < nh; i++)
    v.push_back(s.history_variables[i]);
}
template <class T>
static void check_mean(const T &e, d3plot_surface got, const char *what) {
  size_t nh = e.num_history_variables, na = e.num_additional_integration_points;
  vector<vector<double>> ips(3 + na);
  put(ips[0], e.mid, nh);
  put(ips[1], e.inner, nh);
  put(ips[2], e.outer, nh);
  for (size_t i = 0; i < na; i++)
    put(ips[3 + i], e.add_ips[i], nh);
  vector<double> g;
  if (nh)
    REQUIRE(got.history_variables, "mean of %s has no history variables", what);
  put(g, got, nh);
  d3plot_free_surface(got);
  for (size_t i = 0; i < g.size(); i++) {
    long double sum = 0, mag = 0;
    for (auto &p : ips)
      sum += p[i], mag += fabsl(p[i]);
    long double want = sum / (long double)ips.size();
    // every addition rounds relative to a partial sum below mag
    long double tol = mag * 1.2e-16L * (long double)(ips.size() + 2) + 5e-324L * 4;
    REQUIRE(fabsl((long double)g[i] - want) <= tol,
            "mean of %s: component %zu over %zu points is %.17g, expected %.17Lg",
            what, i, ips.size(), g[i], want);
  }
}
static double finite_value() {
  switch (draw(6)) {
  case 0:
    return (double)draw(10);
  case 1:
    return -(double)draw(1000) / 8;
  case 2:
    return std::ldexp((double)draw(1 << 20), (int)draw(1800) - 900);
  case 3:
    return -std::ldexp((double)draw(1 << 20), (int)draw(1800) - 900);
  case 4:
    return 0.0;
  default:
    return ((double)draw(1u << 30) - (1 << 29)) * 1e-3;
  }
}
PROPERTY(D05, 60000, 1500000,
         "random shell and thick shell results, half built in memory with "
         "finite values of any magnitude, half read from random plots; "
         "non-trivial: additional integration points or history variables") {
  if (chance(1, 2)) {
    size_t nh = pbt::sized(5), na = pbt::sized(6);
    if (chance(1, 100))
      (chance(1, 2) ? nh : na) = 100 + draw(156);
    std::vector<double> pool((3 + na) * nh + 1);
    for (auto &x : pool)
      x = finite_value();
    std::vector<d3plot_surface> add(na + 1);
    size_t k = 0;
    auto fill = [&](d3plot_surface &s) {
      s.sigma.x = finite_value(), s.sigma.y = finite_value(),
      s.sigma.z = finite_value(), s.sigma.xy = finite_value(),
      s.sigma.yz = finite_value(), s.sigma.xz = finite_value();
      s.effective_plastic_strain = finite_value();
      s.history_variables = nh ? pool.data() + nh * k++ : nullptr;
    };
    if (nh || na)
      pbt::nontrivial();
    pbt::label("built in memory");
    pbt::sample(pbt::fmt("in memory, %zu history variables, %zu additional points",
                         nh, na));
    auto run = [&](auto &e) {
      memset((void *)&e, 0, sizeof e);
      fill(e.mid);
      fill(e.inner);
      fill(e.outer);
      for (size_t i = 0; i < na; i++)
        fill(add[i]);
      e.num_history_variables = nh;
      e.num_additional_integration_points = na;
      e.add_ips = na ? add.data() : nullptr;
    };
    if (chance(1, 2)) {
      d3plot_shell e;
      run(e);
      check_mean(e, d3plot_get_shell_mean(&e), "shell");
    } else {
      d3plot_thick_shell e;
      run(e);
      check_mean(e, d3plot_get_thick_shell_mean(&e), "thick shell");
    }
    return;
  }
  Limits lim{8, 6, 2, 2};
  lim.finite = true;
  lim.scale = 150;
  Family f = gen_family(lim, pbt::dir(), WHOLE);
  pbt::sample(describe(f));
  pbt::label("read from a plot");
  Handle h(f.root);
  require_open(h, f.m);
  for (size_t s = 0; s < f.m.states.size(); s++) {
    size_t n;
    auto *sh = d3plot_read_shells_state(h.p(), s, &n);
    for (size_t i = 0; sh && i < n; i++) {
      if (sh[i].num_history_variables || sh[i].num_additional_integration_points)
        pbt::nontrivial();
      check_mean(sh[i], d3plot_get_shell_mean(&sh[i]), "shell");
    }
    d3plot_free_shells_state(sh);
    auto *th = d3plot_read_thick_shells_state(h.p(), s, &n);
    for (size_t i = 0; th && i < n; i++) {
      if (th[i].num_history_variables || th[i].num_additional_integration_points)
        pbt::nontrivial();
      check_mean(th[i], d3plot_get_thick_shell_mean(&th[i]), "thick shell");
    }
    d3plot_free_thick_shells_state(th);
  }
}

// ---------------------------------------------------------------------------------
PROPERTY(D06, 50000, 1000000,
         "random assignments of up to 25 elements of each kind to up to 12 "
         "parts; every part read by index, every id (and absent ids) read by "
         "id with and without supplied ids; non-trivial: at least two parts "
         "with elements of at least two kinds") {
  Family f = gen_family(Limits{30, 25, 1, 12, false, 150}, pbt::dir(), WHOLE);
  const Model &m = f.m;
  pbt::sample(describe(f));
  classify(m);
  size_t used = 0;
  bool mixed = false;
  for (u64 p = 0; p < m.nmmat; p++) {
    auto q = da::part_of(m, p);
    used += q.count() > 0;
    mixed |= !q.sol.empty() + !q.tsh.empty() + !q.beam.empty() +
                 !q.shell.empty() >= 2;
    pbt::label_if(q.count() == 0, "part without elements");
  }
  if (used >= 2 && mixed)
    pbt::nontrivial();
  Handle h(f.root);
  require_open(h, m);
  vector<Call> calls;
  for (u64 p = 0; p < m.nmmat; p++) {
    calls.push_back({da::PART, p, 0});
    calls.push_back({da::PART_ELEMENTS, p, 0});
  }
  calls.push_back({da::PART, m.nmmat + draw(5), 0});
  calls.push_back({da::PART, pbt::bits64() | 1ull << 63, 0});
  bool ok;
  for (u64 id : da::known_part_ids(m, &ok))
    calls.push_back({da::PART_BY_ID, id, draw(2)});
  for (int i = 0; i < 3; i++)
    calls.push_back({da::PART_BY_ID, i ? draw(20) : pbt::bits64(), draw(2)});
  pbt::shuffle(calls);
  for (auto &c : calls)
    check(h, m, c);
}

// ---------------------------------------------------------------------------------
// a handle that has been closed has no data
static void no_data(Handle &h, const Model &m) {
  size_t n = 1 + draw(8);
  for (size_t i = 0; i < n; i++) {
    Call c = da::gen_call(m, (int)draw(da::NUM_OPS));
    Val v = da::call(h.p(), c);
    bool any = false;
    for (auto &t : v.s)
      any |= !t.empty();
    REQUIRE(v.err || !any, "%s of a closed handle gives %s",
            da::text_of(c).c_str(), da::text_of(v).c_str());
    if (da::per_state(c.op) || da::per_part(c.op))
      REQUIRE(v.err, "%s of a closed handle is not an error: %s",
              da::text_of(c).c_str(), da::text_of(v).c_str());
  }
}
static void d07_cut() {
  pbt::label("cut, otherwise intact");
  Family f = gen_family(Limits{10, 4, 5, 3}, pbt::dir(), CUT_TAIL);
  Model &m = f.m;
  pbt::sample(describe(f));
  Handle h(f.root);
  if (!h.ok()) {
    REQUIRE(!h.error().empty(), "an empty error");
    pbt::label("rejected");
    return;
  }
  pbt::label("opened");
  REQUIRE(h.f.num_states <= m.states.size(), "%zu states found, %zu written",
          h.f.num_states, m.states.size());
  pbt::nontrivial();
  m.states.resize(h.f.num_states);
  for (int op = 0; op < da::NUM_OPS; op++)
    for (int i = 0; i < (da::per_state(op) || da::per_part(op) ? 3 : 1); i++) {
      Call c = da::gen_call(m, op);
      Val want = da::expect(m, c), got = da::call(h.p(), c);
      if (got.err)
        continue; // reported
      string d = da::diff(got, want);
      REQUIRE(d.empty(), "%s of a cut plot %s", da::text_of(c).c_str(),
              d.c_str());
    }
}
// features the library does not support must be rejected
static void d07_unsupported() {
  pbt::label("unsupported feature");
  Model m = gen_model(Limits{6, 3, 2, 3});
  Layout lay;
  string root = write_root(m, &lay);
  struct W {
    const char *word;
    u64 v;
  };
  const W choices[] = {{"file_type", 2 + draw(12)},
                       {"ndim", (u64[]){2, 3, 5, 6, 7}[draw(5)]},
                       {"icode", (u64[]){1, 3, 4, 5}[draw(4)]},
                       {"it", 1 + draw(3)},
                       {"numds", (u64[]){1, ~0ull}[draw(2)]},
                       {"numst", 1 + draw(4)},
                       {"nel8", (u64) - (int64_t)(1 + draw(3))},
                       {"nmsph", 1 + draw(50)},
                       {"ialemat", 1 + draw(4)},
                       {"ncfdv1", 67108864},
                       {"npefg", 1 + draw(9)},
                       {"idtdt", (u64[]){1, 10, 100, 1000, 1111}[draw(5)]},
                       {"neips", 256 + draw(1000)},
                       {"maxint", 256 + draw(1000)}};
  const W &w = choices[draw(sizeof choices / sizeof *choices)];
  poke(root, lay.word[w.word] * m.ws, w.v, m.ws);
  string r = pbt::dir() + "/d3plot";
  write_family(r, split(m, chance(1, 2), &root));
  pbt::sample(describe(m) + pbt::fmt(" %s=%lld", w.word, (long long)w.v));
  Handle h(r);
  REQUIRE(!h.ok(), "a plot with the unsupported %s=%lld is opened", w.word,
          (long long)w.v);
  REQUIRE(!h.error().empty(), "an empty error");
}
PROPERTY(D07, 90000, 2500000,
         "valid plots with damaged control words (counts, flags, sizes), damaged "
         "words anywhere, truncated/removed/grown/replaced files, end markers "
         "added or removed; then every read for several states and parts; "
         "non-trivial: the damaged plot still opens") {
  if (chance(1, 4))
    return d07_cut();
  if (chance(1, 12))
    return d07_unsupported();
  Family f = gen_family(Limits{10, 4, 4, 3}, pbt::dir(), WILD);
  pbt::sample(describe(f));
  Handle h(f.root);
  if (!h.ok()) {
    REQUIRE(!h.error().empty(), "an empty error");
    pbt::label("rejected");
    return;
  }
  pbt::label("opened");
  pbt::nontrivial();
  size_t ns = std::min<size_t>(h.f.num_states, 4);
  for (int op = 0; op < da::NUM_OPS; op++) {
    size_t reps = da::per_state(op) ? ns + 1 : da::per_part(op) ? 3 : 1;
    for (size_t i = 0; i < reps; i++) {
      Call c;
      c.op = op;
      if (da::per_state(op))
        c.arg = i < ns ? i : h.f.num_states;
      else if (da::per_part(op)) {
        c.arg = i < 2 ? i : draw(10);
        c.mask = draw(512);
      }
      Val v = da::call(h.p(), c);
      pbt::label_if(v.err, "read reports an error");
      pbt::label_if(!v.err, "read succeeds");
      if (da::per_state(op) && i == ns)
        REQUIRE(v.err, "%s of %zu states is not an error",
                da::text_of(c).c_str(), h.f.num_states);
    }
  }
}

// ---------------------------------------------------------------------------------
PROPERTY(D08, 50000, 1000000,
         "random sequences of 4 to 60 calls on one handle (failing calls and "
         "close/reopen included), on intact and on cut or damaged plots, "
         "compared with the plot and with the same call made first on a fresh "
         "handle; non-trivial: at least 8 calls, one failing, one succeeding") {
  Style st = (Style)pbt::weighted({5, 1, 1});
  Family f = gen_family(Limits{12, 5, 5, 4}, pbt::dir(), st);
  const Model &m = f.m;
  std::unique_ptr<Handle> h(new Handle(f.root));
  if (st == WHOLE)
    require_open(*h, m);
  if (!h->ok())
    pbt::discard();
  pbt::label_if(st != WHOLE, "damaged plot");
  size_t n = 4 + pbt::sized(56), failing = 0, working = 0;
  std::map<string, string> memo;
  string desc = describe(f) + " calls: ";
  for (size_t i = 0; i < n; i++) {
    if (chance(1, 25)) {
      if (chance(1, 2)) {
        d3plot_close(h->p());
        no_data(*h, m);
        pbt::label("calls after closing");
      }
      h.reset(); // (closes again)
      h.reset(new Handle(f.root));
      REQUIRE(h->ok(), "reopening reports %s", h->error().c_str());
      pbt::label("reopened");
    }
    Call c = da::gen_call(m, (int)draw(da::NUM_OPS));
    string key = da::text_of(c);
    if (i < 8)
      desc += key + "; ";
    Val got = da::call(h->p(), c);
    (got.err ? failing : working)++;
    if (st == WHOLE) {
      string d = da::diff(got, da::expect(m, c));
      REQUIRE(d.empty(), "call %zu %s %s", i, key.c_str(), d.c_str());
    }
    string text = da::text_of(got);
    if (!memo.count(key)) {
      Handle fresh(f.root);
      memo[key] = da::text_of(da::call(fresh.p(), c));
    }
    REQUIRE(text == memo[key],
            "call %zu %s returns\n  %.600s\nas first call\n  %.600s", i,
            key.c_str(), text.c_str(), memo[key].c_str());
  }
  pbt::sample(desc);
  if (n >= 8 && failing && working)
    pbt::nontrivial();
}

// ---------------------------------------------------------------------------------
PROPERTY(D09, 50000, 1000000,
         "random connectivities (up to 25 elements of each kind, shared and "
         "repeated nodes) and parts; node ids, indices and counts with several "
         "random subsets of the nine optional arrays; non-trivial: a part with "
         "elements of at least two kinds that share a node") {
  Family f = gen_family(Limits{40, 25, 1, 5, false, 150}, pbt::dir(), WHOLE);
  const Model &m = f.m;
  pbt::sample(describe(f));
  classify(m);
  Handle h(f.root);
  require_open(h, m);
  for (u64 p = 0; p < m.nmmat; p++) {
    auto q = da::part_of(m, p);
    if (!q.sol.empty() + !q.tsh.empty() + !q.beam.empty() + !q.shell.empty() >= 2)
      pbt::nontrivial();
    for (int op :
         {da::PART_NODE_IDS, da::PART_NODE_INDICES, da::PART_NUM_NODES}) {
      check(h, m, {op, p, 0});
      check(h, m, {op, p, 511});
      check(h, m, {op, p, draw(512)});
    }
  }
}

// ---------------------------------------------------------------------------------
PROPERTY(D10, 150000, 5000000,
         "random ascending id lists (length 0 to 60, occasionally thousands; "
         "dense, sparse and at the ends of the 64 bit range), ids from the list "
         "and between its entries; non-trivial: at least 3 ids") {
  size_t n = chance(1, 30) ? 1000 + draw(3000) : pbt::sized(60);
  std::set<u64> s;
  u64 style = draw(4);
  u64 base = style == 3 ? ~0ull - 200 : style == 2 ? 1ull << 63 : 0;
  for (size_t i = 0; i < n; i++)
    s.insert(style == 0   ? i + 1
             : style == 1 ? pbt::bits64()
             : style == 2 ? base + draw(4 * n + 4)
                          : base + draw(201));
  vector<u64> v(s.begin(), s.end());
  if (chance(1, 1500)) {
    pbt::label("more than 65535 ids");
    size_t m = 65530 + draw(20000), gap = draw(m);
    u64 first = style >= 2 ? (1ull << 63) - draw(1 << 20) : draw(1 << 20), step = 1 + draw(9);
    v.clear();
    for (size_t i = 0; i < m; i++)
      v.push_back(first + i * step + (i > gap));
  }
  pbt::sample(pbt::fmt("%zu ids, style %d", v.size(), (int)style));
  if (v.size() >= 3)
    pbt::nontrivial();
  // exact size: reading outside is found
  std::unique_ptr<u64[]> a(new u64[v.size()]);
  for (size_t i = 0; i < v.size(); i++)
    a[i] = v[i];
  auto look = [&](u64 id) {
    auto it = std::lower_bound(v.begin(), v.end(), id);
    size_t want = it != v.end() && *it == id ? it - v.begin() : (size_t)~0ull;
    size_t got = d3plot_index_for_id(id, a.get(), v.size());
    pbt::label(want == (size_t)~0ull ? "absent" : "present");
    REQUIRE(got == want, "id %llu of %zu ids: position %zd, expected %zd",
            (unsigned long long)id, v.size(), (ssize_t)got, (ssize_t)want);
  };
  if (v.size() <= 100)
    for (u64 id : v) {
      look(id);
      look(id + 1);
      look(id - 1);
    }
  else
    for (int i = 0; i < 60; i++) {
      u64 id = v[i < 2 ? v.size() - 1 - draw(9) : i < 4 ? draw(9) : draw(v.size())];
      look(id);
      look(id + 1);
      look(id - 1);
    }
  look(0);
  look(~0ull);
  look(pbt::bits64());
}

// C01: the C++ classes against the C functions
#include "cpp_api.hpp"
#include "io_faults.hpp"
#include "key_gen.hpp"
#include "cpp/key.hpp"
#include "cpp/include_transform.hpp"
#include <cerrno>
#include <set>
#include <sstream>
using pbt::chance;
using pbt::draw;
using std::string;
using std::vector;

static unsigned long compared, failing;
static void same(const string &cpp, const string &c, const string &what) {
  compared++;
  failing += c.compare(0, 6, "error:") == 0;
  REQUIRE(cpp == c, "%s: the C++ API gives\n  %.700s\nthe C API\n  %.700s",
          what.c_str(), cpp.c_str(), c.c_str());
}

// Some file operations of a call fail: the same ones for both APIs
static io::Plan gen_faults() {
  io::Plan p;
  p.from = pbt::sized(12);
  p.to = chance(1, 2) ? p.from + 1 : ~(size_t)0;
  p.kinds = chance(1, 2) ? 15 : 1 + draw(15);
  return p;
}

// ------------------------------------------------------------------ binout
static void c01_binout() {
  pbt::label("binout");
  auto s = bo::gen_scene(chance(1, 6) ? bo::SOME : bo::NONE, pbt::dir());
  bool nothing = chance(1, 12); // no such file
  string pattern = nothing ? pbt::dir() + "/nope/" + string(draw(300), 'x') + "*"
                           : s.pattern;
  io::Plan faults;
  if (chance(1, 15))
    faults = gen_faults();
  io::start(faults);
  ba::Handle h(pattern);
  io::stop();
  bool no_error;
  string err = h.open_error(&no_error);
  std::unique_ptr<dro::Binout> b;
  try {
    io::During d(faults);
    b.reset(new dro::Binout(pattern));
    REQUIRE(no_error, "no exception for %s", err.c_str());
  } catch (const dro::Binout::Exception &e) {
    REQUIRE(!no_error, "exception %s although the C API opens it", e.what());
    REQUIRE(err == e.what(), "opening throws\n  %s\nthe C API reports\n  %s",
            e.what(), err.c_str());
    pbt::label("opening fails");
    failing++;
    return;
  }
  size_t n = 6 + pbt::sized(30);
  string desc = "binout: ";
  for (size_t i = 0; i < n; i++) {
    bo::Op o = bo::gen_op(s);
    if (chance(1, 10))
      o.path += chance(1, 2) ? "/" + string(draw(600), 'y') : string(draw(3), '/');
    if (o.path.empty())
      o.path = "/";
    string what = bo::show_op(o);
    if (i < 6)
      desc += what + "; ";
    binout_file *f = h.p();
    switch (o.kind) {
    case 0:
    case 1: {
      io::Plan faults;
      if (chance(1, 8)) {
        faults = gen_faults();
        what += " with failing file operations";
      }
      string c, x;
      {
        io::During d(faults);
        c = xa::c_text(o.kind == 1 ? ba::read_timed(f, o.path, o.type)
                                   : ba::read(f, o.path, o.type),
                       o.kind == 1);
        pbt::label_if(io::failed, "failing file operations");
      }
      {
        io::During d(faults);
        x = xa::read(*b, o.path, o.type, o.kind == 1);
      }
      same(x, c, what);
      break;
    }
    case 2: {
      int t = binout_get_type_id(f, o.path.c_str());
      string c = f->error_string ? string("error: ") + f->error_string
                                 : pbt::fmt("type %d", t);
      string x;
      try {
        x = pbt::fmt("type %d", (int)b->get_type_id(o.path));
      } catch (const dro::Binout::Exception &e) {
        x = string("error: ") + e.what();
      }
      same(x, c, what);
      break;
    }
    case 3:
      same(b->variable_exists(o.path) ? "yes" : "no",
           binout_variable_exists(f, o.path.c_str()) ? "yes" : "no", what);
      break;
    case 4: {
      auto c = ba::children(f, o.path);
      string cs = c.null && c.n == (size_t)~0 ? "error:" : "children";
      if (cs == "children")
        for (auto &k : c.names)
          cs += " [" + k + "]";
      string x = "children";
      try {
        for (auto &k : b->get_children(o.path))
          x += " [" + k.str() + "]";
      } catch (const dro::Binout::Exception &e) {
        x = string(e.what()).find(o.path) != string::npos
                ? "error:"
                : string("error without the path: ") + e.what();
      }
      same(x, cs, what);
      break;
    }
    case 5: {
      size_t c = binout_get_num_timesteps(f, o.path.c_str());
      string x;
      try {
        x = pbt::fmt("%zu", b->get_num_timesteps(o.path));
      } catch (const dro::Binout::Exception &e) {
        x = *e.what() ? "error:" : "empty message";
      }
      same(x, c == (size_t)~0 ? "error:" : pbt::fmt("%zu", c), what);
      break;
    }
    default: {
      auto c = ba::simple(f, o.path);
      string x;
      dro::BinoutType t = dro::BinoutType::Invalid;
      bool timed = false;
      try {
        string p = b->simple_path_to_real(o.path, t, timed);
        x = pbt::fmt("%s %d %d", p.c_str(), (int)t, timed);
      } catch (const dro::Binout::Exception &e) {
        x = string(e.what()).find(o.path) != string::npos
                ? "error:"
                : string("error without the path: ") + e.what();
      }
      same(x, c.ok ? pbt::fmt("%s %d %d", c.path.c_str(), c.type, c.timed)
                   : "error:",
           what);
    }
    }
  }
  pbt::sample(desc);
}

// ------------------------------------------------------------------ d3plot
static void flat(da::Val &v, const d3plot_surface &s, size_t nh) {
  da::put_surface(v, s, nh);
}
template <class E> static void means(const E &e, const d3plot_surface &c) {
  size_t nh = e.num_history_variables;
  da::Val want, got, hist, whist;
  flat(want, c, nh);
  {
    dro::D3plotSurface m = e.get_mean();
    flat(got, m, nh);
  }
  same(da::text_of(got), da::text_of(want), "mean of the integration points");
  for (size_t i = 0; i < nh; i++)
    whist.d.push_back(c.history_variables[i]);
  for (double x : e.get_mean_history_variables())
    hist.d.push_back(x);
  same(da::text_of(hist), da::text_of(whist), "mean history variables");
  d3plot_free_surface(c);
}
static void c01_d3plot() {
  pbt::label("d3plot");
  using namespace dops;
  auto st = (Style)pbt::weighted({4, 1, 1});
  Family f = gen_family(Limits{12, 5, 4, 4, false, 300}, pbt::dir(), st);
  string root = chance(1, 15) ? f.root + string(draw(300), 'x') : f.root;
  io::Plan open_faults;
  if (chance(1, 15))
    open_faults = gen_faults();
  io::start(open_faults);
  da::Handle h(root);
  io::stop();
  std::unique_ptr<dro::D3plot> p;
  try {
    io::During d(open_faults);
    p.reset(new dro::D3plot(root));
    REQUIRE(h.ok(), "no exception for %s", h.error().c_str());
  } catch (const dro::D3plot::Exception &e) {
    REQUIRE(!h.ok(), "exception %s although the C API opens it", e.what());
    REQUIRE(h.error() == e.what(),
            "opening throws\n  %s\nthe C API reports\n  %s", e.what(),
            h.error().c_str());
    pbt::label("opening fails");
    failing++;
    return;
  }
  REQUIRE(p->num_time_steps() == h.f.num_states, "%zu states, C API %zu",
          p->num_time_steps(), h.f.num_states);
  string desc = describe(f) + " calls: ";
  size_t n = 10 + pbt::sized(40);
  for (size_t i = 0; i < n; i++) {
    Call c = da::gen_call(f.m, (int)draw(da::NUM_OPS));
    if (i < 6)
      desc += da::text_of(c) + "; ";
    io::Plan faults;
    string what = da::text_of(c);
    if (chance(1, 12)) {
      faults = gen_faults();
      what += " with failing file operations";
    }
    Val want, got;
    {
      io::During d(faults);
      want = da::call(h.p(), c);
      pbt::label_if(io::failed, "failing file operations");
      pbt::label_if(io::failed && want.err, "error of a failing file operation");
    }
    xa::as_cpp(want, h.f, c.op);
    if ((c.op == da::EPOCH || c.op == da::RUN_TIME) && !want.err) {
      // a time point counts nanoseconds
      u64 t = d3plot_read_epoch_run_time(h.p());
      d3plot_read_epoch_run_time(&p->get_handle()); // both read alike
      if (t > 9000000000ull)
        continue;
    }
    {
      io::During d(faults);
      got = xa::call(*p, c);
    }
    same(da::text_of(got), da::text_of(want), what);
    if (c.op == da::SHELLS && !want.err) {
      size_t k;
      auto *a = d3plot_read_shells_state(h.p(), c.arg, &k);
      auto b = p->read_shells_state(c.arg);
      for (size_t j = 0; j < k; j++)
        means(b[j], d3plot_get_shell_mean(&a[j]));
      d3plot_free_shells_state(a);
    }
    if (c.op == da::TSHELLS && !want.err) {
      size_t k;
      auto *a = d3plot_read_thick_shells_state(h.p(), c.arg, &k);
      auto b = p->read_thick_shells_state(c.arg);
      for (size_t j = 0; j < k; j++)
        means(b[j], d3plot_get_thick_shell_mean(&a[j]));
      d3plot_free_thick_shells_state(a);
    }
    if (c.op == da::NODE_IDS && !want.err) {
      auto ids = p->read_node_ids();
      for (int j = 0; j < 3; j++) {
        u64 id = ids.size() && chance(2, 3) ? ids[draw(ids.size())] : draw(50);
        size_t w = d3plot_index_for_id(id, ids.data(), ids.size());
        size_t g = dro::D3plot::index_for_id(ids, id);
        REQUIRE(g == w, "index_for_id(%llu) is %zd, C API %zd",
                (unsigned long long)id, (ssize_t)g, (ssize_t)w);
      }
    }
  }
  pbt::sample(desc);
}

// ------------------------------------------------------------------ key files
static string cfg_text(const kg::Called &c) {
  string s;
  for (size_t i = 0; i < c.ev.size(); i++) {
    auto &e = c.ev[i];
    s += e.file + pbt::fmt(":%zu ", e.line_lo) + e.keyword + "|" +
         (e.has_card ? e.card : "(none)") + pbt::fmt("|%zd ", (ssize_t)e.index) +
         c.roots[i] + "\n";
  }
  return s;
}
static fs::path as_path(const string &s) { return fs::path(s); }
static string paths_of_c(const key_parse_info_t &i) {
  string s;
  for (size_t k = 0; k < i.num_include_paths; k++)
    s += string(i.include_paths[k]) + ";";
  return s;
}
struct Both { // include paths seen by the callbacks
  vector<string> paths;
};
static void paths_cb(key_parse_info_t i, const char *, card_t *, size_t, void *u) {
  ((Both *)u)->paths.push_back(paths_of_c(i));
}
static void c01_key_files() {
  pbt::label("key files");
  string file, cwd = pbt::dir();
  kg::Config cfg;
  if (chance(1, 2)) {
    file = pbt::dir() + "/a.k";
    auto t = kg::gen_text(14, file, false);
    pbt::write_file(file, t.text);
    if (chance(1, 12))
      file += "x"; // does not exist
  } else {
    auto t = kg::gen_tree(6, pbt::dir(), true);
    file = t.root_arg;
    cwd = t.cwd;
    cfg = t.cfg;
    kg::Cwd there(cwd);
    kg::Evaluator few(t); // discards trees of very many includes
  }
  kg::Cwd cd(cwd);
  kg::CConfig cc(cfg);
  vector<fs::path> extra;
  for (auto &e : cfg.extra)
    extra.push_back(as_path(e));
  bool defaults = cfg.includes && !cfg.ignore && extra.empty() && chance(1, 2);
  dro::KeyFile::ParseConfig original(cfg.includes, cfg.ignore, extra);
  dro::KeyFile::ParseConfig conf =
      chance(1, 2) ? original : dro::KeyFile::ParseConfig(original);

  // collecting parser
  size_t n = 0;
  char *err, *warn;
  keyword_t *kw = key_file_parse(file.c_str(), &n, &cc.c, &err, &warn);
  string cerr_ = err ? string("error: ") + err : "ok";
  string cwarn = warn ? string("warning: ") + warn : "none";
  free(err);
  free(warn);
  string x = "ok", xwarn = "none";
  std::optional<dro::String> warnings;
  bool ask = chance(4, 5);
  std::unique_ptr<dro::Keywords> ks;
  try {
    if (defaults && !ask)
      ks.reset(new dro::Keywords(dro::KeyFile::parse(file)));
    else
      ks.reset(new dro::Keywords(
          dro::KeyFile::parse(file, conf, ask ? &warnings : nullptr)));
  } catch (const dro::KeyFile::Exception &e) {
    x = string("error: ") + e.what();
  }
  if (warnings)
    xwarn = "warning: " + warnings->str();
  same(x, cerr_, "parsing");
  if (ask)
    same(xwarn, cwarn, "warnings");
  pbt::label_if(cerr_ != "ok", "parsing fails");
  pbt::label_if(cwarn != "none", "warnings");
  if (ks) {
    REQUIRE(ks->size() == n, "%zu keywords, C API %zu", ks->size(), n);
    size_t at = 0;
    std::set<string> names;
    for (auto &k : *ks) {
      string a = k.name, b = kw[at].name;
      same(a, b, pbt::fmt("name of keyword %zu", at));
      names.insert(a);
      at++;
    }
    REQUIRE(at == n, "iterating over %zu keywords stops after %zu", n, at);
    for (auto &name : names) {
      size_t sn;
      keyword_t *s = key_file_get_slice(kw, n, name.c_str(), &sn);
      dro::KeywordSlice sl = (*ks)[name];
      REQUIRE(sl.size() == sn, "slice of %s has %zu keywords, C API %zu",
              name.c_str(), sl.size(), sn);
      size_t i = 0;
      for (auto k : sl) {
        REQUIRE(i < sn, "iterating over a slice of %zu does not end", sn);
        dro::Keyword k2 = sl[i];
        REQUIRE(k.num_cards() == s[i].num_cards &&
                    k2.num_cards() == s[i].num_cards,
                "keyword %zu of %s has %zu/%zu cards, C API %zu", i,
                name.c_str(), k.num_cards(), k2.num_cards(), s[i].num_cards);
        size_t j = 0;
        for (auto c : k) {
          string want = s[i].cards[j].string;
          same(c.parse_string_whole_no_trim<string>(), want, "card by iterator");
          auto c2 = k2[j];
          same(c2.parse_string_whole_no_trim<string>(), want, "card by index");
          j++;
        }
        REQUIRE(j == s[i].num_cards, "%zu cards by iteration, C API %zu", j,
                s[i].num_cards);
        if (i < 5)
        for (size_t bad : {s[i].num_cards, s[i].num_cards + 1, (size_t)-1}) {
          bool thrown = false;
          try {
            k[bad];
          } catch (const std::runtime_error &) {
            thrown = true;
          }
          REQUIRE(thrown, "card %zd of %zu gives no exception", (ssize_t)bad,
                  s[i].num_cards);
        }
        i++;
      }
      REQUIRE(i == sn, "%zu keywords by iteration, C API %zu", i, sn);
      for (size_t bad : {sn, sn + 1, (size_t)-1}) {
        bool thrown = false;
        try {
          sl[bad];
        } catch (const std::runtime_error &) {
          thrown = true;
        }
        REQUIRE(thrown, "keyword %zd of %zu gives no exception", (ssize_t)bad, sn);
      }
    }
    for (const string &name :
         {string("NO_SUCH_KEYWORD"), string(500, 'N'), string()}) {
      if (names.count(name))
        continue;
      string msg;
      try {
        (*ks)[name];
      } catch (const dro::KeyFile::Exception &e) {
        msg = e.what();
      }
      REQUIRE(!msg.empty() && msg.find(name) != string::npos,
              "looking up the missing keyword %s gives the message \"%s\"",
              name.c_str(), msg.c_str());
    }
  }
  key_file_free(kw, n);

  // callback parser
  kg::Called c = kg::call(file, &cc.c);
  Both cp, xp;
  key_file_parse_with_callback(file.c_str(), paths_cb, &cc.c, &err, &warn, &cp,
                               nullptr);
  free(err);
  free(warn);
  size_t stop = chance(1, 6) && c.ev.size() ? draw(c.ev.size()) : (size_t)-1;
  kg::Called got;
  string x2 = "ok", w2 = "none";
  warnings.reset();
  struct Stop {};
  bool stopped = false;
  try {
    dro::KeyFile::parse_with_callback(
        file,
        [&](dro::KeyFile::ParseInfo i, dro::String name,
            std::optional<dro::Card> card, size_t idx) {
          if (got.ev.size() == stop)
            throw Stop();
          got.ev.push_back({i.file_name().string(), i.line_number(),
                            i.line_number(), name.str(), card.has_value(),
                            card ? card->parse_string_whole_no_trim<string>()
                                 : "",
                            idx});
          got.roots.push_back(i.root_folder().string());
          string s;
          for (auto &p : i.include_paths())
            s += p.string() + ";";
          xp.paths.push_back(s);
        },
        conf, &warnings);
  } catch (const dro::KeyFile::Exception &e) {
    x2 = string("error: ") + e.what();
  } catch (const Stop &) {
    stopped = true;
    pbt::label("callback throws");
  }
  REQUIRE(stopped == (stop != (size_t)-1),
          "an exception of the callback is not rethrown");
  if (stopped) {
    REQUIRE(got.ev.size() == stop, "%zu reports before the exception, not %zu",
            got.ev.size(), stop);
    return;
  }
  if (warnings)
    w2 = "warning: " + warnings->str();
  same(x2, cerr_, "parsing with callback");
  same(w2, c.has_warning ? "warning: " + c.warning : "none",
       "warnings with callback");
  same(cfg_text(got), cfg_text(c), "reports");
  for (size_t i = 0; i < xp.paths.size(); i++)
    same(xp.paths[i], cp.paths[i], "include paths");
  pbt::sample("key file " + file + pbt::fmt(": %zu keywords, %zu reports", n,
                                            c.ev.size()));
}

// ------------------------------------------------------------------ cards
template <class T> static string num(T v) {
  if constexpr (std::is_floating_point_v<T>) {
    if (v != v)
      return "nan";
    return pbt::fmt("%.17g%s", (double)v, std::signbit(v) ? "-" : "");
  } else if constexpr (std::is_signed_v<T>)
    return pbt::fmt("%lld", (long long)v);
  else
    return pbt::fmt("%llu", (unsigned long long)v);
}
static string own(char *p) {
  string s = p ? p : "(null)";
  free(p);
  return s;
}
static string str(const dro::String &s) { return s.str(); }
static string str(const dro::SizedString &s) { return s.str(); }
static string str(const string &s) { return s; }
static string str(char *s) { return own(s); }

// what parsing as T has to give according to the C functions
template <class T> static string c_value(const card_t *c, int w, bool deflt) {
  if constexpr (std::is_integral_v<T>) {
    int64_t v = deflt ? card_parse_int(c) : card_parse_int_width(c, (uint8_t)w);
    if (errno != 0)
      return string("error: ") + strerror(errno);
    bool fits = std::is_unsigned_v<T>
                    ? v >= 0 && (uint64_t)v <= (uint64_t)std::numeric_limits<T>::max()
                    : v >= (int64_t)std::numeric_limits<T>::min() &&
                          v <= (int64_t)std::numeric_limits<T>::max();
    return fits ? num((T)v) : "error: range";
  } else if constexpr (std::is_same_v<T, float>) {
    float v = deflt ? card_parse_float32(c) : card_parse_float32_width(c, (uint8_t)w);
    return errno ? string("error: ") + strerror(errno) : num(v);
  } else if constexpr (std::is_same_v<T, double>) {
    double v = deflt ? card_parse_float64(c) : card_parse_float64_width(c, (uint8_t)w);
    return errno ? string("error: ") + strerror(errno) : num(v);
  } else
    return own(deflt ? card_parse_string(c) : card_parse_string_width(c, (uint8_t)w));
}
template <class T> static string value_text(T v) {
  if constexpr (std::is_arithmetic_v<T>)
    return num(v);
  else
    return str(v);
}
// reduce the message of the C++ API to what the C API says
static string reduce(const string &msg) {
  for (int e : {EINVAL, ERANGE}) {
    const string text = strerror(e);
    if (msg.size() >= text.size() &&
        msg.compare(msg.size() - text.size(), text.size(), text) == 0)
      return "error: " + text;
  }
  for (const char *s : {"because of sign", "because it is too small",
                        "because it is too large"})
    if (msg.find(s) != string::npos)
      return "error: range";
  return "error: ? " + msg;
}
template <class T> static string x_value(const dro::Card &c, int w, bool deflt) {
  try {
    return value_text<T>(deflt ? c.parse<T>() : c.parse<T>((uint8_t)w));
  } catch (const dro::KeyFile::Exception &e) {
    return reduce(e.what());
  }
}
template <class T>
static void one(const dro::Card &x, const card_t *c, int w, const string &what) {
  bool deflt = chance(1, 3);
  if (chance(1, 2))
    errno = EIO; // of an earlier call
  string a = x_value<T>(x, w, deflt);
  same(a, c_value<T>(c, w, deflt),
       what + " parsed as " + typeid(T).name() +
           (deflt ? "" : pbt::fmt(" with width %d", w)));
}
// all values of a card in a row
template <class T>
static string c_whole(card_t *c, int w, bool *failed, const string &before) {
  if (*failed)
    return before;
  string r;
  if (card_parse_is_empty_width(c, (uint8_t)w))
    r = std::is_arithmetic_v<T> ? "0" : "";
  else {
    r = c_value<T>(c, w, false);
    if (r.compare(0, 6, "error:") == 0) {
      *failed = true;
      return r;
    }
  }
  card_parse_next_width(c, (uint8_t)w);
  return before + r + "|";
}
template <class... T> static void whole(const string &text) {
  constexpr size_t N = sizeof...(T);
  static const uint8_t some[] = {10, 8, 16, 5, 20, 0};
  bool given = chance(1, 2), by_ref = chance(1, 2);
  std::array<uint8_t, N> widths;
  for (auto &w : widths)
    w = given ? some[draw(6)] : 10;
  card_t cc{(char *)text.c_str(), 0, 0}, cx{(char *)text.c_str(), 3, 7};
  card_parse_begin(&cc, 10);
  bool failed = false;
  size_t k = 0;
  string want;
  ((want = c_whole<T>(&cc, widths[k] ? widths[k] : 10, &failed, want), k++), ...);
  string got;
  dro::Card x(&cx);
  try {
    std::tuple<T...> t = {T(dro::empty_value<T>())...};
    if (by_ref)
      std::apply(
          [&](auto &...v) {
            given ? x.parse_whole_width(widths, v...) : x.parse_whole(v...);
          },
          t);
    else
      t = given ? x.parse_whole<T...>(widths) : x.parse_whole<T...>();
    std::apply([&](auto &...v) { ((got += value_text(v) + "|"), ...); }, t);
  } catch (const dro::KeyFile::Exception &e) {
    got = reduce(e.what());
  }
  same(got, want, "all values of card '" + text + "'");
  if (!failed)
    REQUIRE(cx.current_index == cc.current_index,
            "parsing all values leaves the card at %d instead of %d",
            (int)cx.current_index, (int)cc.current_index);
}
static void c01_cards() {
  pbt::label("cards");
  string text;
  if (chance(1, 2)) {
    size_t n = draw(9);
    for (size_t i = 0; i < n; i++) {
      if (chance(1, 5)) {
        static const char *edge[] = {
            "127",   "128",        "-128",       "-129",      "255",  "256",
            "32767", "32768",      "-32768",     "-32769",    "65535", "65536",
            "-1",    "2147483647", "2147483648", "-2147483648", "0",  "-0"};
        string s = edge[draw(sizeof edge / sizeof *edge)];
        s = s.substr(0, 10);
        text += string(10 - s.size(), ' ') + s;
      } else
        text += kg::gen_field(chance(1, 4));
    }
    if (chance(1, 3))
      text.resize(draw(text.size() + 1));
  } else
    text = kg::gen_card(kg::gen_style()).substr(0, 240);
  pbt::sample("card '" + text + "'");
  card_t cc{(char *)text.c_str(), 0, 0}, cx = cc;
  dro::Card x(&cx);
  int w = chance(1, 2) ? 10 : 1 + (int)draw(40);
  card_parse_begin(&cc, (uint8_t)w);
  if (w == 10 && chance(1, 2))
    x.begin();
  else
    x.begin((uint8_t)w);
  for (int i = 0; i < 40; i++) {
    string what = pbt::fmt("value at %d of card '%s'", (int)cc.current_index,
                           text.c_str());
    bool done = card_parse_done(&cc) != 0;
    REQUIRE(x.done() == done, "%s: done() is %d", what.c_str(), x.done());
    REQUIRE(cx.current_index == cc.current_index, "%s: position %d",
            what.c_str(), (int)cx.current_index);
    int v = chance(1, 2) ? w : 1 + (int)draw(40);
    REQUIRE(x.is_empty() == (card_parse_is_empty(&cc) != 0), "%s: is_empty()",
            what.c_str());
    REQUIRE(x.is_empty((uint8_t)v) ==
                (card_parse_is_empty_width(&cc, (uint8_t)v) != 0),
            "%s: is_empty(%d)", what.c_str(), v);
    if (done)
      break;
    REQUIRE(x.parse_get_type() == card_parse_get_type(&cc),
            "%s: parse_get_type()", what.c_str());
    REQUIRE(x.parse_get_type((uint8_t)v) ==
                card_parse_get_type_width(&cc, (uint8_t)v),
            "%s: parse_get_type(%d)", what.c_str(), v);
    switch (draw(14)) {
    case 0:
      one<int8_t>(x, &cc, v, what);
      break;
    case 1:
      one<uint8_t>(x, &cc, v, what);
      break;
    case 2:
      one<int16_t>(x, &cc, v, what);
      break;
    case 3:
      one<uint16_t>(x, &cc, v, what);
      break;
    case 4:
      one<int32_t>(x, &cc, v, what);
      break;
    case 5:
      one<uint32_t>(x, &cc, v, what);
      break;
    case 6:
      one<uint64_t>(x, &cc, v, what);
      break;
    case 7:
      one<float>(x, &cc, v, what);
      break;
    case 8:
      one<double>(x, &cc, v, what);
      break;
    case 9:
      one<string>(x, &cc, v, what);
      break;
    case 10:
      one<dro::String>(x, &cc, v, what);
      one<dro::SizedString>(x, &cc, v, what);
      one<char *>(x, &cc, v, what);
      break;
    case 11: {
      string a = own(card_parse_string_no_trim(&cc)),
             b = own(card_parse_string_width_no_trim(&cc, (uint8_t)v));
      same(str(x.parse_string_no_trim<string>()), a, what + " untrimmed");
      same(str(x.parse_string_no_trim<dro::String>()), a, what + " untrimmed");
      same(str(x.parse_string_no_trim<string>((uint8_t)v)), b, what + " untrimmed");
      same(str(x.parse_string_no_trim<dro::SizedString>((uint8_t)v)), b,
           what + " untrimmed");
      same(str(x.parse_string_no_trim<char *>((uint8_t)v)), b, what + " untrimmed");
      same(str(x.parse_string_no_trim<dro::String>((uint8_t)v)), b,
           what + " untrimmed");
      break;
    }
    case 12: {
      string a = own(card_parse_whole(&cc)), b = own(card_parse_whole_no_trim(&cc));
      same(str(x.parse_string_whole<string>()), a, "whole card");
      same(str(x.parse_string_whole<dro::String>()), a, "whole card");
      same(str(x.parse_string_whole<dro::SizedString>()), a, "whole card");
      same(str(x.parse_string_whole<char *>()), a, "whole card");
      same(str(x.parse_string_whole_no_trim<dro::String>()), b, "whole card");
      same(str(x.parse_string_whole_no_trim<dro::SizedString>()), b, "whole card");
      same(str(x.parse_string_whole_no_trim<char *>()), b, "whole card");
      break;
    }
    default:
      one<int64_t>(x, &cc, v, what);
    }
    if (chance(1, 2)) {
      card_parse_next(&cc);
      x.next();
    } else {
      card_parse_next_width(&cc, (uint8_t)v);
      x.next((uint8_t)v);
    }
  }
  switch (draw(4)) {
  case 0:
    whole<int64_t, double, string, float>(text);
    break;
  case 1:
    whole<uint8_t, int, dro::String>(text);
    break;
  case 2:
    whole<float, dro::SizedString, int16_t, double, uint64_t>(text);
    break;
  default:
    whole<string, double, double, double, double, double, double>(text);
  }
}

// ------------------------------------------------------------------ transforms
static string dbl(double d) { return num(d) + ","; }
static string it_c(const include_transform_t &t) {
  auto s = [](const char *p) { return string("'") + (p ? p : "") + "',"; };
  return s(t.file_name) + s(t.prefix) + s(t.suffix) + s(t.fcttem) +
         pbt::fmt("%lld,%lld,%lld,%lld,%lld,%lld,%lld,%lld,%lld,%lld,",
                  (long long)t.idnoff, (long long)t.ideoff, (long long)t.idpoff,
                  (long long)t.idmoff, (long long)t.idsoff, (long long)t.idfoff,
                  (long long)t.iddoff, (long long)t.idroff, (long long)t.incout1,
                  (long long)t.tranid) +
         dbl(t.fctmas) + dbl(t.fcttim) + dbl(t.fctlen);
}
static string it_x(dro::IncludeTransform &t) {
  auto s = [](const dro::String &p) { return "'" + p.str() + "',"; };
  return s(t.get_file_name()) + s(t.get_prefix()) + s(t.get_suffix()) +
         s(t.get_fcttem()) +
         pbt::fmt("%lld,%lld,%lld,%lld,%lld,%lld,%lld,%lld,%lld,%lld,",
                  (long long)t.get_idnoff(), (long long)t.get_ideoff(),
                  (long long)t.get_idpoff(), (long long)t.get_idmoff(),
                  (long long)t.get_idsoff(), (long long)t.get_idfoff(),
                  (long long)t.get_iddoff(), (long long)t.get_idroff(),
                  (long long)t.get_incout1(), (long long)t.get_tranid()) +
         dbl(t.get_fctmas()) + dbl(t.get_fcttim()) + dbl(t.get_fctlen());
}
static string dt_c(const define_transformation_t &t) {
  string s = pbt::fmt("%lld ", (long long)t.tranid) +
             (t.title ? string("'") + t.title + "'" : string("no title"));
  for (size_t i = 0; i < t.num_options; i++) {
    s += string(" ") + (t.options[i].name ? t.options[i].name : "");
    for (double d : t.options[i].parameters)
      s += dbl(d);
  }
  return s;
}
static string dt_x(dro::DefineTransformation &t) {
  string s = pbt::fmt("%lld ", (long long)t.get_tranid());
  try {
    s += "'" + t.get_title().str() + "'";
  } catch (const dro::KeyFile::Exception &e) {
    s += *e.what() ? "no title" : "no message";
  }
  string r = s;
  auto o = t.get_options();
  for (auto &x : o) {
    s += " " + x.get_name().str();
    auto p = x.get_parameters();
    if (p.size() != 7)
      s += "other number of parameters";
    for (double d : p)
      s += dbl(d);
  }
  for (const auto &x : t.get_raw_options()) {
    r += string(" ") + (x.name ? x.name : "");
    for (double d : x.parameters)
      r += dbl(d);
  }
  return s == r ? s : "options differ: " + s + " / " + r;
}
static void c01_transforms() {
  pbt::label("transformations");
  bool is_it = chance(1, 2), title = !is_it && chance(1, 2);
  vector<string> cards;
  size_t n = is_it ? draw(7) : pbt::sized(10);
  for (size_t i = 0; i < n; i++) {
    string c;
    if (is_it)
      c = i == 0   ? chance(1, 3) ? "some file name.k" : "f"
          : i == 1 ? kg::gen_fields({0, 0, 0, 0, 0, 0, 0})
          : i == 2 ? kg::gen_fields({0, 0, 1, 1})
          : i == 3 ? kg::gen_fields({0, 0, 0, 1, 0})
                   : kg::gen_fields({0});
    else {
      if (title && i == 0)
        c = chance(1, 2) ? "A title" : "";
      else if (i == (title ? 1 : 0))
        c = kg::gen_fields({0});
      else {
        c = kg::gen_fields({1, 0, 0, 0, 0, 0, 0, 0});
        if (c.empty())
          c = "SCALE";
      }
    }
    cards.push_back(c);
  }
  string all;
  for (auto &c : cards)
    all += c + "\n";
  pbt::sample((is_it ? "INCLUDE_TRANSFORM\n" : "DEFINE_TRANSFORMATION\n") + all);
  vector<card_t> a, b, d;
  for (auto &c : cards)
    a.push_back({(char *)c.c_str(), 0, 0});
  b = d = a;
  keyword_t ka{(char *)"X", a.data(), a.size()}, kb{(char *)"X", b.data(), b.size()};
  dro::Keyword kx(&kb);
  if (is_it) {
    include_transform_t c = key_parse_include_transform(&ka);
    dro::IncludeTransform x(kx);
    same(it_x(x), it_c(c), "INCLUDE_TRANSFORM");
    dro::IncludeTransform y;
    for (size_t i = 0; i < n; i++)
      y.parse_include_transform_card(dro::Card(&d[i]), i);
    same(it_x(y), it_c(c), "INCLUDE_TRANSFORM card by card");
    key_free_include_transform(&c);
  } else {
    define_transformation_t c = key_parse_define_transformation(&ka, title);
    dro::DefineTransformation x = title ? dro::DefineTransformation(kx, true)
                                        : dro::DefineTransformation(kx);
    same(dt_x(x), dt_c(c), "DEFINE_TRANSFORMATION");
    dro::DefineTransformation y;
    for (size_t i = 0; i < n; i++)
      y.parse_define_transformation_card(dro::Card(&d[i]), i, title);
    same(dt_x(y), dt_c(c), "DEFINE_TRANSFORMATION card by card");
    key_free_define_transformation(&c);
  }
}

PROPERTY(C01, 120000, 2400000,
         "random binout files, d3plot families (intact and damaged, missing "
         "files), trees of key files, cards and transformation keywords; the "
         "same random calls, some with failing file operations, through the C "
         "functions and the C++ classes; "
         "non-trivial: at least 8 results compared") {
  compared = failing = 0;
  switch (pbt::weighted({4, 5, 2, 2, 1})) {
  case 0:
    c01_binout();
    break;
  case 1:
    c01_d3plot();
    break;
  case 2:
    c01_key_files();
    break;
  case 3:
    c01_cards();
    break;
  default:
    c01_transforms();
  }
  pbt::label_if(failing > 0, "some call fails");
  if (compared >= 8)
    pbt::nontrivial();
}
